"""Linear expressions over terms and entailment (Fourier-Motzkin on the few
constraints that share atoms with the goal)."""
from math import gcd

_ids = {}
def tid(t):
    i = _ids.get(t)
    if i is None:
        i = len(_ids)
        _ids[t] = i
    return i


def parts(v):
    """value term -> (const, {atom: coef})"""
    if v[0] == "c":
        return v[1], {}
    if v[0] == "lin":
        return v[1], dict(v[2])
    return 0, {v: 1}


def mk(c, d):
    d = {t: k for t, k in d.items() if k}
    if not d:
        return ("c", c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return ("lin", c, tuple(sorted(d.items(), key=lambda x: tid(x[0]))))


def add(a, b, kb=1):
    ca, da = parts(a)
    cb, db = parts(b)
    da = dict(da)
    for t, k in db.items():
        da[t] = da.get(t, 0) + kb * k
    return mk(ca + kb * cb, da)


def scale(a, k):
    ca, da = parts(a)
    return mk(ca * k, {t: c * k for t, c in da.items()})


def norm_row(c, d):
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if g > 1:
        d = {t: k // g for t, k in d.items()}
        c = c // g  # floor: integers
    return c, d


def infeasible(rows, limit=160):
    """rows: list of (const, {atom: coef}) meaning const + sum >= 0."""
    rows = [norm_row(c, dict(d)) for c, d in rows]
    for _ in range(40):
        seen = {}
        for c, d in rows:
            if not d:
                if c < 0:
                    return True
                continue
            key = frozenset(d.items())
            if key not in seen or c < seen[key][0]:
                seen[key] = (c, d)
        rows = list(seen.values())
        if not rows:
            return False
        cnt = {}
        for c, d in rows:
            for t, k in d.items():
                p = cnt.setdefault(t, [0, 0])
                p[0 if k > 0 else 1] += 1
        t = min(cnt, key=lambda x: cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1])
        pos = [(c, d) for c, d in rows if d.get(t, 0) > 0]
        neg = [(c, d) for c, d in rows if d.get(t, 0) < 0]
        rest = [(c, d) for c, d in rows if not d.get(t, 0)]
        for cp, dp in pos:
            for cn, dn in neg:
                kp, kn = dp[t], -dn[t]
                d = {}
                for a, k in dp.items():
                    d[a] = d.get(a, 0) + k * kn
                for a, k in dn.items():
                    d[a] = d.get(a, 0) + k * kp
                d = {a: k for a, k in d.items() if k}
                rest.append(norm_row(cp * kn + cn * kp, d))
        rows = rest
        if len(rows) > limit:
            return False
    return False


def relevant(rows, atoms):
    """rows transitively sharing atoms."""
    atoms = set(atoms)
    rest = list(rows)
    out = []
    while True:
        nrest = []
        grew = False
        for r in rest:
            if any(t in atoms for t in r[1]):
                out.append(r)
                for t in r[1]:
                    if t not in atoms:
                        atoms.add(t)
                        grew = True
            else:
                nrest.append(r)
        rest = nrest
        if not grew:
            return out, atoms
