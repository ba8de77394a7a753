"""Path conditions under a valuation of some of their terms."""
from .engine import c, subst
from .worker import subterms


def refuted(st, f):
    """the path conditions cannot hold under the valuation f(term) -> constant or None"""
    m = {}
    for t in list(st.facts) + list(st.lin):
        for x in subterms(t):
            if isinstance(x, tuple) and x and isinstance(x[0], str) and x not in m:
                v = f(x)
                if v is not None: m[x] = v
    if not m: return False
    memo = {}
    for t, v in st.facts.items():
        x = m.get(t) or subst(t, m, memo)
        if x[0] == "c" and bool(x[1]) != v: return True
    for l in st.lin:
        x = subst(l, m, memo)
        if x[0] == "c" and x[1] < 0: return True
    return False


def refuted_eval(st, f):
    """like refuted, evaluating bit operations on constants"""
    m = valuation(list(st.facts) + list(st.lin), f)
    memo = {}
    for t, v in st.facts.items():
        y = m.get(t) or subst(t, m, memo)
        if y[0] == "c" and bool(y[1]) != v: return True
    for l in st.lin:
        y = subst(l, m, memo)
        if y[0] == "c" and y[1] < 0: return True
    return False


def valuation(ts, f):
    """terms -> constants, bit operations on constants included"""
    terms = {x for t in ts for x in subterms(t) if isinstance(x, tuple) and x and isinstance(x[0], str)}
    m = {x: f(x) for x in terms if f(x) is not None}
    for _ in range(3):
        memo = {}
        for x in terms:
            if x[0] == "op" and len(x) == 4 and x not in m:
                a, b = (m.get(y) or subst(y, m, memo) for y in x[2:4])
                if a[0] == "c" and b[0] == "c" and x[1] in OPS: m[x] = c(OPS[x[1]](a[1], b[1]))
    return m


OPS = {"&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b, ">>": lambda a, b: a >> min(b, 64), "%": lambda a, b: a % b if b else 0, "/": lambda a, b: a // b if b else 0}
