"""C19: bant never modifies the project it inspects."""
import re
from bsa.engine import Engine, Rule, St, c
from bsa.prog import AnalysisError, norm_name, fn_nodes, walk
from bsa.textflow import TextFlow, unload

TECHNIQUE = "effect analysis over the whole resolved program: every use of a file-system changing operation, with interprocedural provenance of the file named and path conditions for the option that names it"
NOTE = ("Every function of the program (all translation units of bant) is searched for uses of operations that create, open for writing, delete, rename or otherwise change files, or start other programs, called or used as values. "
        "The operations are a fixed list of the C, POSIX and C++ libraries; third-party libraries are assumed not to change files.")
EXPLANATION = ("Each operation found must be an opening for writing whose file name is either exactly the argument of the output option, read where the option is known to be the output option, or the home directory of the user followed by "
               "fixed text naming bant's cache directory and numbers. Openings whose mode is constant and only reads are harmless; every other effect is a violation.")
UNITS = ["bant/bant.cc", "bant/util/filesystem-prewarm-cache.cc", "bant/util/file-utils.cc"]

CHANGE = set("""creat creat64 rename renameat renameat2 unlink unlinkat remove rmdir mkdir mkdirat symlink symlinkat link linkat truncate truncate64 ftruncate chmod fchmod fchmodat chown lchown fchownat
 utime utimes utimensat futimens mknod mkfifo mkstemp mkstemps mkostemp mkdtemp tmpfile tempnam setxattr lsetxattr fallocate posix_fallocate copy_file_range sendfile system popen execl execlp execle execv execvp execve execvpe
 posix_spawn posix_spawnp fork vfork syscall nftw freopen mount umount""".split())
FSCHANGE = set("""create_directory create_directories create_symlink create_hard_link create_directory_symlink copy copy_file copy_symlink remove remove_all rename resize_file permissions last_write_time""".split())
OPEN = {"open", "open64", "openat", "openat64"}
O_HARMLESS = 0o2000000 | 0o4000 | 0o200000 | 0o400000 | 0o1000000 | 0o400 | 0o100000
STREAMS = ("std::basic_fstream", "std::basic_ofstream", "std::basic_ifstream", "std::basic_filebuf")


def fold(e):
    """constant value of an integer expression"""
    e = e if e is None or e.get("k") not in ("ld", "cast") else e
    if e is None: return None
    k = e.get("k")
    if k == "int": return e["v"]
    if k == "var" and "cv" in e: return e["cv"]
    if k in ("ld", "cast"): return fold(e["e"])
    if k == "ctor" and len(e.get("a", ())) == 1: return fold(e["a"][0])
    if k in ("bin", "call"):
        op = e.get("op")
        a = [e["a"], e["b"]] if k == "bin" else e.get("a", ())
        if len(a) == 2 and op in ("|", "&", "+"):
            x, y = fold(a[0]), fold(a[1])
            if x is None or y is None: return None
            return x | y if op == "|" else x & y if op == "&" else x + y
        if k == "call" and norm_name(e.get("n") or "").endswith("operator|") and len(a) == 2:
            x, y = fold(a[0]), fold(a[1])
            return None if x is None or y is None else x | y
    return None


class Paths(TextFlow):
    def __init__(self, p, optreads):
        super().__init__(p, trusted=self.known)
        self.optreads = optreads
        self.parts = {}

    def known(self, kind, name):
        return None

    def pieces(self, f, e, env=None, seen=(), depth=0):
        if isinstance(e, dict) and e.get("k") == "var" and e.get("glob") == "optarg":
            return [("trusted", "output option" if self.optreads.get(e.get("_id")) else "another option")]
        if isinstance(e, dict) and e.get("k") == "call":
            nm = norm_name(e.get("n") or "")
            if nm in ("getenv", "std::getenv", "secure_getenv"):
                a = self.pieces(f, e["a"][0], env, seen, depth + 1)
                return [("trusted", "env " + (a[0][1] if len(a) == 1 and a[0][0] == "lit" else "?"))]
            if nm in ("absl::StrFormat", "std::format") and e["a"]:
                a = self.pieces(f, e["a"][0], env, seen, depth + 1)
                if len(a) == 1 and a[0][0] == "lit":
                    return self.formatted(nm, a[0][1], f, e, env, seen, depth)
        return super().pieces(f, e, env, seen, depth)

    def collapse(self, alts, f, e):
        alts = [a for a in alts if a]
        if len({tuple(a) for a in alts}) == 1: return alts[0]
        bad = [x for a in alts for x in a if x[0] == "raw"]
        if bad: return [bad[0]]
        if len(alts) > 1: return [("alt", tuple(tuple(a) for a in alts))]
        return super().collapse(alts, f, e)

    def vdecl(self, f, v):
        super().vdecl(f, v)
        if v.get("init"): self.inits = getattr(self, "inits", {}); self.inits[("v", v["id"])] = v["init"]

    def var(self, f, key, e, env, seen, depth, name, skip_param=False):
        """text grown piece by piece is its start followed by the pieces"""
        init = self.inits.get(key)
        ds = self.defs.get(key, ())
        if init is not None and len(ds) > 1 and key not in seen and key not in env and all(d is init or self.grows(h, d) for h, d in ds):
            s2 = seen + (key,)
            out = list(self.pieces(f, init, env, s2, depth + 1))
            more = [x for h, d in ds if d is not init for x in self.pieces(h, d, env, s2, depth + 1)]
            # in which order they are appended makes no difference to what is permitted
            return out + sorted(more, key=lambda x: x[0] != "lit")
        return super().var(f, key, e, env, seen, depth, name, skip_param)

    def grows(self, f, d):
        """the definition is appended text"""
        if not isinstance(d, dict): return False
        if f.get("id") not in self.parts:
            self.parts[f.get("id")] = {id(a) for x in fn_nodes(f) if x.get("k") == "call" and norm_name(x.get("n") or "").rpartition("::")[2] in ("append", "operator+=", "push_back", "StrAppend") for a in x["a"]}
        return id(d) in self.parts[f.get("id")]

    def formatted(self, nm, fmt, f, e, env, seen, depth):
        out, i, n = [], 0, 1
        spec = r"%[-+ #0]*\d*(?:\.\d+)?(?:hh|h|ll|l|z|j|t)?([a-zA-Z%])" if nm.startswith("absl") else r"\{(?:[^{}]*)\}"
        for m in re.finditer(spec, fmt):
            if m.start() > i: out.append(("lit", fmt[i:m.start()]))
            i = m.end()
            if m.group(0) == "%%": out.append(("lit", "%")); continue
            if n < len(e["a"]): out += self.pieces(f, e["a"][n], env, seen, depth + 1)
            n += 1
        if i < len(fmt): out.append(("lit", fmt[i:]))
        return out


class Opts(Rule):
    """under which option the argument of an option is read"""
    def __init__(self): self.reads = {}
    def inline(self, eng, fn, fr): return fn["file"] == self.file
    def pre_call(self, eng, st, call):
        nm = norm_name(call.name or "")
        if nm in ("getopt", "getopt_long", "getopt_long_only"):
            r = eng.fresh("opt", call.node, call.fr)
            st.props["opt"] = r
            return [(st, r)]
        return None
    def on_load(self, eng, st, addr, node, fr):
        if addr[0] == "&g" and "optarg" in str(addr[1]):
            o = st.props.get("opt")
            ok = o is not None and eng.truth(st, eng.eqterm(o, c(ord("o")), True)) is True
            for x in walk(node):
                if x.get("k") == "var" and x.get("glob") == "optarg":
                    self.reads[x["_id"]] = self.reads.get(x["_id"], True) and ok


def check(p, rep, tier):
    mains = [f for f in p.functions.values() if f["name"] == "main" and f["file"].startswith("bant/") and f.get("body")]
    if len(mains) != 1: raise AnalysisError("main of bant not found")
    rule = Opts(); rule.file = mains[0]["file"]
    e = Engine(p, rule)
    e.run(mains[0], St())
    rep.eng(e)
    # taking the address of optarg or reading it elsewhere is not known to be the output option
    tf = Paths(p, rule.reads)
    nfn, nopen, writers = 0, 0, 0
    for f in sorted(p.functions.values(), key=lambda f: (f["file"], f["line"])):
        if not f["file"].startswith("bant/") or f["file"].endswith("_test.cc"): continue
        nfn += 1
        rep.functions.add(f["id"])
        T = f["_types"]
        callees = set()
        for x in fn_nodes(f):
            if x.get("k") not in ("call", "ctor", "fn", "new"): continue
            if x.get("k") == "call" and isinstance(x.get("callee"), dict): callees.add(id(x["callee"]))
            where = "%s:%s" % (f["file"], x.get("l"))
            nm = norm_name(x.get("n") if isinstance(x.get("n"), str) else "") or ""
            if x["k"] == "fn": nm = norm_name(x.get("q") or x.get("n") or "")
            plain = nm[5:] if nm.startswith("std::") and "::" not in nm[5:] else nm
            short = nm.rpartition("::")[2]
            key = "%s: %s" % (f["q"].replace("(anonymous namespace)::", ""), plain)
            if x.get("f") in p.functions or (x["k"] != "fn" and not x.get("ext") and x.get("f")): pass
            elif plain in CHANGE and x["k"] in ("call", "fn"):
                rep.ob("no-change", key, where, False, "%s changes files or starts a program that may" % plain)
                continue
            elif nm.startswith("std::filesystem::") and short in FSCHANGE and nm.count("::") == 2:
                rep.ob("no-change", key, where, False, "%s changes files" % nm)
                continue
            mode, path = None, None
            if x["k"] == "call" and plain in OPEN:
                i = 1 if plain.startswith("openat") else 0
                fl = fold(x["a"][i + 1]) if len(x["a"]) > i + 1 else None
                mode = "r" if fl is not None and not fl & ~O_HARMLESS else "w"
                path = x["a"][i]
            elif x["k"] == "fn" and plain in OPEN | {"fopen", "fopen64"}:
                rep.ob("no-change", key, where, False, "%s is used as a value" % plain); continue
            elif x["k"] == "call" and plain in ("fopen", "fopen64", "fdopen"):
                m = unload(x["a"][1])
                mode = "r" if m is not None and m.get("k") == "str" and m["v"].startswith("r") and "+" not in m["v"] else "w"
                if plain == "fdopen": continue
                path = x["a"][0]
            else:
                cls = None
                if x["k"] == "ctor" and norm_name(x.get("rq") or "") in STREAMS: cls, a = norm_name(x["rq"]), x["a"]
                elif x["k"] == "call" and short == "open" and norm_name(x.get("rq") or "") in STREAMS: cls, a = norm_name(x["rq"]), x["a"]
                elif x["k"] == "call" and nm in ("std::make_unique", "std::make_shared"):
                    mt = tf.made_type(f, x)
                    if mt.replace("ofstream", "basic_ofstream").replace("std::fstream", "std::basic_fstream").replace("ifstream", "basic_ifstream") in STREAMS or mt in STREAMS:
                        cls, a = mt, x["a"]
                if cls is None or not a or (x["k"] == "ctor" and x.get("cm_ctor")): continue
                if "ifstream" in cls:
                    m = fold(a[1]) if len(a) > 1 else 8
                elif "ofstream" in cls:
                    m = 16
                else:
                    m = fold(a[1]) if len(a) > 1 else (24 if "fstream" in cls else None)
                # in = 8, binary = 4, out = 16, app = 1, trunc = 32, ate = 2
                mode = "r" if m is not None and not m & (16 | 1 | 32) else "w"
                path = a[0]
            nopen += 1
            if mode == "r":
                rep.ob("reads-only", key, where, True)
                continue
            ps = tf.pieces(f, path)
            why = permitted(ps)
            writers += why is None
            rep.ob("written-file", key, where, why is None, "opens a file for writing that is %s" % why)
    rep.notes.append("%d functions, %d openings, %d of them for writing" % (nfn, nopen, writers))
    if nfn < 200: raise AnalysisError("only %d functions of bant found" % nfn)
    rep.require("written-file", 2)
    rep.require("reads-only", 1)


def permitted(ps):
    alts = [ps]
    if len(ps) == 1 and ps[0][0] == "alt": alts = list(ps[0][1])
    for a in alts:
        w = permitted1(list(a))
        if w: return w
    return None


def permitted1(ps):
    merged = []
    for x in ps:
        if x[0] == "lit" and merged and merged[-1][0] == "lit": merged[-1] = ("lit", merged[-1][1] + x[1])
        else: merged.append(x)
    ps = merged
    if ps == [("trusted", "output option")]: return None
    bad = next((x for x in ps if x[0] == "raw"), None)
    if bad: return "named by %s (%s)" % (bad[1], bad[2])
    if ps and ps[0][0] == "trusted" and ps[0][1] in ("env HOME", "env XDG_CACHE_HOME"):
        rest = ps[1:]
        lits = "".join(x[1] if x[0] == "lit" else "0" for x in rest)
        ok = all(x[0] in ("lit", "num") for x in rest) and rest and rest[0][0] == "lit" and rest[0][1].startswith("/")
        parts = lits.split("/")
        if ok and ".." not in parts and "bant" in parts[:-1] and (ps[0][1] != "env HOME" or ".cache" in parts[:parts.index("bant")]): return None
        return "not in the user's cache directory"
    if any(x[0] == "trusted" and "option" in x[1] for x in ps):
        return "not exactly the argument of the output option"
    return "neither the chosen output file nor the cache file"
