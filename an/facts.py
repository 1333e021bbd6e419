"""Build/load the fact base: the resolved program of /repo's current working tree."""
import canon
import hashlib, json, os, pickle, re, subprocess, sys, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor

sys.setrecursionlimit(20000)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
LLVM = "/usr/lib/llvm-18"
CLANG = LLVM + "/bin/clang"
BUILD = os.path.join(VERIF, "build")


class AnalysisError(Exception):
    """The analysis could not be carried out (vanished anchor, parse error, ...)."""


def _sha(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def tool_sources():
    t = os.path.join(VERIF, "tool")
    out = []
    for d, _, fs in os.walk(t):
        out += [os.path.join(d, f) for f in fs]
    return out


def build_tool():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "tool", "extract.cpp")
    with open(src, "rb") as f:
        key = hashlib.sha256(f.read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "extract-" + key)
    if os.path.exists(exe):
        return exe
    pre = os.path.join(VERIF, "tool", "prebuilt", "extract-" + key)     # the same program, built earlier from the same source
    if os.path.exists(pre) and os.access(pre, os.X_OK) and not os.environ.get("VERIF_REBUILD"):
        if subprocess.run([pre], capture_output=True).returncode == 64:
            return pre
    tmp = exe + ".%d.tmp" % os.getpid()
    cmd = ["g++", "-O1", "-std=c++17", "-fno-rtti", "-I" + LLVM + "/include", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
           "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", src, "-o", tmp, "-L" + LLVM + "/lib", "-l:libclang-cpp.so.18.1",
           "-lLLVM-18", "-Wl,-rpath," + LLVM + "/lib"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("cannot build the extractor: " + r.stderr[-2000:])
    os.rename(tmp, exe)
    return exe


def flags():
    return ["-std=c++17", "-fsyntax-only", "-w", "-resource-dir", LLVM + "/lib/clang/18", "-I" + REPO + "/src",
            "-I" + REPO + "/example/src", "-I" + REPO + "/example", "-I" + os.path.join(VERIF, "tool", "stubs"),
            "-I" + REPO + "/ExtLibraries", '-DCORE_DIR_FROM_EXE="/repo"', '-DEXT_LIB_DIR_FROM_EXE="/repo/ExtLibraries"',
            '-DSETTINGS_DIR_FROM_EXE="/repo/example/settings"']


def source_files():
    """All translation units of the simulator (tests and the C++/CLI HILS ports excluded) and all headers."""
    tus, hdrs = [], []
    for root in ("src", "example/src"):
        for d, _, fs in os.walk(os.path.join(REPO, root)):
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f.endswith((".hpp", ".h")):
                    hdrs.append(p)
                elif f.endswith((".cpp", ".c", ".cc")) and not f.startswith("test_") and not f.startswith("hils_") and f != "com_port_interface.cpp":
                    tus.append(p)
    return sorted(tus), sorted(hdrs)


def _extract(exe, tus, tmpdir):
    pch = os.path.join(tmpdir, "std.pch")
    r = subprocess.run([CLANG, "-x", "c++-header", "-std=c++17", "-w", "-resource-dir", LLVM + "/lib/clang/18",
                        os.path.join(VERIF, "tool", "pch.hpp"), "-o", pch], capture_output=True, text=True)
    fl = flags() + (["-include-pch", pch] if r.returncode == 0 else [])
    n = min(8, os.cpu_count() or 4)
    tus = sorted(tus, key=lambda p: -os.path.getsize(p))
    groups = [tus[i::n] for i in range(n)]

    def run(i):
        out = os.path.join(tmpdir, "o%d.json" % i)
        p = subprocess.run([exe, out, REPO + "/"] + fl + ["--"] + groups[i], capture_output=True, text=True)
        if not os.path.exists(out):
            raise AnalysisError("extractor failed: rc=%d %s" % (p.returncode, p.stderr[-1500:]))
        with open(out) as f:
            return json.load(f)
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(run, range(n)))


def _settype(node, tl):
    """Replace type indices by strings, in place, iteratively."""
    stack = [node]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            t = x.get("t")
            if isinstance(t, int):
                x["t"] = tl[t]
            for k in ("at", "rt", "base"):
                if isinstance(x.get(k), int):
                    x[k] = tl[x[k]]
            stack.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            stack.extend(v for v in x if isinstance(v, (dict, list)))


def _nosig(i):
    h, _, t = i.partition("(")
    return h + "(" + re.sub(r"(?<=[(,])const ([^,()*&]*)(?=[,)])", r"\1", "(" + t)


MATH = ("sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sqrt", "pow", "exp", "log", "log10", "fabs", "abs", "floor", "ceil", "fmod", "round", "fmin", "fmax")


class Facts:
    def __init__(self):
        self.funcs = {}      # id -> func (internal linkage: id@file if clashing)
        self.by_q = {}       # qualified name -> [func]
        self.classes = {}
        self.enums = {}
        self.globals = {}
        self.tus = []
        self.errors = []

    def cid(self, fn):
        """Identity of a called function: declarations may leave out the const of by-value parameters."""
        if fn is None or fn in self.funcs or "(" not in fn or not fn.startswith("s2e::"):
            return fn
        r = self._cid.get(fn)
        if r is None:
            r = fn
            n = _nosig(fn)
            for f in self.by_q.get(fn.split("(", 1)[0], []):
                if _nosig(f["id"]) == n:
                    r = f["id"]
            self._cid[fn] = r
        return r

    def frozen(self, g):
        """A variable of one source file that nothing in that file assigns."""
        r = self._frozen.get(g["q"])
        if r is None:
            r = g["file"].endswith(".cpp") and (g.get("init") or {}).get("cv") is not None
            st = [f.get("body") for f in self.funcs.values() if f["file"] == g["file"]] if r else []
            while st and r:
                x = st.pop()
                if isinstance(x, list):
                    st.extend(x)
                elif isinstance(x, dict):
                    t = x.get("x") if x.get("k") == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">=") else x.get("e") if x.get("k") == "un" and x["op"] in ("++", "--", "&") else None
                    while isinstance(t, dict) and t.get("k") == "cast":
                        t = t.get("e")
                    if isinstance(t, dict) and g["q"] in (t.get("q"), t.get("f")):
                        r = False
                    st.extend(v for v in x.values() if isinstance(v, (dict, list)))
            self._frozen[g["q"]] = r
        return r

    def finish(self):
        self._cid = {}
        self._frozen = {}
        canon.run(self.funcs.values())
        self.by_q = {}
        self.decls = {}
        for f in self.funcs.values():
            self.by_q.setdefault(f["q"], []).append(f)
        self.sub = {}
        for c in self.classes.values():
            for b in c["bases"]:
                self.sub.setdefault(b, []).append(c["q"])
        self.overriders = {}
        for c in self.classes.values():
            for m in c["methods"]:
                self.decls[m["id"]] = (c, m)
                for o in m["ov"]:
                    self.overriders.setdefault(o, []).append(m["id"])
        self.allfields = {}
        for c in self.classes.values():
            for f in c["fields"]:
                self.allfields[c["q"] + "::" + f["n"]] = f
        return self

    def bases(self, cls):
        out, st = [], [cls]
        while st:
            c = st.pop(0)
            k = self.classes.get(c)
            if not k:
                continue
            for b in k["bases"]:
                if b not in out:
                    out.append(b)
                    st.append(b)
        return out

    def derived(self, cls):
        out, st = [], [cls]
        while st:
            c = st.pop(0)
            for b in self.sub.get(c, []):
                if b not in out:
                    out.append(b)
                    st.append(b)
        return out

    def is_a(self, cls, base):
        return cls == base or base in self.bases(cls)

    def func(self, q):
        """All definitions with this qualified name."""
        return self.by_q.get(q, [])

    def one(self, q):
        fs = self.by_q.get(q, [])
        if len(fs) != 1:
            raise AnalysisError("anchor %s: expected one definition, found %d" % (q, len(fs)))
        return fs[0]

    def targets(self, fid, virt):
        """Possible callee definitions for a call."""
        out = []
        seen = set()
        st = [fid]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in self.funcs:
                out.append(self.funcs[x])
            if virt:
                st.extend(self.overriders.get(x, []))
        return out

    def global_use(self, fid):
        """Plain variables at file scope that a function and the functions it calls directly mention, and those they change."""
        if not hasattr(self, "_guse"):
            self._guse = {}
        memo = self._guse
        if fid in memo:
            return memo[fid]
        own, seen, todo = (set(), set()), set(), [fid]
        while todo:
            x = todo.pop()
            f = self.funcs.get(x)
            if x in seen or f is None or f.get("body") is None:
                continue
            seen.add(x)
            for n in canon.walk(f["body"]):
                k = n.get("k")
                if k == "ref" and n.get("d") == "g" and self.plain(n.get("q")):
                    own[0].add(n["q"])
                ch = []
                if k == "bin" and n.get("op", "").endswith("=") and n["op"] not in ("==", "<=", ">=", "!="):
                    ch = [n["x"]]
                elif k == "un" and n.get("op") in ("++", "--", "&"):
                    ch = [n["e"]]
                elif k == "call":
                    if not n.get("vt") and n.get("fn"):
                        todo.append(n["fn"])
                    ch = [a for a in n.get("a") or [] if isinstance(a, dict)]
                for y in ch:
                    while isinstance(y, dict) and y.get("k") in ("idx", "paren", "cast", "un"):
                        y = y.get("b") if y["k"] == "idx" else y.get("e")
                    if isinstance(y, dict) and y.get("k") == "ref" and y.get("d") == "g" and self.plain(y.get("q")) and \
                            (k != "call" or "[" in (y.get("t") or "")):
                        own[1].add(y["q"])
        memo[fid] = own
        return own

    def field_use(self, fid, virt):
        """Members of its own object that a member function and the functions it calls on that object mention, and those they change."""
        if not hasattr(self, "_fuse"):
            self._fuse = {}
            self._known = set(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "ref", "members.txt")).read().split())
        memo = self._fuse
        if (fid, virt) in memo:
            return memo[fid, virt]
        reads, writes, seen, todo = set(), set(), set(), [(fid, virt)]

        def member(y):
            """The member of the function's own object that a place lies in."""
            while isinstance(y, dict):
                k = y.get("k")
                if k == "mem":
                    b = y.get("b")
                    while isinstance(b, dict) and b.get("k") in ("cast", "paren"):
                        b = b.get("e")
                    if isinstance(b, dict) and b.get("k") == "this":
                        return y.get("f")
                    if y.get("ar"):
                        return None
                    y = b
                elif k == "idx":
                    y = y.get("b")
                elif k in ("cast", "paren"):
                    y = y.get("e")
                elif k == "un" and y.get("op") in ("++", "--"):
                    y = y.get("e")
                elif k == "call" and y.get("o") is not None and (y.get("opc") == "[]" or (y.get("q") or "").rsplit("::", 1)[-1] in ("at", "front", "back", "begin", "end", "data", "rbegin", "rend")):
                    y = y["o"]
                else:
                    return None
            return None
        while todo:
            x, v = todo.pop()
            if (x, v) in seen:
                continue
            seen.add((x, v))
            for f in self.targets(x, v):
                for n in canon.walk(f.get("body")) if f.get("body") is not None else ():
                    k = n.get("k")
                    ch = []
                    if k == "mem":
                        m = member(n)
                        if m:
                            reads.add(m)
                    elif k == "bin" and n.get("op", "").endswith("=") and n["op"] not in ("==", "<=", ">=", "!="):
                        ch = [n["x"]]
                    elif k == "un" and n.get("op") in ("++", "--", "&"):
                        ch = [n["e"]]
                    elif k == "decl":
                        ch = [w["init"] for w in n["v"] if w.get("init") and (w.get("rf") or (w.get("t") or "").rstrip().endswith(("&", "*"))) and not (w.get("t") or "").startswith("const ")]
                    elif k == "rfor":
                        w = n.get("v") or {}
                        if (w.get("t") or "").rstrip().endswith("&") and not (w.get("t") or "").startswith("const "):
                            ch = [n.get("r")]
                    elif k == "call":
                        o = n.get("o")
                        fn = n.get("fn") or ""
                        b = (n.get("q") or "").rsplit("::", 1)[-1]
                        if isinstance(o, dict) and o.get("k") == "this":
                            todo.append((fn, bool(n.get("vt"))))
                        elif o is not None and not fn.endswith(")c") and not (o.get("t") or "").endswith("*") and n.get("opc") != "[]" and b not in ("at", "front", "back", "size", "empty", "end", "data"):
                            ch = [o]
                        g = self.funcs.get(fn)
                        for i, a in enumerate(n.get("a") or []):
                            if not isinstance(a, dict):
                                continue
                            pt = g["ps"][i]["t"] if g is not None and i < len(g["ps"]) else None
                            if pt is None and (n.get("opc") or b).endswith("=") and i == 0 and o is None or pt is not None and pt.rstrip().endswith(("&", "*")) and not pt.startswith("const ") or \
                                    pt is None and "[" in (a.get("t") or ""):
                                ch.append(a)
                    for y in ch:
                        m = member(y)
                        if m:
                            writes.add(m)
        ok = lambda xs: frozenset(m for m in xs if m.rsplit("::", 1)[-1] in self._known)
        memo[fid, virt] = (ok(reads | writes), ok(writes))
        return memo[fid, virt]

    def pure(self, fid, seen=()):
        """A free function whose only result is the value it returns."""
        if not hasattr(self, "_pure"):
            self._pure = {}
        if fid in self._pure:
            return self._pure[fid]
        f = self.funcs.get(fid)
        r = f is not None and f.get("body") is not None and not f.get("cls") and f.get("rt") in ("double", "float", "int", "bool", "long", "unsigned int", "size_t", "unsigned long", "std::string") \
            and not any(p["t"].endswith(("*", "&", "]")) and not p["t"].startswith("const ") for p in f["ps"]) and not any(self.global_use(fid))
        for n in canon.walk(f["body"]) if r else ():
            k = n.get("k")
            if k in ("new", "delete", "throw", "lambda") or k == "decl" and any(v.get("st") or v.get("static") for v in n["v"]):
                r = False
            elif k == "call":
                q = n.get("q") or ""
                if "o" in n or not (q.startswith("std::") or q in MATH or n.get("fn") in self.funcs and n["fn"] not in seen and self.pure(n["fn"], seen + (fid,))):
                    r = False
            if not r:
                break
        self._pure[fid] = r
        return r

    def plain(self, q):
        g = self.globals.get(q)
        return bool(g) and not g["t"].startswith("const ") and not g.get("c") and g["t"].split("[")[0].strip() in ("double", "float", "int", "bool", "char", "unsigned int", "long", "unsigned char", "size_t", "unsigned long")

    def rel(self, path):
        return os.path.relpath(path, REPO) if path.startswith(REPO) else path

    def where(self, f, node=None):
        l = (node or {}).get("l") or f.get("l")
        return "%s:%s" % (self.rel(f["file"]), l)


def load(quiet=True):
    tus, hdrs = source_files()
    if len(tus) < 100:
        raise AnalysisError("only %d translation units found under %s" % (len(tus), REPO))
    tus.append(os.path.join(VERIF, "tool", "stubs", "instantiate.cpp"))
    key = _sha(tus + hdrs + tool_sources() + [os.path.abspath(__file__)])[:24]
    os.makedirs(BUILD, exist_ok=True)
    cache = os.path.join(BUILD, "facts-%s.pkl" % key)
    if os.path.exists(cache):
        try:
            with open(cache, "rb") as f:
                return pickle.load(f).finish()
        except Exception:
            pass
    exe = build_tool()
    tmpdir = tempfile.mkdtemp(prefix="verif-facts-")
    try:
        parts = _extract(exe, tus, tmpdir)
    finally:
        shutil.rmtree(tmpdir, ignore_errors=True)
    F = Facts()
    for d in parts:
        _settype([d["funcs"], d["classes"], d["globals"]], d["types"])
        for f in d["funcs"]:
            k = f["id"]
            if k in F.funcs and f.get("int"):
                if F.funcs[k]["file"] != f["file"]:
                    k = k + "@" + f["file"]
                    f["id"] = k
            F.funcs.setdefault(k, f)
        for c in d["classes"]:
            F.classes.setdefault(c["q"], c)
        for e in d["enums"]:
            F.enums.setdefault(e["q"], e)
        for g in d["globals"]:
            F.globals.setdefault(g["q"], g)
        F.errors += d["errors"]
        F.tus += d["files"]
    bad = [t["file"] for t in F.tus if t["rc"] and not t["file"].endswith("/instantiate.cpp")]
    if bad:
        raise AnalysisError("%d translation units do not parse: %s; %s" % (len(bad), bad[:5], F.errors[:5]))
    for old in os.listdir(BUILD):
        if old.startswith("facts-"):
            try:
                if time.time() - os.path.getmtime(os.path.join(BUILD, old)) > 3600:
                    os.remove(os.path.join(BUILD, old))
            except OSError:
                pass
    tmp = cache + ".%d.tmp" % os.getpid()
    with open(tmp, "wb") as f:
        pickle.dump(F, f, protocol=4)
    os.rename(tmp, cache)
    return F.finish()


if __name__ == "__main__":
    t = time.time()
    F = load()
    print("tus", len(F.tus), "funcs", len(F.funcs), "classes", len(F.classes), "enums", len(F.enums), "globals", len(F.globals), "%.1fs" % (time.time() - t))
