"""Comparison of functions with reference specifications written as C++ (never compiled to code nor run):
both are abstractly interpreted to terms and the canonical terms are compared."""
import difflib, hashlib, json, os, re, shutil, subprocess, sys, tempfile
import facts
from facts import AnalysisError, BUILD, VERIF
import norm, sym
from sym import *
from nf import NF
from spec import inline_all
from pw import PW

REFDIR = os.path.join(VERIF, "ref")


_shape = {}


def shape():
    """Fields and methods of the classes when the reference specifications were written."""
    if not _shape:
        _shape.update(json.load(open(os.path.join(REFDIR, "shape.json"))))
    return _shape


def make_shape(F):
    d = {}
    for c in F.classes.values():
        if c["q"].startswith("s2e::"):
            d[c["q"]] = dict(f={f["n"]: f["t"] for f in c["fields"]}, m={})
            for m in c["methods"]:
                n = m["id"].split("(")[0].rsplit("::", 1)[-1]
                d[c["q"]]["m"].setdefault(n, []).append(m["id"].split("(", 1)[1])
    json.dump(d, open(os.path.join(REFDIR, "shape.json"), "w"), indent=0, sort_keys=True)


def alias(F, cls, name):
    """Present name of a member that was renamed: the only new member of that kind, or the most similar one."""
    cs = [c for c in [cls] + F.bases(cls) if c in shape()]
    for cq in cs:
        b = shape()[cq]
        now = F.classes.get(cq)
        if now is None:
            continue
        if name in b["f"]:
            new = {f["n"]: f["t"] for f in now["fields"] if f["n"] not in b["f"] and f["t"] == b["f"][name]}
        elif name in b["m"]:
            new = {}
            for m in now["methods"]:
                n, sg = m["id"].split("(")[0].rsplit("::", 1)[-1], m["id"].split("(", 1)[1]
                if n not in b["m"] and sg in b["m"][name]:
                    new[n] = sg
        else:
            continue
        if len(new) == 1:
            return list(new)[0]
        best = difflib.get_close_matches(name, list(new), 1, 0.6)
        if best:
            return best[0]
    return None


def extract(name, F):
    """Parse ref/<name>.cpp against the repository's headers; members renamed since it was written are followed."""
    src = os.path.join(REFDIR, name + ".cpp")
    d = extract1(name, F, src)
    for _ in range(4):
        lines = open(src).read().split("\n")
        ch = False
        for e in d["errors"]:
            m = re.match(r".*?\.cpp:(\d+):\d+: no member named '(\w+)' in '([\w:]+)'", e)
            if m:
                a = alias(F, m.group(3), m.group(2))
                if a:
                    l = int(m.group(1)) - 1
                    n = re.sub(r"(->|\.)%s\b" % m.group(2), r"\g<1>" + a, lines[l])
                    ch |= n != lines[l]
                    lines[l] = n
        if not ch:
            break
        src = os.path.join(BUILD, "%s.%d.cpp" % (name, os.getpid()))
        open(src, "w").write("\n".join(lines))
        d = extract1(name, F, src)
    if src.startswith(BUILD):
        os.remove(src)
        d = json.loads(json.dumps(d).replace(src, os.path.join(REFDIR, name + ".cpp")))
    return d


def extract1(name, F, src):
    exe = facts.build_tool()
    _, hdrs = facts.source_files()
    k = facts._sha([src, os.path.join(REFDIR, "base.hpp")] + hdrs + facts.tool_sources() + [os.path.abspath(__file__)])[:24]
    cache = os.path.join(facts.BUILD, "ref-%s-%s.json" % (name, k))
    if os.path.exists(cache):
        return json.load(open(cache))
    td = tempfile.mkdtemp(prefix="verif-ref-")
    try:
        out = os.path.join(td, "o.json")
        fl = [x for x in facts.flags() if x != "-fsyntax-only"] + ["-fsyntax-only", "-I" + REFDIR, "-Xclang", "-fno-access-control", "-ferror-limit=0"]
        p = subprocess.run([exe, out, os.path.dirname(src) + "/"] + fl + ["--", src], capture_output=True, text=True)
        if not os.path.exists(out):
            raise AnalysisError("cannot parse the reference specification %s: %s" % (name, p.stderr[-500:]))
        d = json.load(open(out))
    finally:
        shutil.rmtree(td, ignore_errors=True)
    facts._settype([d["funcs"], d["classes"], d["globals"]], d["types"])
    js = json.dumps(d)      # enumerations local to a function
    js2 = re.sub(r"::ref::_?(\w+\([^()\"]*\)::\w)", r"::\1", js)
    if js2 != js:
        d = json.loads(js2)
    own = sorted({x["q"] for k in ("classes", "enums", "globals") for x in d[k] if "::ref::" in x["q"]}, key=len, reverse=True)
    if own:     # types and constants the target file keeps to itself are repeated in the reference
        js = json.dumps(d)
        for q in own:
            js = js.replace(q, q.replace("::ref::", "::"))
        d = json.loads(js)
    tmp = cache + ".%d.tmp" % os.getpid()
    os.makedirs(facts.BUILD, exist_ok=True)
    with open(tmp, "w") as f:
        json.dump(d, f)
    os.rename(tmp, cache)
    return d


class Spec:
    def __init__(self, func, target, opts):
        self.func, self.target, self.opts = func, target, opts


def specs(name, F):
    d = extract(name, F)
    src = os.path.join(REFDIR, name + ".cpp")
    lines = open(src).read().split("\n")
    bad = set()
    for e in d["errors"]:
        if "/base.hpp:" in e and REFDIR in e.split(":")[0] and not os.environ.get("REFDRAFT"):
            print("NOTE base.hpp: " + e)
        m = re.match(r".*?%s(?:\.\d+)?\.cpp:(\d+):" % re.escape(name), e)
        bad.add(int(m.group(1)) if m else 0)
    facts.canon.run(d["funcs"])
    helpers = {}
    byline = {}
    for f in d["funcs"]:
        if f["file"] == src and f.get("body") is not None:
            byline[f["l"]] = f
    for f in d["funcs"]:
        if f["file"].startswith(REFDIR) and f["file"] != src and f.get("body") is not None:
            F.funcs[f["id"]] = f
    for f in byline.values():
        F.funcs[f["id"]] = f
        F.by_q.setdefault(f["q"], []).append(f)
    if not hasattr(F, "real_globals"):
        F.real_globals = set(F.globals)
    for g in d["globals"]:
        F.globals.setdefault(g["q"], g)
    out, broken = [], []
    starts = sorted(byline)
    for n, l in enumerate(lines, 1):
        m = re.match(r"\s*//=\s*(\S+)(.*)", l)
        if not m:
            continue
        fl = [x for x in starts if x > n]
        nxt = [x for x in range(n + 1, len(lines) + 1) if re.match(r"\s*//=", lines[x - 1])]
        end = nxt[0] if nxt else len(lines) + 1
        hit = [e for e in bad if n < e < end]
        if hit or not fl or fl[0] >= end:
            broken.append((m.group(1), [e for e in d["errors"] if re.search(r"%s\.cpp:(%s):" % (re.escape(name), "|".join(map(str, hit))), e)][:1] if hit else ["no reference function"]))
            continue
        opts = dict(x.partition("=")[::2] for x in m.group(2).split())
        out.append(Spec(byline[fl[0]], m.group(1).replace("operator_double", "operator double"), opts))
    return out, broken


def find_target(F, target, opts, nargs):
    if "(*)" in target:
        q, sig = target, ""
    else:
        q, _, sig = target.partition("(")
        if q.endswith("operator") and sig.startswith(")"):
            q, sig = q + "()", sig[2:]
    if not F.func(q) and ("<" in q or "operator" in q):      # names are written without blanks
        if not hasattr(F, "_squeezed"):
            F._squeezed = {k.replace(" ", ""): k for k in F.by_q if " " in k}
        q = F._squeezed.get(q, q)
    fs = [f for f in F.func(q) if f.get("body") is not None or f["k"] == "ctor"]
    if not fs:
        cls, _, n = q.rpartition("::")
        a = alias(F, cls, n) if cls in shape() else None
        fs = [f for f in F.func(cls + "::" + a) if f.get("body") is not None] if a else []
    if sig:
        fs = [f for f in fs if ("(" + sig) in f["id"].replace(" ", "")]
    if len(fs) > 1:
        fs = [f for f in fs if len(f["ps"]) == nargs]
    return fs


PURE_EXTRA = ("s2e::setting_file_reader::",)


def is_effect(F, e, nfk):
    q, fn = e["q"], e["fn"]
    if q.startswith("s2e::math::") and e["obj"] == THIS and not (fn or "").endswith(")c") and (F.funcs.get(fn) or {}).get("rt") == "void":
        return True
    if q.startswith("std::") and (e["okey"] or e["obj"] or ("",))[0] == "G" and e["okey"][1].startswith("s2e::") and q.endswith("::seed"):
        return True
    if q.startswith("std::filesystem::") and q.rsplit("::", 1)[-1] in FILES:
        return True
    if e["obj"] is None and F.pure(fn):
        return False
    if e["obj"] is None and F.global_use(fn)[1]:        # works through variables at file scope
        return True
    if not q.startswith(("s2e::", "std::", "__gnu")) and e["obj"] is None:     # a library function handed memory that outlives the call
        ts = sym.sig_types(fn)
        if any(a == ("glob", x) for a in e["args"] for x in ("stderr", "stdout")):
            return False     # messages to the user are not specified
        return any(t.endswith(("*", "]")) and "const" not in t and not (v[0] == "addr" and sym.local_root(v[1])) and outlives(v) for t, v in zip(ts, e["args"]))
    if not q.startswith("s2e::") or q.startswith("s2e::setting_file_reader") or q.startswith("s2e::math::") and not (q.startswith("s2e::math::OrdinaryDiff") and q.endswith("::Update")):
        return False
    if (fn or "").endswith(")c"):
        return (F.funcs.get(fn) or {}).get("rt") == "void" and e["obj"] is not None and not (e["obj"][0] == "addr" and e["obj"][1][0] in ("L", "T"))
    if e["obj"] is None:
        f = F.funcs.get(fn)
        return f is None or not f.get("static")
    if e["okey"] is None:
        o = e["obj"]
        return not (o[0] == "addr" and o[1][0] in ("L", "T"))
    return e["okey"][0] in ("D", "E", "G", "T")


FILES = ("create_directory", "create_directories", "copy", "copy_file", "remove", "remove_all", "rename", "resize_file")


def outlives(v):
    """The pointer comes from a parameter, a member, a global or the heap."""
    while v[0] in ("addr", "fld", "idx", "deref", "I", "F", "E", "D", "op", "upd", "updf") and len(v) > 1:
        v = v[2] if v[0] == "op" else v[1]
        if not isinstance(v, tuple):
            return False
    return v[0] in ("p", "this", "glob", "G", "new", "cast")


TERMINATE = ("exit", "std::exit", "abort", "std::abort", "_exit", "std::terminate")


class Result:
    pass


def interpret(F, f, args, this, inline, cls=None, ptypes=None):
    S = Sym(F, inline)
    if cls:
        S.this_class = cls
    S.ptypes = ptypes or {}
    r = Result()
    r.ret, r.st = S.run(f, args, this=this)
    r.S = S
    r.nf = NF(S, F)
    return r


def fields_of(r):
    """Final values of object members, by canonical key."""
    out = {}
    for k, v in r.st.env.items():
        kk = k
        if kk[0] == "F" and kk[1][0] != "addr":
            out[(r.nf(kk[1]), kk[2])] = (k, v)
        elif kk[0] == "F" and kk[1][0] == "addr" and root(kk)[0] == "F":
            out[(r.nf(kk[1]), kk[2])] = (k, v)
        elif kk[0] == "D":
            out[("deref", r.nf(kk[1]))] = (k, v)
        elif kk[0] == "G":
            out[("glob", kk[1])] = (k, v)
    return out


def root(k):
    while k[0] in ("F", "I", "E"):
        b = k[1]
        if k[0] == "F":
            if b[0] == "addr":
                k = b[1]
                continue
            return k
        k = b
    return k


def initial(r, k):
    return r.nf(r.S.default(k))


def loops(r, e):
    """The loops around an effect: what they walk over, their conditions and exits."""
    out = []
    for l in e["loops"]:
        if l[0] in r.S.loopdefs:
            _, cond, _, over, ext = r.nf.loopenv(l[0])
            out.append(I(("each", over, cond, ext)))
        else:
            out.append(r.nf(l[1]) if l[1] is not None else ("while",))
    return tuple(out)


def effects(F, r):
    out = []
    for e in r.S.events:
        if e["kind"] == "call" and not e["inl"] and is_effect(F, e, None):
            o = r.nf(e["obj"]) if e["obj"] is not None else None
            out.append([e["fn"], o, tuple(r.nf(a) for a in e["args"]), r.nf.guard(e["g"]), loops(r, e), e])
        elif (e["kind"] == "call" and e["q"] in TERMINATE) or e["kind"] == "throw":
            out.append(["<terminate>", None, (), r.nf.guard(e["g"]), loops(r, e), e])
        elif e["kind"] == "delete":     # deleting a null pointer does nothing, so a guard against it says nothing
            o, g = r.nf(e["val"]), r.nf.guard(e["g"])
            if g != TRUE:
                g = r.nf.ite(("or", r.nf.unbool(g), r.nf.unbool(r.nf.boolean1("==", o, I(c(None))))), TRUE, FALSE)
            out.append(["<delete[]>" if e["arr"] else "<delete>", o, (), g, loops(r, e), e])
    # merge calls that differ only in mutually exclusive guards
    res = []
    for x in out:
        for y in res:
            if y[0] == x[0] and y[1] == x[1] and y[2] == x[2] and y[4] == x[4]:
                both = r.nf.ite(("and", r.nf.unbool(y[3]), r.nf.unbool(x[3])), TRUE, FALSE)
                if both == FALSE:
                    y[3] = r.nf.ite(("or", r.nf.unbool(y[3]), r.nf.unbool(x[3])), TRUE, FALSE)
                    break
        else:
            res.append(list(x))
    return res


def compare(F, R, sp, rule, leaves=(), cls=None, label="functions compared with their reference"):
    """One obligation: the target behaves like the reference."""
    rf = sp.func
    member = bool(rf["ps"]) and rf["ps"][0]["n"] == "self"
    nargs = len(rf["ps"]) - (1 if member else 0)
    ts = find_target(F, sp.target, sp.opts, nargs)
    if not ts:
        return "missing"
    f = ts[0]
    args = [I(("p", "a%d" % i, i)) for i in range(nargs)]
    ptypes = {a: f["ps"][i]["t"] for i, a in enumerate(args) if i < len(f["ps"])}
    for x in (sp.opts.get("fix") or "").split(","):
        if x:
            i, _, v = x.partition(":")
            args[int(i)] = c(float(v) if "." in v else (v == "true" if v in ("true", "false") else int(v)))
    lv = set(leaves) | set(x.replace("~double", " double") for x in (sp.opts.get("leaves") or "").split(",") if x)
    pol = inline_all(F, lv)

    def inl(g, d):
        return g["file"].startswith(REFDIR) or pol(g, d) or own and g["q"].startswith(own) and g["q"].endswith("=")
    own = re.match(r"s2e::math::(?:Vector|Matrix)<[^<>]*>::", f["q"])
    own = own.group(0) + "operator" if own else None
    env = {}
    for x in (sp.opts.get("assume") or "").split(","):
        # assume a member has a given value (a mode this obligation is about)
        if x:
            n, _, v = x.partition(":")
            env[I(("F", THIS, f["cls"] + "::" + n))] = I(c(float(v) if "." in v else (v == "true" if v in ("true", "false") else int(v))))
    if f["k"] == "ctor":
        env.update(default_members(F, f["cls"]))
    reps = {}
    exact = bool(sp.opts.get("class")) or f["k"] in ("ctor", "dtor")     # (inside constructors and destructors, virtual calls are exact)
    a, b = (interpret1(F, g, x, THIS, inl, sp.opts.get("class") or f.get("cls"), ptypes, env, reps, f["q"], exact)
            for g, x in ((f, args), (rf, ([THIS] if member else []) + args)))
    R.count(label)
    R.sample("%s vs reference line %d" % (f["q"], rf["l"]))
    bad = []
    pw = PW(a.nf)

    def same(x, y):
        if x != y:
            if not pw.equal(x, y):
                return False
            R.count("values compared case by case")
        return True
    only = [x for x in (sp.opts.get("only") or "").split(",") if x]
    skip = [x for x in (sp.opts.get("skip") or "").split(",") if x]
    if "ret" not in skip and (not only or "ret" in only) and f["k"] != "ctor" and f.get("rt") != "void":
        x, y = a.nf(a.ret), b.nf(b.ret)
        R.count("values compared")
        if not same(x, y):
            bad.append(("returns", x, y, None))
    fa, fb = fields_of(a), fields_of(b)
    real = F.real_globals
    for k in sorted(set(fa) | set(fb), key=str):
        nm = k[1].rsplit("::", 1)[-1] if isinstance(k[1], str) else "*"
        if nm in skip or (only and nm not in only):
            continue
        x = a.nf(fa[k][1]) if k in fa else initial(a, fb[k][0])
        y = b.nf(fb[k][1]) if k in fb else initial(b, fa[k][0])
        R.count("values compared")
        if not same(x, y):
            if k not in fb and f["k"] == "ctor" and x[0] == "obj" and not x[2]:
                continue
            if k not in fb and isinstance(k[1], str) and k[1].rsplit("::", 1)[-1] not in baseline():
                continue  # a variable the specification does not know (new cache, counter, ...)
            if k not in fa and k[0] == "glob" and k[1] not in real and not any(e["kind"] == "staticlocal" and k[1] == e["name"] for e in a.S.events):
                continue  # a file-local variable that no longer exists
            bad.append(("sets " + nm + ("" if k[0] == THIS else " of " + pretty(k[0])[:60] if k[0] != "glob" else ""), x, y, None))
    sa, sb = ({e["name"]: r.nf(e["val"]) for e in r.S.events if e["kind"] == "staticlocal"} for r in (a, b))
    for n in sorted(set(sa) & set(sb)):
        if not same(sa[n], sb[n]):
            bad.append(("first sets " + n, sa[n], sb[n], None))
    if "effects" not in skip and (not only or "effects" in only):
        ea, eb = effects(F, a), effects(F, b)
        R.count("effects compared", len(ea))
        lone, rest = match(ea, eb)
        cased = set()
        for q in sorted({short(x) for x in lone} | {short(y) for y in rest}):
            ga, gb = [x for x in ea if short(x) == q], [y for y in eb if short(y) == q]
            if ga and gb and pw.calls(ga, gb):
                R.count("calls compared case by case")
                cased.add(q)
                lone, rest = [x for x in lone if short(x) != q], [y for y in rest if short(y) != q]
        for x in lone:
            if True:
                near = [y for y in rest if y[0] == x[0]]
                bad.append(("calls %s" % short(x), show(x), [show(y) for y in near[:1]] or "no such call", x[5]))
        for y in rest:
            if not any(b_[0] == "calls %s" % short(y) for b_ in bad):
                bad.append(("calls %s" % short(y), "no such call", show(y), None))
        # order of calls on one object
        if not bad and not cased:
            for x, y in zip(order(ea, a.nf), order(eb, b.nf)):
                if x != y:
                    bad.append(("call order", show(x), show(y), None))
                    break
        elif not bad:
            for o in sorted({x[1] for x in ea if x[1] is not None and short(x) in cased} & {y[1] for y in eb if y[1] is not None}, key=str):
                ga, gb = [x for x in ea if x[1] == o], [y for y in eb if y[1] == o]
                if len({short(x) for x in ga}) > 1 and not pw.calls(ga, gb):
                    bad.append(("call order", show(ga[0]), show(gb[0]), None))
                    break
    for what, x, y, e in bad:
        R.violation("%s/%s" % (sp.target, what), F.where(f, e["node"] if e else None), "%s %s as %s; specified: %s" % (f["q"].split("::", 1)[-1], what, txt(x), txt(y)), rule)
    return bad


def match(ea, eb):
    rest, lone = list(eb), []
    for x in ea:
        for y in rest:
            if y[:5] == x[:5]:
                rest.remove(y)
                break
        else:
            lone.append(x)
    return lone, rest


def default_members(F, cls):
    """Members of class type are default-constructed before the constructor body of any class runs."""
    env = {}
    for k in [cls] + F.bases(cls):
        if k not in F.classes:
            continue
        cx = [f for f in F.funcs.values() if f["k"] == "ctor" and f.get("cls") == k]
        noinit = {x["n"] for x in F.classes[k]["fields"] if not x.get("init")}
        for f in cx:
            for i in f.get("in") or []:
                e = i.get("e")
                if not i.get("w") and i.get("n") in noinit and e and e.get("k") == "ctor" and not e.get("a"):
                    S = Sym(F, lambda g, d: False)
                    S.frames = [sym.Frame(f, THIS, 0)]
                    S.frames[0].id = 0
                    S.quiet += 1
                    _, v = S.e_ctor(e, St({}))
                    env[I(("F", THIS, i["f"]))] = I(v)
        # members no constructor leaves to default construction need no entry
    return env


_base = []


def baseline():
    """Names of the members that existed when the reference specifications were written."""
    if not _base:
        _base.append(set(open(os.path.join(REFDIR, "members.txt")).read().split()))
    return _base[0]


def order(es, nf):
    """The calls on each object in a normal order: calls whose guards exclude each other have none."""
    g, excl = {}, {}

    def apart(x, y):
        if x[4] or y[4]:
            return False
        k = (x[3], y[3])
        if k not in excl:
            excl[k] = nf.ite(("and", nf.unbool(x[3]), nf.unbool(y[3])), TRUE, FALSE) == FALSE
        return excl[k]
    for x in es:
        g.setdefault(x[1], []).append(x)
    out = []
    for o in sorted(g, key=str):
        left, prev = g[o], None
        while left:
            # the least call that nothing before it forces later
            free = [i for i, x in enumerate(left) if all(apart(x, y) for y in left[:i])] if len(left) > 1 else [0]
            x = left[min(free, key=lambda i: str(left[i][:5]))] if len(free) > 1 else left[0]
            left = [y for y in left if y is not x]
            same = None     # two calls in one loop, or in two loops one after the other
            if prev and x[4] and prev[4] and not varying(o):
                same = [p[0] is q[0] for p, q in zip(x[5]["loops"], prev[5]["loops"])]
            out.append(x[:5] + [same])
            prev = x
    return out


def varying(o):
    """The object is a different one in each iteration."""
    return any(isinstance(y, tuple) and y and y[0] in ("iv", "var") for y in walk(o)) if o is not None else False


def short(x):
    return x[0].split("(")[0].rsplit("::", 1)[-1] if isinstance(x[0], str) else str(x[0])


def show(x):
    return "%s(%s) if %s%s" % (short(x), ", ".join(pretty(a)[:80] for a in x[2]), pretty(x[3])[:200], " for each of " + ",".join(pretty(l)[:40] for l in x[4]) if x[4] else "")


def txt(x):
    if isinstance(x, str):
        return x
    if isinstance(x, list):
        return "; ".join(map(str, x))
    return ptxt(x)[:300]


def ptxt(x, d=0):
    if not isinstance(x, tuple) or not x:
        return str(x)
    if d > 9:
        return "..."
    h = x[0]
    p = lambda y: ptxt(y, d + 1)
    if h == "sum":
        return "(" + " + ".join(([("%g" % x[1])] if x[1] else []) + [("" if cf == 1 else "%g*" % cf) + p(y) for cf, y in x[2]]) + ")"
    if h == "prod":
        n = "*".join(([("%g" % x[1])] if x[1] != 1 or not x[2] else []) + [p(y) for y in x[2]])
        return n + ("/(" + "*".join(p(y) for y in x[3]) + ")" if x[3] else "")
    if h == "phi":
        return "(%s ? %s : %s)" % (p(x[1]), p(x[2]), p(x[3]))
    if h in ("min", "max", "clamp"):
        return "%s(%s)" % (h, ", ".join(p(y) for y in x[1:]))
    if h == "op":
        return "(%s %s %s)" % (p(x[2]), x[1], p(x[3]))
    if h == "idx":
        return "%s[%s]" % (p(x[1]), p(x[2]))
    if h == "call":
        o = "" if x[2] == ("noobj",) else p(x[2]) + "."
        return o + str(x[1]).split("(")[0].rsplit("::", 1)[-1] + "(" + ", ".join(p(y) for y in x[3]) + ")"
    if h == "c":
        return "%g" % x[1] if isinstance(x[1], float) else repr(x[1])
    return pretty(x)


def interpret1(F, f, args, this, inl, cls, ptypes, env, reps=None, q=None, exact=True):
    S = Sym(F, inl)
    if cls:
        S.this_class = cls
        S.exact_class = exact
    S.ptypes = ptypes
    r = Result()
    r.ret, r.st = S.run(f, args, this=this, env=env)
    r.S = S
    r.nf = NF(S, F, reps=reps)
    m = re.match(r"s2e::math::(Vector|Matrix)<[^<>]*>(?=::)", q or "")
    if m:
        r.nf.elements(m.group(0), I(("fld", THIS, "%s::%s_" % (m.group(0), m.group(1).lower()))))
    return r


def check_file(F, R, name, rule, minimum, leaves=()):
    sps, broken = specs(name, F)
    for l in open(os.path.join(REFDIR, name + ".cpp")):
        if l.startswith("//! leaves="):
            leaves = tuple(leaves) + tuple(l.split("=", 1)[1].strip().split(","))
    miss = [b for b in broken]
    for sp in sps:
        nv, cv = len(R.viol), dict(R.cov)
        n0 = sym.pool_size()
        sym.set_limit(n0 + sym.LIMIT)
        try:
            if compare(F, R, sp, rule, leaves) == "missing":
                miss.append((sp.target, ["function not found"]))
        except (AnalysisError, sym.TooLarge, RecursionError, KeyError, IndexError, TypeError, AttributeError, ValueError) as e:
            if os.environ.get("REFDEBUG"):
                raise
            del R.viol[nv:]
            R.cov = cv
            miss.append((sp.target, ["outside the analysed language: %s %s" % (type(e).__name__, str(e)[:120])]))
        finally:
            sym.set_limit(1 << 60)
            norm._memo.clear()
            sym.release(n0)
    for t, why in miss:
        print("NOT-DECIDED %s: %s" % (t, why))
        R.notes.append("not decided: %s (%s)" % (t, why))
    R.cov["not decided (renamed or removed anchors)"] = len(miss)
    R.need("functions compared with their reference", minimum)
