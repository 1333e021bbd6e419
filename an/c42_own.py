"""C42: ownership and end of life. Every destructor against its reference specification (ref/c42.cpp), and over the whole program:
 release  every object made with new is released: by the function that made it, or by the end of life of an object that keeps it
 double   no object is released by two owners
 virtual  an object deleted through a base class has a virtual destructor
 form     new[] with delete[], new with delete
 copy     an owning class is copied only by a copy operation of its own that replaces every pointer it releases
 set      every pointer a destructor deletes has been given a value by every constructor
 stale    an object released before the end of life of its owner also leaves the member that keeps it
 order    an object is not destroyed while the end of life of another one that is destroyed later still calls it
Flow-insensitive points-to graph over locals, parameters, members and return values."""
import os, re
import refs, report
from facts import AnalysisError
from spec import *

MUT = re.compile(r"::(push_back|push_front|emplace_back|emplace_front|emplace|insert|insert_or_assign|try_emplace|assign|operator=|fill|reset)$")


def nodes(x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, list):
            st.extend(y)
        elif isinstance(y, dict):
            if "k" in y:
                yield y
            st.extend(v for v in y.values() if isinstance(v, (dict, list)))


def ptr(t):
    return t is not None and ("*" in t or "iterator" in t)


class Flow:
    def __init__(self, F):
        self.F, self.edge, self.sites, self.dels, self.managed, self.unknown = F, {}, [], [], set(), set()
        self.typ = {}
        for f in F.funcs.values():
            self.func(f)

    def add(self, src, dst):
        for a in src:
            for b in dst:
                if a != b:
                    self.edge.setdefault(a, set()).add(b)

    def func(self, f):
        F, fid = self.F, f["id"]
        for n, p in enumerate(f["ps"]):
            self.typ[("L", fid, p["i"])] = p["t"]
            self.edge.setdefault(("P", fid, n), set()).add(("L", fid, p["i"]))
            if p["t"].rstrip().endswith("&"):
                self.edge.setdefault(("L", fid, p["i"]), set()).add(("P", fid, n))
        for i in f.get("in") or []:
            if i.get("f") and i.get("e") is not None:
                self.add(self.src(f, i["e"], True), {("F", i["f"])})
        for y in nodes([f.get("body"), f.get("in")]):
            k = y["k"]
            if k == "decl":
                for v in y["v"]:
                    self.bind(f, v, v.get("init"))
            elif k == "rfor":
                self.bind(f, y["v"], y["r"], True)
            elif k == "bin" and y["op"] == "=":
                if ptr(y.get("t")) or ptr(y["y"].get("t")):
                    self.add(self.src(f, y["y"]), self.src(f, y["x"]))
            elif k == "ret" and y.get("e") is not None:
                if ptr(f.get("rt")) or ptr(y["e"].get("t")):
                    self.add(self.src(f, y["e"]), {("R", fid)})
            elif k == "del":
                self.dels.append((f, y, frozenset(self.src(f, y["e"]))))
            elif k == "new":
                self.sites.append((f, y))
                if y.get("init"):
                    pass
            if k in ("call", "ctor"):
                self.call(f, y)

    def bind(self, f, v, e, loop=False):
        if e is None:
            return
        t = v.get("t")
        n = ("L", f["id"], v["i"])
        self.typ[n] = t
        if not ptr(t) and not ptr(e.get("t")):
            return
        s = self.src(f, e)
        self.add(s, {n})
        if t and t.rstrip().endswith("&"):
            self.add({n}, s)

    def call(self, f, y):
        F = self.F
        args = y.get("a") or []
        own = F.targets(y.get("fn"), True) if y.get("fn") else []
        if own:
            for g in own:
                for n, a in enumerate(args[:len(g["ps"])]):
                    if ptr(a.get("t")) or ptr(g["ps"][n]["t"]):
                        s = self.src(f, a)
                        self.add(s, {("P", g["id"], n)})
                        if g["ps"][n]["t"].rstrip().endswith("&"):
                            self.add({("P", g["id"], n)}, s)
            return
        q = y.get("q") or ""
        if y["k"] == "call" and y.get("o") is not None and MUT.search(q):
            for a in args:
                if ptr(a.get("t")):
                    if "_ptr<" in (y["o"].get("t") or ""):
                        self.managed |= self.src(f, a)
                    else:
                        self.add(self.src(f, a), self.src(f, y["o"]))
        elif y["k"] == "ctor" and q.startswith("std::") and q.endswith("_ptr"):
            for a in args:
                self.managed |= self.src(f, a)
        elif y["k"] in ("call", "ctor") and not y.get("cp"):
            for a in args:
                if ptr(a.get("t")) and not q.startswith(("std::move", "std::forward")):
                    self.unknown |= self.src(f, a)      # handed to code outside the program

    def src(self, f, e, anyt=False):
        """The places an expression's pointer value may come from."""
        if not isinstance(e, dict):
            return set()
        k = e.get("k")
        F = self.F
        if k == "new":
            return {("S", f["id"], id(e))}
        if k == "ref":
            if e.get("d") == "g":
                return {("G", e.get("q") or e["n"])}
            return {("L", f["id"], e["i"])} if "i" in e else set()
        if k == "mem":
            fld = e.get("f") or ""
            if fld.rsplit("::", 1)[0] in F.classes:
                return {("F", fld)}
            return self.src(f, e.get("b"))
        if k in ("cast", "un"):
            return self.src(f, e.get("e"))
        if k == "idx":
            return self.src(f, e.get("b"))
        if k == "cond":
            return self.src(f, e["x"]) | self.src(f, e["y"])
        if k == "bin":
            if e["op"] == "=":
                return self.src(f, e["x"])
            return self.src(f, e["x"]) | self.src(f, e["y"]) if e["op"] in ("+", "-", ",") else set()
        if k in ("list", "ctor"):
            own = F.targets(e.get("fn"), False) if e.get("fn") else []
            if own and not e.get("cp"):
                return set()
            out = set()
            for a in e.get("a") or []:
                if ptr(a.get("t")):
                    out |= self.src(f, a)
            return out
        if k == "call":
            own = F.targets(e.get("fn"), True) if e.get("fn") else []
            if own:
                return {("R", g["id"]) for g in own}
            out = self.src(f, e["o"]) if e.get("o") is not None else set()
            if e.get("o") is None:
                for a in e.get("a") or []:
                    out |= self.src(f, a)
            return out
        return set()

    def reach(self, s):
        seen, st = {s}, [s]
        while st:
            for b in self.edge.get(st.pop(), ()):
                if b not in seen:
                    seen.add(b)
                    st.append(b)
        return seen


def closure(F, f, cls):
    """A destructor and the functions it calls on its own object."""
    own = {cls} | set(F.bases(cls)) | set(F.derived(cls))
    seen, st, out = set(), [f], []
    while st:
        g = st.pop()
        if g["id"] in seen:
            continue
        seen.add(g["id"])
        out.append(g)
        for y in nodes(g.get("body")):
            if y["k"] == "call" and y.get("fn"):
                for h in F.targets(y["fn"], False):
                    if h.get("cls") in own or not h.get("cls") and h.get("file") == f.get("file"):
                        st.append(h)
    return out


def check(F, R):
    dtor = {f["cls"]: f for f in F.funcs.values() if f["k"] == "dtor"}
    ends(F, R, dtor)
    W = Flow(F)
    # what the end of life of each class releases: member -> [(function, delete)]
    frees, back = {}, {}
    for a, bs in W.edge.items():
        for b in bs:
            back.setdefault(b, set()).add(a)

    def origin(ns):
        """Members a deleted pointer may come from, through locals, parameters and return values only."""
        seen, st, out = set(ns), list(ns), set()
        while st:
            n = st.pop()
            if n[0] == "F":
                out.add(n[1])
                continue
            if n[0] == "S":
                continue
            for a in back.get(n, ()):
                if a not in seen:
                    seen.add(a)
                    st.append(a)
        return out
    order = {}
    for cls, f in dtor.items():
        body = closure(F, f, cls)
        ids = {g["id"] for g in body}
        for g, d, ns in W.dels:
            if g["id"] in ids:
                for fld in origin(ns):
                    frees.setdefault(fld, []).append((g, d, cls))
    R.count("members released by a destructor", len(frees))
    R.count("delete expressions", len(W.dels))

    def held(fld):
        """The member is released by the end of life of its class or of a class derived from it."""
        c = fld.rsplit("::", 1)[0]
        return any(F.is_a(x, c) or F.is_a(c, x) for _, _, x in frees.get(fld, ()))
    # ---- release, double, form
    for f, s in W.sites:
        n = ("S", f["id"], id(s))
        at = s.get("at") or "?"
        R.count("objects made with new")
        key = "%s/%s" % (f["q"], at.replace("s2e::", ""))
        if n in W.managed:
            continue
        to = W.reach(n)
        if to & W.managed or any(x[0] == "G" for x in to):
            continue
        flds = {x[1] for x in to if x[0] == "F"}
        if any(static(F, x) for x in flds):
            continue        # lives as long as the process
        local = [d for g, d, ns in W.dels if ns & to and g["id"] == f["id"]]
        rel = {x for x in flds if held(x)}
        if not local and not rel:
            if to & W.unknown and not flds or not flds and ("R", f["id"]) in to and not any(x[0] == "L" and x[1] != f["id"] for x in to):
                continue    # handed to a caller outside the analysed program
            R.violation("release/" + key, F.where(f, s), "the %s made here is never released%s" % (at, ": " + ", ".join(sorted(flds)) + " keeps it and its class does not delete it" if flds else ""), "release")
        elif len(rel) > 1 and not local:
            R.violation("double/" + key, F.where(f, s), "the %s made here is released by more than one owner: %s" % (at, ", ".join(sorted(rel))), "double")
        arr = bool(s.get("arr"))
        for g, d, ns in W.dels:
            if ns & to and bool(d.get("arr")) != arr:
                R.violation("form/" + key, F.where(g, d), "%s made with %s is released with %s" % (at, "new[]" if arr else "new", "delete[]" if d.get("arr") else "delete"), "form")
    # ---- virtual destructor
    for g, d, ns in W.dels:
        t = (d["e"].get("t") or "").replace("const ", "").replace("*", "").strip()
        if t in F.classes and F.derived(t):
            ok = any(m["k"] == "dtor" and m.get("virt") for c in [t] + F.bases(t) for m in F.classes.get(c, {}).get("methods", []))
            R.count("deletes through a base class")
            if not ok:
                R.violation("virtual/%s/%s" % (g["q"], t), F.where(g, d), "%s is deleted through a pointer but its destructor is not virtual, so the derived part is never ended" % t, "virtual")
    # ---- an object released before the end of life of its owner leaves the member that keeps it
    ending = {g["id"] for cls, f in dtor.items() for g in closure(F, f, cls)}
    for g, d, ns in W.dels:
        flds = {x for x in origin(ns) if held(x)}
        if g["id"] in ending or not flds:
            continue
        R.count("releases before the end of life of the owner")
        at = guards(g, d)
        if not any(not (o.get("k") == "ref" and o.get("d") != "g" and not (W.typ.get(("L", h["id"], o.get("i"))) or "").rstrip().endswith("&"))
                   and origin(W.src(h, o)) & flds and (h is not g or guards(g, y) is not None and guards(g, y) <= at) for h, y, o in drops(F, g)):
            R.violation("stale/%s/%s" % (g["q"], "-".join(sorted(x.rsplit("::", 1)[1] for x in flds))), F.where(g, d),
                        "released here while %s keeps it: the end of life of the owner releases it a second time" % ", ".join(sorted(flds)), "stale")
    # ---- copies of owning classes
    owning = {}
    for fld, xs in frees.items():
        for _, _, c in xs:
            owning.setdefault(c, set()).add(fld)
    for f in F.funcs.values():
        for y in nodes([f.get("body"), f.get("in")]):
            c = None
            if y["k"] == "ctor" and y.get("cp") and y["q"] in owning:
                c, op = y["q"], y.get("fn")
            elif y["k"] == "call" and y.get("opc") == "=" and (y.get("q") or "").rsplit("::", 1)[0] in owning:
                c, op = y["q"].rsplit("::", 1)[0], y.get("fn")
            if c is None:
                continue
            R.count("copies of owning objects")
            if op not in F.funcs:
                R.violation("copy/%s/%s" % (f["q"], c), F.where(f, y), "%s is copied member by member and both copies then release %s" % (c, ", ".join(sorted(x.rsplit("::", 1)[1] for x in owning[c]))), "copy")
    # ---- every constructor sets what the destructor deletes
    for c, flds in sorted(owning.items()):
        for k in sorted((f for f in F.funcs.values() if f["k"] == "ctor" and f["cls"] == c), key=lambda f: f["id"]):
            if k.get("body") is None or any(i.get("del") for i in k.get("in") or []):
                continue
            R.count("constructors of owning classes")
            sets = given(F, k)
            for fld in sorted(flds):
                own = fld.rsplit("::", 1)[0]
                if not F.is_a(c, own) or own != c and own in owning or not scalar(F, fld) or default(F, fld):
                    continue
                if fld not in sets:
                    R.violation("set/%s/%s" % (k["id"].split("(")[0] + ("(copy)" if len(k["ps"]) == 1 and c in k["ps"][0]["t"] and "&" in k["ps"][0]["t"] else ""), fld.rsplit("::", 1)[1]),
                                F.where(k), "%s is deleted at the end of life but this constructor leaves it without a value" % fld, "set")
    # ---- order of destruction
    for cls, f in sorted(dtor.items()):
        seq = [(g, d, ns) for g, d, ns in sorted(((g, d, ns) for g, d, ns in W.dels if g["id"] == f["id"]), key=lambda x: x[1]["l"])]
        for i in range(len(seq)):
            for j in range(i + 1, len(seq)):
                fi = origin(seq[i][2])
                R.count("ordered pairs of releases")
                t = (seq[j][1]["e"].get("t") or "").replace("const ", "").replace("*", "").strip()
                bad = users(F, W, t, fi)
                if bad:
                    R.violation("order/%s/%s" % (cls, "-".join(sorted(x.rsplit("::", 1)[1] for x in fi))), F.where(*seq[i][:2]), "released before %s, whose end of life still calls it through %s" % (t, bad), "order")
    refs.check_file(F, R, "c42", "destructor specification", 18)
    R.need("objects made with new", 80)
    R.need("delete expressions", 50)
    R.need("constructors of owning classes", 15)


DROP = re.compile(r"::(erase|clear|pop_back|pop_front|extract|reset|release|swap|operator=|assign|resize|insert_or_assign|remove)$")


def drops(F, f):
    """Every place where f, or a function it calls, takes a value out of a place or overwrites it: (function, node, place)."""
    seen, st, out = set(), [f], []
    while st:
        g = st.pop()
        if g["id"] in seen:
            continue
        seen.add(g["id"])
        for y in nodes(g.get("body")):
            if y["k"] == "bin" and y["op"] == "=":
                out.append((g, y, y["x"]))
            elif y["k"] == "call":
                own = F.targets(y["fn"], True) if y.get("fn") else []
                if own:
                    st.extend(own)
                elif DROP.search(y.get("q") or "") and y.get("o") is not None:
                    out.append((g, y, y["o"]))
                elif (y.get("q") or "").startswith(("std::exchange", "std::swap", "std::erase")):
                    out.extend((g, y, a) for a in y.get("a") or [])
    return out


def guards(f, n):
    """The conditional branches of f a node lies in (None when it is not in f)."""
    st = [(f.get("body"), frozenset())]
    while st:
        x, c = st.pop()
        if x is n:
            return c
        if isinstance(x, list):
            st.extend((v, c) for v in x)
        elif isinstance(x, dict):
            k = x.get("k")
            for key, v in x.items():
                if isinstance(v, (dict, list)):
                    inner = c
                    if k == "if" and key in ("t", "e", "then", "else", "th", "el") or k in ("for", "while", "rfor", "do", "switch") and key in ("body", "b"):
                        inner = c | {(id(x), key)}
                    st.append((v, inner))
    return None


def ends(F, R, dtor):
    """Classes whose destructor is specified keep one; the destructor of every other class of the baseline does nothing of its own."""
    spec = {l[4:].strip().rpartition("::~")[0] for l in open(os.path.join(refs.REFDIR, "c42.cpp")) if l.startswith("//= ") and "::~" in l}
    spec.add("s2e::sample::SampleComponents")     # decided object by object (release, double): one of its objects is a known finding
    for cls in sorted(spec):
        if cls in F.classes and cls not in dtor:
            R.violation("end/" + cls, F.rel(F.classes[cls]["file"]) + ":" + str(F.classes[cls]["l"]), "%s no longer has a destructor: what it registered or owns is not released" % cls, "end")
    base = refs.shape()
    for cls, f in sorted(dtor.items()):
        if cls in spec or cls.split("<")[0] not in base and cls not in base:
            continue
        R.count("destructors that do nothing of their own")
        if not any(y["k"] in ("call", "del", "bin", "un", "throw") for y in nodes(f.get("body"))):
            continue
        try:
            a = refs.interpret1(F, f, [], refs.THIS, refs.inline_all(F, set()), cls, {}, {}, {}, f["q"], False)
            es = refs.effects(F, a)
        except Exception as e:
            R.notes.append("not decided: %s (%s)" % (f["q"], type(e).__name__))
            continue
        known = base.get(cls, {}).get("f", {})
        for e in es:
            d = [y for y in nodes(e[5].get("node"))] if e[0].startswith("<delete") else []
            fs = {y.get("f", "").rsplit("::", 1)[-1] for y in d if y["k"] == "mem"}
            if fs and not fs & set(known):
                continue        # a new member that this class owns
            R.violation("end/%s/%s" % (cls, e[0]), F.where(f), "the end of life of %s does %s, which its specification does not say" % (cls, refs.show(e)[:150]), "end")
            break


def static(F, fld):
    c, n = fld.rsplit("::", 1)
    return any(x["n"] == n and x.get("static") for x in F.classes.get(c, {}).get("fields", []))


def field(F, fld):
    c, n = fld.rsplit("::", 1)
    for x in F.classes.get(c, {}).get("fields", []):
        if x["n"] == n:
            return x
    return {}


def scalar(F, fld):
    return (field(F, fld).get("t") or "").rstrip().endswith("*")


def default(F, fld):
    return bool(field(F, fld).get("init") or field(F, fld).get("di"))


def given(F, k):
    """Members given a value on some path of a constructor, the functions it calls on its own object included (base constructors excluded)."""
    out = set()
    cls = k["cls"]
    own = {cls} | set(F.bases(cls))
    seen, st = set(), [k]
    while st:
        g = st.pop()
        if g["id"] in seen:
            continue
        seen.add(g["id"])
        for i in g.get("in") or []:
            if i.get("f") and i.get("e") is not None:
                out.add(i["f"])
            if i.get("e") and i["e"].get("fn") in F.funcs and F.funcs[i["e"]["fn"]].get("cls") in own:
                st.append(F.funcs[i["e"]["fn"]])
        for y in nodes(g.get("body")):
            if y["k"] == "bin" and y["op"] == "=":
                x = y["x"]
                while x.get("k") in ("cast",):
                    x = x["e"]
                if x.get("k") == "mem" and x.get("f"):
                    out.add(x["f"])
            if y["k"] == "call" and y.get("fn") in F.funcs and F.funcs[y["fn"]].get("cls") in own:
                st.append(F.funcs[y["fn"]])
    return out


def users(F, W, t, fi):
    """A member through which the end of life of t (or of a class derived from it) calls the object that the members fi hold."""
    for c in [t] + F.derived(t):
        for b in [c] + F.bases(c):
            d = [f for f in F.funcs.values() if f["k"] == "dtor" and f["cls"] == b]
            for f in d:
                for g in closure(F, f, b):
                    for y in nodes(g.get("body")):
                        if y["k"] == "call" and (y.get("o") or {}).get("k") == "mem" and ptr(y["o"].get("t")):
                            m = ("F", y["o"].get("f"))
                            for s, e in [(s, e) for s, e in W.sites]:
                                to = W.reach(("S", s["id"], id(e)))
                                if m in to and any(("F", x) in to for x in fi) and m[1] not in fi:
                                    return m[1]
    return None


if __name__ == "__main__":
    report.run("C42", check,
               "Every destructor matches ref/c42.cpp; release, double, virtual, form, copy, set, stale and order rules over the points-to graph of the whole program",
               "Destructors compared by Herbrand abstract interpretation; ownership rules on a flow-insensitive points-to graph built from the syntax trees; nothing is executed")
