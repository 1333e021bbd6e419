"""Canonical form of provenance terms, used to compare a function with its reference specification.

Two terms with the same canonical form denote the same value for every input (over the reals, with uninterpreted
library functions).  Canonicalised: sums and products (as polynomials over opaque atoms), conditionals (as ordered
decision diagrams), loops (as systems of recurrences up to bisimulation), element-wise vector code.
"""
import math
from sym import CACHES, I, keeps_size, local_root, is_c, key, mk_op, mk_not, walk, TRUE, FALSE, c, sig_types
from norm import num, subst
from sem import Sem, V, kind, K, root, rnd as _r

ROUNDS = 4
MATHF = {"fabs": "abs", "fmax": "max", "fmin": "min", "length": "size"}


def cname(n):
    b = n.split("(")[0]
    if b.startswith("s2e::") or b.startswith("ref::"):
        return n
    if "operator" in b:
        h, _, t = b.partition("operator")
        return strip_targs(h).rsplit("::", 2)[-2 if "::" in h else -1] + "::operator" + t
    st = b.startswith("std::") or "::" not in b
    b = strip_targs(b)
    if st:
        b = b.rsplit("::", 1)[-1]
    return MATHF.get(b, b)


def at_end(x):
    """The end of a container."""
    return x[0] == "call" and x[1] in ("end", "cend") and not x[3]


def is_position(x):
    """The position of an element."""
    return x[0] == "iter" or x[0] == "first" and x[-1][0] == "iter"


def next_of(y, x):
    """y is the iterator after x."""
    if y[0] == "obj" and x[0] == "obj" and y[1] == x[1] and len(y[2]) == len(x[2]) == 1:
        return next_of(y[2][0], x[2][0])
    return y[0] == "call" and isinstance(y[1], str) and y[1].split("(")[0].endswith("operator+") and len(y[3]) == 1 and y[2] == x and num(y[3][0]) == 1.0


def is_begin(y, s):
    if y[0] == "obj" and len(y[2]) == 1:
        return is_begin(y[2][0], s)
    return y[0] == "call" and isinstance(y[1], str) and y[1].split("(")[0].rsplit("::", 1)[-1] in ("begin", "cbegin") and not y[3] and I(y[2]) == s


def chain(x, kind):
    """The values x is an update of, with the writes on top of each (latest first)."""
    out, w = [(x, [])], []
    while x[0] == kind:
        w = w + ([(x[2], x[3])] if all(i != x[2] for i, _ in w) else [])
        x = x[1]
        out.append((x, w))
    return out


def strip_targs(b):
    d, out = 0, ""
    for ch in b:
        d += ch == "<"
        if d == 0:
            out += ch
        d -= ch == ">"
    return out


ARITH = {"sum", "prod", "list", "idx", "upd", "min", "max", "clamp", "obj", "call"}
NLIFT = 4


def mathfn(nm):
    return nm in ("abs", "sqrt", "pow", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "exp", "log", "log10", "fmod", "floor", "ceil", "round") or nm.startswith("s2e::math::")


class _Own:
    def get(self, k):
        return I(("rv0", "own"))


_OWN = _Own()


class NF:
    def __init__(self, S, F, rename=None, reps=None):
        self.S, self.F = S, F
        self.env = {}          # loop id -> {variable: colour}
        self.memo = {}
        self.stamps, self.stampof, self.dmemo, self.closure = {}, {}, {}, {}
        self.rename = rename or {}
        self.bsz = 0
        self.sem = Sem(self)
        self.keep = []
        self.smemo, self.pmemo = {}, {}
        self.reps = {} if reps is None else reps

    def __call__(self, t):
        return self.nf(t)

    # ------------------------------------------------------------ driver
    def nf(self, t):
        if not isinstance(t, tuple):
            return t
        t = I(t)
        k = (id(t), self.ctx(t)) if self.env else (id(t), ())
        m = self.memo.get(k)
        if m is None:
            m = self.memo[k] = self.unify(I(self._nf(t)))
        return m

    def unify(self, m):
        """Value numbering: arithmetic terms that are the same rational function share one representative."""
        h = m[0] if m else None
        if h not in ARITH:
            return m
        if h == "call" and (not isinstance(m[1], str) or not mathfn(m[1])):
            return m
        if h == "obj" and kind(m[1]) is None:
            return m
        if h in ("upd", "idx") and not isinstance(self.sem.val(m[1]), V):
            return m
        v = self.sem.val(m)
        if isinstance(v, V):
            fp = v.fp()
            if v.zero():
                return I(("c", 0.0))
        else:
            fp = v
            if v == 0:
                return I(("c", 0.0))
        r = self.reps.get(fp)
        if r is None:
            r = self.reps[fp] = m
        return r

    def with_env(self, lid, cols, fn):
        old = self.env.get(lid), self.stamps.get(lid)
        self.env[lid] = cols
        k = (lid,) + (tuple(cols.values()) if type(cols) is dict else ("own",))
        self.stamps[lid] = self.stampof.setdefault(k, len(self.stampof))
        try:
            return fn()
        finally:
            if old[0] is None:
                del self.env[lid], self.stamps[lid]
            else:
                self.env[lid], self.stamps[lid] = old

    def ctx(self, t):
        """The part of the loop environment the term depends on."""
        dp = self.deps(t)
        return tuple(self.stamps[l] for l in self.env if l in dp) if dp else ()

    def direct(self, t):
        r = self.dmemo.get(t)
        if r is None:
            r = _NONE
            for x in t:
                if isinstance(x, tuple):
                    y = self.direct(x)
                    if y and not y <= r:
                        r = r | y if r else y
            if t and t[0] in ("lv", "aft", "some", "first") and t[1] in self.S.loopdefs:
                r = r | {t[1]}
            self.dmemo[t] = r
        return r

    def deps(self, t):
        d = self.direct(t)
        if not d:
            return d
        r = self.closure.get(d)
        if r is None:
            seen, st = set(), list(d)
            while st:
                l = st.pop()
                if l not in seen:
                    seen.add(l)
                    ld = self.S.loopdefs[l]
                    for x in [ld["over"], ld["cond"], ld["brk"], ld["ret"]] + [y for v in ld["vals"].values() for y in v] + list(ld["vals"]):
                        if x is not None:
                            st.extend(self.direct(I(x)))
            r = self.closure[d] = frozenset(seen)
        return r

    def _nf(self, t):
        if not t:
            return t
        h = t[0]
        if h == "c":
            if isinstance(t[1], bool) or not isinstance(t[1], (int, float)):
                return t
            return ("c", _r(t[1]))
        if h == "glob":
            g = self.F.globals.get(t[1])
            if g and (g.get("c") or self.F.frozen(g)):
                cv = (g.get("init") or {}).get("cv", g.get("cv"))
                if isinstance(cv, (int, float)):
                    return ("c", _r(float(cv)))
            return t
        if self.whole is not None and (h == "this" or h == "deref" and t[1][0] == "this"):
            return self.whole
        if h == "fld" and t is self.whole:
            return t
        if h == "fld" and len(t) == 3:
            f = self.F.allfields.get(t[2])
            if f and f.get("c") and f.get("init") and t[2] in self.const_members():
                v = (f["init"].get("cv", f["init"].get("v")))
                if isinstance(v, (int, float)) and not isinstance(v, bool):
                    return ("c", _r(float(v)))
        if h in ("fld", "fldv") and t[2].startswith("s2e::math::") and t[2].rsplit("::", 1)[-1] in ("vector_", "matrix_") and t[1][0] != "this" and self.whole is not t:
            return self.nf(t[1])        # a vector is its elements
        if h == "addr" and local_root(t[1]):
            return ("addr", "local")
        if h == "fld" and len(t) == 3 and t[1][0] == "addrof":
            return self.nf(I(("fldv", t[1][1], t[2])))
        if h == "mut":
            return self.mut(t)
        if h == "empty" and t[1].startswith(SEQ):
            return ("vec",)
        if h in ("p", "this", "enum", "static", "func"):
            return self.rename.get(t, t)
        if h == "iv":
            s = self.nf(t[1])
            if self.peeled(t[4]):
                i = I(("iv", I(self.sum([(1.0, self.count(t)), (1.0, I(("c", -1.0)))])), ("loop", t[4][-1])))
                return self.sum([(1.0, s), (1.0, I(("c", 1.0))), (1.0, i)])
            i = I(("iv", self.count(t), ("loop", t[4][-1])))
            return i if num(s) == 0.0 else self.sum([(1.0, s), (1.0, i)])
        if h == "loop":
            return ("loop", t[-1])
        if h == "aft":
            return self.fix(t)
        if h == "lv":
            return self.cur(t)
        if h == "un" and t[1] == "-":
            return self.prod([("c", -1.0), self.nf(t[2])], [])
        if h == "op":
            op = t[1]
            if op in ("&&", "||", "==", "!=", "<", "<="):
                return self.boolean(t)
            a, b = self.nf(t[2]), self.nf(t[3])
            if op == "*":
                return self.prod([a, b], [])
            if op == "/":
                return self.prod([a], [b])
            if op == "+":
                return self.sum([(1.0, a), (1.0, b)])
            if op == "-":
                return self.sum([(1.0, a), (-1.0, b)])
            if op == "<<" and num(b) is not None and 0 <= num(b) < 31:
                return self.prod([("c", float(1 << int(num(b)))), a], [])
            return mk_op(op, a, b)
        if h == "not":
            return self.boolean(t)
        if h == "phi":
            return self.ite(self.bform(t[1]), self.nf(t[2]), self.nf(t[3]))
        if h == "call" and isinstance(t[1], str):
            return self.call(t)
        if h == "idx":
            return self.idx(self.nf(t[1]), self.nf(t[2]))
        if h == "undef":
            return ("undef",)
        if h == "some":
            return self.boolean(t)
        if h == "first":
            return self.first(t)
        if h == "updf":
            return self.updf(t)
        if h == "upd":
            return self.upd(t)
        if h == "fldv":
            return self.fldv(self.nf(t[1]), t[2])
        if h == "obj":
            return self.obj(t)
        if h == "narrow":
            return self.narrow(t[1], self.nf(t[2]))
        return tuple(self.nf(x) if isinstance(x, tuple) else x for x in t)

    def narrow(self, w, x):
        """x modulo 2^w."""
        n = num(x)
        if n is not None and n == int(n) and (w > 0 or 0 <= n < 1 << (-w - 1)):
            return x if w < 0 else I(("c", float(int(n) % (1 << w))))
        if x[0] == "phi":
            r = self.liftphi([x], lambda ys: self.narrow(w, ys[0]))
            if r is not None:
                return r
        if x[0] == "narrow" and (x[1] == w or 0 < x[1] < w):
            return x
        if w == 8 and ((self.ctype(x) if x[0] not in ("sum", "prod") else None) or "").replace("const ", "").strip() in ("unsigned char", "bool"):
            return x
        if x[0] == "iv" and w == 8 and (self.ctype(x[1]) or "").replace("const ", "").strip() == "unsigned char":
            return x
        if x[0] == "narrow" and abs(x[1]) >= abs(w):
            return self.narrow(w, x[2])
        if x[0] == "sum" and any(y[0] == "narrow" and abs(y[1]) >= abs(w) and cf == int(cf) for cf, y in x[2]):
            return self.narrow(w, self.sum([(1.0, I(("c", x[1])))] + [(cf, y[2] if y[0] == "narrow" and abs(y[1]) >= abs(w) and cf == int(cf) else y) for cf, y in x[2]]))
        return I(("narrow", w, x))

    def const_members(self):
        """Const members with an in-class initializer that no constructor overrides."""
        F = self.F
        if not hasattr(F, "_constm"):
            ov = set()
            for f in F.funcs.values():
                if f["k"] == "ctor":
                    for i in f.get("in") or []:
                        if i.get("w") and i.get("f"):
                            ov.add(i["f"])
            F._constm = {q for q, f in F.allfields.items() if f.get("c") and f.get("init") and q not in ov}
        return F._constm

    # ------------------------------------------------------------ loops
    def colours(self, lid):
        d = self.S.loopdefs[lid]
        kns = list(d["vals"])
        # a location whose address varies with the loop starts from "some element"
        start = self.with_env(lid, _OWN, lambda: {k: self.nf(d["vals"][k][1]) for k in kns})
        if d["over"] is None and (d["cond"] is None or d["cond"] == TRUE):
            # the loop is left in its body only: what a variable held before is lost when no iteration reads it
            read = set()
            for t in [x for k in kns for x in (d["vals"][k][0], d["vals"][k][2])] + [x for x in (d["brk"], d["ret"]) if x is not None]:
                for x in walk(I(t)):
                    if len(x) > 2 and x[0] == "lv" and x[1] == lid:
                        read.add(x[2])
            for k in kns:
                if k not in read and d["vals"][k][2] != ("none",):
                    start[k] = I(("undef",))
        cols = {k: I(("rv0", start[k])) for k in kns}
        for _ in range(ROUNDS):
            def rnd():
                return {k: I(("rv", start[k], self.nf(d["vals"][k][0]))) for k in kns}
            cols = self.with_env(lid, cols, rnd)
        return cols

    def loopenv(self, lid):
        ck = ("colours", id(lid), self.ctx(I(("some", lid, TRUE))))
        r = self.memo.get(ck)
        if r is None:
            cols = self.colours(lid)
            d = self.S.loopdefs[lid]

            def hd():
                brk = [x for x in (d["brk"],) if x is not None]
                ext = [x for x in (d["brk"], d["ret"]) if x is not None]
                return (self.nf(d["cond"]) if d["cond"] is not None else None, self.nf(brk[0]) if brk else None,
                        self.nf(mk_op("||", *ext) if len(ext) == 2 else ext[0]) if ext else None)
            cond, brk, ext = self.with_env(lid, cols, hd)
            if cond == TRUE:
                cond = None
            over = self.domain(d["over"]) if d["over"] is not None else None
            if over is not None and self.peeled(lid):
                over = I(self.sum([(1.0, over), (1.0, I(("c", -1.0)))]))
            r = self.memo[ck] = (cols, cond, brk, over, ext)
        return r

    def peeled(self, lid):
        """The first iteration of the loop changes nothing: it may as well start at the next index."""
        r = self.memo.get(("peel", lid))
        if r is None:
            self.memo[("peel", lid)] = False
            r = self.memo[("peel", lid)] = self.peeled1(lid)
        return r

    def peeled1(self, lid):
        d = self.S.loopdefs.get(lid)
        if d is None or d["over"] is None or d["over"][0] != "range" or d["brk"] is not None or d["ret"] is not None or d["cond"] is not None or not d["vals"]:
            return False
        m, todo = {}, []
        for kn, (body, sv, bv) in d["vals"].items():
            lv = I(("lv", lid, kn, sv))
            if body[0] == "op" and body[1] == "+" and any(a == ("c", 1) and b[0] == "iv" and b[4] == lid for a, b in (body[2:4], body[3:1:-1])) and kn[0] == "local" and kn[1] == 0:
                continue        # the counter itself
            if body[0] != "phi" or lv not in (body[2], body[3]):
                return False
            m[lv] = sv
            todo.append((body, sv))
        for body, sv in todo:
            for x in walk(body):
                if isinstance(x, tuple) and x:
                    if x[0] in ("aft", "some", "first") or x[0] == "lv" and I(x) not in m:
                        return False
                    if x[0] == "iv" and len(x) > 4:
                        if x[4] != lid:
                            return False
                        m[I(x)] = x[1]
        for e in self.S.events:
            if any(x[0] is lid or x[0] == lid for x in e["loops"]) and (e["kind"] in ("stream", "new", "del", "outarg") or e["kind"] == "call" and not e["inl"] and not e["q"].startswith("std::") and "::" in e["q"]):
                return False
        return bool(todo) and all(self.nf(I(subst(body, m))) == self.nf(sv) for body, sv in todo)

    def count(self, t):
        """Number of iterations of i = t[1]; i t[3] t[2]; ++i (from start to bound)."""
        s, b = self.nf(t[1]), self.nf(t[2])
        return I(self.sum([(1.0, b), (-1.0, s), (1.0, I(("c", 1.0 if t[3] == "<=" else 0.0)))]))

    def domain(self, t):
        """What a loop walks over: so many elements (replacing elements of a container does not change it)."""
        if t[0] == "range":
            return self.count(t)
        return self.nf(I(("call", "size", t, ())))

    def shape(self, t):
        while True:
            if t[0] == "upd":
                t = t[1]
            elif t[0] in ("aft", "lv"):
                kn = t[5] if t[0] == "aft" else t[2]
                d = self.S.loopdefs.get(t[1])
                if d is None or kn not in d["vals"]:
                    return t
                sv = t[4] if t[0] == "aft" else t[3]
                lv = I(("lv", t[1], kn, sv))
                b, _, br = d["vals"][kn]
                if not all(x == ("none",) or keeps_size(x, lv) for x in (b, br)):
                    return t
                t = sv
            else:
                return t

    def exits(self, lid, cnd):
        """(domain, loop condition, other exits, cnd) of 'cnd in some iteration of the loop'."""
        cols, cond, brk, over, ext = self.loopenv(lid)
        body = self.with_env(lid, cols, lambda: self.nf(cnd))
        return over, cond, None if ext == body else ext, body

    def some(self, over, cond, ext, body, depth):
        if body == FALSE:
            return False
        return ("atom", self.bind(depth, "some", over, cond, ext, body))

    def pick(self, over, cond, ext, body, v, depth):
        """Value of v in the first iteration in which body holds."""
        if not self.varies(v, over, depth):
            return v
        if v[0] == "mut" and "::erase" in v[1] and len(v[3]) == 1 and not self.varies(v[2], over, depth):
            return I(("mut", v[1], v[2], (self.pick(over, cond, ext, body, v[3][0], depth),)))
        return self.bind(depth, "first", over, cond, ext, body, v)

    def first(self, t):
        lid = t[1]
        if lid not in self.S.loopdefs:
            return ("first?",) + tuple(self.nf(x) for x in t[2:])
        over, cond, ext, body = self.exits(lid, t[2])
        v = self.with_env(lid, self.loopenv(lid)[0], lambda: self.nf(t[3]))
        return self.pick(over, cond, ext, body, v, lid[-1])

    def varies(self, v, over, depth):
        """The value refers to the element, index or state of a loop at this nesting depth."""
        ck = ("varies", id(v), over, depth)
        r = self.memo.get(ck)
        if r is None:
            lp = ("loop", depth)
            r = False
            for x in walk(v):
                if isinstance(x, tuple) and x and (x[0] == "iv" and x[2] == lp or x[0] == "var" and x[1] == depth or x[0] == "lv?"):
                    r = True
                    break
            self.memo[ck] = r
            self.keep.append(v)
        return r

    def updf(self, t):
        fs = {}
        b = t
        while b[0] == "updf":
            fs.setdefault(b[2], b[3])
            b = b[1]
        r = self.nf(b)
        for f in sorted(fs):
            v = self.nf(fs[f])
            if f.startswith("s2e::math::") and f.rsplit("::", 1)[-1] in ("vector_", "matrix_"):
                r = v
            elif v != self.nf(I(("fldv", b, f))):
                r = I(("updf", r, f, v))
        return r

    def fix(self, t):
        lid, kn = t[1], t[5]
        if lid not in self.S.loopdefs or kn not in self.S.loopdefs[lid]["vals"]:
            return ("aft?",) + tuple(self.nf(x) if isinstance(x, tuple) else x for x in t[2:5])
        cols, cond, brk, over, ext = self.loopenv(lid)
        r = self.scan(lid, kn, t[4])
        if r is not None:
            return r
        bv = self.with_env(lid, cols, lambda: self.nf(self.S.loopdefs[lid]["vals"][kn][2]))     # (what it is set to on the way out is not seen by the iterations)
        return self.bind(lid[-1], "fix", over, cond, brk, cols[kn], bv)

    def scan(self, lid, kn, start):
        """Loops that search: the variable keeps its value until (or unless) some iteration sets it."""
        d = self.S.loopdefs[lid]
        cols, cond, brk, over, ext = self.loopenv(lid)
        end, sv, bv = d["vals"][kn]
        lv = I(("lv", lid, kn, sv))
        none = ("none",)
        if d["brk"] is not None and end == lv and bv != none:
            o, cn, ex, body = self.exits(lid, d["brk"])
            v = self.with_env(lid, cols, lambda: self.nf(bv))
            if v == self.with_env(lid, cols, lambda: self.nf(lv)):
                return self.nf(sv)
            return self.ite(self.some(o, cn, ex, body, lid[-1]), self.pick(o, cn, ex, body, v, lid[-1]), self.nf(sv))
        if d["brk"] is None and end != none and cond is None:
            v = self.with_env(lid, cols, lambda: self.nf(lv))
            e = self.with_env(lid, cols, lambda: self.nf(end))
            if e == v:
                return self.nf(sv)
            t, f = dassume(e, v, True), dassume(e, v, False)
            if t == TRUE and f != TRUE and not mentions(f, v):      # flag = flag || f
                return self.ite(("or", self.bform(sv), self.some(over, cond, ext, f, lid[-1])), TRUE, FALSE)
            if f == FALSE and t != FALSE and not mentions(t, v):    # flag = flag && t
                n = self.ite(("neg", self.unbool(t)), TRUE, FALSE)
                return self.ite(("and", self.bform(sv), ("neg", self.some(over, cond, ext, n, lid[-1]))), TRUE, FALSE)
            if cond is None and ext is None:
                r = self.total(e, v, over, lid[-1], sv) or self.table(e, v, over, lid[-1], sv)
                if r is not None:
                    return r
            # x = K in some iterations
            lf = leaves(e)
            if v in lf and len(lf) == 2:
                k = [x for x in lf if x != v][0]
                cn = keepif(e, v)
                if not self.varies(k, over, lid[-1]) and not mentions(cn, v):
                    return self.ite(("neg", self.some(over, cond, ext, self.ite(("neg", self.unbool(cn)), TRUE, FALSE), lid[-1])), self.nf(sv), k)
        return None


    def counter(self, lid, kn):
        """A variable that is incremented in every iteration is a linear function of the iteration number."""
        d = self.S.loopdefs.get(lid)
        if d is None or kn not in d["vals"] or d["over"] is None:
            return None
        b, s, k = d["vals"][kn]
        w = None
        if b[0] == "narrow":
            w, b = b[1], b[2]
        if not (b[0] == "op" and (b[1] == "+" and {b[2][0], b[3][0]} == {"lv", "c"} or b[1] == "-" and b[2][0] == "lv" and b[3][0] == "c")):
            return None
        v, one = (b[2], b[3]) if b[2][0] == "lv" else (b[3], b[2])
        sg = -1.0 if b[1] == "-" else 1.0
        if v[1] != lid or v[2] != kn or isinstance(one[1], (bool, str, float)) or one[1] is None:
            return None
        i = I(("iv", self.domain(d["over"]), ("loop", lid[-1])))
        r = I(self.sum([(1.0, self.nf(s)), (sg * float(one[1]), i)]))
        return r if w is None else I(self.narrow(w, r))

    def cur(self, t):
        lid, kn = t[1], t[2]
        ct = self.counter(lid, kn)
        if ct is not None:
            return ct
        d = self.S.loopdefs.get(lid)
        if d is not None and kn in d["vals"] and d["vals"][kn][0] == t:
            return self.nf(t[3])        # changed only on the way out
        if lid in self.env:
            v = self.env[lid].get(kn)
            if v is not None:
                return ("var", lid[-1], v)
        if d is None or kn not in d["vals"]:
            return ("lv?", lid[-1], self.nf(t[3]))
        return ("var", lid[-1], self.loopenv(lid)[0][kn])

    def total(self, e, v, over, depth, sv):
        """x = x + d in every iteration, d not depending on x: start + sum of d, invariant factors taken out of the sum."""
        if e[0] not in ("sum", "phi"):
            return None
        d = I(self.sum([(1.0, e), (-1.0, v)]))
        if mentions(d, v):
            return None
        n = self.nonneg1(over)
        if num(d) is not None:
            return I(self.sum([(1.0, self.nf(sv)), (1.0, self.prod([d, over], []))])) if n else None
        out = [(1.0, self.nf(sv))]
        for cf, y in (list(d[2]) + ([(d[1], None)] if d[1] else [])) if d[0] == "sum" else [(1.0, d)]:
            if y is None or not self.varies(y, over, depth):
                if not n:
                    return None
                out.append((cf, self.prod(([y] if y is not None else []) + [over], [])))
                continue
            if y[0] == "prod":
                inn = [x for x in y[2] if not self.varies(x, over, depth)]
                ind = [x for x in y[3] if not self.varies(x, over, depth)]
                core = self.prod([x for x in y[2] if x not in inn], [x for x in y[3] if x not in ind])
                out.append((cf * y[1], self.prod(inn + [self.bind(depth, "total", over, I(core))], ind)))
            else:
                out.append((cf, self.bind(depth, "total", over, y)))
        return I(self.sum(out))

    def nonneg1(self, over):
        return self.nonneg(over) or (num(over) or -1) >= 0

    def table(self, e, v, over, depth, sv):
        """Every element of a sequence is set, or elements are appended to an empty one: a table indexed by the iteration."""
        s = self.nf(sv)
        i = I(("iv", over, ("loop", depth)))
        if e[0] == "push" and e[1] == v and s == ("vec",) and not mentions(e[2], v):
            return self.tab(over, e[2], depth)
        if I(self.call1("size", s, ())) != over:
            return None
        x = self.newelem(e, v, s, i)
        if x is None or mentions(x, v):
            return None
        return self.tab(over, x, depth)

    def newelem(self, e, v, s, i):
        if e == v:
            return I(self.idx(s, i))
        if e[0] == "phi":
            a, b = self.newelem(e[2], v, s, i), self.newelem(e[3], v, s, i)
            return None if a is None or b is None else self.ite(self.unbool(e[1]), a, b)
        if e[0] == "upd" and e[1] == v and e[2] == i:
            m = {I(("idx", v, i)): I(self.idx(s, i))}
            return self.rebuild(e[3], m) if mentions(e[3], v) else e[3]
        return None

    def rebuild(self, x, m):
        """Substitution in a canonical term, keeping it canonical."""
        self.amemo = {}
        return self.again(subst(x, m))

    def again(self, x):
        if not isinstance(x, tuple) or not x:
            return x
        r = self.amemo.get(id(x))
        if r is None:
            m = self.amemo
            r = self.again1(x)
            self.amemo = m
            m[id(x)] = r
            m[("keep", id(x))] = x
        return r

    def again1(self, x):
        h = x[0]
        if h == "sum":
            return I(self.sum([(1.0, I(("c", x[1])))] + [(cf, self.again(y)) for cf, y in x[2]]))
        if h == "prod":
            return I(self.prod([I(("c", x[1]))] + [self.again(y) for y in x[2]], [self.again(y) for y in x[3]]))
        if h == "idx":
            return I(self.idx(self.again(x[1]), self.again(x[2])))
        if h == "phi":
            return self.ite(self.unbool(self.again(x[1])), self.again(x[2]), self.again(x[3]))
        if h == "op" and x[1] in ("<", "=="):
            return self.boolean1(x[1], self.again(x[2]), self.again(x[3]))
        if h == "not":
            return self.ite(("neg", self.unbool(self.again(x[1]))), TRUE, FALSE)
        if h == "call" and isinstance(x[1], str):
            return I(self.call1(x[1], self.again(x[2]), tuple(self.again(y) for y in x[3])))
        if h in ("min", "max"):
            return I(self.minmax(h, self.again(x[1]), self.again(x[2])))
        if h == "fldv":
            return I(self.fldv(self.again(x[1]), x[2]))
        return I(tuple(self.again(y) if isinstance(y, tuple) else y for y in x))

    def tab(self, n, x, depth):
        return self.bind(depth, "tab", n, x, ("loop", depth)) if self.varies(I(x), n, depth) else I(("tab", n, x))

    def bind(self, depth, *t):
        """Term that binds the loop at this nesting depth: its index and state get names that do not depend on the context."""
        t = I(t)
        if not self.varies(t, None, depth):
            return t
        k = 0
        for x in walk(t):
            if len(x) == 2 and x[0] == "b":
                k = max(k, x[1] + 1)
        return self.unbind(t, depth, I(("b", k)))

    def unbind(self, t, depth, b):
        lp, memo = I(("loop", depth)), {}

        def go(x):
            if not isinstance(x, tuple) or not x:
                return x
            if x is lp:
                return b
            r = memo.get(id(x))
            if r is None:
                r = tuple(go(y) for y in x)
                if x[0] == "var" and x[1] == depth:
                    r = ("var", b) + r[2:]
                r = memo[id(x)] = I(r)
            return r
        return go(t)

    def mut(self, t):
        nm = t[1].split("(")[0]
        if not nm.startswith("std::") or "string" in nm.split("<")[0]:
            nm = t[1]
            return ("mut", nm, self.nf(t[2]), tuple(self.nf(x) for x in t[3]))
        b = strip_targs(nm).rsplit("::", 1)[-1]
        args = tuple(I(self.nf(x)) for x in t[3])
        seq = nm.startswith(SEQ) or nm == "std::fill"
        if b == "erase" and len(args) == 2 and next_of(args[1], args[0]):
            args = args[:1]
        if seq and b == "erase" and len(args) == 1:
            while args[0][0] == "obj" and "normal_iterator" in args[0][1] and len(args[0][2]) == 1:
                args = args[0][2]
            r = self.liftphi(args, lambda ys: I(("mut", nm, I(self.nf(t[2])), tuple(ys))))
            if r is not None:
                return r
        if b == "clear":
            return ("vec",) if seq else ("mut", "clear", None, ())
        s = I(self.nf(t[2]))
        if seq and b == "erase" and len(args) == 1 and is_begin(args[0], s):
            return self.erase0(s)
        if seq:
            if b in ("push_back", "emplace_back") and len(args) == 1:
                return s + (args[0],) if s[0] == "vec" else ("push", s, args[0])
            if b == "pop_back" and s[0] == "vec" and len(s) > 1:
                return s[:-1]
            if b == "assign" and len(args) == 2 and args[0][0] != "obj":
                return ("tab", args[0], args[1])
            if b == "resize" and args:
                v = args[1] if len(args) > 1 else zero_of(nm)
                return ("tab", args[0], v) if s == ("vec",) else ("resize", s, args[0], v)
            if b == "fill" and len(args) == 1:
                return ("tab", self.call1("size", s, ()), args[0])
        return ("mut", t[1], s, args)

    def erase0(self, s):
        """Sequence without its first element (only applied to non-empty ones)."""
        if s[0] == "push":
            return I(("push", self.erase0(s[1]), s[2]))
        return I(("erase0", s))

    def sized(self, x):
        """Number of elements of a canonical sequence, if it is known."""
        h = x[0]
        if h == "vec":
            return I(("c", float(len(x) - 1)))
        if h == "tab":
            return x[1]
        if h == "push":
            return I(self.sum([(1.0, self.call1("size", x[1], ())), (1.0, I(("c", 1.0)))]))
        if h == "resize":
            return x[2]
        if h == "upd":
            return I(self.call1("size", x[1], ()))
        return None

    # ------------------------------------------------------------ booleans and conditionals
    def boolean1(self, op, a, b):
        r = self.atom1(op, a, b)
        return (TRUE if r else FALSE) if isinstance(r, bool) else self.ite(r, TRUE, FALSE)

    def atom(self, t):
        if t[0] == "op" and t[1] in ("==", "<"):
            return self.atom1(t[1], I(self.nf(t[2])), I(self.nf(t[3])))
        return None

    def atom1(self, op, a, b):
        t = ("op", op, a, b)
        if a[0] == "phi" or b[0] == "phi":      # comparison of a choice between constants
            ph, o = (a, b) if a[0] == "phi" else (b, a)
            if o[0] in ("c", "enum") and all(x[0] in ("c", "enum") for x in leaves(ph)) or at_end(o) and all(x == o or is_position(x) for x in leaves(ph)):
                def go(x):
                    if x[0] == "phi":
                        u = self.unbool(x[1])
                        return ("or", ("and", u, go(x[2])), ("and", ("neg", u), go(x[3])))
                    return self.atom1(op, *((x, o) if ph is a else (o, x)))
                return go(ph)
        if op == "==" and (at_end(a) and is_position(b) or at_end(b) and is_position(a)):
            return False
        if op in ("==", "<"):
            if t[1] == "==":
                if is_c(a) and is_c(b) and a[1] is not None and b[1] is not None:
                    return a == b
                if a == b:
                    return True
                if key(b) < key(a):
                    a, b = b, a
                for x, y in ((a, b), (b, a)):     # the order of two texts is 'equal'
                    if num(x) == 0.0 and y[0] == "call" and y[1] == "compare" and len(y[3]) == 1:
                        return self.atom1("==", y[2], y[3][0])
                # comparing a Boolean with a constant
                for x, y in ((a, b), (b, a)):
                    if is_c(y) and isinstance(y[1], bool):
                        return ("atom", x) if y[1] else ("neg", ("atom", x))
            else:
                x, y = num(a), num(b)
                if x is not None and y is not None:
                    return x < y
                if x == 0.0 and self.nonneg(b):     # 0 < n for an unsigned n
                    return ("neg", self.atom1("==", a, b))
                if y == 1.0 and self.nonneg(a):     # n < 1
                    return self.atom1("==", a, I(("c", 0.0)))
                # a < b with a common sign: move a negative leading factor across
                d = self.unify(self.sum([(1.0, a), (-1.0, b)]))
                n = num(d)
                if n is not None:
                    return n < 0
                if d[0] == "phi" and len(leaves(d)) <= 4:     # comparison of a choice: case by case
                    def split(x):
                        if x[0] == "phi":
                            u = self.unbool(x[1])
                            return ("or", ("and", u, split(x[2])), ("and", ("neg", u), split(x[3])))
                        return self.atom1("<", x, I(("c", 0.0)))
                    return split(d)
                z = I(("c", 0.0))
                it = self.intcmp(d)
                if it is not None:
                    return it
                d, flip = primitive(d)
                return ("atom", I(("op", "<", z, d)) if flip else I(("op", "<", d, z)))
            return ("atom", I(("op", t[1], a, b)))
        return None

    def intcmp(self, d):
        """d < 0 for a combination d of integers, written with '<' only."""
        cs, k = (d[2], d[1]) if d[0] == "sum" else (((d[1], I(("prod", 1.0) + d[2:]) if d[3] or len(d[2]) != 1 else d[2][0]),), 0.0) if d[0] == "prod" else (((1.0, d),), 0.0)
        if any(cf != int(cf) or abs(cf) > 1e9 or not self.isint(y) for cf, y in cs) or not all(abs(cf) == abs(cs[0][0]) for cf, _ in cs):
            return None
        a = abs(cs[0][0])
        k /= a
        cs = [(cf / a, y) for cf, y in cs]
        z = I(("c", 0.0))
        if cs[0][0] > 0:      # sum + k < 0
            m, neg = math.ceil(-k), False
        else:                 # -sum + k < 0: not (sum < floor(k) + 1)
            cs, m, neg = [(-cf, y) for cf, y in cs], math.floor(k) + 1, True
        if m == 1 and len(cs) == 1 and self.nonneg(cs[0][1]):
            r = self.atom1("==", cs[0][1], z)
        else:
            r = ("atom", I(("op", "<", I(self.sum([(cf, y) for cf, y in cs] + [(-float(m), I(("c", 1.0)))])), z)))
        return ("neg", r) if neg and not isinstance(r, bool) else (not r) if neg else r

    def isint(self, x):
        h = x[0]
        if h in ("trunc", "narrow", "iv"):
            return True
        if h == "phi":
            return all(self.isint(y) if num(y) is None else num(y) == int(num(y)) for y in leaves(x))
        if h == "op":
            return x[1] in ("%", "idiv", "&", "|", "^", "<<", ">>")
        if h == "prod":
            return not x[3] and all(self.isint(y) for y in x[2])
        if h == "call" and isinstance(x[1], str) and x[1].split("(")[0].rsplit("::", 1)[-1] in ("size", "length") and not x[3]:
            return True
        if h == "total":
            return all(self.isint(y) if num(y) is None else num(y) == int(num(y)) for y in leaves(x[2]))
        if h in ("c", "sum"):
            return False
        t = self.ctype(x)
        return bool(t) and t.replace("const ", "").rstrip("&").strip() in INTS

    def bform(self, t):
        t = I(t)
        if is_c(t):
            return bool(t[1])
        if t[0] == "not":
            return ("neg", self.bform(t[1]))
        if t[0] == "op":
            if t[1] == "&&":
                return ("and", self.bform(t[2]), self.bform(t[3]))
            if t[1] == "||":
                return ("or", self.bform(t[2]), self.bform(t[3]))
            if t[1] in ("!=", "<="):
                return ("neg", self.bform(mk_not(t)))
            a = self.atom(t)
            if a is not None:
                return a
        if t[0] == "phi":
            cn = self.bform(t[1])
            return ("or", ("and", cn, self.bform(t[2])), ("and", ("neg", cn), self.bform(t[3])))
        if t[0] == "inloop":
            return True
        if t[0] == "some":
            if t[1] not in self.S.loopdefs:
                return ("atom", I(("some?", self.nf(t[2]))))
            return self.some(*self.exits(t[1], t[2]), t[1][-1])
        n = self.nf(t)
        return self.unbool(n)

    def unbool(self, n):
        if is_c(n):
            return bool(n[1])
        if n[0] == "not":
            return ("neg", self.unbool(n[1]))
        if n[0] == "phi":
            return ("or", ("and", self.unbool(n[1]), self.unbool(n[2])), ("and", ("neg", self.unbool(n[1])), self.unbool(n[3])))
        return ("atom", n)

    def boolean(self, t):
        return self.ite(self.bform(t), TRUE, FALSE)

    def ite(self, f, a, b):
        """Ordered decision diagram of 'f ? a : b' where a and b are themselves diagrams."""
        if a == b:
            return a
        f = simp(f)
        if f is True:
            return a
        if f is False:
            return b
        if boolish(a) or boolish(b):
            g = simp(("or", ("and", f, self.unbool(a)), ("and", ("neg", f), self.unbool(b))))
            if isinstance(g, bool):
                return TRUE if g else FALSE
            return self._ite(g, TRUE, FALSE, {})
        r = self._ite(f, a, b, {})
        return self.clampform(r)

    def _ite(self, f, a, b, memo):
        if f is True:
            f = None
            r = a
        elif f is False:
            f = None
            r = b
        else:
            r = None
        if r is not None:
            return self.repack(r, memo)
        if a == b:
            return self.repack(a, memo)
        k = (f, a, b)
        m = memo.get(k)
        if m is not None:
            return m
        ats = set()
        fatoms(f, ats)
        for x in (a, b):
            datoms(x, ats)
        top = min(ats, key=okey)
        f1, f0 = fassume(f, top, True), fassume(f, top, False)
        r = self.node(top, self._ite(f1, dassume(a, top, True), dassume(b, top, True), memo), self._ite(f0, dassume(a, top, False), dassume(b, top, False), memo))
        memo[k] = r
        return r

    def repack(self, r, memo):
        return r

    def at_value(self, x, d, v):
        """The term x where the quantity d has the value v."""
        if x == d:
            return I(("c", v))
        if x[0] == "sum" and any(z == d for _, z in x[2]):
            return I(self.sum([(1.0, I(("c", x[1])))] + [(cf, I(("c", v)) if z == d else z) for cf, z in x[2]]))
        return x

    def node(self, at, hi, lo):
        if hi == lo:
            return hi
        th = threshold(at) if at[0] == "op" and at[1] == "==" else None
        if th and len(th[1]) == 1 and th[1][0][0] == 1.0:
            hi = self.at_value(hi, th[1][0][1], th[2])
            if hi == lo or hi == self.at_value(lo, th[1][0][1], th[2]):
                return lo
        if at[0] == "op" and (threshold(at) or eqconst(at)):
            # a comparison that the other branch implies to be irrelevant
            if lo[0] in ("phi", "op", "not") and dassume(lo, at, True) == hi:
                return lo
            if hi[0] in ("phi", "op", "not") and dassume(hi, at, False) == lo:
                return hi
        if hi == TRUE and lo == FALSE:
            return at
        if hi == FALSE and lo == TRUE:
            return I(("not", at))
        m = self.merge(at, hi, lo)
        return I(("phi", at, hi, lo)) if m is None else m

    def merge(self, at, hi, lo):
        """A choice between variants of one vector, sequence or structure: the choice is made per element."""
        if hi[0] == "list" or lo[0] == "list":
            n = len(hi if hi[0] == "list" else lo) - 1
            for x in (hi, lo):
                if x[0] == "list" and len(x) - 1 != n or x[0] != "list" and (x[0] == "phi" or not is_zero_vec(x) and (not self.isvec(x) or (self.dim(x) or n) != n)):
                    return None
            ks = [I(("c", float(k))) for k in range(n)]
            return self.contract([self.ite(("atom", at), self.idx(hi, k), self.idx(lo, k)) for k in ks], None)
        for kind in ("upd", "updf"):
            if hi[0] != kind and lo[0] != kind:
                continue
            a, b = chain(hi, kind), chain(lo, kind)
            base = next((x for x, _ in a if any(x is y for y, _ in b)), None)
            if base is None:
                return None
            wa = next(w for x, w in a if x is base)
            wb = next(w for x, w in b if x is base)
            ix = list(dict.fromkeys([i for i, _ in wa] + [i for i, _ in wb]))
            if kind == "upd" and len(ix) > 1 and not all(is_c(i) for i in ix):
                return None
            r = base
            for i in sorted(ix) if kind == "updf" else sorted(ix, key=lambda x: (num(x) if num(x) is not None else 0.0, str(x))):
                old = None
                vs = []
                for w in (wa, wb):
                    v = next((v for j, v in w if j == i), None)
                    vs.append(v if v is not None else I(self.fldv(base, i) if kind == "updf" else self.idx(base, i)))
                r = I((kind, r, i, self.ite(("atom", at), *vs)))
            return r
        return None

    def clampform(self, r):
        if r[0] != "phi":
            return r
        at, hi, lo = r[1], r[2], r[3]
        if at[0] == "op" and at[1] == "<" and hi[0] != "phi" and lo[0] != "phi":
            z = I(("c", 0.0))
            d = at[2] if at[3] == z else self.sum([(-1.0, at[3])])   # condition: d < 0
            # x < y with d proportional to x - y
            for x, y, mm in ((hi, lo, None),):
                dif = self.sum([(1.0, x), (-1.0, y)])
                p, fl = primitive(dif)
                q, fq = primitive(d)
                if p == q and p[0] != "c":
                    # d = k (x - y); k > 0 iff the flips agree
                    return self.minmax("min" if fl == fq else "max", x, y)
            # |x| patterns
            if self.sum([(1.0, hi), (1.0, lo)]) == I(("c", 0.0)):
                p, fl = primitive(hi)
                q, fq = primitive(d)
                if p == q:
                    # d<0 with d = k hi
                    return self.abs_(hi) if fl != fq else self.prod([("c", -1.0), self.abs_(hi)], [])
            # clamp: nested
            r2 = self.clamp3(d, hi, lo)
            if r2 is not None:
                return r2
        return r

    def abs_(self, x):
        n = num(x)
        if n is not None:
            return I(("c", abs(n)))
        if x[0] == "prod":
            return self.prod([("c", abs(x[1]))] + [self.abs_(y) for y in x[2]], [self.abs_(y) for y in x[3]])
        if x[0] == "call" and x[1] in ("abs", "sqrt", "exp"):
            return x
        if x[0] == "sum":
            p, k = content(x)
            return self.prod([("c", abs(k)), I(("call", "abs", ("noobj",), (p,)))], [])
        return I(("call", "abs", ("noobj",), (x,)))

    def clamp3(self, d, hi, lo):
        """phi(v < l, l, min(v, h)), phi(v < l, l, phi(h < v, h, v)) and mirrored -> max(l, min(v, h))."""
        for sgn, outer, inner in ((1, hi, lo), (-1, lo, hi)):
            # sgn=1: d<0 selects outer (hi), else inner
            if inner[0] in ("min", "max") and len(inner) == 3:
                for v, h in ((inner[1], inner[2]), (inner[2], inner[1])):
                    dif = self.sum([(1.0, v), (-1.0, outer)])
                    p, fl = primitive(dif)
                    q, fq = primitive(d)
                    if p != q or p[0] == "c":
                        continue
                    less = (fl == fq) == (sgn == 1)     # condition selecting outer is v < outer
                    want = "max" if less else "min"
                    if want != inner[0]:
                        l, hh = (outer, h) if less else (h, outer)
                        return self.mkclamp(v, l, hh)
        return None

    def mkclamp(self, v, l, h):
        return I(("clamp", v, l, h))

    # ------------------------------------------------------------ arithmetic
    def liftphi(self, xs, fn):
        """fn over arguments some of which are diagrams, as a diagram (None if there is none or it would be too large)."""
        ph = [x for x in xs if isinstance(x, tuple) and x[0] == "phi"]
        if not ph:
            return None
        ats = set()
        for x in ph:
            datoms(x, ats)
        if len(ats) > NLIFT:
            return None
        top = min(ats, key=okey)

        def go(val):
            ys = [dassume(x, top, val) if isinstance(x, tuple) and x[0] == "phi" else x for x in xs]
            return self.unify(fn(ys))
        return self.ite(("atom", top), go(True), go(False))

    def sum(self, items):
        items = [(cf, I(x)) for cf, x in items]
        k = tuple(items)
        r = self.smemo.get(k)
        if r is None:
            r = self.smemo[k] = self.sum1(items)
        return r

    def sum1(self, items):
        r = self.liftphi([x for _, x in items], lambda ys: self.sum([(cf, y) for (cf, _), y in zip(items, ys)]))
        if r is not None:
            return r
        if any(x[0] == "list" for _, x in items):
            r = self.elementwise(lambda k: self.sum([(cf, self.idx(x, k)) for cf, x in items]), [x for _, x in items])
            if r is not None:
                return r
        acc, big, const, cbig = {}, {}, 0.0, 0.0
        st = [(cf, I(x)) for cf, x in items]

        def put(x, cf):
            acc[x] = acc.get(x, 0.0) + cf
            big[x] = max(big.get(x, 0.0), abs(cf))
        while st:
            cf, x = st.pop()
            v = num(x)
            if v is not None:
                const += cf * v
                cbig = max(cbig, abs(cf * v))
            elif x[0] == "sum":
                const += cf * x[1]
                cbig = max(cbig, abs(cf * x[1]))
                st.extend((cf * c2, y) for c2, y in x[2])
            elif x[0] == "prod":
                b = I(("prod", 1.0, x[2], x[3])) if x[3] or len(x[2]) != 1 else x[2][0]
                put(b, cf * x[1])
            elif is_zero_vec(x):
                continue
            else:
                put(x, cf)
        if abs(const) <= 1e-9 * cbig:
            const = 0.0
        parts = sorted(((_r(cf), x) for x, cf in acc.items() if abs(cf) > 1e-9 * big[x]), key=lambda p: key(p[1]))
        if not parts:
            return I(("c", _r(const)))
        if len(parts) == 1 and const == 0:
            return self.prod([("c", parts[0][0]), parts[0][1]], [])
        return I(("sum", _r(const), tuple(parts)))

    def elementwise(self, fn, xs):
        """Vector arithmetic some operand of which is written as a list of its elements."""
        n = {len(x) - 1 for x in xs if x[0] == "list"}
        if len(n) != 1 or not all(x[0] == "list" or is_zero_vec(x) or self.isvec(x) for x in xs):
            return None
        n = n.pop()
        return self.contract([I(fn(I(("c", float(k))))) for k in range(n)], None)

    def prod(self, nums, dens):
        nums, dens = [I(x) for x in nums], [I(x) for x in dens]
        k = (tuple(nums), tuple(dens))
        r = self.pmemo.get(k)
        if r is None:
            r = self.pmemo[k] = self.prod1(nums, dens)
        return r

    def prod1(self, nums, dens):
        xs = nums + dens
        r = self.liftphi(xs, lambda ys: self.prod(ys[:len(nums)], ys[len(nums):]))
        if r is not None:
            return r
        ls = [x for x in xs[:len(nums)] if x[0] == "list"]
        if len(ls) == 1 and all(self.isscalar(x) for x in xs if x is not ls[0]):
            return self.contract([I(self.prod([self.idx(x, I(("c", float(k)))) if x is ls[0] else x for x in xs[:len(nums)]], xs[len(nums):])) for k in range(len(ls[0]) - 1)], None)
        coef, n, d, sums = 1.0, [], [], []

        def add(x, inv):
            nonlocal coef
            x = I(x)
            v = num(x)
            if v is not None and not (inv and v == 0):
                coef = coef / v if inv else coef * v
                return
            if x[0] == "prod":
                coef = coef / x[1] if inv else coef * x[1]
                for y in x[2]:
                    add(y, inv)
                for y in x[3]:
                    add(y, not inv)
                return
            if x[0] == "sum":
                if inv:
                    p, k = content(x)
                    coef /= k
                    d.append(p)
                else:
                    sums.append(x)
                return
            (d if inv else n).append(x)
        for x in nums:
            add(x, False)
        for x in dens:
            add(x, True)
        # cancel common factors
        for x in list(d):
            for y in sums:
                p, k = content(y)
                if p == x:
                    coef *= k
                    sums.remove(y)
                    d.remove(x)
                    break
            else:
                if x in n:
                    n.remove(x)
                    d.remove(x)
        if coef == 0:
            return I(("c", 0.0))
        for xs in (n, d):
            ab = next((x for x in xs if x[0] == "call" and x[1] == "abs" and xs.count(x) > 1), None)
            if ab is not None:      # |x|^2 = x^2
                xs.remove(ab)
                xs.remove(ab)
                xs += [ab[3][0]] * 2
                return self.prod([("c", coef)] + n + sums, d)
        if sums:
            tot = 1
            for x in sums:
                tot *= len(x[2]) + (1 if x[1] else 0)
            if tot <= 40:
                terms = [(coef, [])]
                for x in sums:
                    opts = [(cf, y) for cf, y in x[2]] + ([(x[1], None)] if x[1] else [])
                    terms = [(a * cf, fs + ([y] if y is not None else [])) for a, fs in terms for cf, y in opts]
                return self.sum([(a, self.prod(list(n) + fs, list(d))) for a, fs in terms])
            for x in sums:
                p, k = content(x)
                coef *= k
                n.append(p)
        k = sq(n, d)
        if k is not None:
            return self.prod([("c", coef * k)] + n, d)
        if not n and not d:
            return I(("c", _r(coef)))
        if not d and len(n) == 1 and _r(coef) == 1.0:
            return n[0]
        return I(("prod", _r(coef), tuple(sorted(n, key=key)), tuple(sorted(d, key=key))))

    # ------------------------------------------------------------ calls, vectors
    def call(self, t):
        nm = cname(t[1])
        if nm == "size":
            t = ("call", t[1], self.shape(t[2]), t[3])
        args = tuple(self.nf(x) for x in t[3])
        if nm.startswith("s2e::math::MakeIdentityMatrix") and matdim(self.ctype(t)):
            n = matdim(self.ctype(t))[0]
            return I(("list",) + tuple(I(("list",) + tuple(I(("c", float(i == j))) for j in range(n))) for i in range(n)))
        return self.call1(nm, self.nf(t[2]), args)

    def call1(self, nm, obj, args):
        if mathfn(nm):
            r = self.liftphi((obj,) + args, lambda ys: self.call1(nm, ys[0], tuple(ys[1:])))
            if r is not None:
                return r
        if nm == "size" and not args:
            if obj[0] == "phi":
                return self.ite(self.unbool(obj[1]), I(self.call1(nm, obj[2], ())), I(self.call1(nm, obj[3], ())))
            n = self.sized(obj)
            if n is not None:
                return n
        if nm in ("max", "min") and len(args) >= 2:
            return self.minmax(nm, args[0], args[1])
        if nm == "clamp" and len(args) == 3:
            return self.mkclamp(args[0], args[1], args[2])
        if nm == "pow" and len(args) == 2 and num(args[1]) is not None and num(args[1]) == int(num(args[1])) and 0 < abs(num(args[1])) <= 8:
            k = int(num(args[1]))
            return self.prod([args[0]] * k, []) if k > 0 else self.prod([], [args[0]] * -k)
        if nm == "abs" and len(args) == 1:
            return self.abs_(args[0])
        if nm == "sqrt" and len(args) == 1 and num(args[0]) is not None and num(args[0]) >= 0:
            return ("c", _r(root(num(args[0]))))
        if nm == "sqrt" and len(args) == 1 and args[0][0] == "prod" and args[0][1] > 0 and all(xs.count(x) % 2 == 0 for xs in args[0][2:4] for x in xs):
            x = args[0]     # sqrt(x^2) = |x|
            n, d = [self.abs_(y) for y in x[2][::2]], [self.abs_(y) for y in x[3][::2]]
            return self.prod([("c", root(x[1]))] + n, d)
        return ("call", nm, obj, args)

    def minmax(self, nm, x, y):
        r = self.liftphi((x, y), lambda ys: self.minmax(nm, ys[0], ys[1]))
        if r is not None:
            return r
        oth = "min" if nm == "max" else "max"
        for p, q in ((x, y), (y, x)):
            if q[0] == oth and len(q) == 3:
                # max(l, min(v, h)) and min(h, max(v, l)) are the same saturation
                v, h = q[1], q[2]
                neg = self.prod([("c", -1.0), p], [])
                if neg == v or (neg != h and (num(v) is not None or (num(h) is None and simpler(v, h)))):
                    v, h = h, v
                return self.mkclamp(v, p, h) if nm == "max" else self.mkclamp(v, h, p)
        if x == y:
            return x
        if self.sum([(1.0, x), (1.0, y)]) == ("c", 0.0):
            return self.abs_(x) if nm == "max" else self.prod([("c", -1.0), self.abs_(x)], [])
        return I((nm,) + tuple(sorted((x, y), key=key)))

    def fldv(self, v, f):
        while v[0] == "updf":
            if v[2] == f:
                return v[3]
            v = v[1]
        return ("fldv", v, f)

    def idx(self, v, i):
        if v[0] == "vec" and is_c(i) and num(i) is not None and 0 <= num(i) < len(v) - 1:
            return v[1 + int(num(i))]
        if v[0] == "tab":
            x = v[2]
            if len(v) == 3:
                return x
            if not any(len(y) > 1 and y[0] == "var" and y[1] == v[3] for y in walk(x)):
                return self.rebuild(x, {I(("iv", v[1], v[3])): i})
        if v[0] == "list" and is_c(i) and isinstance(num(i), float) and 0 <= num(i) < len(v) - 1:
            return v[1 + int(num(i))]
        if v[0] == "upd":
            while v[0] == "upd":
                if v[2] == i:
                    return v[3]
                if is_c(v[2]) and is_c(i):
                    v = v[1]
                    continue
                break
            if v[0] in ("list",):
                return self.idx(v, i)
        if v[0] == "phi":
            return self.ite(self.unbool(v[1]), self.idx(v[2], i), self.idx(v[3], i))
        if v[0] == "sum" and v[1] == 0.0 and all(self.isvec(y) for _, y in v[2]):
            return self.sum([(cf, self.idx(y, i)) for cf, y in v[2]])
        if v[0] == "prod":
            vs = [x for x in v[2] if self.isvec(x)]
            if len(vs) == 1 and all(self.isscalar(x) for x in v[2] if x is not vs[0]):
                o = list(v[2])
                o.remove(vs[0])
                return self.prod([("c", v[1]), self.idx(vs[0], i)] + o, list(v[3]))
        if is_zero_vec(v):
            return I(("c", 0.0))
        return I(("idx", v, i))

    whole = None

    def elements(self, cls, fld):
        """The object itself is the vector or matrix kept in this field."""
        self.whole, self.wholetype = fld, cls

    def ctype(self, x):
        F = self.F
        h = x[0]
        if x is self.whole:
            return self.wholetype
        if h in ("fld", "fldv"):
            f = F.allfields.get(x[2])
            return f["t"] if f else None
        if h == "call" and isinstance(x[1], str):
            f = F.funcs.get(x[1])
            if f:
                return f.get("rt")
            d = F.decls.get(x[1])
            if d and isinstance(d[1].get("rt"), str):
                return d[1]["rt"]
            if not x[1].startswith("s2e::"):
                return "double"
        if h == "obj":
            return x[1]
        if h == "deref" and x[1][0] in ("fld",):
            f = F.allfields.get(x[1][2])
            return f["t"].rstrip("*").strip() if f else None
        if h in ("min", "max", "clamp", "c"):
            return "double"
        if h == "sum":
            return self.ctype(x[2][0][1])
        if h == "prod":
            for y in x[2]:
                if self.isvec(y):
                    return "s2e::math::Vector"
            return "double" if all(self.isscalar(y) for y in x[2]) else None
        if h == "idx":
            t = self.ctype(x[1])
            if t and "math::Vector" in t:
                return "double"
            for p in SEQ:
                if t and t.replace("const ", "").startswith(p + "<"):
                    return targ(t)
            return None
        if h == "total":
            return self.ctype(x[2])
        if h == "iv":
            return "unsigned long"
        if h in ("p", "in"):
            return self.S.ptypes.get(x) if hasattr(self.S, "ptypes") else None
        if h == "deref":
            t = self.ctype(x[1])
            return t.rstrip("*").strip() if t else None
        if h in ("fix", "var", "rv", "rv0"):
            y = x[4] if h == "fix" else x[2] if h == "var" else x
            if y[0] in ("rv", "rv0"):
                if y[1][0] != "c":
                    return self.ctype(y[1])
                return self.ctype(y[2]) if y[0] == "rv" else None
            return None
        if h == "phi":
            return self.ctype(x[2]) if x[2][0] != "c" else self.ctype(x[3])
        if h in ("list", "upd"):
            return "s2e::math::Vector" if h == "list" else self.ctype(x[1])
        return None

    def nonneg(self, x):
        if x[0] == "op" and x[1] == "%":
            return self.nonneg(x[2])
        if x[0] == "call" and isinstance(x[1], str) and x[1].split("(")[0].rsplit("::", 1)[-1] in ("size", "length"):
            return True
        t = self.ctype(x)
        return bool(t) and t.replace("const ", "").startswith("unsigned")

    def isvec(self, x):
        t = self.ctype(x)
        return bool(t) and (t[:3] == "vec" or "math::Vector<" in t or t == "s2e::math::Vector") and "std::vector" not in t

    def isscalar(self, x):
        if num(x) is not None:
            return True
        t = self.ctype(x)
        return bool(t) and t.replace("const ", "").rstrip("&").strip() in ("double", "float", "int", "unsigned int", "unsigned long", "long", "bool", "unsigned char")

    def dim(self, x):
        t = self.ctype(x)
        if t and "math::Matrix<" in t and matdim(t):
            return matdim(t)[0]
        if x[0] == "idx" and matdim(self.ctype(x[1])):
            return matdim(self.ctype(x[1]))[1]
        if t and t.startswith("vec"):
            return int(t[3:])
        if t and "math::Vector<" in t:
            try:
                return int(t.split("math::Vector<")[1].split(",")[0].rstrip(">&* "))
            except ValueError:
                return None
        return None

    def quat(self, x):
        """4 if x is built from quaternions (so that a list of some of its elements is not x)."""
        return 4 if any("Quaternion" in (self.ctype(y) or "") or y[0] == "call" and "Quaternion" in str(y[1]) for y in walk_top(x)) else None

    def upd(self, t):
        # collect the written elements
        wr = []
        b = t
        while b[0] == "upd":
            wr.append((self.nf(b[2]), self.nf(b[3])))
            b = b[1]
        n = rawdim(b)
        b = self.nf(b)
        while b[0] == "upd":
            wr.append((b[2], b[3]))
            b = b[1]
        els = {}
        simple = all(is_c(i) for i, _ in wr)
        if simple:
            for i, v in wr:
                els.setdefault(i, v)
            n = n or self.dim(b)
            if n is None and b[0] == "list":
                n = len(b) - 1
            if n is not None:
                ix = [I(("c", float(k))) for k in range(n)]
                if set(els) <= set(ix):
                    full = [els[i] if i in els else self.idx(b, i) for i in ix]
                    return self.contract(full, b)
            r = b
            for i in sorted(els, key=lambda x: (num(x) if num(x) is not None else 0.0, str(x[1]))):
                if b[0] == "upd" or True:
                    r = I(("upd", r, i, els[i]))
            return r
        r = b
        for i, v in reversed(wr):
            r = I(("upd", r[1] if r[0] == "upd" and r[2] == i else r, i, v))
        return r

    def contract(self, full, b):
        """List of elements -> the vector expression it is the expansion of, if any."""
        n = len(full)
        cand = self.guess(full)
        if cand is not None:
            return cand
        if all(num(x) == 0.0 for x in full):
            return I(("c", 0.0))
        if any(x[0] == "phi" for x in full):
            ats = set()
            for x in full:
                datoms(x, ats)
            if len(ats) <= NLIFT:
                r = self.choices(full)
                if r is not None:
                    return r
        return I(("list",) + tuple(full))

    def choices(self, full):
        """List of choices -> a choice between vector expressions, if every alternative is one."""
        ats = set()
        for x in full:
            datoms(x, ats)
        if not ats:
            if all(num(x) == 0.0 for x in full):
                return I(("c", 0.0))
            return self.guess(full)
        top = min(ats, key=okey)
        a = self.choices([dassume(x, top, True) for x in full])
        b = a and self.choices([dassume(x, top, False) for x in full])
        return b and self.ite(("atom", top), a, b)

    def guess(self, full):
        n = len(full)
        # all elements idx(v, k) of the same v
        if all(x[0] == "idx" and num(x[2]) == float(k) for k, x in enumerate(full)):
            if all(x[1] == full[0][1] for x in full) and not self.isscalar(full[0][1]) and (self.dim(full[0][1]) or self.quat(full[0][1]) or n) == n:
                return full[0][1]
        # linear combination: replace idx(v,0) by v in element 0 and check the others
        cands = {}
        for y in walk_top(full[0]):
            if y[0] == "idx" and num(y[2]) == 0.0 and self.isvec(y[1]):
                cands[y] = y[1]
        if not cands:
            return None
        e = self.lift(full[0], cands)
        if e is None or not self.isvec(e):
            return None
        for k in range(n):
            if self.idx(e, I(("c", float(k)))) != full[k]:
                return None
        return e

    def lift(self, x, m):
        if x in m:
            return m[x]
        if x[0] == "sum":
            if x[1] != 0.0:
                return None
            ys = [(cf, self.lift(y, m)) for cf, y in x[2]]
            if any(y is None for _, y in ys):
                return None
            return self.sum(ys)
        if x[0] == "prod":
            hits = [y for y in x[2] if y in m]
            if len(hits) != 1:
                return None
            o = list(x[2])
            o.remove(hits[0])
            return self.prod([("c", x[1]), m[hits[0]]] + o, list(x[3]))
        return None

    def obj(self, t):
        cls, args = t[1], tuple(self.nf(x) for x in t[2])
        if cls.startswith(("std::pair<", "std::tuple<")):
            cls = strip_targs(cls)
        if cls.split("<")[0] in ("s2e::math::Vector", "s2e::math::Matrix"):
            if len(args) == 1 and num(args[0]) == 0.0:
                return ("c", 0.0)
            if len(args) == 1 and args[0][0] in ("list",):
                return args[0]
        if cls.startswith(SEQ):
            if not args:
                return ("vec",)
            if len(args) == 1 and args[0][0] == "list":
                return ("vec",) + args[0][1:]
            if len(args) == 1 and args[0][0] not in ("obj", "mut", "fix", "vec", "tab", "push"):
                return ("tab", args[0], zero_of(cls))
            if len(args) == 2 and args[0][0] not in ("obj", "call"):
                return ("tab", args[0], args[1])
        return ("obj", cls, args)

    # ------------------------------------------------------------ guards
    def guard(self, gs):
        f = ("and",) + tuple(self.bform(g) for g in gs if g[0] != "inloop")
        return self.ite(f, TRUE, FALSE)


INTS = ("int", "unsigned int", "unsigned long", "long", "long long", "unsigned long long", "unsigned char", "unsigned short", "short", "signed char")
import itertools
_NONE = frozenset()
SEQ = ("std::vector", "std::deque", "std::list")


def targ(t):
    """First template argument."""
    d, out = 0, ""
    for ch in t[t.index("<") + 1:]:
        if d == 0 and ch in ",>":
            break
        d += (ch == "<") - (ch == ">")
        out += ch
    return out.strip()


def zero_of(nm):
    try:
        t = targ(nm)
    except ValueError:
        return I(("zero",))
    return I(("c", 0.0)) if t in ("double", "float", "int", "unsigned int", "unsigned char", "unsigned long", "long") else FALSE if t == "bool" else I(("c", None)) if t.endswith("*") else I(("zero",))


def sq(n, d):
    """sqrt(x)*sqrt(x) = x and sqrt(x)/x = 1/sqrt(x), in place; the change of the coefficient, or None if nothing applies."""
    for xs, ys in ((n, d), (d, n)):
        for s in xs:
            if s[0] != "call" or s[1] != "sqrt" or len(s[3]) != 1:
                continue
            y = s[3][0]
            k, yn, yd = (y[1], list(y[2]), list(y[3])) if y[0] == "prod" else (1.0, [y], [])
            if xs.count(s) > 1:
                xs.remove(s)
                xs.remove(s)
                xs.extend(yn)
                ys.extend(yd)
                return k if xs is n else 1 / k
            if k > 0 and (yn or yd) and not any(yn.count(z) > ys.count(z) for z in yn) and not any(yd.count(z) > xs.count(z) - (z == s) for z in yd):
                for z in yn:
                    ys.remove(z)
                for z in yd:
                    xs.remove(z)
                xs.remove(s)
                ys.append(s)
                return k if xs is n else 1 / k
    return None


def boolish(x):
    """The diagram has a leaf that is visibly Boolean."""
    if x[0] == "phi":
        return boolish(x[2]) or boolish(x[3])
    return x == TRUE or x == FALSE or x[0] == "not" or (x[0] == "op" and x[1] in ("==", "<"))


def simpler(a, b):
    """True if a looks like a bound rather than the value (a bare field/parameter or negation of one)."""
    def depth(x, n=0):
        if not isinstance(x, tuple) or n > 6:
            return 0
        return 1 + max([depth(y, n + 1) for y in x if isinstance(y, tuple)] or [0])
    return depth(a) < depth(b)


def is_zero_vec(x):
    return x == ("c", 0.0)


def matdim(t):
    """(rows, columns) of a matrix type."""
    if t and "math::Matrix<" in t:
        try:
            p = t.split("math::Matrix<")[1].split(">")[0].split(",")
            return int(p[0]), int(p[1])
        except (ValueError, IndexError):
            return None
    return None


def rawdim(b):
    if b[0] == "obj" and isinstance(b[1], str) and b[1].startswith("s2e::math::Vector<"):
        try:
            return int(b[1].split("<")[1].split(",")[0].rstrip(">"))
        except ValueError:
            return None
    if b[0] == "phi":
        return rawdim(b[2])
    return None


def content(x):
    """(primitive part, content) of a sum: first coefficient (by key order) becomes 1."""
    k = x[2][0][0]
    return I(("sum", _r(x[1] / k), tuple((_r(cf / k), y) for cf, y in x[2]))), k


def primitive(d):
    """Scale-free form of a difference, and whether the scale was negative."""
    if d[0] == "sum":
        p, k = content(d)
        return p, k < 0
    if d[0] == "prod":
        return I(("prod", 1.0, d[2], d[3])) if d[3] or len(d[2]) != 1 else d[2][0], d[1] < 0
    return d, False


def walk_top(x):
    st = [x]
    while st:
        y = st.pop()
        yield y
        if y[0] == "sum":
            st.extend(z for _, z in y[2])
        elif y[0] == "prod":
            st.extend(y[2])


def simp(f):
    if isinstance(f, bool):
        return f
    if f[0] == "atom":
        return f
    if f[0] == "neg":
        x = simp(f[1])
        if isinstance(x, bool):
            return not x
        if x[0] == "neg":
            return x[1]
        return ("neg", x)
    absorb = f[0] == "or"
    out = []
    for x in f[1:]:
        x = simp(x)
        if x is absorb:
            return absorb
        if isinstance(x, bool):
            continue
        if x not in out:
            out.append(x)
    if not out:
        return not absorb
    if len(out) == 1:
        return out[0]
    return (f[0],) + tuple(out)


def fatoms(f, acc):
    if isinstance(f, bool):
        return
    if f[0] == "atom":
        acc.add(f[1])
    else:
        for x in f[1:]:
            fatoms(x, acc)


def datoms(x, acc):
    while True:
        if x[0] == "phi":
            acc.add(x[1])
            datoms(x[2], acc)
            x = x[3]
            continue
        return


_thr = {}


def leaves(x, acc=None):
    acc = set() if acc is None else acc
    if x[0] == "phi":
        leaves(x[2], acc)
        leaves(x[3], acc)
    else:
        acc.add(x)
    return acc


def keepif(x, v):
    """Condition (a diagram) under which the diagram x has the leaf v."""
    if x[0] == "phi":
        a, b = keepif(x[2], v), keepif(x[3], v)
        return a if a == b else x[1] if a == TRUE and b == FALSE else I(("not", x[1])) if a == FALSE and b == TRUE else I(("phi", x[1], a, b))
    return TRUE if x == v else FALSE


def mentions(x, v):
    return any(y is v for y in walk(x))


def threshold(at):
    """(kind, base, value) of an atom that compares a quantity with a constant: base < value, base > value, base == value."""
    r = _thr.get(at, 0)
    if r != 0:
        return r
    r = None
    if at[0] == "op" and at[1] == "<":
        d, kind = (at[2], "<") if num(at[3]) == 0.0 else (at[3], ">") if num(at[2]) == 0.0 else (None, None)
        if d is not None and d[0] != "c":
            if d[0] == "sum":
                r = (kind, d[2], -d[1])
            else:
                r = (kind, ((1.0, d),), 0.0)
    elif at[0] == "op" and at[1] == "==":
        for x, y in ((at[2], at[3]), (at[3], at[2])):
            if y[0] in ("c", "enum") and x[0] not in ("c", "enum"):
                v = num(y)
                if v is not None and x[0] == "sum" and x[2]:
                    k = x[2][0][0]
                    r = ("==", tuple((_r(cf / k), z) for cf, z in x[2]), _r((v - x[1]) / k))
                elif v is not None and x[0] != "prod":
                    r = ("==", ((1.0, x),), v)
                break
    _thr[at] = r
    return r


_eq = {}
CACHES.extend((_thr, _eq))


def eqconst(at):
    """{(term, constant)} of an equality with a constant."""
    r = _eq.get(at)
    if r is None:
        r = []
        if at[0] == "op" and at[1] == "==":
            for x, y in ((at[2], at[3]), (at[3], at[2])):
                if y[0] in ("c", "enum"):
                    r.append((x, y))
        _eq[at] = r
    return r


def okey(at):
    """Order of the atoms of a decision diagram: comparisons of one quantity with constants are neighbours, in the order of the constants."""
    t = threshold(at)
    if t is None:
        return (key(at), 0.0, "")
    return (key(I(("tbase",) + t[1])), t[2], t[0])


def implied(at, top, val):
    """Truth of at when top has the truth value val (None if it does not follow); comparisons are those of ordered values (no NaN)."""
    if at is top:
        return val
    if at[0] != "op" or top[0] != "op":
        return None
    if val and top[1] == "==" and at[1] == "==":
        for x, y in eqconst(top):
            for u, v in eqconst(at):
                if x == u and y != v:
                    return False
    a, t = threshold(at), threshold(top)
    if a is None or t is None or a[1] != t[1]:
        return None
    k, v = t[0], t[2]
    ka, va = a[0], a[2]
    if k == "==":
        if not val:
            return None
        return v < va if ka == "<" else v > va if ka == ">" else v == va
    lt = (k == "<") == val            # the quantity is below (or at) v
    if k == "<":
        strict = val                  # x < v, or x >= v
    else:
        strict = val                  # x > v, or x <= v
    if lt:                            # x < v (strict) or x <= v
        if ka == "<":
            return True if (va >= v if strict else va > v) else None
        if ka == ">":
            return False if va >= v else None
        return False if (va >= v if strict else va > v) else None
    if ka == ">":
        return True if (va <= v if strict else va < v) else None
    if ka == "<":
        return False if va <= v else None
    return False if (va <= v if strict else va < v) else None


def fassume(f, top, val):
    if isinstance(f, bool):
        return f
    if f[0] == "atom":
        r = implied(f[1], top, val)
        return f if r is None else r
    return simp((f[0],) + tuple(fassume(x, top, val) for x in f[1:]))


def dassume(x, top, val, memo=None):
    if x[0] == "phi":
        if memo is None:
            memo = {}
        else:
            m = memo.get(id(x))
            if m is not None:
                return m
        r = implied(x[1], top, val)
        if r is not None:
            r = dassume(x[2] if r else x[3], top, val, memo)
        else:
            a, b = dassume(x[2], top, val, memo), dassume(x[3], top, val, memo)
            r = x if a is x[2] and b is x[3] else a if a == b else I(("phi", x[1], a, b))
        memo[id(x)] = r
        return r
    if x[0] == "op":
        r = implied(x, top, val)
        if r is not None:
            return TRUE if r else FALSE
    elif x[0] == "not" and x[1][0] == "op":
        r = implied(x[1], top, val)
        if r is not None:
            return FALSE if r else TRUE
    elif x == top:
        return TRUE if val else FALSE
    elif x[0] == "not" and x[1] == top:
        return FALSE if val else TRUE
    return x
