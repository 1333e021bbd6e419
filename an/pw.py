"""Equality of canonical terms by cases: the conditions both terms depend on (comparisons, choices, minima, absolute
values) are enumerated with their consistent outcomes, and the two terms must denote the same value in every case.
A comparison of a with b has three outcomes (a < b, a = b, a > b); in the middle one the equation is substituted.
Combinations of outcomes that no numbers satisfy are recognised by Fourier-Motzkin elimination."""
import os, time
from norm import num
from sem import rnd as _r
from sym import I, TRUE, FALSE, is_c, walk, key, mk_cat
from nf import primitive, content, implied, mathfn
from sem import V

BINDERS = {"fix", "some", "first", "total", "tab", "var", "rv", "rv0", "iv", "loop", "b", "each", "lv?", "aft?"}
ATOMIC = {"p", "this", "enum", "static", "func", "c", "glob", "noobj", "undef", "none", "zero"}
LEAVES, SECONDS = 1500, 12.0

OVER = I(("c", "division by zero"))


class Split(Exception):
    def __init__(self, kind, k):
        self.kind, self.k = kind, k


class Undefined(Exception):
    """A condition depends on a division by zero."""


class Budget(Exception):
    pass


class Case:
    """Outcomes decided so far."""
    def __init__(self):
        self.sign = {}      # scale-free difference -> -1, 0, 1
        self.bools = {}     # opaque condition -> bool
        self.eqs = {}       # (a, b) -> bool, for values without order
        self.sub = {}
        self.lin = []       # (form, strict): form < 0 or form <= 0

    def copy(self):
        n = Case()
        n.sign, n.bools, n.eqs, n.sub, n.lin = dict(self.sign), dict(self.bools), dict(self.eqs), dict(self.sub), list(self.lin)
        return n


class PW:
    def __init__(self, nf):
        self.nf = nf
        self.overs = {}

    # ------------------------------------------------------------ resolving a term in a case
    def res(self, t, cs, memo):
        if not isinstance(t, tuple) or not t:
            return t
        h = t[0]
        if h in ATOMIC and h != "c":
            return cs.sub.get(I(t), t)
        r = memo.get(id(t))
        if r is None:
            r = I(self.res1(t, cs, memo))
            r = memo[id(t)] = cs.sub.get(r, r)
            memo["k"].append(t)
        return r

    def res1(self, t, cs, memo):
        h = t[0]
        nf = self.nf
        go = lambda x: self.res(x, cs, memo)
        if h == "some" and cs.bools:
            x = I(t)
            if x in cs.bools:
                return TRUE if cs.bools[x] else FALSE
            if any(on and o[0] == "some" and (exclude(x, o) or exclude(o, x)) for o, on in cs.bools.items()):
                return FALSE
        if h == "c" or h in BINDERS:
            return t
        if h == "phi":
            return go(t[2]) if self.truth(t[1], cs, memo) else go(t[3])
        if h == "not" or h == "op" and t[1] in ("<", "=="):
            return TRUE if self.truth(t, cs, memo) else FALSE
        if h in ("min", "max") and len(t) == 3:
            a, b = go(t[1]), go(t[2])
            lt = self.less(a, b, cs) <= 0
            return (a if lt else b) if h == "min" else (b if lt else a)
        if h == "narrow":
            x = go(t[2])
            f, k = self.form(x)
            lo, hi = (k + 255 * sum(cf for cf in f.values() if (cf > 0) == up) for up in (False, True))
            if len(f) <= 3 and f and all(cf == int(cf) and self.byte(y) for y, cf in f.items()) and -1024 < lo and hi < 1024 and t[1] == 8:
                j = 0
                while lo < 256 * j and self.less(x, I(("c", 256.0 * j)), cs) < 0:
                    j -= 1
                while self.less(x, I(("c", 256.0 * (j + 1))), cs) >= 0:
                    j += 1
                return I(nf.sum([(1.0, x), (1.0, I(("c", -256.0 * j)))]))
            return I(nf.narrow(t[1], x))
        if h == "clamp":
            v, l, u = (go(x) for x in t[1:])
            if self.less(v, l, cs) <= 0:
                return l
            return u if self.less(u, v, cs) <= 0 else v
        if h == "sum":
            xs = [(cf, go(x)) for cf, x in t[2]]
            if any(x is OVER for _, x in xs):
                return OVER
            return nf.unify(I(nf.sum([(1.0, I(("c", t[1])))] + xs)))
        if h == "prod":
            ds = [go(x) for x in t[3]]
            xs = [go(x) for x in t[2]]
            if any(num(x) == 0 or x is OVER for x in ds) or any(x is OVER for x in xs):        # nothing is specified about a division by zero
                return OVER
            return nf.unify(I(nf.prod([I(("c", t[1]))] + xs, ds)))
        if h == "idx":
            return nf.unify(I(nf.idx(go(t[1]), go(t[2]))))
        if h == "fldv":
            return nf.fldv(go(t[1]), t[2])
        if h == "call" and isinstance(t[1], str):
            o, args = go(t[2]), tuple(go(x) for x in t[3])
            if t[2] == ("noobj",) and mathfn(t[1]) and any(x is OVER for x in args):
                return OVER
            if t[1] == "abs" and len(args) == 1 and t[2] == ("noobj",):
                x = args[0]
                return x if self.less(I(("c", 0.0)), x, cs) <= 0 else I(nf.prod([I(("c", -1.0)), x], []))
            return nf.unify(I(nf.call1(t[1], o, args)))
        if h == "cat":
            return mk_cat(*[go(x) for x in t[1:]])
        return tuple(go(x) if isinstance(x, tuple) else x for x in t)

    def truth(self, t, cs, memo):
        if is_c(t):
            return bool(t[1])
        if t[0] == "not":
            return not self.truth(t[1], cs, memo)
        if t[0] == "phi":
            return self.truth(t[2] if self.truth(t[1], cs, memo) else t[3], cs, memo)
        if t[0] == "op" and t[1] == "<":
            return self.less(self.res(t[2], cs, memo), self.res(t[3], cs, memo), cs) < 0
        if t[0] == "op" and t[1] == "==":
            return self.same(self.res(t[2], cs, memo), self.res(t[3], cs, memo), cs)
        x = I(t if t[0] in BINDERS else self.res(t, cs, memo))
        if is_c(x):
            return bool(x[1])
        if x[0] in ("op", "not", "phi") and x is not t:
            return self.truth(x, cs, memo)
        if x not in cs.bools:
            raise Split("bool", x)
        return cs.bools[x]

    def same(self, a, b, cs):
        if a == b:
            return True
        if num(a) is not None and num(b) is not None:
            return num(a) == num(b)
        if is_c(a) and is_c(b) or a[0] == "enum" and b[0] == "enum":
            return False
        for x, y in ((a, b), (b, a)):
            if is_c(y) and isinstance(y[1], bool):
                return self.truth(x, cs, {"k": []}) == y[1]
        if self.nf.isscalar(a) and self.nf.isscalar(b):
            return self.less(a, b, cs) == 0
        a, b = I(a), I(b)
        if key(b) < key(a):
            a, b = b, a
        if (a, b) not in cs.eqs:
            for (x, y), v in cs.eqs.items():        # a = K excludes a = L
                if v and (x is a and y[0] in ("c", "enum") and b[0] in ("c", "enum") or y is b and x[0] in ("c", "enum") and a[0] in ("c", "enum")):
                    return False
                if v and (x is a and y is b):
                    return True
            raise Split("eq", (a, b))
        return cs.eqs[(a, b)]

    def less(self, a, b, cs):
        """Sign of a - b."""
        if self.over(a) or self.over(b):
            raise Undefined
        d = self.nf.unify(I(self.nf.sum([(1.0, a), (-1.0, b)])))
        n = num(d)
        if n is not None:
            return (n > 0) - (n < 0)
        d, flip = primitive(d)
        d = I(d)
        s = cs.sign.get(d)
        if s is None:
            raise Split("sign", d)
        return -s if flip else s

    def over(self, t):
        """The value depends on a division by zero."""
        if not isinstance(t, tuple) or not t:
            return False
        t = I(t)
        r = self.overs.get(t)
        if r is None:
            r = self.overs[t] = t is OVER or any(self.over(x) for x in t if isinstance(x, tuple))
        return r

    def value(self, x, cs, memo):
        """The value in this case; None when it depends on a division by zero."""
        try:
            return self.res(x, cs, memo)
        except Undefined:
            return None

    # ------------------------------------------------------------ consistency
    def form(self, d):
        if d[0] == "sum":
            return {x: cf for cf, x in d[2]}, d[1]
        return {d: 1.0}, 0.0

    def byte(self, x):
        return (self.nf.ctype(x) or "").replace("const ", "").strip() in ("unsigned char", "uint8_t", "bool")

    def integral(self, x):
        if x[0] == "prod":
            return x[1] == int(x[1]) and not x[3] and all(self.integral(y) for y in x[2])
        if x[0] == "iv" or x[0] == "call" and x[1] == "size":
            return True
        t = (self.nf.ctype(x) or "").replace("const ", "").strip()
        return t in ("int", "unsigned int", "long", "unsigned long", "unsigned char", "char", "short", "unsigned short", "size_t", "long long", "unsigned long long", "uint8_t", "int8_t", "uint16_t", "int16_t", "uint32_t", "int32_t")

    def constraint(self, d, s):
        """Constraints form < 0 (strict) or form <= 0 for sign(d) = s."""
        f, k = self.form(d)
        whole = k == int(k) and all(cf == int(cf) for cf in f.values()) and all(self.integral(x) for x in f)
        out = []
        for sg in ((s,) if s else (-1, 1)):
            g = {x: -sg * cf for x, cf in f.items()}    # -sg*d < 0, or both <= 0
            c = -sg * k
            if s and whole:
                out.append((g, c + 1, False))
            else:
                out.append((g, c, bool(s)))
        return out

    def feasible(self, lin):
        cons = []
        atoms = set()
        for g, k, st in lin:
            cons.append((dict(g), k, st, abs(k)))     # (with the size of what the constant was computed from: rounding is relative to it)
            atoms.update(g)
        for x in atoms:
            if self.nf.nonneg(x) or x[0] == "call" and x[1] in ("sqrt", "abs", "exp", "size") or x[0] == "iv":
                cons.append(({x: -1.0}, 0.0, False, 0.0))
            if self.byte(x):
                cons.append(({x: 1.0}, -255.0, False, 255.0))
        while True:
            for g, k, st, m in cons:
                if not g and (k > 1e-9 * m or st and k >= -1e-9 * m):
                    return False
            vs = {}
            for g, k, st, m in cons:
                for x in g:
                    p, n = vs.get(x, (0, 0))
                    vs[x] = (p + (g[x] > 0), n + (g[x] < 0))
            if not vs:
                return True
            x = min(vs, key=lambda y: vs[y][0] * vs[y][1])
            pos = [q for q in cons if q[0].get(x, 0) > 0]
            neg = [q for q in cons if q[0].get(x, 0) < 0]
            new = [q for q in cons if x not in q[0]]
            if len(new) + len(pos) * len(neg) > 300:
                return True
            for gp, kp, sp, mp in pos:
                for gn, kn, sn, mn in neg:
                    a, b = -gn[x], gp[x]
                    g = {}
                    for y in set(gp) | set(gn):
                        u, w = a * gp.get(y, 0.0), b * gn.get(y, 0.0)
                        if y is not x and abs(u + w) > 1e-9 * (abs(u) + abs(w)):
                            g[y] = u + w
                    new.append((g, a * kp + b * kn, sp or sn, a * mp + b * mn))
            cons = new

    # ------------------------------------------------------------ cases
    def decide(self, sp, cs):
        """The consistent extensions of the case."""
        out = []
        if sp.kind == "bool":
            for v in (True, False):
                if v and sp.k[0] == "some" and any(on and (exclude(sp.k, o) or exclude(o, sp.k)) for o, on in cs.bools.items()):
                    continue
                n = cs.copy()
                n.bools[sp.k] = v
                out.append(n)
        elif sp.kind == "eq":
            for v in (True, False):
                n = cs.copy()
                n.eqs[sp.k] = v
                if v:
                    a, b = sp.k
                    if a[0] not in ("c", "enum"):
                        n.sub[a] = b
                    elif b[0] not in ("c", "enum"):
                        n.sub[b] = a
                out.append(n)
        else:
            d = sp.k
            for s in (-1, 1, 0):
                n = cs.copy()
                n.sign[d] = s
                n.lin += self.constraint(d, s)
                if not self.feasible(n.lin):
                    continue
                if s == 0:
                    sol = self.solve(d)
                    if sol:
                        one = Resub({sol[0]: sol[1]})
                        for y in n.sub:
                            n.sub[y] = self.res(n.sub[y], one, {"k": []})
                        n.sub[sol[0]] = sol[1]
                        # earlier decisions are looked up by their form after substitution as well
                        for e, sg in list(n.sign.items()):
                            if e is not d:
                                e2 = self.res(e, Resub(n.sub), {"k": []})
                                if num(e2) is None:
                                    p, fl = primitive(e2)
                                    n.sign.setdefault(p, -sg if fl else sg)
                out.append(n)
        return out

    def solve(self, d):
        f, k = self.form(d)
        for x in sorted(f, key=lambda y: (y[0] in ("prod", "sum", "call", "min", "max", "clamp"), key(y))):
            if x[0] == "prod":
                continue
            if any(any(z is x for z in walk(y)) for y in f if y is not x):
                continue
            return x, I(self.nf.sum([(1.0, I(("c", _r(-k / f[x]))))] + [(_r(-cf / f[x]), y) for y, cf in f.items() if y is not x]))
        return None

    def cases(self, fn):
        """fn(case, memo) must be true in every consistent case."""
        t0, n = time.time(), 0
        st = [Case()]
        while st:
            cs = st.pop()
            n += 1
            if n > LEAVES or time.time() - t0 > SECONDS:
                return False
            try:
                if not fn(cs, {"k": []}):
                    if os.environ.get("PWDEBUG"):
                        self.show(cs)
                    return False
            except Split as sp:
                st.extend(self.decide(sp, cs))
        return True

    def eq(self, x, y, cs, memo):
        a, b = self.value(x, cs, memo), self.value(y, cs, memo)
        if a is None or b is None:
            return a is b
        r = self.alike(a, b)
        if not r and os.environ.get("PWDEBUG"):
            from refs import ptxt
            print("PW differ:", ptxt(a)[:1500], "\n      <>", ptxt(b)[:1500])
        return r

    def show(self, cs):
        from refs import ptxt
        for d, s in cs.sign.items():
            print("   case sign", s, ptxt(d)[:300])
        for d, s in cs.sub.items():
            print("   case subst", ptxt(d)[:100], ":=", ptxt(s)[:300])
        for d, s in list(cs.bools.items()) + list(cs.eqs.items()):
            print("   case", s, ptxt(d)[:300])

    def alike(self, a, b, d=0):
        if a == b:
            return True
        if not isinstance(a, tuple) or not isinstance(b, tuple) or d > 30:
            return False
        if a and b and (a[0] == "list") != (b[0] == "list"):
            l, o = (a, b) if a[0] == "list" else (b, a)
            fill = o
            while fill and fill[0] == "upd":
                fill = fill[1]
            if o and o[0] in ("upd", "c") and num(fill) is not None:      # every element written out, or a filled container changed in places
                return all(self.alike(x, I(self.nf.idx(o, I(("c", float(k))))), d + 1) for k, x in enumerate(l[1:]))
        sa = a and a[0] in ("sum", "prod", "list", "idx", "obj", "call", "c", "upd")
        if sa or b and b[0] in ("sum", "prod", "list", "idx"):
            va, vb = self.nf.sem.val(a), self.nf.sem.val(b)
            if (va.fp() if isinstance(va, V) else va) == (vb.fp() if isinstance(vb, V) else vb):
                return True
        if len(a) != len(b) or not a or a[0] != b[0] and not (isinstance(a[0], tuple) and isinstance(b[0], tuple)):
            return False
        if isinstance(a[0], str) and a[0] in BINDERS and a[0] not in ("b", "loop", "var"):
            return all(self.equal(x, y) if isinstance(x, tuple) and isinstance(y, tuple) else x == y for x, y in zip(a[1:], b[1:]))
        if a[0] in ("sum", "prod"):
            return False
        return all(self.alike(x, y, d + 1) for x, y in zip(a, b))

    def equal(self, x, y):
        if x == y:
            return True
        return self.cases(lambda cs, memo: self.eq(x, y, cs, memo))

    def calls(self, xs, ys):
        """Two sequences of conditional calls are the same in every case."""
        def fn(cs, memo):
            def seq(es):
                try:
                    return [(e[0], e[1], e[2], e[4]) for e in es if self.truth(e[3], cs, memo)]
                except Undefined:
                    return None
            a, b = seq(xs), seq(ys)
            if a is None or b is None:
                return a is b
            if len(a) != len(b):
                return False
            for p, q in zip(a, b):
                if p[0] != q[0]:
                    return False
                for u, v in ((p[1], q[1]), (p[2], q[2]), (p[3], q[3])):
                    if (u is None) != (v is None) or u is not None and not self.eq(I(u), I(v), cs, memo):
                        return False
            return True
        return self.cases(fn)


def excludes(r, p):
    """The condition r is false where p holds."""
    if r[0] == "c":
        return not r[1]
    if r[0] == "phi":
        return (r[1] == p or excludes(r[2], p)) and excludes(r[3], p) or r[1] == p and excludes(r[2], p)
    return r == ("not", p) or implied(r, p, True) is False


def entails(r, q):
    """The condition q holds where r does."""
    if r == q or r[0] == "c" and not r[1] or implied(q, r, True):
        return True
    return r[0] == "phi" and (r[1] == q or entails(r[2], q)) and entails(r[3], q)


def exclude(a, b):
    """Searches through the same elements that cannot both succeed: each ends where the other does, and no element is both's."""
    if a[0] != "some" or b[0] != "some" or len(a) != 5 or len(b) != 5 or a[1:3] != b[1:3] or a[3] is None or b[3] is None:
        return False
    return entails(a[4], b[3]) and entails(b[4], a[3]) and (excludes(a[4], b[4]) or excludes(b[4], a[4]))


class Resub(Case):
    """A case in which nothing is decided, used to apply a substitution to a difference of resolved terms."""
    def __init__(self, sub):
        super().__init__()
        self.sub = sub
