"""Abstract interpreter over the Herbrand (value-provenance) domain.

Every variable is mapped to a term that says where its value came from.  Branches are joined into
gated terms ('phi', cond, a, b); loops are abstracted by havocking what they assign (constant-trip loops
are unrolled).  No path is enumerated and nothing is solved: terms are only compared for identity.
Repository functions with a body are inlined up to a depth bound (policy given by the client), so that extracting
a helper does not change the terms.
"""
import itertools
import canon

_pool = {}


class T(tuple):
    """Interned term: equality between terms is identity, hashing is O(1)."""
    __slots__ = ()

    def __hash__(self):
        return _hash[id(self)]

    def __eq__(self, o):
        if self is o:
            return True
        if type(o) is T or not isinstance(o, tuple):
            return False
        return I(o) is self

    def __ne__(self, o):
        return not self.__eq__(o)


_hash = {}
_serial = {}
LIMIT = 1500000
_limit = [1 << 60]


class TooLarge(Exception):
    pass


CACHES = []


def release(n):
    """Forget the terms created since the pool had n entries (nothing may refer to them any more)."""
    for x in CACHES:
        x.clear()
    while len(_pool) > n:
        _, r = _pool.popitem()
        del _hash[id(r)], _serial[id(r)]


def pool_size():
    return len(_pool)


def set_limit(n):
    _limit[0] = n


def I(t):
    """Intern a term (children first)."""
    if type(t) is T:
        return t
    ch = tuple(I(x) if isinstance(x, tuple) else x for x in t)
    kk = (ch, tuple(type(x) for x in ch if not isinstance(x, T)))
    r = _pool.get(kk)
    if r is None:
        if len(_pool) > _limit[0]:
            raise TooLarge("more than %d distinct terms" % LIMIT)
        r = T(ch)
        _hash[id(r)] = hash(kk)
        _serial[id(r)] = len(_pool)
        _pool[kk] = r
    return r


def key(t):
    return _serial[id(I(t))]


THIS = I(("this",))
PURE_CLASSES = ("s2e::setting_file_reader::IniAccess",)


def c(v):
    """Constant term; floats and Booleans are tagged, because 1, 1.0 and True are equal keys in Python."""
    if v is True or v is False:
        return I(("c", v, "b"))
    if isinstance(v, float):
        return I(("c", v, "f"))
    return I(("c", v))


INTT = {"int", "unsigned int", "unsigned", "long", "unsigned long", "long long", "unsigned long long", "short", "unsigned short", "char", "signed char", "unsigned char", "bool"}
WIDTH = {"bool": 1, "char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16, "int": 32, "unsigned int": 32, "unsigned": 32}


UNSIGNED = ("bool", "unsigned char", "unsigned short")


def bare(t):
    return (t or "").replace("const ", "").replace("volatile ", "").strip() if isinstance(t, str) else ""


def is_c(t):
    return isinstance(t, tuple) and t and t[0] == "c"


TRUE, FALSE = c(True), c(False)


def mk_not(t):
    return I(_mk_not(I(t)))


def _mk_not(t):
    if is_c(t):
        return c(not t[1])
    if t[0] == "not":
        return t[1]
    if t[0] == "op" and t[1] in NEG:
        return mk_op(NEG[t[1]], t[2], t[3])
    return ("not", t)


NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}
COMM = {"+", "*", "==", "!=", "&&", "||", "&", "|", "^"}


def mk_op(op, a, b):
    return I(_mk_op(op, I(a), I(b)))


def _mk_op(op, a, b):
    if op in (">", ">="):
        op, a, b = {">": "<", ">=": "<="}[op], b, a
    if is_c(a) and is_c(b) and not isinstance(a[1], str) and not isinstance(b[1], str) and a[1] is not None and b[1] is not None:
        x, y = a[1], b[1]
        try:
            r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "<": lambda: x < y, "<=": lambda: x <= y,
                 "==": lambda: x == y, "!=": lambda: x != y, "&&": lambda: bool(x and y), "||": lambda: bool(x or y),
                 "%": lambda: int(abs(x) % abs(y) * (1 if x >= 0 else -1)), "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y,
                 "<<": lambda: x << y, ">>": lambda: x >> y,
                 "/": lambda: float(x) / y, "idiv": lambda: int(x / y)}[op]()
            return c(r)
        except Exception:
            pass
    if op == "&&":
        if is_c(a):
            return b if a[1] else FALSE
        if is_c(b):
            return a if b[1] else FALSE
        if a == b:
            return a
    if op == "||":
        if is_c(a):
            return TRUE if a[1] else b
        if is_c(b):
            return TRUE if b[1] else a
        if a == b:
            return a
    if op in ("==", "!=") and is_c(a) and isinstance(a[1], bool):
        a, b = b, a
    if op in ("==", "!=") and is_c(b) and isinstance(b[1], bool):
        return a if b[1] == (op == "==") else mk_not(a)
    if op in ("==", "!="):
        for x, y in ((a, b), (b, a)):          # strcmp(s, t) == 0 and s.compare(t) == 0 say s == t
            if is_c(y) and y[1] == 0 and not isinstance(y[1], (bool, str)) and x[0] == "call" and isinstance(x[1], str):
                n = x[1].split("(")[0]
                if n in ("strcmp", "std::strcmp") and len(x[3]) == 2:
                    return _mk_op(op, x[3][0], x[3][1])
                if n == "std::string::compare" and len(x[3]) == 1:
                    return _mk_op(op, x[2], x[3][0])
    if op == "+":
        if is_c(a) and a[1] == 0 and not isinstance(a[1], (bool, str)):
            return b
        if is_c(b) and b[1] == 0 and not isinstance(b[1], (bool, str)):
            return a
    if op == "*":
        if is_c(a) and a[1] == 1 and not isinstance(a[1], (bool, str)):
            return b
        if is_c(b) and b[1] == 1 and not isinstance(b[1], (bool, str)):
            return a
    if op in ("-", "/") and is_c(b) and b[1] == (0 if op == "-" else 1) and not isinstance(b[1], (bool, str)):
        return a
    if op in COMM and key(b) < key(a):
        a, b = b, a
    return ("op", op, a, b)


def mk_phi(cond, a, b):
    return I(_mk_phi(I(cond), I(a), I(b)))


def _mk_phi(cond, a, b):
    if a == b:
        return a
    if is_c(cond):
        return a if cond[1] else b
    if a == TRUE and b == FALSE:
        return cond
    if a == FALSE and b == TRUE:
        return mk_not(cond)
    if cond[0] == "not":
        return ("phi", cond[1], b, a)
    if cond[0] == "op" and cond[1] in ("!=", "<="):  # canonical polarity
        return ("phi", mk_not(cond), b, a)
    return ("phi", cond, a, b)


def mk_cat(*ps):
    return I(_mk_cat(*[I(p) for p in ps]))


PLAIN = ("manip", "~", c(0))      # the end of a stream: what is written after it starts with the default format
ONCE = ("std::setw",)


def formats(ps):
    """The formats in effect after these pieces."""
    d = {}
    for p in ps:
        if p == PLAIN:
            d = {}
        elif p[0] == "manip" and p[1] not in ONCE:
            d[p[1]] = p
        elif p[0] in ("aft", "lv", "phi") and any(isinstance(x, tuple) and x and x[0] == "manip" for x in walk(p)):
            d["?"] = p
    return d


def _mk_cat(*ps):
    out = []
    for p in ps:
        if p[0] == "cat":
            out.extend(p[1:])
        else:
            out.append(p)
    res = []
    for p in out:
        if is_c(p) and isinstance(p[1], str):
            if p[1] == "":
                continue
            if res and is_c(res[-1]) and isinstance(res[-1][1], str):
                res[-1] = c(res[-1][1] + p[1])
                continue
        if p[0] == "manip":
            if p == PLAIN:
                if not formats(res):
                    continue
            elif p[1] not in ONCE:
                if res and res[-1] == PLAIN:
                    if formats(res[:-1]) == {p[1]: p}:
                        res.pop()
                        continue
                elif formats(res).get(p[1]) == p:        # (already in effect)
                    continue
        res.append(p)
        i = len(res) - 1
        while p[0] == "manip" and i > 0 and res[i - 1][0] == "manip" and repr(p[1:]) < repr(res[i - 1][1:]):     # (formats commute)
            res[i], res[i - 1] = res[i - 1], p
            i -= 1
    if not res:
        return c("")
    if len(res) == 1:
        return res[0]
    return ("cat",) + tuple(res)


def charof(e, v):
    """The value of a character that becomes part of a text."""
    if is_c(v) and isinstance(v[1], (int, float)) and not isinstance(v[1], bool) and 0 < v[1] < 128 and bare(strip(e).get("t") or "") == "char":
        return c(chr(int(v[1])))
    return v


def is_strish(t):
    return t[0] == "cat" or t[0] == "tostr" or (is_c(t) and isinstance(t[1], str))


def walk(t):
    """Every distinct subterm once."""
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        if isinstance(x, tuple):
            for y in x:
                if isinstance(y, tuple):
                    st.append(y)


def guard_and(g, t):
    if t == TRUE:
        return g
    if t in g:
        return g
    return g + (t,)


class St:
    __slots__ = ("env", "g", "dead")

    def __init__(self, env=None, g=(), dead=False):
        self.env = env if env is not None else {}
        self.g = g
        self.dead = dead

    def fork(self):
        return St(dict(self.env), self.g, self.dead)


class Frame:
    _n = itertools.count()

    def __init__(self, func, this, depth):
        self.func, self.this, self.depth = func, this, depth
        self.rets = []
        self.id = next(Frame._n)
        self.brk = []
        self.cont = []


def conj(ts):
    """Conjunction of guard terms; what follows the entry of a loop holds for some iteration of it."""
    for j, t in enumerate(ts):
        if t[0] == "inloop":
            x = mk_some(t[1], conj(ts[j + 1:]))
            for y in reversed(ts[:j]):
                x = mk_op("&&", y, x)
            return x
    x = TRUE
    for t in ts:
        x = mk_op("&&", x, t)
    return x


def mk_some(lid, cond):
    if cond == FALSE:
        return FALSE
    return I(("some", lid, cond))


def mk_first(lid, cond, v):
    """Value of v in the first iteration of the loop in which cond holds."""
    if v is None or is_c(v) or v[0] in ("p", "this", "enum", "glob", "void"):
        return v
    return I(("first", lid, cond, v))


def disj(gs, common):
    """Guard that holds when one of the guard tuples gs holds, relative to the shared prefix."""
    acc = FALSE
    for g in gs:
        acc = mk_op("||", acc, conj(g[len(common):]))
    return acc


def loopat(g, n):
    """Position of the first loop entry in the guard from n on."""
    for j in range(n, len(g)):
        if g[j][0] == "inloop":
            return j
    return None


def fold(rets, n):
    """Value selected by guarded values in program order (the last one is the remaining case)."""
    val = None
    i = len(rets)
    while i > 0:
        g, v = rets[i - 1]
        j = loopat(g, n)
        k = i - 1
        if j is not None:
            while k > 0 and rets[k - 1][0][:j + 1] == g[:j + 1]:
                k -= 1
            lid = g[j][1]
            any_ = disj([x[0] for x in rets[k:i]], g[:j + 1])
            v = mk_first(lid, any_, fold(rets[k:i], j + 1))
            cnd = mk_op("&&", conj(g[n:j]), mk_some(lid, any_))
        else:
            cnd = conj(g[n:])
        val = v if val is None else mk_phi(cnd, v, val)
        i = k
    return val


class Sym:
    MAXDEPTH = 12

    def __init__(self, F, inline=None, unroll=16):
        self.parents = {}
        self.track = True       # calls that are not followed depend on and change the members of their object
        self.F = F
        self.inline_policy = inline or (lambda f, depth: False)
        self.unroll = unroll
        self.events = []
        self.frames = []
        self.fresh = itertools.count()
        self.quiet = 0
        self.inlined = set()
        self.loops = []
        self.loopdefs = {}
        self.lams = []

    # ---------------------------------------------------------------- entry
    def run(self, func, args=None, this=THIS, env=None):
        st = St(dict(env or {}))
        fr = Frame(func, this, 0)
        self.frames = [fr]
        fr.id = 0
        for i, p in enumerate(func["ps"]):
            t = args[i] if args is not None and i < len(args) else ("p", p["n"], i)
            if is_ref(p["t"]):
                st.env[I(("L", fr.id, p["i"]))] = I(("ref", ("D", ("addrof", t))))
            else:
                st.env[I(("L", fr.id, p["i"]))] = I(t)
        st = self.exec_func_body(func, st, fr)
        return self.ret_value(fr), st

    def ret_value(self, fr):
        rets = [r for r in fr.rets if r[1] is not None]
        if not rets:
            return ("void",)
        return fold(rets, len(fr.g0))

    def exec_func_body(self, func, st, fr):
        fr.g0 = st.g
        if func["k"] == "ctor":
            for i in func.get("in", []):
                if "f" in i:
                    if i["e"] is None:
                        continue
                    st, v = self.ev(i["e"], st)
                    self.event("init", st, dict(field=i["f"], val=v, node=i, w=i["w"]))
                    st = self.store(("F", fr.this, i["f"]), v, st)
                elif "base" in i or i.get("del"):
                    e = i["e"]
                    if e and e.get("k") == "ctor":
                        st, args = self.ev_args(e["a"], st)
                        self.event("basector", st, dict(cls=e["q"], fn=e["fn"], args=args, node=i, deleg=bool(i.get("del"))))
                        st = self.base_ctor(e, args, fr.this, st)
        g0 = st.g
        st = self.ex(func.get("body"), st)
        if st.dead:
            # join all return states
            pass
        states = [s for s in getattr(fr, "retstates", [])]
        if not st.dead:
            states.append(st)
        out = self.join_states(states, g0)
        if out is None:
            out = st.fork()
            out.dead = True
        return out

    def base_ctor(self, e, args, this, st):
        f = self.F.funcs.get(self.F.cid(e["fn"]))
        if f and f.get("body") is not None and self.inline_policy(f, self.frames[-1].depth):
            st, _ = self.inline(f, args, e["a"], this, st)
        elif e.get("cp") and len(args) == 1 and e["q"] in self.F.classes:
            for k in [e["q"]] + self.F.bases(e["q"]):
                for x in self.F.classes[k]["fields"] if k in self.F.classes else ():
                    if not x.get("st"):
                        q = k + "::" + x["n"]
                        st = self.store(("F", this, q), selectf(args[0], q, None), st)
        return st

    def join_states(self, states, g0):
        if not states:
            return None
        acc = states[-1]
        acc = St(dict(acc.env), g0, False)
        for s in reversed(states[:-1]):
            j = loopat(s.g, len(g0))
            if j is not None:
                s = self.firsts(s, j, acc)
            acc = self.merge(conj(s.g[len(g0):]), s, acc, g0)
        acc.g = g0
        return acc

    def firsts(self, s, j, other):
        """State that leaves the loop entered at position j of its guard: values are those of that iteration."""
        s = s.fork()
        for n in range(len(s.g) - 1, j - 1, -1):
            if s.g[n][0] == "inloop":
                lid, cnd = s.g[n][1], conj(s.g[n + 1:])
                for k, v in s.env.items():
                    if v[0] not in ("ref", "undef") and other.env.get(k) != v:
                        s.env[k] = mk_first(lid, cnd, v)
        return s

    def merge(self, cond, a, b, g):
        env = {}
        ea, eb = a.env, b.env
        for k in ea.keys() | eb.keys():
            va, vb = ea.get(k), eb.get(k)
            if va is vb or va == vb:
                env[k] = va
                continue
            if va is None:
                va = self.default(k)
            if vb is None:
                vb = self.default(k)
            env[k] = mk_phi(cond, va, vb)
        return St(env, g, False)

    # ---------------------------------------------------------------- events
    def event(self, kind, st, data):
        if self.quiet:
            return
        data["kind"] = kind
        data["g"] = st.g
        data["func"] = self.frames[-1].func
        data["stack"] = tuple(f.func["q"] for f in self.frames)
        data["loops"] = tuple(self.loops)
        self.events.append(data)
        h = getattr(self, "on_event", None)
        if h is not None:
            h(data, st)

    # ---------------------------------------------------------------- statements
    def ex(self, s, st):
        if s is None or st.dead:
            return st
        m = getattr(self, "x_" + s["k"], None)
        if m is None:
            return st
        return m(s, st)

    def x_blk(self, s, st):
        for x in s["b"]:
            st = self.ex(x, st)
            if st.dead:
                break
        return st

    def x_expr(self, s, st):
        st, _ = self.ev(s["e"], st)
        return st

    def x_decl(self, s, st):
        for v in s["v"]:
            st = self.declare(v, st)
        return st

    def declare(self, v, st):
        k = I(("L", self.frames[-1].id, v["i"]))
        if v.get("init") is None:
            st.env[k] = I(("undef", v["n"]))
            return st
        if v.get("rf"):
            st, lk = self.lv(v["init"], st)
            st.env[k] = I(("ref", lk))
            return st
        st, val = self.ev(v["init"], st)
        if val[0] == "obj" and not val[2] and val[1].startswith("std::"):
            val = ("empty", val[1]) if "string" not in val[1] else c("")
        st.env[k] = val
        if v.get("st"):
            if not hasattr(self, "statics"):
                self.statics = {}
            nm = self.statics.setdefault(v["l"], "static %s #%d" % (v.get("t") or "", sum(1 for e in self.statics.values() if e.startswith("static %s #" % (v.get("t") or "")))))
            self.event("staticlocal", st, dict(name=nm, val=val, node=v))
            if not (fixed_type(v.get("t") or "") and (is_c(val) or val[0] == "list" and all(is_c(x) for x in val[1:]))):
                st.env[k] = I(("ref", I(("G", nm))))     # lives on after the call
        self.event("decl", st, dict(name=v["n"], val=val, node=v, typ=v["t"]))
        return st

    def x_if(self, s, st):
        if s.get("in"):
            st = self.ex(s["in"], st)
        if s.get("cvr"):
            st = self.declare(s["cvr"], st)
        st, cond = self.ev_cond(s["c"], st)
        self.event("if", st, dict(cond=cond, node=s))
        if is_c(cond):
            return self.ex(s["th"] if cond[1] else s["el"], st)
        g = st.g
        a = st.fork(); a.g = guard_and(g, cond)
        b = st.fork(); b.g = guard_and(g, mk_not(cond))
        a = self.ex(s["th"], a)
        b = self.ex(s["el"], b)
        if a.dead and b.dead:
            st.dead = True
            return st
        if a.dead:
            return b
        if b.dead:
            return a
        # an early exit nested in a branch restricts what follows
        ga, gb = a.g, b.g
        m = self.merge(cond, a, b, g)
        if len(ga) > len(g) + 1 or len(gb) > len(g) + 1:
            m.g = guard_and(g, disj([ga, gb], g))
        return m

    def ev_cond(self, e, st):
        st, v = self.ev(e, st)
        return st, v

    def x_ret(self, s, st):
        fr = self.frames[-1]
        v = None
        if s.get("e") is not None:
            if is_ref(fr.func.get("rt", "")):
                st, k = self.lv(s["e"], st)
                fr.retkey = k
                v = self.load(k, st)
            else:
                st, v = self.ev(s["e"], st)
        self.event("ret", st, dict(val=v, node=s))
        fr.rets.append((st.g, v))
        rs = st.fork()
        if not hasattr(fr, "retstates"):
            fr.retstates = []
        fr.retstates.append(rs)
        st.dead = True
        return st

    def x_break(self, s, st):
        fr = self.frames[-1]
        if fr.brk:
            fr.brk[-1].append(st.fork())
        st.dead = True
        return st

    def x_continue(self, s, st):
        fr = self.frames[-1]
        if fr.cont:
            fr.cont[-1].append(st.fork())
        st.dead = True
        return st

    def x_switch(self, s, st):
        if s.get("in"):
            st = self.ex(s["in"], st)
        st, v = self.ev(s["c"], st)
        fr = self.frames[-1]
        # flatten cases
        items = []

        def flat(x):
            if x is None:
                return
            if x["k"] == "blk":
                for y in x["b"]:
                    flat(y)
            elif x["k"] in ("case", "default"):
                items.append(("label", x))
                flat(x["b"])
            else:
                items.append(("st", x))
        flat(s["b"])
        g0 = st.g
        fr.brk.append([])
        died = [False]
        cur = None
        outs = []
        base = st
        has_default = any(k == "label" and x["k"] == "default" for k, x in items)
        allc = []
        for k, x in items:
            if k == "label" and x["k"] == "case":
                _, cv = self.ev(x["v"], base.fork())
                allc.append(mk_op("==", v, cv))
        for k, x in items:
            if k == "label":
                if x["k"] == "case":
                    _, cv = self.ev(x["v"], base.fork())
                    cond = mk_op("==", v, cv)
                else:
                    cond = TRUE
                    for cc in allc:
                        cond = mk_op("&&", cond, mk_not(cc))
                if is_c(cond) and not cond[1]:
                    continue
                n = base.fork()
                n.g = guard_and(g0, cond)
                if cur is not None and not cur.dead:
                    m = self.merge(cond, n, cur, g0)
                    orc = mk_op("||", disj([cur.g], g0), cond)
                    m.g = guard_and(g0, orc)
                    cur = m
                else:
                    cur = n
            else:
                if cur is None or cur.dead:
                    continue
                nb = len(fr.brk[-1])
                cur = self.ex(x, cur)
                if cur.dead and len(fr.brk[-1]) == nb:
                    died[0] = True
        if cur is not None and not cur.dead:
            outs.append(cur)
        outs = fr.brk.pop() + outs
        if not has_default:
            n = base.fork()
            cond = TRUE
            for cc in allc:
                cond = mk_op("&&", cond, mk_not(cc))
            if cond != FALSE:
                n.g = guard_and(g0, cond)
                outs.append(n)
        r = self.join_states(outs, g0)
        if r is None:
            st.dead = True
            return st
        if died[0]:
            r.g = guard_and(g0, disj([o.g for o in outs], g0))
        return r

    # ---- loops
    def x_for(self, s, st):
        if s.get("in"):
            st = self.ex(s["in"], st)
        # try constant unrolling
        r = self.try_unroll(s, st, s.get("c"), s.get("b"), s.get("inc"))
        if r is not None:
            return r
        return self.loop(s, st, s.get("c"), s.get("b"), s.get("inc"))

    def try_unroll(self, s, st, c_, body, inc, post=False):
        """Execute a loop whose condition folds to a constant at every iteration (at most self.unroll trips)."""
        fr = self.frames[-1]
        if c_ is None:
            return None
        self.quiet += 1
        t = st.fork()
        t, cnd = self.ev(c_, t)
        self.quiet -= 1
        if not is_c(cnd) and not post:
            return None
        mark = len(self.events)
        rb = (list(fr.rets), list(getattr(fr, "retstates", [])))
        cur = st.fork()
        g0 = st.g
        exits = []
        trips = 0
        first = post
        ok = True
        while True:
            if not first:
                cur, cnd = self.ev(c_, cur)
                if not is_c(cnd):
                    ok = False
                    break
                if not cnd[1]:
                    break
            first = False
            trips += 1
            if trips > self.unroll:
                ok = False
                break
            fr.brk.append([]); fr.cont.append([])
            cur = self.ex(body, cur)
            b, k = fr.brk.pop(), fr.cont.pop()
            exits += b
            states = k + ([] if cur.dead else [cur])
            j = self.join_states(states, g0)
            if j is None:
                cur = St({}, g0, True)
                break
            if len(states) == 1:
                j.g = states[0].g
            cur = j
            if inc is not None:
                cur, _ = self.ev(inc, cur)
        if not ok:
            del self.events[mark:]
            fr.rets, fr.retstates = rb
            return None
        states = exits + ([] if cur.dead else [cur])
        j = self.join_states(states, g0)
        if j is None:
            st = st.fork()
            st.dead = True
            return st
        return j

    def x_while(self, s, st):
        r = self.try_unroll(s, st, s["c"], s["b"], None)
        if r is not None:
            return r
        return self.loop(s, st, s["c"], s["b"], None)

    def x_do(self, s, st):
        r = self.try_unroll(s, st, s["c"], s["b"], None, post=True)
        if r is not None:
            return r
        return self.loop(s, st, s["c"], s["b"], None)

    def x_rfor(self, s, st):
        st, rk = self.lv(s["r"], st)
        cont = self.load(rk, st)
        v = s["v"]
        k = I(("L", self.frames[-1].id, v["i"]))
        at = I(("I", rk, ("iv", c(0), ("call", "size", cont, ()), "<", self.loop_id(s))))
        if v.get("rf"):
            st.env[k] = I(("ref", at))
        return self.loop(s, st, None, s["b"], None, over=cont, keep={k}, elem=None if v.get("rf") else (k, at))

    def loop(self, s, st, c_, body, inc, over=None, keep=(), elem=None):
        fr = self.frames[-1]
        g0 = st.g
        nret = len(fr.rets)
        lid = self.loop_id(s)
        start = dict(st.env)
        ivar = self.induction(s, st, c_, inc)
        changed = set()
        sstate = St(start)

        def sv(k):
            v = start.get(k)
            if v is None and k[0] != "L":
                v = self.load(k, sstate)
            return v if v is not None else I(("none",))

        def havoc(x):
            for k in changed:
                if k in keep:
                    continue
                if k[0] == "L" and k[1] == fr.id and k not in start:
                    continue
                cur = start.get(k)
                if cur is not None and cur[0] == "ref":
                    continue
                if ivar and k == ivar[0] and ivar[1] == "ITER":
                    x.env[k] = I(("iter", ivar[2], ("iv", c(0), ("call", "size", ivar[3], ()), "<", lid)))
                elif ivar and k == ivar[0]:
                    iv = I(("iv",) + tuple(ivar[1:4]) + (lid,))
                    # counting down from ivar[2] to ivar[1]
                    x.env[k] = iv if len(ivar) == 4 else I(mk_op("-", mk_op("+", ivar[2], ivar[1]), iv))
                else:
                    x.env[k] = I(("lv", lid, self.keyname(k, fr), sv(k)))
        if ivar:
            changed.add(ivar[0])
        # find what the body assigns (to a fixpoint, with the induction variable abstracted)
        self.quiet += 1
        for _ in range(4):
            save = (list(fr.rets), list(getattr(fr, "retstates", [])))
            t = st.fork()
            havoc(t)
            if elem is not None:
                t.env[elem[0]] = self.load(elem[1], t)
            before = dict(t.env)
            fr.brk.append([]); fr.cont.append([])
            if c_ is not None:
                t, _v = self.ev(c_, t)
            t = self.ex(body, t)
            allst = fr.brk.pop() + fr.cont.pop() + [t] + list(getattr(fr, "retstates", []))[len(save[1]):]
            t2 = []
            for x in allst:
                if inc is not None:
                    x = x.fork()
                    x.dead = False
                    x, _v = self.ev(inc, x)
                t2.append(x)
            fr.rets, fr.retstates = save
            new = set()
            for x in t2:
                for k in x.env.keys() | before.keys():
                    if k[0] != "T" and x.env.get(k) != before.get(k) and k not in changed:
                        new.add(k)
            if not new:
                break
            changed |= new
        if ivar and ivar[1] != "ITER":
            t = st.fork()
            havoc(t)
            t, b2 = self.ev(ivar[5] if len(ivar) == 6 else c_["y"] if strip(c_["x"]).get("i") == ivar[0][2] else c_["x"], t)
            if b2 != ivar[2 if len(ivar) == 4 else 1] and not self.same_size(b2, ivar[2], lid, changed, [x for x in t2 if not x.dead or inc is not None], fr):
                ivar = None         # the bound changes in the loop
        self.quiet -= 1
        havoc(st)
        if elem is not None:
            st.env[elem[0]] = self.load(elem[1], st)
        if over is None and ivar:
            over = ivar[3] if ivar[1] == "ITER" else range_over(ivar)
        self.loops.append((lid, over, ivar[1:4] if ivar else None))
        fr.brk.append([]); fr.cont.append([])
        b = st.fork()
        ldef = dict(over=None, cond=None, brk=None, ret=None, vals={})
        if c_ is not None and s["k"] != "do":
            b, cnd = self.ev(c_, b)
            if ivar is None:
                ldef["cond"] = cnd
            self.event("loopcond", b, dict(cond=cnd, node=s))
            b.g = guard_and(g0, ("inloop", lid) if (ivar is not None) else ("inloop", lid))
            if ivar is None:
                b.g = guard_and(b.g, cnd)
        else:
            b.g = guard_and(g0, ("inloop", lid))
        b = self.ex(body, b)
        br, ct = fr.brk.pop(), fr.cont.pop()
        ends = ct + ([] if b.dead else [b])
        if inc is not None:
            for x in ends[:1]:
                x, _ = self.ev(inc, x)
        self.loops.pop()
        gb = guard_and(g0, I(("inloop", lid)))
        left = [r[0] for r in fr.rets[nret:]]
        if left:
            ldef["ret"] = disj(left, gb)
        if c_ is not None and s["k"] != "do" and ivar is None:
            gb = guard_and(gb, cnd)
        if s["k"] == "do" and c_ is not None and ends:
            _x, ldef["cond"] = self.ev(c_, ends[0].fork())
        if br:
            ldef["brk"] = disj([x.g for x in br], gb)
        ldef["over"] = I(over) if over is not None else None
        ej = self.join_states([x for x in ends if not x.dead], gb) if ends else None
        bj = self.join_states(br, gb) if br else None
        for k in changed:
            if k in keep or (k[0] == "L" and k[1] == fr.id and k not in start):
                continue
            if start.get(k) is not None and start[k][0] == "ref":
                continue
            none = I(("none",))
            ldef["vals"][I(self.keyname(k, fr))] = (ej.env.get(k, none) if ej else none, sv(k), bj.env.get(k, none) if bj else none)
        self.loopdefs[lid] = ldef
        # after the loop: what changed is unknown-but-named
        out = st.fork()
        out.g = guard_and(g0, mk_not(mk_some(lid, ldef["ret"]))) if left else g0
        for k in changed:
            if k in keep or (k[0] == "L" and k[1] == fr.id and k not in start):
                out.env.pop(k, None)
                continue
            cur = start.get(k)
            if cur is not None and cur[0] == "ref":
                continue
            vals = []
            for x in ends + br:
                v = x.env.get(k)
                if v is not None and v not in vals:
                    vals.append(v)
            if len(vals) == 1:
                out.env[k] = I(("aft", lid, over, vals[0], sv(k), self.keyname(k, fr)))
            else:
                out.env[k] = I(("aft", lid, over, ("any",) + tuple(sorted(vals, key=key)), sv(k), self.keyname(k, fr)))
        if c_ is None and s["k"] in ("while", "for") and not br:
            out.dead = True
        return out

    def same_size(self, b2, b, lid, changed, ends, fr):
        """The bound is the size of a container of which the body only replaces elements."""
        if not (b2[0] == "call" and b[0] == "call" and len(b2) == 4 and b2[1] == b[1] and isinstance(b[1], str) and b[1].split("(")[0].rsplit("::", 1)[-1] == "size"):
            return False
        v = b2[2]
        if v[0] != "lv" or v[1] != lid or v[3] != b[2]:
            return False
        for k in changed:
            if I(self.keyname(k, fr)) == v[2]:
                return all(keeps_size(x.env.get(k, v), v) for x in ends)
        return False

    def loop_id(self, s):
        fr = self.frames[-1]
        return I(("loop", fr.func["q"], self.loop_index(fr.func, s, getattr(fr, "site", None)), fr.id, len(self.loops)))

    def loop_index(self, f, s, site=None):
        ix = f.setdefault("_loopix", {})
        return ix.setdefault(id(s) if site is None else (id(s), site), len(ix))

    def declared_before(self, k, start):
        return k in start

    def keyname(self, k, fr):
        if k[0] == "L":
            return ("local", k[1] - fr.id if k[1] != fr.id else 0, k[2])
        return k

    def induction(self, s, st, c_, inc):
        """(key, start, bound, op) if s is a simple counted loop i = start; i < bound; ++i."""
        if s["k"] != "for" or c_ is None or inc is None:
            return None
        if c_.get("k") == "call" and c_.get("opc") == "!=" and inc.get("k") == "call" and inc.get("opc") == "++":
            xs = ([c_["o"]] if "o" in c_ else []) + c_["a"]
            if len(xs) == 2 and xs[0].get("k") == "ref" and "i" in xs[0] and xs[1].get("k") == "call" and xs[1].get("q", "").rsplit("::", 1)[-1] in ("end", "cend") and "o" in xs[1]:
                self.quiet += 1
                t = st.fork()
                t, ck = self.lv(xs[1]["o"], t)
                self.quiet -= 1
                cont = self.load(ck, st)
                k = I(("L", self.frames[-1].id, xs[0]["i"]))
                return (k, "ITER", ck, cont)
        if c_.get("k") != "bin" or c_["op"] not in ("<", "<=", "!=", ">", ">="):
            return None
        i = inc
        for x, y, op in ((strip(c_["x"]), c_["y"], c_["op"]), (strip(c_["y"]), c_["x"], FLIP.get(c_["op"], c_["op"]))):
            if x.get("k") != "ref" or "i" not in x or x.get("d") not in ("l", "p"):
                continue
            k = I(("L", self.frames[-1].id, x["i"]))
            up, dn = ((i.get("k") == "un" and i["op"] == o + o and strip(i["e"]).get("i") == x["i"]) or
                      (i.get("k") == "bin" and i["op"] == o + "=" and strip(i["x"]).get("i") == x["i"] and strip(i["y"]).get("v") == 1) for o in "+-")
            if not (up and op in ("<", "<=", "!=") or dn and op in (">", ">=", "!=")) or canon.assigns(s["b"], x["i"]):
                continue
            self.quiet += 1
            t = st.fork()
            t, b = self.ev(y, t)
            self.quiet -= 1
            s0 = st.env.get(k, ("none",))
            if up:
                return (k, s0, b, op)
            if op == ">=" and bare(x.get("t")).startswith(("unsigned", "size_t")):
                return None
            return (k, b, s0, FLIP.get(op, "<"), "down", y)
        return None

    def x_try(self, s, st):
        return self.ex(s["b"], st)

    def x_nop(self, s, st):
        return st

    # ---------------------------------------------------------------- lvalues
    def default(self, k):
        if k[0] == "F":
            b = k[1]
            return ("fld", b, k[2])
        if k[0] == "I":
            return ("idx", self.default(k[1]), k[2])
        if k[0] == "E":
            return ("elem", self.default(k[1]))
        if k[0] == "D":
            return ("deref", k[1])
        if k[0] == "G":
            return ("glob", k[1])
        if k[0] == "T":
            return ("temp", k[1])
        return ("undef", repr(k))

    def resolve(self, k, st):
        n = 0
        while True:
            v = st.env.get(k)
            if v is not None and v[0] == "ref":
                k = v[1]
                n += 1
                if n > 50:
                    return k
                continue
            break
        if k[0] == "D" and k[1][0] == "addr":
            return self.resolve(k[1][1], st)
        return k

    def addr(self, k):
        if k[0] == "D":
            return k[1]
        return ("addr", k)

    def lv(self, e, st):
        st, v = self._lv(e, st)
        return st, (v if type(v) is T else I(v))

    def _lv(self, e, st):
        """Evaluate e as an lvalue; returns (state, key)."""
        k = e.get("k")
        if k == "ref":
            if e["d"] in ("l", "p", "sl"):
                kk = I(("L", self.frames[-1].id, e.get("i")))
                return st, self.resolve(kk, st)
            return st, ("G", e.get("q", e["n"]))
        if k == "mem":
            if e.get("st"):
                return st, ("G", e["f"])
            if e.get("ar"):
                st, p = self.ev(e["b"], st)
                if p[0] == "mapit":
                    return st, p[1] if e["n"] == "second" else self.temp(p[1][2], st)
            else:
                st, bk = self.lv(e["b"], st)
                p = self.addr(bk)
            return st, self.resolve(("F", p, e["f"]), st)
        if k == "un" and e["op"] == "*":
            x = strip(e["e"])
            if x.get("k") == "bin" and x["op"] == "+" and (strip(x["x"]).get("t") or "").rstrip().endswith(("*", "]")):
                return self._lv({"k": "idx", "b": x["x"], "x": x["y"], "l": e.get("l"), "t": e.get("t")}, st)
            st, p = self.ev(e["e"], st)
            return st, self.resolve(("D", p), st)
        if k == "un" and e["op"] in ("++", "--") and not e.get("post"):
            st, _ = self.ev(e, st)
            return self.lv(e["e"], st)
        if k == "bin" and e["op"].endswith("=") and e["op"] not in ("==", "!=", "<=", ">="):
            st, _ = self.ev(e, st)
            return self.lv(e["x"], st)
        if k == "idx":
            x = strip(e["b"])
            if x.get("k") == "bin" and x["op"] == "+" and (strip(x["x"]).get("t") or "").rstrip().endswith(("*", "]")):
                return self._lv(dict(e, b=x["x"], x={"k": "bin", "op": "+", "x": x["y"], "y": e["x"], "l": e.get("l"), "t": "int"}), st)
            st, bk = self.lv(e["b"], st)
            if bk[0] == "L" and e["b"].get("k") == "ref" and e["b"].get("t", "").replace("const", "").strip().endswith("*"):
                p = self.load(bk, st)   # a local pointer: the element belongs to what it points to
                if p[0] in ("p", "addr", "fld", "new", "op"):
                    bk = self.resolve(("D", p), st)
            st, i = self.ev(e["x"], st)
            return st, ("I", bk, i)
        if k == "cast" :
            return self.lv(e["e"], st)
        if k == "call":
            q = e.get("q", "")
            base = q.rsplit("::", 1)[-1]
            if base in ("operator[]", "at") and "o" in e and len(e["a"]) == 1:
                st, bk = self.lv(e["o"], st)
                st, i = self.ev(e["a"][0], st)
                return st, self.index_key(bk, i, st)
            if base == "operator()" and "o" in e and q.startswith("s2e::math::"):
                st, bk = self.lv(e["o"], st)
                for a in e["a"]:
                    st, i = self.ev(a, st)
                    bk = ("I", bk, i)
                return st, bk
            if is_view(q, base) and "o" in e:
                return self.lv(e["o"], st)
            if base in ("operator*", "operator->") and "o" in e and not e["a"]:
                st, p = self.ev(e["o"], st)
                if p[0] == "phi" and p[2][0] == "first" and p[2][3][0] == "iter":     # the first such element
                    p = I(("iter", p[2][3][1], I(p[2][:3] + (p[2][3][2],))))
                if p[0] == "iter" and base == "operator*":
                    return st, ("I", p[1], p[2])
                if p[0] == "mapit":
                    return st, self.temp(p, st)
                if p[0] == "iter":
                    return st, self.temp(I(("addr", ("I", p[1], p[2]))), st)
                if base == "operator->":
                    return st, self.temp(p, st)
                return st, self.resolve(("D", p), st)
            if base in ("front", "back") and "o" in e:
                st, bk = self.lv(e["o"], st)
                return st, ("I", bk, c(0) if base == "front" else mk_op("-", ("call", "size", self.load(bk, st), ()), c(1)))
            if base in ("data", "begin", "cbegin") and base == "data" and "o" in e and "basic_string" not in q:
                return self.lv(e["o"], st)
            self._lastkey = None
            st, v = self.ev(e, st, want_key=True)
            if self._lastkey is not None:
                kk = self._lastkey
                self._lastkey = None
                return st, self.resolve(kk, st)
            if is_ref(self.rtype(e)):
                return st, ("D", ("addrof", v))
            return st, self.temp(v, st)
        if k == "this":
            return st, self.temp(self.frames[-1].this, st)
        if k == "cond":
            st, v = self.ev(e, st)
            return st, self.temp(v, st)
        st, v = self.ev(e, st)
        return st, self.temp(v, st)

    def rtype(self, e):
        d = self.F.funcs.get(self.F.cid(e.get("fn")))
        if d:
            return d.get("rt", "")
        d = self.F.decls.get(e.get("fn"))
        if d:
            rt = d[1].get("rt")
            return rt if isinstance(rt, str) else ""
        return ""

    def index_key(self, bk, i, st):
        return ("I", bk, i)

    def temp(self, v, st):
        k = I(("T", v))
        st.env.setdefault(k, v)
        return k

    def load(self, k, st):
        v = self._load(k, st)
        if k[0] == "F" and k in self.parents:
            v = self.whole(k, v, st)
        return v if type(v) is T else I(v)

    def whole(self, k, v, st):
        """A member object, with the values its own members were given one by one."""
        pre = I(("addr", k))
        for f in sorted({x[2] for x in self.parents[k]}):
            kk = I(("F", pre, f))
            if kk in st.env or kk in self.parents and any(self.below(x, kk) for x in st.env):
                v = I(("updf", v, f, self.load(kk, st)))
        return v

    def pointed(self, vals, pts, st):
        """What a call finds in the members it is given the address of, when they were changed before it."""
        out = []
        for i, v in enumerate(vals):
            if v[0] != "addr" or not v[1]:
                continue
            pt = pts[i] if i < len(pts) else ""
            if pt.endswith("*") and not pt.startswith("const ") and pt[:-1].strip() in SCALARS:
                continue        # (filled by the call)
            k = v[1]
            while k[0] == "I":
                k = k[1]
            if k[0] != "F" or local_root(k):
                continue
            if k in st.env or k in self.parents and any(self.below(y, k) for y in st.env):
                out.append(I(("gvar", k[2], self.load(k, st))))
        return out

    @staticmethod
    def below(x, k):
        while x[0] == "F" and x[1][0] == "addr":
            x = x[1][1]
            if x == k:
                return True
        return False

    def _load(self, k, st):
        k = self.resolve(k, st)
        v = st.env.get(k)
        if v is not None:
            return v
        if k[0] == "I":
            return select(self.load(k[1], st), k[2])
        if k[0] == "E":
            return ("elem", self.load(k[1], st))
        if k[0] == "F":
            b = k[1]
            if b[0] == "addr":
                bv = I(self._load(b[1], st)) if b[1][0] == "F" else self.load(b[1], st)
                return selectf(bv, k[2], b)
            if b[0] == "addrof":
                return ("fld", b, k[2])
            return ("fld", b, k[2])
        if k[0] == "D":
            if k[1][0] == "addrof":
                return k[1][1]
            return ("deref", k[1])
        if k[0] == "T":
            return k[1]
        if k[0] == "G":
            g = self.F.globals.get(k[1])
            if g and g.get("c"):
                cv = (g.get("init") or {}).get("cv", g.get("cv"))
                if cv is not None and isinstance(cv, int) and not isinstance(cv, bool):
                    return c(cv)
                i = g.get("init")
                if i and i.get("k") == "str":
                    return c(i["v"])
                if i and i.get("k") == "ctor" and len(i.get("a", [])) >= 1 and i["a"][0].get("k") == "str":
                    return c(i["a"][0]["v"])
            return ("glob", k[1])
        return self.default(k)

    def store(self, k, v, st):
        k = I(self.resolve(k, st))
        v = I(v)
        if k[0] == "I":
            # element store: functional update of the container
            base = k[1]
            old = self.load(base, st)
            return self.store(base, ("upd", old, k[2], v), st)
        if k[0] == "E":
            return st
        if k[0] == "F" and k[1][0] == "addr" and k[1][1][0] == "I":
            return self.store(k[1][1], ("updf", self.load(k[1][1], st), k[2], v), st)
        if k[0] == "F" and k[1][0] == "addr" and k[1][1][0] in ("L", "T"):
            bk = k[1][1]
            old = self.load(bk, st)
            st.env[self.resolve(bk, st)] = ("updf", old, k[2], v)
            return st
        x = k
        while x[0] == "F" and x[1][0] == "addr":
            x = x[1][1]
        if x is not k and x[0] in ("L", "T", "I"):
            # a member of a member of a local object: the local object changes
            return self.store(k[1][1], ("updf", self.load(k[1][1], st), k[2], v), st)
        x = k
        while x[0] == "F" and x[1][0] == "addr":
            up = x[1][1]
            if x in self.parents.setdefault(up, set()):
                break
            self.parents[up].add(x)
            x = up
        # overwriting a whole object invalidates field facts below it
        if k[0] == "F" and k in self.parents:
            for kk in [x for x in st.env if self.below(x, k)]:
                del st.env[kk]
        st.env[k] = v
        return st

    # ---------------------------------------------------------------- expressions
    def ev(self, e, st, want_key=False):
        st, v = self._ev(e, st, want_key)
        return st, (v if type(v) is T else I(v))

    def _ev(self, e, st, want_key=False):
        if e is None:
            return st, ("none",)
        k = e["k"]
        if k == "flt" and isinstance(e["v"], int):
            return st, c(float(e["v"]))
        if k in ("int", "flt", "bool", "str"):
            return st, c(e["v"])
        if k == "null":
            return st, c(None)
        if k == "this":
            return st, self.frames[-1].this
        if k == "ref":
            if e["d"] == "e":
                return st, ("enum", e["q"])
            if e["d"] == "f":
                return st, ("func", e["q"])
            if "cv" in e and isinstance(e["cv"], int):
                return st, c(e["cv"])
            st, kk = self.lv(e, st)
            return st, self.load(kk, st)
        if k == "mem":
            if "cv" in e and isinstance(e["cv"], int):
                return st, c(e["cv"])
            st, kk = self.lv(e, st)
            return st, self.load(kk, st)
        m = getattr(self, "e_" + k, None)
        if m is None:
            args = []
            for a in e.get("a", []):
                st, v = self.ev(a, st)
                args.append(v)
            return st, ("unk", k, e.get("cls", "")) + tuple(args)
        if k == "call":
            return m(e, st, want_key)
        return m(e, st)

    def e_idx(self, e, st):
        st, kk = self.lv(e, st)
        return st, self.load(kk, st)

    def e_zero(self, e, st):
        t = e.get("t", "")
        if t in ("double", "float"):
            return st, c(0.0)
        if t == "bool":
            return st, FALSE
        if t.endswith("*"):
            return st, c(None)
        return st, c(0)

    def e_szof(self, e, st):
        return st, c(e["cv"]) if "cv" in e else ("unk", "sizeof")

    def e_lambda(self, e, st):
        if e.get("body") is None:
            return st, ("lambda", e["l"])
        n = len(self.lams)
        for j, (node, fr) in enumerate(self.lams):
            if node is e and fr is self.frames[-1]:
                n = j
                break
        else:
            self.lams.append((e, self.frames[-1]))
        return st, ("lambda", e["l"], n)

    def call_lambda(self, lam, args, st, site=None):
        """Body of a lambda in the frame that created it (arguments: values or ("key", location))."""
        node, home = self.lams[lam[2]]
        f = dict(q=home.func["q"], id=home.func["id"] + "$lambda%d" % node["l"], k="lambda", ps=node["ps"], body=node["body"], rt="", file=home.func["file"], l=node["l"], _loopix=home.func.setdefault("_loopix", {}))
        fr = Frame(f, home.this, len(self.frames))
        fr.id = home.id
        fr.site = (getattr(self.frames[-1], "site", None), id(site))   # a loop in a lambda is another loop at each call
        for p, a in zip(node["ps"], args):
            k = I(("L", fr.id, p["i"]))
            if a[0] == "key":
                st.env[k] = I(("ref", a[1])) if is_ref(p["t"]) else self.load(a[1], st)
            else:
                st.env[k] = I(a)
        self.frames.append(fr)
        st = self.exec_func_body(f, st, fr)
        self.frames.pop()
        self._lastkey = None
        return st, self.ret_value(fr)

    def e_lamcall(self, e, st):
        st, l = self.ev(e["f"], st)
        args = []
        for a in e["a"]:
            st, kk = self.lv(a, st)
            args.append(("key", kk))
        return self.call_lambda(l, args, st, e)

    def algorithm(self, e, base, st):
        """Standard algorithms over a whole container, as the loops they stand for."""
        a = e["a"]
        cont = whole(a[0], a[1])
        if base == "accumulate" and len(a) == 3 and (cont is None or type(cont) is tuple):
            # part of an array or container
            (b, lo), (b2, hi) = stepped(a[0]), stepped(a[1])
            if b is None or b2 is None or hi is None or not same_expr(b, b2):
                return None
            v = "acc%d" % e["l"]
            t = a[2].get("t", "")
            acc, j = {"k": "ref", "d": "l", "i": v, "n": "acc", "l": e["l"], "t": t}, {"k": "ref", "d": "l", "i": v + "j", "n": "j", "l": e["l"], "t": "int"}
            el = {"k": "idx", "b": b, "x": j, "l": e["l"], "t": (b.get("t") or "").split("[")[0]}
            loop = self.algnode(e, {"k": "for", "l": e["l"], "in": {"k": "decl", "l": e["l"], "v": [{"i": v + "j", "n": "j", "init": lo or {"k": "int", "v": 0, "t": "int"}, "t": "int"}]},
                                    "c": {"k": "bin", "op": "<", "x": j, "y": hi, "l": e["l"], "t": "bool"}, "inc": {"k": "un", "op": "++", "e": j, "l": e["l"], "t": "int"},
                                    "b": {"k": "expr", "l": e["l"], "e": {"k": "bin", "op": "=", "x": acc, "y": {"k": "bin", "op": "+", "x": acc, "y": el, "l": e["l"], "t": t}, "l": e["l"], "t": t}}})
            return self.subframe(e, {"k": "blk", "b": [{"k": "decl", "v": [{"i": v, "n": "acc", "init": a[2], "t": t}]}, loop, {"k": "ret", "e": acc, "l": e["l"]}]}, st)
        if type(cont) is tuple and base == "copy":
            return self.copybytes(e, a[2], cont[1], cont[2], st)
        if cont is None or type(cont) is tuple:
            return None
        i = "alg%d" % e["l"]
        el = {"k": "ref", "d": "l", "i": i, "n": i, "l": e["l"], "t": ""}

        def call(f, *xs):
            l = strip(f)
            if l.get("k") == "ctor" and len(l.get("a", [])) == 1:
                l = strip(l["a"][0])
            if l.get("k") == "lambda" and l.get("body") is not None:
                return {"k": "lamcall", "f": l, "a": list(xs), "l": e["l"]}
            return None

        def each(body):
            return self.algnode(e, {"k": "rfor", "r": cont, "v": {"i": i, "n": i, "rf": True, "t": ""}, "b": body, "l": e["l"], "in": None})

        def asg(k, y):
            return {"k": "expr", "e": {"k": "bin", "op": "=", "x": k, "y": y, "l": e["l"], "t": k.get("t", "")}, "l": e["l"]}
        if base in ("any_of", "all_of", "none_of") and len(a) == 3:
            cl = call(a[2], el)
            if cl is None:
                return None
            if base == "all_of":
                cl = {"k": "un", "op": "!", "e": cl, "l": e["l"], "t": "bool"}
            body = {"k": "blk", "b": [each({"k": "if", "c": cl, "th": {"k": "ret", "e": {"k": "bool", "v": base == "any_of"}, "l": e["l"]}, "el": None, "l": e["l"]}),
                                      {"k": "ret", "e": {"k": "bool", "v": base != "any_of"}, "l": e["l"]}]}
            return self.subframe(e, body, st)
        if base == "accumulate" and len(a) in (3, 4):
            acc = {"k": "ref", "d": "l", "i": i + "a", "n": "acc", "l": e["l"], "t": a[2].get("t", "")}
            if len(a) == 3:
                y = {"k": "bin", "op": "+", "x": acc, "y": el, "l": e["l"], "t": ""}
                if bare(a[2].get("t")) in INTT and e.get("et") not in INTT and not any(z in (strip(cont).get("t") or "") for z in ("int", "char", "long", "bool")):
                    y = {"k": "cast", "ck": "FloatingToIntegral", "e": y, "l": e["l"], "t": "int"}
            else:
                y = call(a[3], acc, el)
            if y is None:
                return None
            body = {"k": "blk", "b": [{"k": "decl", "v": [{"i": i + "a", "n": "acc", "init": a[2], "t": a[2].get("t", "")}]}, each(asg(acc, y)), {"k": "ret", "e": acc, "l": e["l"]}]}
            return self.subframe(e, body, st)
        if base == "for_each" and len(a) == 3:
            cl = call(a[2], el)
            return None if cl is None else self.subframe(e, each({"k": "expr", "e": cl}), st)
        if base in ("transform", "copy") and len(a) == (4 if base == "transform" else 3):
            out = begin_of(a[2])
            y = el if base == "copy" else call(a[3], el)
            if out is None or y is None:
                return None
            j = {"k": "ref", "d": "l", "i": i + "j", "n": "j", "l": e["l"], "t": "size_t"}
            body = {"k": "blk", "b": [{"k": "decl", "v": [{"i": i + "j", "n": "j", "init": {"k": "int", "v": 0}, "t": "size_t"}]},
                                      each({"k": "blk", "b": [asg({"k": "idx", "b": out, "x": j, "l": e["l"], "t": ""}, y), {"k": "expr", "e": {"k": "un", "op": "++", "e": j, "l": e["l"]}}]})]}
            return self.subframe(e, body, st)
        if base in ("replace", "replace_if") and len(a) == 4:
            cn = {"k": "bin", "op": "==", "x": el, "y": a[2], "l": e["l"], "t": "bool"} if base == "replace" else call(a[2], el)
            if cn is not None:
                return self.subframe(e, each({"k": "if", "c": cn, "th": asg(el, a[3]), "el": None, "l": e["l"]}), st)
        if base in ("count", "count_if") and len(a) == 3:
            cn = {"k": "bin", "op": "==", "x": el, "y": a[2], "l": e["l"], "t": "bool"} if base == "count" else call(a[2], el)
            if cn is not None:
                acc = {"k": "ref", "d": "l", "i": i + "a", "n": "acc", "l": e["l"], "t": "long"}
                body = {"k": "blk", "b": [{"k": "decl", "v": [{"i": i + "a", "n": "acc", "init": {"k": "int", "v": 0}, "t": "long"}]},
                                          each({"k": "if", "c": cn, "th": {"k": "expr", "e": {"k": "un", "op": "++", "e": acc, "l": e["l"]}}, "el": None, "l": e["l"]}), {"k": "ret", "e": acc, "l": e["l"]}]}
                return self.subframe(e, body, st)
        if base in ("find", "find_if") and len(a) == 3:
            # the first such position, or the end
            ct = strip(a[0]).get("t") or ""
            it = {"k": "ref", "d": "l", "i": i, "n": i, "l": e["l"], "t": ct}
            el = {"k": "call", "opc": "*", "q": "__gnu_cxx::__normal_iterator::operator*", "o": it, "a": [], "l": e["l"], "t": ""}
            cn = {"k": "bin", "op": "==", "x": el, "y": a[2], "l": e["l"], "t": "bool"} if base == "find" else call(a[2], el)
            if cn is not None and "iterator" in ct:
                loop = self.algnode(e, {"k": "for", "l": e["l"], "in": {"k": "decl", "l": e["l"], "v": [{"i": i, "n": i, "init": a[0], "t": ct}]},
                                        "c": {"k": "call", "opc": "!=", "q": "__gnu_cxx::operator!=", "a": [it, a[1]], "l": e["l"], "t": "bool"},
                                        "inc": {"k": "call", "opc": "++", "q": "__gnu_cxx::__normal_iterator::operator++", "o": it, "a": [], "l": e["l"], "t": ct},
                                        "b": {"k": "if", "c": cn, "th": {"k": "ret", "e": it, "l": e["l"]}, "el": None, "l": e["l"]}})
                return self.subframe(e, {"k": "blk", "b": [loop, {"k": "ret", "e": a[1], "l": e["l"]}]}, st)
        if base == "fill" and len(a) == 3:
            st, k = self.lv(cont, st)
            st, v = self.ev(a[2], st)
            nv = ("mut", "std::fill", self.load(k, st), (v,))
            self.event("assign", st, dict(key=k, val=I(nv), node=e, op="=", old=None))
            return self.store(k, nv, st), ("void",)
        return None

    def copybytes(self, e, dst, src, n, st):
        i = "mc%d" % e["l"]
        j = {"k": "ref", "d": "l", "i": i, "n": i, "l": e["l"], "t": "int"}
        body = self.algnode(e, {"k": "for", "in": {"k": "decl", "v": [{"i": i, "n": i, "init": {"k": "int", "v": 0}, "t": "int"}]}, "c": {"k": "bin", "op": "<", "x": j, "y": n, "l": e["l"], "t": "bool"},
                                "inc": {"k": "un", "op": "++", "e": j, "l": e["l"], "t": "int"}, "l": e["l"],
                                "b": {"k": "expr", "e": {"k": "bin", "op": "=", "x": at(dst, j), "y": at(src, j), "l": e["l"], "t": ""}}})
        return self.subframe(e, body, st)

    def algnode(self, e, node):
        """The synthetic loop of a call is made once, so that it is one loop."""
        return e.setdefault("_alg", {}).setdefault(node["k"], node)

    def subframe(self, e, body, st):
        home = self.frames[-1]
        f = dict(q=home.func["q"], id=home.func["id"] + "$alg%d" % e["l"], k="lambda", ps=[], body=body, rt="", file=home.func["file"], l=e["l"], _loopix=home.func.setdefault("_loopix", {}))
        fr = Frame(f, home.this, len(self.frames))
        fr.id = home.id
        fr.site = getattr(home, "site", None)
        self.frames.append(fr)
        st = self.exec_func_body(f, st, fr)
        self.frames.pop()
        self._lastkey = None
        return st, self.ret_value(fr)

    def e_throw(self, e, st):
        self.event("throw", st, dict(node=e))
        st.dead = True
        return st, ("void",)

    def e_ailoop(self, e, st):
        return self.ev(e["e"], st)

    def e_list(self, e, st):
        out = []
        for a in e["a"]:
            st, v = self.ev(a, st)
            out.append(v)
        if len(out) == 1 and out[0][0] == "list" and "std::array<" in e.get("t", ""):
            return st, out[0]
        if len(out) == 1 and not e.get("t", "").endswith("]") and not e.get("fill") and e.get("t") in ("int", "double", "float", "bool", "unsigned int", "unsigned long", "unsigned char"):
            return st, out[0]
        cl = self.F.classes.get(bare(e.get("t")))
        if cl and not cl.get("uctor") and not cl["bases"] and len(out) <= len(cl["fields"]):
            v = I(("obj", cl["q"], ()))
            for f, x in zip(cl["fields"], out):
                v = I(("updf", v, cl["q"] + "::" + f["n"], x))
            return st, v
        return st, ("list",) + tuple(out)

    def e_cast(self, e, st):
        if "cv" in e and e["ck"] in ("IntegralCast",):
            if (e["e"] or {}).get("t") in ("bool", "const bool"):
                return st, c(bool(e["cv"]))
            return st, c(e["cv"])
        st, v = self.ev(e["e"], st)
        ck = e["ck"]
        if ck == "FloatingToIntegral":
            if is_c(v) and isinstance(v[1], float):
                return st, c(int(v[1]))
            return st, ("trunc", v)
        if ck == "FloatingCast" and bare(e.get("t")) == "float" and bare((e["e"] or {}).get("t")) == "double" and not is_c(v):
            return st, ("f32", v)
        if ck in ("IntegralCast", "IntegralToFloating") and bare((e["e"] or {}).get("t")) == "bool" and not is_c(v):
            return st, mk_phi(v, c(1), c(0))
        if ck == "IntegralCast" and not is_c(v):
            w = WIDTH.get(bare(e.get("t")))
            if w and w < 32 and WIDTH.get(bare((e["e"] or {}).get("t")), 64) > w and v[0] != "narrow":
                return st, ("narrow", w if bare(e.get("t")) in UNSIGNED else -w, v)
            return st, v
        if ck == "IntegralToFloating" and is_c(v) and isinstance(v[1], (int, bool)):
            return st, c(float(v[1]))
        if ck in ("PointerToBoolean",):
            if v[0] in ("new", "addr"):
                return st, TRUE
            return st, mk_op("!=", v, c(None))
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            if is_c(v) and v[1] is not None:
                return st, c(bool(v[1]))
            if v[0] in ("not",) or (v[0] == "op" and v[1] in ("==", "!=", "<", "<=", "&&", "||")):
                return st, v
            return st, mk_op("!=", v, c(0))
        if e.get("dyn"):
            return st, ("dyncast", e.get("t"), v)
        if ck == "ConstructorConversion":
            return st, v
        return st, v

    def narrowed(self, v, x):
        """The value as stored in the lvalue x of a type below int."""
        w = WIDTH.get(bare((x or {}).get("t")), 64)
        return v if w >= 32 or w == 1 or is_c(v) else I(("narrow", w if bare((x or {}).get("t")) in UNSIGNED else -w, v))

    def e_un(self, e, st):
        op = e["op"]
        if op == "&":
            st, kk = self.lv(e["e"], st)
            return st, self.addr(kk)
        if op == "*":
            st, kk = self.lv(e, st)
            return st, self.load(kk, st)
        if op in ("++", "--"):
            st, kk = self.lv(e["e"], st)
            old = self.load(kk, st)
            new = self.narrowed(mk_op("+" if op == "++" else "-", old, c(1)), e["e"])
            self.event("assign", st, dict(key=kk, val=new, node=e, op=op, old=old))
            st = self.store(kk, new, st)
            return st, (old if e.get("post") else new)
        if "cv" in e and isinstance(e["cv"], (int, float)) and op in ("-", "+", "~"):
            return st, c(e["cv"])
        st, v = self.ev(e["e"], st)
        if op == "!":
            return st, mk_not(v)
        if op == "+":
            return st, v
        if op == "-" and is_c(v) and isinstance(v[1], (int, float)):
            return st, c(-v[1])
        return st, ("un", op, v)

    def e_bin(self, e, st):
        op = e["op"]
        if op == "=":
            st, v = self.ev(e["y"], st)
            st, kk = self.lv(e["x"], st)
            self.event("assign", st, dict(key=kk, val=v, node=e, op="=", old=None))
            return self.store(kk, v, st), v
        if op in ("+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>="):
            st, v = self.ev(e["y"], st)
            st, kk = self.lv(e["x"], st)
            old = self.load(kk, st)
            nv = mk_op("idiv" if op == "/=" and bare(e.get("t")) in INTT and bare((e["y"] or {}).get("t")) in INTT else op[:-1], old, v)
            nv = self.narrowed(nv, e["x"])
            self.event("assign", st, dict(key=kk, val=nv, node=e, op=op, old=old, rhs=v))
            return self.store(kk, nv, st), nv
        if op in ("&&", "||"):
            st, a = self.ev(e["x"], st)
            g = st.g
            if is_c(a):
                if bool(a[1]) != (op == "&&"):
                    return st, c(op == "||")
                return self.ev(e["y"], st)
            s2 = st.fork()
            s2.g = guard_and(g, a if op == "&&" else mk_not(a))
            s2, b = self.ev(e["y"], s2)
            if s2.env != st.env:
                st = self.merge(a if op == "&&" else mk_not(a), s2, st, g)
            return st, mk_op(op, a, b)
        if op == ",":
            st, _ = self.ev(e["x"], st)
            return self.ev(e["y"], st)
        st, a = self.ev(e["x"], st)
        st, b = self.ev(e["y"], st)
        if "cv" in e and isinstance(e["cv"], int) and not isinstance(e["cv"], bool):
            return st, c(e["cv"])
        return st, mk_op("idiv" if op == "/" and bare(e.get("t")) in INTT else op, a, b)

    def e_cond(self, e, st):
        st, cnd = self.ev(e["c"], st)
        if is_c(cnd):
            return self.ev(e["x"] if cnd[1] else e["y"], st)
        g = st.g
        a = st.fork(); a.g = guard_and(g, cnd)
        b = st.fork(); b.g = guard_and(g, mk_not(cnd))
        a, x = self.ev(e["x"], a)
        b, y = self.ev(e["y"], b)
        st = self.merge(cnd, a, b, g)
        return st, mk_phi(cnd, x, y)

    def e_new(self, e, st):
        args = ()
        f = None
        if e.get("sz"):
            st, sz = self.ev(e["sz"], st)
            args = (sz,)
        i = e.get("init")
        cls = e["at"]
        if i and i.get("k") == "ctor" and not e.get("arr"):
            st, args = self.ev_args(i["a"], st)
            self.event("construct", st, dict(cls=cls, fn=i["fn"], args=args, node=e, heap=True, e=i))
            args = tuple(args)
            if self.track and cls.startswith("s2e::") and not isinstance(e.get("pl"), list):
                args += tuple(self.pointed(args, sig_types(i["fn"]), st))
            if isinstance(e.get("pl"), list) and len(e["pl"]) == 1:
                st, at = self.ev(e["pl"][0], st)
                if at[0] == "addr":
                    st, v = self.ev(i, st)
                    return self.store(at[1], v, st), at
                self.event("basector", st, dict(cls=i["q"], fn=i["fn"], args=args, node=e, deleg=False))
                return self.base_ctor(i, args, at, st), at
        elif i is not None and not e.get("arr"):
            st, v = self.ev(i, st)
            args = (v,)
        n = ("new", cls + ("[]" if e.get("arr") else ""), args)
        self.event("new", st, dict(val=n, node=e))
        return st, n

    def e_del(self, e, st):
        st, v = self.ev(e["e"], st)
        self.event("delete", st, dict(val=v, node=e, arr=bool(e.get("arr")), e=e["e"]))
        return st, ("void",)

    def ev_args(self, args, st):
        out = []
        for a in args:
            st, v = self.ev(a, st)
            out.append(v)
        return st, out

    def e_ctor(self, e, st):
        a = e["a"]
        cls = e["q"]
        if e.get("cp") and len(a) >= 1:
            st, v = self.ev(a[0], st)
            self.event("copy", st, dict(cls=cls, val=v, node=e))
            return st, v
        if cls.startswith("std::"):
            short = cls.split("<")[0]
            if cls in ("std::vector", "std::deque", "std::list") and isinstance(e.get("t"), str) and cls in e["t"]:
                cls = e["t"].replace("const ", "").strip()
            real = [x for x in a if not x.get("def")]
            if short in ("std::basic_string", "std::__cxx11::basic_string", "std::string"):
                if len(real) == 1:
                    return self.ev(real[0], st)
                if not real:
                    return st, c("")
        if cls.startswith("std::"):
            a = [x for x in a if "allocator" not in (x.get("t") or "").split("<")[0]]
        st, args = self.ev_args(a, st)
        self.event("construct", st, dict(cls=cls, fn=e["fn"], args=args, node=e, heap=False, e=e))
        if cls in ("s2e::math::Vector", "s2e::math::Matrix") and isinstance(e.get("t"), str):
            t = e["t"].replace("const ", "").strip()
            cls = t if t.startswith("s2e::math::") else cls
        return st, ("obj", cls, tuple(args))

    def emplaced(self, e, q):
        """v.emplace_back(a, b)  ->  v.push_back(T(a, b))"""
        r = e.get("_push")
        if r is not None:
            return r
        el, d = "", 0
        for ch in q[q.index("<") + 1:]:
            if d == 0 and ch in ",>":
                break
            d += (ch in "<(") - (ch in ">)")
            el += ch
        el = el.strip()
        a = e["a"]
        head = q[:q.rindex("::emplace_back")] if "::emplace_back" in q else q
        same = len(a) == 1 and (strip(a[0]).get("t") or "").replace("const ", "").replace("&", "").strip() in (el, el + " ")
        if not same and not (len(a) == 1 and el in NUMBERS):
            cs = [f for f in self.F.by_q.get(el.split("<")[0] + "::" + el.split("<")[0].rsplit("::", 1)[-1], []) if f["k"] == "ctor" and len(f["ps"]) == len(a)]
            fn = cs[0]["id"] if len(cs) == 1 else el + "::" + "(emplaced)"
            a = [{"k": "ctor", "a": a, "fn": fn, "q": el.split("<")[0] if not el.startswith("std::") else el, "t": el, "l": e.get("l"), "tmp": True}]
        r = dict(e, q=head + "::push_back", fn=head + "::push_back(const " + el + " &)", a=a)
        r.pop("_push", None)
        e["_push"] = r
        return r

    # ---------------------------------------------------------------- calls
    def e_call(self, e, st, want_key=False):
        q = e.get("q", "?")
        base = q.rsplit("::", 1)[-1]
        fn = self.F.cid(e.get("fn"))
        args_e = e.get("a", [])
        if base.split("<")[0] == "emplace_back" and "o" in e and q.startswith(("std::vector<", "std::deque<", "std::list<")):
            e = self.emplaced(e, q)
            q, base, args_e = e["q"], "push_back", e["a"]
            fn = self.F.cid(e.get("fn"))
        # container/element access as lvalue
        if base in ("operator[]", "at") and "o" in e and len(args_e) == 1 or (base == "operator()" and q.startswith("s2e::math::")):
            st, kk = self.lv(e, st)
            v = self.load(kk, st)
            self.event("index", st, dict(key=kk, val=v, node=e, q=q))
            return st, v
        self._lastnode = None
        r = self.builtin(e, q, base, st)
        if r is not None:
            if self._lastnode is not e:
                self._lastkey = None        # (left behind by a call inside this one)
            return r
        obj = None
        okey = None
        if "o" in e:
            if e.get("ar"):
                st, obj = self.ev(e["o"], st)
                if obj[0] == "addr" and obj[1] and obj[1][0] in ("L", "F", "T", "I", "G"):
                    okey = obj[1]       # a pointer to an object that is known: the same as that object's own call
            else:
                st, okey = self.lv(e["o"], st)
                obj = self.addr(okey)
        # stepping an iterator
        if base in ("operator++", "operator--", "operator+", "operator-") and "o" in e and not e.get("ar") and "iterator" in q.rsplit("::", 1)[0] and not q.startswith("s2e::") \
                and (base in ("operator++", "operator--") or len(args_e) == 1 and "iterator" not in (strip(args_e[0]).get("t") or "")):
            v = self.load(okey, st)
            n = c(1)
            if base in ("operator+", "operator-"):
                st, n = self.ev(args_e[0], st)
            if base in ("operator-", "operator--"):
                n = mk_op("-", c(0), n)
            o, m = (v[2], v[3][0]) if v[0] == "call" and v[1] == "iterator::operator+" else (v, c(0))
            nv = I(("call", "iterator::operator+", o, (mk_op("+", m, n) if m != c(0) else n,)))
            if nv[3][0] == c(0):
                nv = o
            if base in ("operator++", "operator--"):
                st = self.store(okey, nv, st)
                if want_key:
                    self._lastkey = okey
                return st, v if args_e else nv
            if want_key:
                self._lastkey = None
            return st, nv
        # assignment operators of class types
        if base == "operator=" and "o" in e and len(args_e) == 1:
            st, v = self.ev(args_e[0], st)
            st, okey = self.lv(e["o"], st) if okey is None else (st, okey)
            if "basic_string" in q:
                v = charof(args_e[0], v)
            self.event("assign", st, dict(key=okey, val=v, node=e, op="=", old=None))
            st = self.store(okey, v, st)
            if want_key:
                self._lastkey = okey
            return st, v
        keys = []
        vals = []
        f = self.F.funcs.get(fn)
        pts = [p["t"] for p in f["ps"]] if f else sig_types(fn)
        for i, a in enumerate(args_e):
            pt = pts[i] if i < len(pts) else ""
            if is_ref(pt):
                st, kk = self.lv(a, st)
                keys.append(kk)
                vals.append(self.load(kk, st))
            else:
                st, v = self.ev(a, st)
                keys.append(None)
                vals.append(v)
        if base in OPS_ASSIGN and (okey is not None or len(vals) == 2):
            # compound assignment on class types
            if okey is not None:
                old = self.load(okey, st)
                if "basic_string" in q:
                    vals[0] = charof(args_e[0], vals[0])
                nv = mk_op(OPS_ASSIGN[base], old, vals[0])
                kk = okey
                rhs = vals[0]
            else:
                kk = keys[0]
                old = vals[0]
                rhs = vals[1] = charof(args_e[1], vals[1]) if "basic_string" in q else vals[1]
                nv = mk_op(OPS_ASSIGN[base], old, rhs)
            if kk is not None:
                if is_strish(old) or is_strish(vals[-1]) or "basic_string" in q:
                    nv = mk_cat(old, vals[-1])
                self.event("assign", st, dict(key=kk, val=nv, node=e, op=base[8:], old=old, rhs=rhs))
                st = self.store(kk, nv, st)
                if want_key:
                    self._lastkey = kk
                return st, nv
        targets = self.resolve_virtual(e, fn, obj)
        inl = bool(f is not None and f.get("body") is not None and targets and self.should_inline(targets))
        guse = self.F.global_use(fn) if not inl and f is not None and f.get("body") is not None else ((), ())
        state = [I(("gvar", x, st.env[I(("G", x))])) for x in sorted(guse[0]) if I(("G", x)) in st.env]    # what the call finds in variables at file scope
        fbase, fuse = None, ((), ())
        if self.track and not inl and obj is not None and fn and q.startswith("s2e::") and (f is None or f.get("k") not in ("ctor", "dtor") and f.get("cls") and not f.get("static")) and (okey is None or okey[0] == "D"):
            fbase = obj if okey is None else okey[1]
            fuse = self.F.field_use(targets["id"] if targets else fn, not targets)
            for x in sorted(fuse[0]):       # what the call finds in the members of its object
                k = I(("F", fbase, x))
                if k in st.env or k in self.parents and any(self.below(y, k) for y in st.env):
                    state.append(I(("gvar", x, self.load(k, st))))
        if self.track and not inl:
            state = state + self.pointed(vals, pts, st)
        if state:
            vals = vals + state
            keys = keys + [None] * len(state)
        self.event("call", st, dict(q=q, fn=fn, obj=obj, okey=okey, args=vals, keys=keys, node=e, inl=inl))
        if inl:
            st2, v = self.inline(targets, vals, args_e, obj if obj is not None else None, st, keys)
            if want_key:
                self._lastkey = self._retkey
            return st2, v
        objterm = None
        if obj is not None:
            objterm = self.load(okey, st) if okey is not None else obj
            if okey is not None and okey[0] in ("F", "D"):
                objterm = obj if False else objterm
        name = fn if fn else ("fptr",)
        if q.startswith("std::") or q == "?" or fn is None:
            name = q
        # a pointer to a local variable stands for what it points at (the identity of the variable is not part of the value)
        t = ("call", name, objterm if objterm is not None else ("noobj",),
             tuple(("ptr", self.load(v[1], st)) if v[0] == "addr" and local_root(v[1]) else ("undef",) if q.endswith("::DerivativeFunction") and i == 2 else v
                   for i, v in enumerate(vals)))     # (the derivative is written only)
        for x in sorted(guse[1]):
            st = self.store(I(("G", x)), ("out", t, "at " + x), st)
        for x in sorted(fuse[1]):
            st = self.store(I(("F", fbase, x)), ("out", t, "at " + x), st)
        # effects on by-reference arguments
        for i, kk in enumerate(keys):
            pt = pts[i] if i < len(pts) else ""
            if kk is None and pt.endswith("*") and not pt.startswith("const ") and strip(args_e[i]).get("t", "").endswith("]"):
                st, kk = self.lv(strip(args_e[i]), st)
                st = self.store(kk, ("out", t, i), st)
                continue
            if kk is not None and is_ref(pt) and not pt.startswith("const ") and "&&" not in pt:
                self.event("outarg", st, dict(key=kk, call=t, idx=i, node=e))
                st = self.store(kk, ("out", t, i), st)
        for i, v in enumerate(vals):
            pt = pts[i] if i < len(pts) else ""
            if v[0] == "addr" and pt.endswith("*") and not pt.startswith("const ") and v[1][0] in ("L", "F", "T", "I", "G"):
                st = self.store(v[1], ("out", t, i), st)
        if base in ("sscanf", "fscanf"):
            w = I(("call", name, ("noobj",), tuple(t[3][:2])))
            for i, v in enumerate(vals[2:]):
                if v[0] == "addr":
                    st = self.store(v[1], ("out", w, i), st)
        # effects on the receiver
        if okey is not None and (okey[0] in ("L", "F", "T", "I") or okey[0] in ("D", "G") and base in MUTATORS) and not (fn or "").endswith(")c") and not any(q.startswith(p) for p in PURE_CLASSES) \
                and not is_static_method(self.F, fn) and (q.startswith("s2e::") or base in MUTATORS):
            st = self.store(okey, ("mut", name, objterm, tuple(vals)), st)
        if want_key:
            self._lastkey = None
        return st, t

    def resolve_virtual(self, e, fn, obj):
        f = self.F.funcs.get(fn)
        if not e.get("vt"):
            return f
        if obj == THIS or (self.frames and obj == self.frames[-1].this):
            cls = getattr(self, "this_class", None)
            if cls and f is not None:
                tgt = next((x for x in self.F.targets(fn, True) if x.get("cls") == cls), f)
                if not getattr(self, "exact_class", True) and self.F.overriders.get(tgt["id"]):
                    return None     # the object may be of a class derived from this one, with its own version
                return tgt
        ov = self.F.overriders.get(fn, [])
        if f is not None and not ov:
            return f
        return None

    def should_inline(self, f):
        d = len(self.frames)
        if d > self.MAXDEPTH or any(fr.func["id"] == f["id"] for fr in self.frames):
            return False
        return self.inline_policy(f, d)

    def inline(self, f, vals, arg_es, this, st, keys=None):
        self.inlined.add(f["id"])
        fr = Frame(f, this, len(self.frames))
        fr.id = next(self.fresh) + 1
        self.frames.append(fr)
        for i, p in enumerate(f["ps"]):
            k = I(("L", fr.id, p["i"]))
            if keys is not None and i < len(keys) and keys[i] is not None and is_ref(p["t"]):
                st.env[k] = I(("ref", keys[i]))
            elif i < len(vals):
                st.env[k] = vals[i]
                if i < len(arg_es or ()) and p["t"][:-1].strip() in SCALAR and p["t"].endswith("*") and vals[i][0] != "addr" and indexed(f, p["i"]):
                    # an array handed over by its address: what the function writes into it stays
                    a = strip(arg_es[i])
                    while a.get("k") == "cast":
                        a = strip(a["e"])
                    ak = None
                    if a.get("k") in ("ref", "mem") and (a.get("t") or "").endswith(("]", "*")):
                        self.frames.pop()
                        st, ak = self.lv(a, st)
                        self.frames.append(fr)
                    if ak is not None and ak[0] in ("L", "F", "T", "G", "D"):
                        st.env[k] = I(("ref", ak))
            elif p.get("def") is not None:
                st, st.env[k] = self.ev(p["def"], st)
        g0 = st.g
        fr.retkey = None
        st = self.exec_func_body(f, st, fr)
        self.frames.pop()
        v = self.ret_value(fr)
        self._retkey = fr.retkey
        for kk in [x for x in st.env if x[0] == "L" and x[1] == fr.id]:
            del st.env[kk]
        return st, v

    # std builtins with a fixed meaning
    def builtin(self, e, q, base, st):
        a = e.get("a", [])
        if base == "getline" and len(a) >= 2 and "basic_string" in (strip(a[1]).get("t") or "") and q.startswith("std::"):
            # replaces the text and advances the stream
            st, k = self.lv(a[0], st)
            st, k2 = self.lv(a[1], st)
            st, sep = self.ev(a[2], st) if len(a) > 2 else (st, c(10))
            old = self.load(k, st)
            t = I(("call", "std::getline", ("noobj",), (old, sep)))
            self.event("call", st, dict(q=q, fn=e.get("fn"), obj=None, okey=None, args=[old, ("undef",), sep], keys=[k, k2, None], node=e, inl=False))
            for kk, i in ((k2, 1), (k, 0)):
                self.event("outarg", st, dict(key=kk, call=t, idx=i, node=e))
                st = self.store(kk, ("out", t, i), st)
            self._lastkey, self._lastnode = k, e
            return st, t
        if base == "erase" and "o" in e and "basic_string" in q and len([x for x in a if not x.get("def")]) >= 1 and all((strip(x).get("t") or "").replace("const ", "") in ("int", "unsigned int", "long", "unsigned long") for x in a):
            # s.erase(0, n) = s.substr(n);  s.erase(n) = s.substr(0, n)
            k0 = strip(a[0]).get("v") == 0
            npos = {"k": "ref", "d": "g", "n": "npos", "q": q[:q.rindex("::erase")] + "::npos", "l": e.get("l"), "t": "const unsigned long"}
            if len(a) < 2 or a[1].get("def") or k0:
                b = [a[1], npos] if k0 and len(a) == 2 and not a[1].get("def") else [{"k": "int", "v": 0, "l": e.get("l"), "t": "int"}, a[0]]
                sub = dict(e, q=q[:q.rindex("::erase")] + "::substr", fn=q[:q.rindex("::erase")] + "::substr(unsigned long,unsigned long)c", a=b)
                sub.pop("_push", None)
                st, k = self.lv(e["o"], st)
                st, v = self.ev(sub, st)
                st = self.store(k, v, st)
                self._lastkey, self._lastnode = k, e
                return st, v
        if base == "substr" and "o" in e and len(a) == 2 and "basic_string" in q and strip(a[0]).get("v") == 0:
            # up to a searched position: everything when there is none
            st, u = self.ev(e["o"], st)
            st, v = self.ev(a[1], st)
            v = I(v)
            cut = I(("call", q, I(u), (I(c(0)), v)))
            if v[0] == "call" and isinstance(v[1], str) and v[1].split("(")[0].rsplit("::", 1)[-1] in ("find", "rfind", "find_first_of", "find_last_of") and I(v[2]) == I(u):
                return st, mk_phi(mk_op("==", v, ("glob", q[:q.index("::substr")] + "::npos")), u, cut)
            return st, cut
        if base == "compare" and "o" in e and len(a) == 1 and "basic_string" in q:
            st, u = self.ev(e["o"], st)
            st, v = self.ev(a[0], st)
            return st, ("call", "std::string::compare", u, (v,))
        if base in ("c_str", "data", "str") and "o" in e and not a and ("basic_string" in q or "stringstream" in q):
            st, k = self.lv(e["o"], st)
            v = self.load(k, st)
            if base == "str" and (v[0] == "cat" and any(x[0] == "manip" for x in v[1:]) or v[0] == "aft"):
                v = mk_cat(v, PLAIN)
            return st, v
        if base == "precision" and "o" in e and len(a) == 1 and ("ios_base" in q or "stream" in q):
            st, k = self.lv(e["o"], st)
            st, v = self.ev(a[0], st)
            if k[0] in ("L", "F", "T"):
                old = self.load(k, st)
                return self.store(k, mk_cat(c("") if old[0] in ("empty", "obj") else old, ("manip", "std::setprecision", v)), st), ("void",)
        if base == "to_string" and q.startswith("std::"):
            st, v = self.ev(a[0], st)
            return st, ("tostr", v)
        if q.startswith("std::") and base == "operator+" and ("basic_string" in (e.get("t") or "")):
            vals = []
            for x in ([e["o"]] if "o" in e else []) + a:
                st, v = self.ev(x, st)
                vals.append(charof(x, v))
            return st, mk_cat(*vals)
        if base == "operator<<" and q.startswith("std::") and ("ostream" in (e.get("t") or "") or "ostream" in q):
            xs = ([e["o"]] if "o" in e else []) + a
            if len(xs) == 2:
                st, k = self.lv(xs[0], st)
                self._lastkey = None
                st, v = self.ev(xs[1], st)
                if k[0] in ("L", "F", "T"):
                    v = charof(xs[1], v)
                    m = manip(xs[1], v)
                    if m is not None:
                        v = m
                    if m != c(""):
                        old = self.load(k, st)
                        if old[0] in ("empty", "obj"):
                            old = c("")
                        st = self.store(k, mk_cat(old, v), st)
                self.event("stream", st, dict(key=k, val=v, node=e))
                self._lastkey, self._lastnode = k, e
                return st, self.load(k, st)
        if base == "operator>>" and q.startswith("std::") and "istream" in (e.get("t") or "") + q:
            # extraction advances the stream and returns it
            xs = ([e["o"]] if "o" in e else []) + a
            if len(xs) == 2 and not is_fn(xs[1]):
                st, k = self.lv(xs[0], st)
                st, k2 = self.lv(xs[1], st)
                old = self.load(k, st)
                what = c(bare(strip(xs[1]).get("t") or ""))
                t = I(("call", "std::istream::operator>>", old, (what,)))
                self.event("outarg", st, dict(key=k2, call=t, idx=0, node=e))
                st = self.store(k2, ("out", t, 0), st)
                st = self.store(k, ("mut", "std::istream::operator>>", old, (what,)), st)
                self._lastkey, self._lastnode = k, e
                return st, self.load(k, st)
        if q.startswith("s2e::math::") and base in ("operator+", "operator-", "operator*", "operator/"):
            xs = ([e["o"]] if "o" in e else []) + a
            scal = [is_scalar(x.get("t", "")) for x in xs]
            if len(xs) == 2 and (base in ("operator+", "operator-") and not any(scal) or base == "operator*" and any(scal) or base == "operator/" and scal[1]):
                st, u = self.ev(xs[0], st)
                st, v = self.ev(xs[1], st)
                return st, mk_op(base[8:], u, v)
            if len(xs) == 1 and base == "operator-":
                st, u = self.ev(xs[0], st)
                return st, ("un", "-", u)
        if is_view(q, base) and "o" in e:
            return self.ev(e["o"], st)
        if base in ("operator*", "operator->") and "o" in e and not a and (e.get("opc")):
            st, k = self.lv(e, st)
            return st, self.load(k, st)
        if base == "operator()" and "o" in e and "lambda" in (strip(e["o"]).get("t") or "") + q:
            st, l = self.ev(e["o"], st)
            if l[0] == "lambda" and len(l) == 3 and sum(1 for fr in self.frames if fr.func["id"].startswith(self.lams[l[2]][1].func["id"] + "$lambda")) < 3:
                args = []
                for x, p in zip(a, self.lams[l[2]][0]["ps"]):
                    if is_ref(p["t"]):
                        st, kk = self.lv(x, st)
                        args.append(("key", kk))
                    else:
                        st, v = self.ev(x, st)
                        args.append(v)
                return self.call_lambda(l, args, st, e)
        if q.startswith("std::") and base in ALGORITHMS and len(a) >= 3:
            r = self.algorithm(e, base, st)
            if r is not None:
                return r
        if base == "empty" and q.startswith("std::") and "o" in e and not a and "basic_string" not in q:
            st, k = self.lv(e["o"], st)
            return st, mk_op("==", ("call", "size", self.load(k, st), ()), c(0))
        if base == "data" and q.startswith(("std::vector", "std::array")) and "o" in e and not a:
            st, k = self.lv(e["o"], st)
            return st, self.addr(I(("I", k, c(0))))
        if base in ("front", "back") and q.startswith("std::") and "o" in e and not a:
            st, k = self.lv(e, st)
            return st, self.load(k, st)
        if base in ("find", "count", "contains") and q.startswith(("std::map", "std::unordered_map")) and "o" in e and len(a) == 1:
            st, k = self.lv(e["o"], st)
            st, v = self.ev(a[0], st)
            has = I(("haskey", self.load(k, st), v))
            if base == "find":
                return st, ("mapit", ("I", k, v), has)
            return st, (mk_phi(has, c(1), c(0)) if base == "count" else has)
        if base == "swap" and q.startswith("std::"):
            xs = ([e["o"]] if "o" in e else []) + a
            if len(xs) == 2:
                st, k1 = self.lv(xs[0], st)
                st, k2 = self.lv(xs[1], st)
                u, v = self.load(k1, st), self.load(k2, st)
                return self.store(k2, u, self.store(k1, v, st)), ("void",)
        if q in ("memcpy", "std::memcpy") and len(a) == 3 and all(bare((strip(x).get("t") or "").replace("*", "").split("[")[0]) in ("unsigned char", "char") for x in a[:2]):
            return self.copybytes(e, a[0], a[1], a[2], st)
        if q in ("std::make_pair", "std::make_tuple"):
            vals = []
            for x in a:
                st, v = self.ev(x, st)
                vals.append(v)
            return st, ("obj", "std::" + q[10:], tuple(vals))
        if q in ("std::move", "std::forward") and len(a) == 1:
            return self.ev(a[0], st)
        if q.startswith(("std::", "__gnu_cxx::")) and base in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>="):
            xs = ([e["o"]] if "o" in e else []) + a
            vals = []
            for x in xs:
                st, v = self.ev(x, st)
                vals.append(v)
            if len(vals) == 2:
                for v in vals:
                    if v[0] == "mapit" and base in ("operator==", "operator!="):
                        return st, v[2] if base == "operator!=" else mk_not(v[2])
                return st, mk_op(base[8:], vals[0], vals[1])
        return None


ALGORITHMS = ("any_of", "all_of", "none_of", "accumulate", "for_each", "transform", "copy", "fill", "replace", "replace_if", "count", "count_if", "find", "find_if")


def begin_of(e, names=("begin", "cbegin")):
    """The container whose begin() this is."""
    e = strip(e)
    while e.get("k") == "ctor" and len(e.get("a", [])) == 1:
        e = strip(e["a"][0])
    if e.get("k") == "call" and e.get("q", "").rsplit("::", 1)[-1] in names:
        if "o" in e:
            return e["o"]
        if e.get("a"):
            return e["a"][0]
    return None


def whole(b, e):
    if strip(e).get("k") == "bin" and strip(e)["op"] == "+" and same_expr(strip(e)["x"], b):
        return ("n", b, strip(e)["y"])
    x, y = begin_of(b), begin_of(e, ("end", "cend"))
    if x is None or y is None or not same_expr(x, y):
        return None
    return x


SCALAR = INTT | {"double", "float"}


def indexed(f, pi):
    """The function uses the pointer parameter only to write and read elements (or hands it on)."""
    memo = f.setdefault("_indexed", {})
    if pi not in memo:
        total = ok = 0
        for n in canon.walk(f["body"]):
            k = n.get("k")
            if k == "ref" and n.get("d") == "p" and n.get("i") == pi:
                total += 1
            ch = [n["b"]] if k == "idx" else [a for a in n.get("a", []) if isinstance(a, dict)] if k == "call" else []
            for a in ch:
                a = strip(a)
                while a.get("k") == "cast":
                    a = strip(a["e"])
                if a.get("k") == "ref" and a.get("d") == "p" and a.get("i") == pi:
                    ok += 1
        memo[pi] = total > 0 and total == ok
    return memo[pi]


def stepped(e):
    """(array or container, offset) of a pointer or iterator expression."""
    e = strip(e)
    if e.get("k") == "bin" and e["op"] in ("+", "-"):
        b, o = stepped(e["x"])
        if b is not None:
            return b, e["y"] if o is None and e["op"] == "+" else {"k": "bin", "op": e["op"], "x": o or {"k": "int", "v": 0, "t": "int"}, "y": e["y"], "l": e.get("l"), "t": "int"}
        return None, None
    if e.get("k") == "call" and e.get("q", "").rsplit("::", 1)[-1] in ("operator+", "operator-") and len(e.get("a", [])) == (1 if "o" in e else 2):
        x = [e["o"]] * ("o" in e) + e["a"]
        return stepped({"k": "bin", "op": e["q"][-1], "x": x[0], "y": x[1], "l": e.get("l")})
    x = begin_of(e)
    if x is not None:
        return x, None
    return (e, None) if "[" in (e.get("t") or "") else (None, None)


def same_expr(x, y):
    x, y = strip(x), strip(y)
    if x.get("k") != y.get("k"):
        return False
    if x["k"] == "ref":
        return x.get("i") == y.get("i") and x.get("n") == y.get("n")
    if x["k"] == "mem":
        return x.get("f") == y.get("f") and same_expr(x["b"], y["b"])
    if x["k"] == "idx":
        return same_expr(x["b"], y["b"]) and same_expr(x["x"], y["x"])
    if x["k"] == "call" and x.get("fn") == y.get("fn") and len(x.get("a", [])) == len(y.get("a", [])):
        return ("o" in x) == ("o" in y) and ("o" not in x or same_expr(x["o"], y["o"])) and all(same_expr(p, q) for p, q in zip(x["a"], y["a"]))
    if x["k"] in ("int", "flt"):
        return x["v"] == y["v"]
    return x["k"] == "this"


def at(p, j):
    """Element j of what the pointer expression points at."""
    x = strip(p)
    if x.get("k") == "un" and x["op"] == "&" and strip(x["e"]).get("k") == "idx":
        y = strip(x["e"])
        return dict(y, x={"k": "bin", "op": "+", "x": y["x"], "y": j, "l": x.get("l"), "t": "int"})
    if x.get("k") == "un" and x["op"] == "&" and strip(x["e"]).get("k") == "call" and strip(x["e"]).get("q", "").endswith("operator[]"):
        y = strip(x["e"])
        return dict(y, a=[{"k": "bin", "op": "+", "x": y["a"][0], "y": j, "l": x.get("l"), "t": "int"}])
    if x.get("k") == "bin" and x["op"] == "+":
        return at(x["x"], {"k": "bin", "op": "+", "x": x["y"], "y": j, "l": x.get("l"), "t": "int"})
    return {"k": "idx", "b": x, "x": j, "l": x.get("l"), "t": "unsigned char"}


def range_over(ivar):
    """Loop domain: the container itself when the bound is its size, else an index range."""
    b = ivar[2]
    if ivar[1] == c(0) and b[0] == "call" and isinstance(b[1], str) and b[1].split("(")[0].endswith("::size") and ivar[3] in ("<", "!="):
        return b[2]
    return ("range",) + tuple(ivar[1:4])


FLIP = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}
OPS_ASSIGN = {"operator+=": "+", "operator-=": "-", "operator*=": "*", "operator/=": "/", "append": "+"}
NUMBERS = {"int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "char", "unsigned char", "signed char", "bool", "float", "double"}
MUTATORS = {"push_back", "emplace_back", "clear", "resize", "insert", "erase", "pop_back", "assign", "emplace", "reserve_", "swap", "fill", "open", "close", "seekg", "ignore", "read", "get"}


def is_view(q, base):
    """Conversion operators that expose the storage of a math container."""
    return base.startswith("operator ") and q.startswith("s2e::math::") and "double" in base and "*" in base


SCALARS = ("double", "float", "int", "unsigned int", "long", "unsigned long", "unsigned char", "char", "short", "unsigned short", "bool")


def fixed_type(t):
    """A type whose values cannot be changed."""
    t = t.split("[")[0].strip()
    return t.startswith("const ") and "*" not in t or t.endswith("*const")


def is_scalar(t):
    return t.replace("const ", "").rstrip("&").strip() in SCALARS


def is_fn(e):
    """A stream manipulator (a function)."""
    t = strip(e).get("t") or ""
    return "(" in t or strip(e).get("q", "").startswith("std::set")


def manip(e, v):
    """What a stream manipulator leaves in the text: the format of what follows it. None for a value."""
    t = e.get("t", "")
    if "_Setprecision" in t or "_Setw" in t or "_Setfill" in t:
        return ("manip", v[1], v[3][0]) if v[0] == "call" and v[3] else ("manip", "?", v)
    if "ios_base" in t or "(" in t:
        n = (v[1] if v[0] in ("func", "fn") and isinstance(v[1], str) else strip(e).get("q") or strip(e).get("n") or "").split("(")[0].split("<")[0]
        return c("") if n.rsplit("::", 1)[-1] in ("endl", "flush", "ends", "") else ("manip", n, c(0))
    return None


def is_static_method(F, fn):
    f = F.funcs.get(fn)
    return bool(f and f.get("static"))


_sigcache = {}


def sig_types(fn):
    if not fn:
        return []
    if fn in _sigcache:
        return _sigcache[fn]
    # parse the parameter list of an id "q(types)c"
    s = fn
    if s.endswith("c") and s.endswith(")c"):
        s = s[:-1]
    if not s.endswith(")"):
        return []
    depth = 0
    j = len(s) - 1
    while j >= 0:
        if s[j] == ")":
            depth += 1
        elif s[j] == "(":
            depth -= 1
            if depth == 0:
                break
        j -= 1
    body = s[j + 1:-1]
    out, cur, d = [], "", 0
    for ch in body:
        if ch in "<([":
            d += 1
        if ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur:
        out.append(cur)
    out = [x.replace("__restrict", "").strip() for x in out]
    _sigcache[fn] = out
    return out


def is_ref(t):
    return bool(t) and t.endswith("&")


def strip(e):
    while e and e.get("k") == "cast":
        e = e["e"]
    return e or {}


def select(t, i):
    return I(_select(I(t), I(i)))


def _select(t, i):
    n = 0
    while t[0] == "upd":
        if t[2] == i:
            return t[3]
        if is_c(t[2]) and is_c(i):
            t = t[1]
            continue
        break
    if t[0] == "list" and is_c(i) and isinstance(i[1], int) and 0 <= i[1] < len(t) - 1:
        return t[1 + i[1]]
    return ("idx", t, i)


def keeps_size(t, root, seen=None):
    """t is root with some elements replaced."""
    if t == root:
        return True
    if t[0] == "upd":
        return keeps_size(t[1], root)
    if t[0] == "phi":
        return keeps_size(t[2], root) and keeps_size(t[3], root)
    return False


def local_root(k):
    while k[0] in ("I", "F", "E"):
        k = k[1] if k[1][0] != "addr" else k[1][1]
        if not isinstance(k, tuple):
            return False
    return k[0] in ("L", "T")


def selectf(t, f, b):
    return I(_selectf(I(t), f, b))


def _selectf(t, f, b):
    while t[0] == "updf":
        if t[2] == f:
            return t[3]
        t = t[1]
    if t[0] == "phi":
        return mk_phi(t[1], selectf(t[2], f, b), selectf(t[3], f, b))
    return ("fldv", t, f)


_budget = [0]


def pretty(t, d=0):
    if d == 0:
        _budget[0] = 400
    _budget[0] -= 1
    if _budget[0] < 0:
        return "..."
    if not isinstance(t, tuple):
        return repr(t)
    if d > 12:
        return "..."
    k = t[0] if t else ""
    p = lambda x: pretty(x, d + 1)
    try:
        if k == "c":
            return repr(t[1])
        if k == "p":
            return t[1]
        if k == "this":
            return "this"
        if k == "fld":
            return (p(t[1]) + "->" if t[1] != THIS else "") + t[2].rsplit("::", 1)[-1]
        if k == "fldv":
            return p(t[1]) + "." + t[2].rsplit("::", 1)[-1]
        if k == "op":
            return "(" + p(t[2]) + " " + t[1] + " " + p(t[3]) + ")"
        if k == "not":
            return "!" + p(t[1])
        if k == "phi":
            return "(" + p(t[1]) + " ? " + p(t[2]) + " : " + p(t[3]) + ")"
        if k == "call":
            o = "" if t[2] == ("noobj",) else p(t[2]) + "."
            nm = t[1] if isinstance(t[1], str) else str(t[1])
            nm = nm.split("(")[0].rsplit("::", 1)[-1]
            return o + nm + "(" + ", ".join(p(x) for x in t[3]) + ")"
        if k == "enum":
            return t[1].rsplit("::", 1)[-1]
        if k == "obj":
            return t[1].rsplit("::", 1)[-1] + "{" + ", ".join(p(x) for x in t[2]) + "}"
        if k == "cat":
            return "+".join(p(x) for x in t[1:])
        if k == "deref":
            return "*" + p(t[1])
        if k == "idx":
            return p(t[1]) + "[" + p(t[2]) + "]"
        if k == "glob":
            return t[1].rsplit("::", 1)[-1]
        if k == "addr":
            return "&" + pretty(t[1], d + 1) if isinstance(t[1], tuple) else "&?"
        if k == "L":
            return "local%s" % (t[2],)
        if k == "F":
            return p(("fld",) + t[1:])
        if k in ("I",):
            return p(t[1]) + "[" + p(t[2]) + "]"
        if k in ("D",):
            return "*" + p(t[1])
    except Exception:
        pass
    return k + "(" + ", ".join(pretty(x, d + 1) for x in t[1:]) + ")" if isinstance(k, str) else "(" + ",".join(pretty(x, d + 1) for x in t) + ")"
