"""Normal form of provenance terms, so that behaviour-preserving rewrites compare equal."""
import math
from sym import I, is_c, key, mk_op, mk_not, sig_types

_memo = {}
RT = 9


def num(t):
    if is_c(t) and isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
        return t[1] if isinstance(t[1], float) else float(t[1])
    return None


def norm(t, F=None):
    if not isinstance(t, tuple):
        return t
    t = I(t)
    m = _memo.get(id(t))
    if m is None:
        m = _memo[id(t)] = I(_norm(t, F))
    return m


def _norm(t, F):
    if not t:
        return t
    h = t[0]
    if h == "glob":
        g = F.globals.get(t[1]) if F else None
        if g and g.get("c"):
            cv = (g.get("init") or {}).get("cv", g.get("cv"))
            if isinstance(cv, (int, float)):
                return ("c", _r(float(cv)))
        return t
    if h == "c":
        if isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
            return ("c", _r(float(t[1])))
        return t
    if h == "loop":
        return ("loop", t[-1])
    if h in ("p", "this", "enum", "func", "static", "lambda", "unk") and h != "unk":
        return t
    if h == "un" and t[1] == "-":
        return _prod([("c", -1.0), norm(t[2], F)], [])
    if h == "op":
        op = t[1]
        a, b = norm(t[2], F), norm(t[3], F)
        if op == "*":
            return _prod([a, b], [])
        if op == "/":
            return _prod([a], [b])
        if op == "+":
            return _sum([(1.0, a), (1.0, b)])
        if op == "-":
            return _sum([(1.0, a), (-1.0, b)])
        return mk_op(op, a, b)
    if h == "phi":
        cnd, a, b = norm(t[1], F), norm(t[2], F), norm(t[3], F)
        if a == b:
            return a
        if cnd[0] == "not":
            cnd, a, b = cnd[1], b, a
        if cnd[0] == "op" and cnd[1] in ("<", "<="):
            x, y = cnd[2], cnd[3]
            if (a, b) == (x, y):
                return ("min",) + tuple(sorted((x, y), key=key))
            if (a, b) == (y, x):
                return ("max",) + tuple(sorted((x, y), key=key))
        if cnd[0] == "op" and cnd[1] in ("!=", "<="):
            cnd, a, b = mk_not(cnd), b, a
        return ("phi", cnd, a, b)
    if h == "call" and isinstance(t[1], str):
        nm = t[1].split("(")[0].split("<")[0]
        args = tuple(norm(x, F) for x in t[3])
        if nm in ("std::max", "std::min", "fmax", "fmin", "std::fmax", "std::fmin") and len(args) >= 2:
            return (nm[-3:],) + tuple(sorted(args[:2], key=key))
        if nm in ("pow", "std::pow") and len(args) == 2 and num(args[1]) is not None and num(args[1]) == int(num(args[1])) and 0 < num(args[1]) <= 4:
            return _prod([args[0]] * int(num(args[1])), [])
        return ("call", t[1], norm(t[2], F), args)
    return tuple(norm(x, F) if isinstance(x, tuple) else x for x in t)


def _r(x):
    if x == 0 or not math.isfinite(x):
        return x
    return float("%.10g" % x)


def _prod(nums, dens):
    return I(_prod_([I(x) for x in nums], [I(x) for x in dens]))


def _prod_(nums, dens):
    coef, n, d = 1.0, [], []

    def add(x, inv):
        nonlocal coef
        v = num(x)
        if v is not None:
            if inv and v != 0:
                coef /= v
                return
            if not inv:
                coef *= v
                return
        if x[0] == "prod":
            coef_ = x[1]
            if inv:
                coef = coef / coef_ if coef_ else coef
            else:
                coef *= coef_
            (d if inv else n).extend(x[2])
            (n if inv else d).extend(x[3])
            return
        (d if inv else n).append(x)
    for x in nums:
        add(x, False)
    for x in dens:
        add(x, True)
    for x in list(d):
        if x in n:
            n.remove(x)
            d.remove(x)
    if not n and not d:
        return ("c", _r(coef))
    if coef == 0:
        return ("c", 0.0)
    if not d and len(n) == 1 and _r(coef) == 1.0:
        return n[0]
    return ("prod", _r(coef), tuple(sorted(n, key=key)), tuple(sorted(d, key=key)))


def _sum(items):
    return I(_sum_([(c_, I(x)) for c_, x in items]))


def _sum_(items):
    acc = {}
    const = 0.0

    def add(cf, x):
        nonlocal const
        v = num(x)
        if v is not None:
            const += cf * v
            return
        if x[0] == "sum":
            const += cf * x[1]
            for c2, y in x[2]:
                add(cf * c2, y)
            return
        if x[0] == "prod":
            base = ("prod", 1.0, x[2], x[3])
            if not x[3] and len(x[2]) == 1:
                base = x[2][0]
            acc[base] = acc.get(base, 0.0) + cf * x[1]
            return
        acc[x] = acc.get(x, 0.0) + cf
    for cf, x in items:
        add(cf, x)
    parts = sorted(((_r(cf), x) for x, cf in acc.items() if abs(cf) > 1e-300), key=key)
    if not parts:
        return ("c", _r(const))
    if len(parts) == 1 and const == 0:
        return _prod([("c", parts[0][0]), parts[0][1]], [])
    return ("sum", _r(const), tuple(parts))


def subst(t, m, memo=None):
    """Replace subterms according to the dict m."""
    if not isinstance(t, tuple):
        return t
    t = I(t)
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    r = memo.get(id(t))
    if r is None:
        r = memo[id(t)] = I(tuple(subst(x, m, memo) for x in t))
    return r
