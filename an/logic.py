"""Propositional normal form of guards (truth tables over opaque atoms) and linear decomposition of sums."""
from itertools import product
from sym import I, T, is_c, TRUE, FALSE, mk_not, mk_op, key, c, walk
from norm import norm, num


def conj(gs, drop=()):
    """Formula of a guard tuple."""
    out = ("and",) + tuple(form(g) for g in gs if not (g and g[0] in ("inloop",)))
    return out


def form(t):
    if isinstance(t, bool):
        return t
    if t[0] in ("and", "or"):
        return t
    if is_c(t):
        return bool(t[1])
    if t[0] == "not":
        return ("neg", form(t[1]))
    if t[0] == "op" and t[1] in ("&&", "||"):
        return ("and" if t[1] == "&&" else "or", form(t[2]), form(t[3]))
    if t[0] == "phi":
        cnd = form(t[1])
        return ("or", ("and", cnd, form(t[2])), ("and", ("neg", cnd), form(t[3])))
    if t[0] == "op" and t[1] in ("!=", "<="):
        # x != y is !(x == y); x <= y is !(y < x)
        return ("neg", ("atom", I(mk_not(t))))
    return ("atom", I(t))


def atoms(f, acc=None):
    if acc is None:
        acc = []
    if isinstance(f, bool):
        return acc
    if f[0] == "atom":
        if f[1] not in acc:
            acc.append(f[1])
    else:
        for x in f[1:]:
            atoms(x, acc)
    return acc


def ev(f, m):
    if isinstance(f, bool):
        return f
    if f[0] == "atom":
        return m[f[1]]
    if f[0] == "neg":
        return not ev(f[1], m)
    if f[0] == "and":
        return all(ev(x, m) for x in f[1:])
    return any(ev(x, m) for x in f[1:])


LIMIT = 14


def table(f, ats):
    return tuple(ev(f, dict(zip(ats, bits))) for bits in product((False, True), repeat=len(ats)))


def equiv(f, g):
    ats = atoms(g, atoms(f))
    if len(ats) > LIMIT:
        return False
    return table(f, ats) == table(g, ats)


def implies(f, g):
    ats = atoms(g, atoms(f))
    if len(ats) > LIMIT:
        return False
    return all((not a) or b for a, b in zip(table(f, ats), table(g, ats)))


def disj(fs):
    return ("or",) + tuple(fs)


def disjoint(f, g):
    return equiv(("and", f, g), False)


def mapatoms(f, fn):
    """Rewrite the atoms of a formula; fn returns a formula."""
    if isinstance(f, bool):
        return f
    if f[0] == "atom":
        return fn(f[1])
    return (f[0],) + tuple(mapatoms(x, fn) for x in f[1:])


def show(f):
    from sym import pretty
    if isinstance(f, bool):
        return str(f).lower()
    if f[0] == "atom":
        return pretty(f[1])
    if f[0] == "neg":
        return "!" + show(f[1])
    if len(f) == 1:
        return "true" if f[0] == "and" else "false"
    return "(" + (" && " if f[0] == "and" else " || ").join(show(x) for x in f[1:]) + ")"


ROT = ("FrameConversion", "InverseFrameConversion")


def fname(t):
    """Unqualified callee name of a call term."""
    if t and t[0] == "call" and isinstance(t[1], str):
        return t[1].split("(")[0].rsplit("::", 1)[-1]
    return None


def linear(t, F):
    """Decompose a vector/scalar expression into {atom: coefficient signature}; rotations and products by a
    common factor are pushed down to the atoms, so that grouping does not matter.
    Returns a list of (factors, atom) with factors a sorted tuple."""
    out = []

    def go(x, fac, inv, ops, sign):
        h = x[0]
        if h == "op" and x[1] in ("+", "-"):
            go(x[2], fac, inv, ops, sign)
            go(x[3], fac, inv, ops, sign if x[1] == "+" else -sign)
            return
        if h == "un" and x[1] == "-":
            go(x[2], fac, inv, ops, -sign)
            return
        if h == "op" and x[1] == "/":
            go(x[2], fac, inv + [norm(x[3], F)], ops, sign)
            return
        if h == "op" and x[1] == "*":
            a, b = x[2], x[3]
            if num(norm(a, F)) is not None:
                go(b, fac + [norm(a, F)], inv, ops, sign)
                return
            if num(norm(b, F)) is not None:
                go(a, fac + [norm(b, F)], inv, ops, sign)
                return
        if h == "call" and fname(x) in ROT and len(x[3]) == 1:
            go(x[3][0], fac, inv, ops + [(fname(x), norm(x[2], F))], sign)
            return
        if h == "obj" and x[1].startswith("s2e::math::Vector") and (len(x[2]) == 0 or (len(x[2]) == 1 and num(norm(x[2][0], F)) == 0.0)):
            return  # zero vector
        if num(norm(x, F)) == 0.0:
            return
        if h == "phi":
            # a choice between zero and a value stays one conditional atom
            pass
        if h == "aft":
            # accumulation loop: start + sum over iterations of the increments
            lid, over, body, start = x[1], x[2], x[3], x[4]
            inc = []
            if accum(body, lid, inc):
                go(start, fac, inv, ops, sign) if start != ("none",) else None
                for s2, y in inc:
                    go(y, fac, inv, ops + [("each", norm(over, F))], sign * s2)
                return
        out.append((sign, tuple(sorted(fac, key=key)), tuple(sorted(inv, key=key)), tuple(ops), norm(x, F)))
    go(I(t), [], [], [], 1)
    return out


def accum(body, lid, inc):
    """body == previous value + increments?"""
    found = [0]

    def go(x, s):
        if x[0] == "lv" and x[1] == lid:
            found[0] += s
            return
        if x[0] == "op" and x[1] in ("+", "-"):
            go(x[2], s)
            go(x[3], s if x[1] == "+" else -s)
            return
        inc.append((s, x))
    go(body, 1)
    return found[0] == 1
