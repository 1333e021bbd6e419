"""Algebraic identity of terms: every term denotes an element of GF(p) (vectors, quaternions and matrices denote tuples)
under one fixed random assignment of its atoms; library functions on vectors are given their algebraic definition and
all other functions are uninterpreted (a hash of their arguments' values).  Two arithmetic terms with the same image are
the same rational function of the same atoms, except with probability about 2^-60 (Schwartz-Zippel).
Only terms are evaluated, over an abstract domain; no code of the repository is run."""
import hashlib
from decimal import Decimal
from fractions import Fraction
import math

P = 14994809738415370061981680445121676431551   # prime, 3 mod 4, every prime below 98 is a square
_pi = None
_inv = {}


def h61(*xs):
    """A random square (so that roots of products of atoms are products of their roots)."""
    v = int.from_bytes(hashlib.sha256(repr(xs).encode()).digest()[:16], "big") % P or 1
    return v * v % P


class E:
    """a + b i in GF(p^2), i^2 = -1: holds the square roots of non-squares of GF(p)."""
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a % P, b % P

    def __repr__(self):
        return "E(%d,%d)" % (self.a, self.b)

    def __eq__(self, o):
        return isinstance(o, E) and (self.a, self.b) == (o.a, o.b)

    def __hash__(self):
        return hash((self.a, self.b))

    def __add__(self, o):
        return E(self.a + o.a, self.b + o.b) if isinstance(o, E) else E(self.a + o, self.b)
    __radd__ = __add__

    def __neg__(self):
        return E(-self.a, -self.b)

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return -self + o

    def __mul__(self, o):
        return E(self.a * o.a - self.b * o.b, self.a * o.b + self.b * o.a) if isinstance(o, E) else E(self.a * o, self.b * o)
    __rmul__ = __mul__

    def __mod__(self, p):
        return self if self.b else self.a


PI = h61("pi")
PIV = math.pi


def inv(x):
    v = _inv.get(x)
    if v is None:
        if len(_inv) > 200000:
            _inv.clear()
        v = _inv[x] = inv_(x)
    return v


def inv_(x):
    if isinstance(x, E):
        n = pow(x.a * x.a + x.b * x.b, P - 2, P)
        return E(x.a * n, -x.b * n)
    return pow(x, P - 2, P)


def powv(x, n):
    if n < 0:
        x, n = inv(x), -n
    if not isinstance(x, E):
        return pow(x, n, P)
    r = 1
    while n:
        if n & 1:
            r = r * x % P
        x = x * x % P
        n >>= 1
    return r


class K(float):
    """A real constant (its 10-digit value identifies it) together with its exact value in the field."""
    __slots__ = ("f",)

    def __new__(cls, x, f):
        k = float.__new__(cls, x)
        k.f = f
        return k

    def __mul__(self, o):
        return K(float(self) * float(o), self.f * const(o) % P)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return K(float(self) / float(o), self.f * inv(const(o)) % P)

    def __rtruediv__(self, o):
        return K(float(o) / float(self), const(o) * inv(self.f) % P)

    def __add__(self, o):
        return K(float(self) + float(o), (self.f + const(o)) % P)
    __radd__ = __add__

    def __sub__(self, o):
        return K(float(self) - float(o), (self.f - const(o)) % P)

    def __rsub__(self, o):
        return K(float(o) - float(self), (const(o) - self.f) % P)

    def __neg__(self):
        return K(-float(self), -self.f % P)

    def __abs__(self):
        return -self if float(self) < 0 else self


KEPT = {}


def rnd(x):
    """The representative of a constant: 10 significant digits, or fewer where the rest is rounding noise."""
    v = float(x)
    if v == 0 or not math.isfinite(v):
        return v
    r = float("%.10g" % v)
    n = float("%.7g" % v)
    if abs(n - v) <= 5e-10 * abs(v):
        return n
    k = KEPT.get(r)
    if k is None:
        k = KEPT[r] = K(r, x.f if type(x) is K else const(v if abs(r - v) > 1.2e-10 * abs(v) else r))
    return k


def root(x):
    v = float(x)
    return K(math.sqrt(v), sqrtv(const(x)))


_const = {}


def const(x):
    if type(x) is K:
        return x.f
    v = _const.get(x)
    if v is None:
        v = _const[x] = const_(x)
    return v


def const_(x):
    if x == int(x) and abs(x) < 1e15:
        return int(x) % P
    if len(Decimal(repr(x)).normalize().as_tuple().digits) > 8:
      for k, f in ((0, 1.0), (1, PIV), (-1, 1.0 / PIV), (2, PIV * PIV)):      # a quotient or a multiple of pi, rounded to 10 digits
        y = x / f
        q = Fraction(y).limit_denominator(1000)
        if q and abs(float(q) - y) <= 1.2e-10 * abs(y):
            v = q.numerator % P * inv(q.denominator % P) % P
            return v * (PI if k == 1 else inv(PI) if k == -1 else PI * PI if k == 2 else 1) % P
    q = Fraction(Decimal(repr(x)))
    return q.numerator % P * inv(q.denominator % P) % P


def sgn(x):
    """Canonical sign: x = s * |x|."""
    if isinstance(x, E):
        y = -x
        return (1, x) if (x.a, x.b) <= (y.a, y.b) else (P - 1, y)
    return (1, x) if x <= P // 2 else (P - 1, P - x)


def absv(x):
    return h61("abs", sgn(x)[1])


def square(x):
    return pow(x, (P - 1) // 2, P) in (0, 1)


def sqrtv(x):
    if not isinstance(x, E):
        return pow(x, (P + 1) // 4, P) if square(x) else E(0, pow(P - x, (P + 1) // 4, P))
    n = (x.a * x.a + x.b * x.b) % P
    if not square(n):
        return h61("sqrt", x)
    s, half = pow(n, (P + 1) // 4, P), (P + 1) // 2
    h = (x.a + s) * half % P
    if not square(h):
        h = (x.a - s) * half % P
    u = pow(h, (P + 1) // 4, P)
    return E(u, x.b * inv(2 * u % P))


class V:
    """Vector ('V'), quaternion ('Q') or matrix ('M', rows)."""
    __slots__ = ("k", "x")

    def __init__(self, k, x):
        self.k, self.x = k, x

    def zero(self):
        return all(y.zero() if isinstance(y, V) else y == 0 for y in self.x)

    def fp(self):
        return (self.k, tuple(y.fp() if isinstance(y, V) else y for y in self.x))


def add(a, b, cf=1):
    if isinstance(a, V) and isinstance(b, V) and a.k == b.k and len(a.x) == len(b.x):
        r = [add(x, y, cf) for x, y in zip(a.x, b.x)]
        return None if any(x is None for x in r) else V(a.k, r)
    if isinstance(a, V) or isinstance(b, V):
        return None
    return (a + cf * b) % P


def scale(s, a):
    return V(a.k, [scale(s, x) for x in a.x]) if isinstance(a, V) else s * a % P


def dot(a, b):
    return sum(x * y for x, y in zip(a.x, b.x)) % P


def isV(a, n=None):
    return isinstance(a, V) and a.k in "VQ" and (n is None or len(a.x) == n) and not any(isinstance(x, V) for x in a.x)


def cross(a, b):
    x, y = a.x, b.x
    return V("V", [(x[1] * y[2] - x[2] * y[1]) % P, (x[2] * y[0] - x[0] * y[2]) % P, (x[0] * y[1] - x[1] * y[0]) % P])


def qmul(l, r):
    if len(r) == 3:
        r = list(r) + [0]
    return [(l[3] * r[0] - l[2] * r[1] + l[1] * r[2] + l[0] * r[3]) % P, (l[2] * r[0] + l[3] * r[1] - l[0] * r[2] + l[1] * r[3]) % P,
            (-l[1] * r[0] + l[0] * r[1] + l[3] * r[2] + l[2] * r[3]) % P, (-l[0] * r[0] - l[1] * r[1] - l[2] * r[2] + l[3] * r[3]) % P]


def conj(q):
    return [-q[0] % P, -q[1] % P, -q[2] % P, q[3]]


def dcm(q):
    a, b, cc, d = q
    return V("M", [V("V", [(d * d + a * a - b * b - cc * cc) % P, 2 * (a * b + d * cc) % P, 2 * (a * cc - d * b) % P]),
                   V("V", [2 * (a * b - d * cc) % P, (d * d - a * a + b * b - cc * cc) % P, 2 * (b * cc + d * a) % P]),
                   V("V", [2 * (a * cc + d * b) % P, 2 * (b * cc - d * a) % P, (d * d - a * a - b * b + cc * cc) % P])])


def minv(m):
    n = len(m.x)
    a = [list(r.x) + [1 if i == j else 0 for j in range(n)] for i, r in enumerate(m.x)]
    for i in range(n):
        p = next((r for r in range(i, n) if a[r][i]), None)
        if p is None:
            return None
        a[i], a[p] = a[p], a[i]
        k = inv(a[i][i])
        a[i] = [x * k % P for x in a[i]]
        for r in range(n):
            if r != i and a[r][i]:
                f = a[r][i]
                a[r] = [(x - f * y) % P for x, y in zip(a[r], a[i])]
    return V("M", [V("V", r[n:]) for r in a])


ODD = {"sin", "tan", "asin", "atan", "erf", "sinh", "tanh", "cbrt"}
EVEN = {"cos", "cosh"}


def kind(t):
    if not isinstance(t, str):
        return None
    t = t.replace("const ", "").replace("&", "").strip()
    if t.startswith("vec") and t[3:].isdigit():
        return ("V", int(t[3:]))
    if t.startswith("s2e::math::Quaternion"):
        return ("Q", 4)
    for n, k in (("s2e::math::Vector<", "V"), ("s2e::math::Matrix<", "M")):
        if t.startswith(n):
            a = t[len(n):].split(">")[0].split(",")
            try:
                return (k, int(a[0])) if k == "V" else (k, int(a[0]), int(a[1]))
            except ValueError:
                return None
    return None


class Sem:
    def __init__(self, nf):
        self.nf = nf
        self.memo = {}
        self.dig = {}
        self.keep = []

    def digest(self, t):
        if not isinstance(t, tuple):
            return repr(t)
        d = self.dig.get(id(t))
        if d is None:
            d = hashlib.sha256("|".join(self.digest(x) for x in t).encode()).hexdigest()[:24]
            self.dig[id(t)] = d
            self.keep.append(t)
        return d

    def opaque(self, t, k="?"):
        d = self.digest(t)
        if k == "?":
            k = kind(self.nf.ctype(t))
        if k is None:
            return h61(d)
        if k[0] in "VQ":
            return V(k[0], [h61(d, i) for i in range(k[1])])
        return V("M", [V("V", [h61(d, i, j) for j in range(k[2])]) for i in range(k[1])])

    def val(self, t):
        v = self.memo.get(id(t))
        if v is None:
            try:
                v = self._val(t)
            except (ZeroDivisionError, OverflowError, ValueError, RecursionError):
                v = None
            if v is None:
                v = self.opaque(t)
            self.memo[id(t)] = v
            self.keep.append(t)
        return v

    def _val(self, t):
        h = t[0]
        if h == "c" and isinstance(t[1], (int, float)) and not isinstance(t[1], bool) and math.isfinite(t[1]):
            return const(t[1])
        if h == "sum":
            acc = None
            for cf, x in t[2]:
                v = scale(const(cf), self.val(x))
                acc = v if acc is None else add(acc, v)
                if acc is None:
                    return None
            if t[1]:
                return None if isinstance(acc, V) else (acc + const(t[1])) % P
            return acc
        if h == "prod":
            s, vec = const(t[1]), None
            for x in t[2]:
                v = self.val(x)
                if isinstance(v, V):
                    if vec is not None:
                        return None
                    vec = v
                else:
                    s = s * v % P
            for x in t[3]:
                v = self.val(x)
                if isinstance(v, V) or v == 0:
                    return None
                s = s * inv(v) % P
            return scale(s, vec) if vec is not None else s
        if h == "list":
            xs = [self.val(x) for x in t[1:]]
            if xs and (not any(isinstance(x, V) for x in xs)):
                return V("V", xs)
            if xs and all(isV(x) for x in xs):
                return V("M", xs)
            return None
        if h == "idx":
            v, i = self.val(t[1]), t[2]
            if isinstance(v, V) and i[0] == "c" and isinstance(i[1], (int, float)) and 0 <= i[1] < len(v.x):
                return v.x[int(i[1])]
            return None
        if h == "upd":
            v, i = self.val(t[1]), t[2]
            if isinstance(v, V) and i[0] == "c" and isinstance(i[1], (int, float)) and 0 <= i[1] < len(v.x):
                n = self.val(t[3])
                if isinstance(n, V) == isinstance(v.x[0], V):
                    x = list(v.x)
                    x[int(i[1])] = n
                    return V(v.k, x)
            return None
        if h in ("min", "max") and len(t) == 3:
            a, b = self.val(t[1]), self.val(t[2])
            if isinstance(a, V) or isinstance(b, V):
                return None
            lo = h61("min", *sorted((a, b), key=repr))
            return lo if h == "min" else (a + b - lo) % P
        if h == "clamp":
            a = [self.val(x) for x in t[1:]]
            if any(isinstance(x, V) for x in a):
                return None
            return h61("clamp", *a)
        if h == "obj":
            k = kind(t[1])
            a = [self.val(x) for x in t[2]]
            if k and k[0] == "V" and len(a) == 1 and not isinstance(a[0], V):
                return V("V", [a[0]] * k[1])
            if k and k[0] == "Q" and len(a) == 4 and not any(isinstance(x, V) for x in a):
                return V("Q", a)
            if k and k[0] == "Q" and len(a) == 1 and isV(a[0], 4):
                return V("Q", a[0].x)
            return None
        if h == "call" and isinstance(t[1], str):
            return self.fn(t)
        if h == "phi":      # linear embedding; products of conditionals are separated by lifting where it is small
            a, b = self.val(t[2]), self.val(t[3])
            if t[2] == ("c", 0.0) and isinstance(b, V):
                a = scale(0, b)
            if t[3] == ("c", 0.0) and isinstance(a, V):
                b = scale(0, a)
            x = h61("chi", self.digest(t[1]))
            return add(scale(x, a), scale((1 - x) % P, b))
        return None

    def fn(self, t):
        full = t[1].split("(")[0]
        nm = full
        d, out = 0, ""
        for ch in nm:   # drop template arguments
            if ch == "<":
                d += 1
            elif ch == ">":
                d -= 1
            elif d == 0:
                out += ch
        nm = out.rsplit("::", 1)[-1] if "operator" not in out else "operator" + out.split("operator", 1)[1]
        a = [self.val(x) for x in t[3]]
        o = self.val(t[2]) if t[2] != ("noobj",) else None
        if full.startswith("s2e::math::"):
            if nm == "OuterProduct" and len(a) == 2 and isV(a[0], 3) and isV(a[1], 3):
                return cross(a[0], a[1])
            if nm == "InnerProduct" and len(a) == 2 and isV(a[0]) and isV(a[1]) and len(a[0].x) == len(a[1].x):
                return dot(a[0], a[1])
            if nm == "CalcNorm" and isV(o):
                return sqrtv(dot(o, o))
            if nm == "CalcNormalizedVector" and isV(o):
                return scale(inv(sqrtv(dot(o, o))), o)
            if nm == "Transpose" and isinstance(o, V) and o.k == "M":
                return V("M", [V("V", [r.x[j] for r in o.x]) for j in range(len(o.x[0].x))])
            if nm == "CalcInverseMatrix" and len(a) == 1 and isinstance(a[0], V) and a[0].k == "M" and len(a[0].x) == len(a[0].x[0].x):
                return minv(a[0])
            if nm == "operator*" and len(a) == 2 and isinstance(a[0], V) and isinstance(a[1], V):
                x, y = a
                if x.k == "Q" and isV(y) and len(y.x) in (3, 4):
                    return V("Q", qmul(x.x, y.x))
                if x.k == "M" and isV(y) and len(x.x[0].x) == len(y.x):
                    return V("V", [dot(r, y) for r in x.x])
                if x.k == "M" and y.k == "M" and len(x.x[0].x) == len(y.x):
                    return V("M", [V("V", [sum(r.x[k] * y.x[k].x[j] for k in range(len(y.x))) % P for j in range(len(y.x[0].x))]) for r in x.x])
            if isinstance(o, V) and o.k == "Q":
                if nm == "Conjugate":
                    return V("Q", conj(o.x))
                if nm == "FrameConversion" and len(a) == 1 and isV(a[0], 3):
                    return V("V", qmul(qmul(conj(o.x), a[0].x), o.x)[:3])
                if nm == "InverseFrameConversion" and len(a) == 1 and isV(a[0], 3):
                    return V("V", qmul(qmul(o.x, a[0].x), conj(o.x))[:3])
                if nm == "ConvertToDcm":
                    return dcm(o.x)
                if nm == "ConvertToVector":
                    return V("V", o.x)
            if nm == "CalcAngleTwoVectors_rad" and len(a) == 2 and isV(a[0]) and isV(a[1]):
                return h61("acos", dot(a[0], a[1]) * inv(sqrtv(dot(a[0], a[0])) * sqrtv(dot(a[1], a[1])) % P) % P)
            return None
        if o is not None or any(isinstance(x, V) for x in a) or full.startswith(("s2e::", "ref::")):
            return None
        if nm == "sqrt" and len(a) == 1:
            return sqrtv(a[0])
        if nm == "abs" and len(a) == 1:
            return absv(a[0])
        if nm == "pow" and len(a) == 2:
            e = t[3][1]
            if e[0] == "c" and isinstance(e[1], (int, float)):
                if e[1] == int(e[1]) and abs(e[1]) <= 64:
                    return powv(a[0], int(e[1]))
                if 2 * e[1] == int(2 * e[1]) and abs(e[1]) <= 32:
                    return powv(sqrtv(a[0]), int(2 * e[1]))
        if nm in ODD and len(a) == 1:
            s, x = sgn(a[0])
            return s * h61(nm, x) % P
        if nm in EVEN and len(a) == 1:
            return h61(nm, sgn(a[0])[1])
        return h61(nm, *a)
