"""What an identifier or a log/ini label says about the quantity: unit, reference frame, words."""
import math, re

# unit atoms: name -> (dims, scale); dims over (m, kg, s, A, K) plus free symbols
D = {
    "m": ({"m": 1}, 1.0), "km": ({"m": 1}, 1e3), "mm": ({"m": 1}, 1e-3), "cm": ({"m": 1}, 1e-2), "um": ({"m": 1}, 1e-6),
    "m2": ({"m": 2}, 1.0), "m3": ({"m": 3}, 1.0), "km2": ({"m": 2}, 1e6), "km3": ({"m": 3}, 1e9),
    "rad": ({}, 1.0), "deg": ({}, math.pi / 180), "rad2": ({}, 1.0), "deg2": ({}, (math.pi / 180) ** 2), "mas": ({}, math.pi / 180 / 3600e3), "arcsec": ({}, math.pi / 180 / 3600),
    "s": ({"s": 1}, 1.0), "sec": ({"s": 1}, 1.0), "s2": ({"s": 2}, 1.0), "s3": ({"s": 3}, 1.0), "ms": ({"s": 1}, 1e-3), "us": ({"s": 1}, 1e-6), "ns": ({"s": 1}, 1e-9),
    "min": ({"s": 1}, 60.0), "hour": ({"s": 1}, 3600.0), "h": ({"s": 1}, 3600.0), "day": ({"s": 1}, 86400.0),
    "N": ({"kg": 1, "m": 1, "s": -2}, 1.0), "Nm": ({"kg": 1, "m": 2, "s": -2}, 1.0), "Nms": ({"kg": 1, "m": 2, "s": -1}, 1.0), "mNm": ({"kg": 1, "m": 2, "s": -2}, 1e-3),
    "J": ({"kg": 1, "m": 2, "s": -2}, 1.0), "W": ({"kg": 1, "m": 2, "s": -3}, 1.0), "Wh": ({"kg": 1, "m": 2, "s": -2}, 3600.0),
    "kg": ({"kg": 1}, 1.0), "g": ({"kg": 1}, 1e-3), "kgm2": ({"kg": 1, "m": 2}, 1.0), "kgm": ({"kg": 1, "m": 1}, 1.0),
    "T": ({"kg": 1, "s": -2, "A": -1}, 1.0), "nT": ({"kg": 1, "s": -2, "A": -1}, 1e-9), "uT": ({"kg": 1, "s": -2, "A": -1}, 1e-6),
    "V": ({"kg": 1, "m": 2, "s": -3, "A": -1}, 1.0), "A": ({"A": 1}, 1.0), "Am2": ({"A": 1, "m": 2}, 1.0), "Ah": ({"A": 1, "s": 1}, 3600.0), "Ohm": ({"kg": 1, "m": 2, "s": -3, "A": -2}, 1.0),
    "K": ({"K": 1}, 1.0), "degC": ({"degC": 1}, 1.0), "Hz": ({"s": -1}, 1.0), "kHz": ({"s": -1}, 1e3), "MHz": ({"s": -1}, 1e6), "GHz": ({"s": -1}, 1e9),
    "rpm": ({"s": -1}, 2 * math.pi / 60), "dB": ({"dB": 1}, 1.0), "dBW": ({"dB": 1}, 1.0), "dBm": ({"dB": 1}, 1e-3), "dBi": ({"dB": 1}, 1.0), "dBHz": ({"dB": 1}, 1.0), "dBK": ({"dB": 1}, 1.0),
    "percent": ({}, 0.01), "bps": ({"bit": 1, "s": -1}, 1.0), "Mbps": ({"bit": 1, "s": -1}, 1e6), "kbps": ({"bit": 1, "s": -1}, 1e3), "pix": ({"pix": 1}, 1.0), "C": ({"A": 1, "s": 1}, 1.0),
    "K4": ({"K": 4}, 1.0), "N2": ({"kg": 2, "m": 2, "s": -4}, 1.0),
    "JD": ({"s": 1}, 86400.0), "jd": ({"s": 1}, 86400.0),
}


class Unit:
    """dims (exponents) and the set of scales the value may be expressed in."""
    __slots__ = ("dims", "scale", "angle")

    def __init__(self, dims, scale):
        self.dims = {k: v for k, v in dims.items() if v}
        self.scale = scale

    def same_dims(self, o):
        return self.dims == o.dims

    def __repr__(self):
        n = name_of(self)
        return n


def name_of(u):
    for k, (d, s) in D.items():
        if d == u.dims and abs(s / u.scale - 1) < 1e-6:
            return k
    return "%s*%g" % ("".join("%s^%g " % kv for kv in sorted(u.dims.items())), u.scale)


def mul(a, b, p=1):
    d = dict(a.dims)
    for k, v in b.dims.items():
        d[k] = d.get(k, 0) + p * v
    return Unit(d, a.scale * (b.scale ** p))


def atoms_to_unit(toks):
    """['rad','s'] -> rad/s ; the first atom is the numerator, the others denominators."""
    if not toks or any(t not in D for t in toks):
        return None
    u = Unit(*D[toks[0]])
    for t in toks[1:]:
        u = mul(u, Unit(*D[t]), -1)
    return u


def tokens(name):
    return [t for t in re.split(r"[_\W]+", name) if t]


FRAMES = {"i": "i", "eci": "i", "b": "b", "c": "c", "ecef": "ecef", "rtn": "rtn", "lvlh": "lvlh", "ltc": "ltc", "mcmf": "mcmf", "img": "img", "imgframe": "img", "xcxf": "xcxf", "mcfx": "mcmf"}
# names in which a trailing token that looks like a unit is not one
NOT_UNIT_HEADS = {"n_m", "c_n_m", "nm", "deg_to_rad", "rad_to_deg"}


def unit_tokens(name):
    """The trailing tokens of an identifier that spell a unit, or []."""
    n = name.rstrip("_")
    if re.search(r"_to_[A-Za-z]+$", n):
        return []
    ts = [t for t in n.split("_") if t]
    if len(ts) < 2:
        return []
    best = []
    # longest suffix of at most 3 atoms, leaving at least one word
    for k in (1, 2, 3):
        if len(ts) <= k:
            break
        suf = ts[-k:]
        if all(t in D for t in suf):
            best = suf
        else:
            break
    # a frame token cannot be the start of a unit, and a lone SI letter after another letter is an index pair (n_m)
    if best and len(best) == 1 and len(best[0]) == 1 and len(ts) == 2 and len(ts[0]) == 1:
        return []
    # 'x_min' is a lower bound, not minutes; 'T'/'C'/'A'/'g'/'h' alone are not reliable
    if best == ["min"] or best in (["C"], ["h"], ["g"], ["day"], ["hour"], ["sec"], ["A"]) and best != ["A"]:
        return []
    if len(best) > 1 and best[0] in ("min", "C", "h", "T", "g", "day", "hour", "JD", "jd"):
        return []
    if best in (["T"],):
        return []
    return best


def unit_of(name):
    t = unit_tokens(name)
    if not t:
        return None
    # 'm_s' after 'k' ... plain reading
    return atoms_to_unit(t)


def label_unit(txt):
    """Unit in square brackets of a log label."""
    m = re.search(r"\[([^\]]*)\]", txt)
    if not m:
        return None
    s = m.group(1).strip().replace(" ", "")
    if s in ("", "-"):
        return None
    if s == "%":
        return Unit(*D["percent"])
    return atoms_to_unit(s.split("/"))


def words(name):
    """Lower-case content words of an identifier with the unit removed."""
    n = name.rstrip("_")
    ut = unit_tokens(n)
    ts = [t for t in n.split("_") if t]
    if ut:
        ts = ts[: -len(ut)]
    out = []
    for t in ts:
        for w in re.findall(r"[A-Z]+(?=[A-Z][a-z])|[A-Z]?[a-z]+|[A-Z]+|\d+", t):
            out.append(w.lower())
    return out


def frame_of(name):
    """Frame token of a vector-valued identifier: the last frame word (before the unit)."""
    n = name.rstrip("_")
    ut = unit_tokens(n)
    ts = [t for t in n.split("_") if t]
    if ut:
        ts = ts[: -len(ut)]
    if len(ts) >= 2 and ts[-1] in FRAMES:
        return FRAMES[ts[-1]]
    return None


def frames2(name):
    """('i','b') for quaternion/dcm names such as quaternion_i2b_, dcm_i_to_b."""
    n = name.rstrip("_")
    m = re.search(r"(?:^|_)([a-z]+)2([a-z]+)(?:$|_)", n)
    if m and m.group(1) in FRAMES and m.group(2) in FRAMES:
        return FRAMES[m.group(1)], FRAMES[m.group(2)]
    m = re.search(r"(?:^|_)([a-z]+)_to_([a-z]+)(?:$|_)", n)
    if m and m.group(1) in FRAMES and m.group(2) in FRAMES:
        return FRAMES[m.group(1)], FRAMES[m.group(2)]
    return None
