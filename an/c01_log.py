"""C01: every log row has the cells its header announces, in the same order, each with the announced quantity."""
import re
import refs, report
from sym import *
from norm import norm, subst
from names import label_unit, unit_of, words, tokens, frames2, FRAMES, unit_tokens, name_of
from facts import AnalysisError

LOGGABLE = "s2e::logger::ILoggable"


def pol(f, d):
    q = f["q"]
    return q.startswith("s2e::") and not q.startswith("s2e::math") and f["k"] not in ("ctor", "dtor") and not q.startswith("s2e::time_system")


def stringish(t, seen=None):
    """Is this term a string (piece of a row) rather than a number?"""
    k = t[0]
    if k in ("cat", "tostr"):
        return True
    if k == "c":
        return isinstance(t[1], str)
    if k == "phi":
        return stringish(t[2]) or stringish(t[3])
    if k == "aft":
        return stringish(t[3]) or stringish(t[4])
    if k == "lv":
        return stringish(t[3])
    if k == "any":
        return any(stringish(x) for x in t[1:])
    return False


class Bad(Exception):
    pass


def prefix_split(a, b):
    n = 0
    while n < len(a) and n < len(b) and a[n] == b[n]:
        n += 1
    return a[:n], a[n:], b[n:]


def seq(t):
    """Flatten a row term into a list of pieces / ('cond',c,A,B) / ('loop',over,body) / ('prev',lid)."""
    k = t[0]
    if k == "cat":
        out = []
        for x in t[1:]:
            out += seq(x)
        return out
    if k == "c" and isinstance(t[1], str):
        return [c(p) for p in re.split(r"(,)", t[1]) if p]
    if not stringish(t):
        if k == "out" and isinstance(t[1], tuple) and t[1][0] == "call" and str(t[1][1]).split("(")[0].replace("std::", "") in ("snprintf", "sprintf"):
            fmt = [x for x in t[1][3] if x[0] == "c" and isinstance(x[1], str)]
            if fmt:
                parts = re.split(r"(,)", fmt[0][1])
                return [c(",") if p == "," else I(("fmt", p)) for p in parts if p]
        return [t]
    if k == "phi":
        A, B = seq(t[2]), seq(t[3])
        p, a, b = prefix_split(A, B)
        if not a and not b:
            return p
        return p + [("cond", t[1], a, b)]
    if k == "lv":
        return [("prev", t[1])]
    if k == "aft":
        lid, over, body, start = t[1], t[2], t[3], t[4]
        bs = [body] if body[0] != "any" else list(body[1:])
        outs = []
        for b in bs:
            s = seq(b)
            if not s or s[0] != ("prev", lid):
                # prev may be hidden in a condition prefix
                raise Bad("the row is not accumulated in order")
            outs.append(s[1:])
        res = outs[0]
        for o in outs[1:]:
            p, a, b = prefix_split(res, o)
            if a or b:
                res = p + [("cond", ("unknown",), a, b)]
        return seq(start) + ([("loop", over, res)] if res else [])
    return [t]


def cells(sq):
    """Split a flat sequence into ('cell', parts) items; commas close a cell."""
    out, cur = [], []
    for x in sq:
        if x[0] == "cond" or x[0] == "loop":
            if cur:
                raise Bad("a conditional or repeated part starts inside a cell")
            if x[0] == "cond":
                out.append(("cond", x[1], cells(x[2]), cells(x[3])))
            else:
                out.append(("loop", x[1], cells(x[2])))
            continue
        if x[0] == "manip":
            continue    # (number formatting)
        if x[0] == "prev":
            raise Bad("the row is not accumulated in order")
        if x[0] == "c" and isinstance(x[1], str):
            ps = x[1].split(",")
            for i, p in enumerate(ps):
                if p:
                    cur.append(c(p))
                if i < len(ps) - 1:
                    out.append(("cell", tuple(cur)))
                    cur = []
        else:
            cur.append(x)
    if cur:
        if all(x[0] == "c" and str(x[1]).strip() in ("", "\n") for x in cur):
            return out
        if len(cur) == 1 and cur[0][0] == "call":
            out.append(("sub", cur[0]))
        else:
            out.append(("open", tuple(cur)))
    return out


def count(cs):
    n = 0
    for x in cs:
        if x[0] in ("cell", "open", "sub"):
            n += 1
        elif x[0] == "cond":
            n += max(count(x[2]), count(x[3]))
        else:
            n += count(x[2])
    return n


def unloop(t):
    """Loop identity is irrelevant when comparing bounds and conditions of the two functions."""
    memo = {}

    def go(x):
        if not isinstance(x, tuple):
            return x
        if id(x) in memo:
            return memo[id(x)]
        if x and x[0] == "loop":
            r = I(("loop",))
        else:
            r = I(tuple(go(y) for y in x))
        memo[id(x)] = r
        return r
    return norm(go(I(t)))


def label_text(parts):
    return "".join(str(p[1]) if p[0] == "c" else "#" for p in parts)


def describe(parts):
    return "".join(p[1] if p[0] == "c" and isinstance(p[1], str) else "{" + pretty(p)[:60] + "}" for p in parts)


def value_names(t, depth=0):
    """Names of the variables/getters a logged value is read from, outermost first, with constant index."""
    idx = None
    while t[0] in ("idx",):
        if idx is None:
            idx = t[2]
        t = t[1]
    return t, idx


def own_name(t):
    """The identifier that names the value: member, getter, or variable."""
    while True:
        if t[0] in ("fld", "fldv"):
            return t[2].rsplit("::", 1)[-1]
        if t[0] == "call" and isinstance(t[1], str):
            nm = t[1].split("(")[0].rsplit("::", 1)[-1]
            return nm
        if t[0] in ("p", "glob"):
            return t[1].rsplit("::", 1)[-1]
        if t[0] in ("idx", "elem", "deref", "trunc"):
            t = t[1]
            continue
        return None


def axis_of(label):
    m = re.search(r"_([xyzw])(?:\[|$|\()", label)
    if m:
        return "xyzw".index(m.group(1))
    m = re.search(r"\((\d)\)(?:\[|$)", label)
    if m:
        return int(m.group(1))
    return None


def frame_in_label(label):
    l = re.sub(r"\[.*$", "", label)
    m = re.search(r"_([a-z]+)(?:_[xyzw]|\(\d+\))$", l)
    if m:
        w = m.group(1)
        if w in FRAMES:
            return FRAMES[w]
        m2 = re.match(r"([a-z]+)2([a-z]+)$", w)
        if m2:
            return (FRAMES.get(m2.group(1), m2.group(1)), FRAMES.get(m2.group(2), m2.group(2)))
    return None


STOP = {"get", "calc", "value", "of", "at", "is", "the", "", "x", "y", "z", "w", "from", "spacecraft", "list"}


def label_words(label):
    l = re.sub(r"\[.*$", "", label)
    l = re.sub(r"\(.*?\)", "", l)
    ws = []
    for t in tokens(l):
        for w in re.findall(r"[A-Z]+(?=[A-Z][a-z])|[A-Z]?[a-z]+|[A-Z]+", t):
            ws.append(w.lower())
    return {w for w in ws if w not in STOP}


def value_words(name):
    return {w for w in words(name) if w not in STOP and not w.isdigit()} if name else set()


def axis_base(label):
    return re.sub(r"(_[xyzw]|\(\d\))(?=\[|$)", "", label)


def match(F, R, cls, H, V, fh, fv, path, groups):
    def viol(key, msg):
        R.violation("%s/%s" % (cls, key), F.where(fv), msg, "log schema")
    i = 0
    n = min(len(H), len(V))
    for h, v in zip(H, V):
        if h[0] != v[0]:
            # an open trailing header cell or opaque call against something else
            viol("shape", "header and value rows diverge after %d cells: header has %s, value has %s" % (i, item(h), item(v)))
            return
        if h[0] == "cond":
            ch, cv = unloop(h[1]), unloop(v[1])
            if ch == cv:
                match(F, R, cls, h[2], v[2], fh, fv, path + "?", groups)
                match(F, R, cls, h[3], v[3], fh, fv, path + ":", groups)
            elif ch == mk_not(cv):
                match(F, R, cls, h[2], v[3], fh, fv, path + "?", groups)
                match(F, R, cls, h[3], v[2], fh, fv, path + ":", groups)
            else:
                viol("condition", "optional cells are guarded by %s in the header but by %s in the value row" % (pretty(h[1])[:120], pretty(v[1])[:120]))
            R.count("conditional sections")
        elif h[0] == "loop":
            if unloop(h[1]) != unloop(v[1]):
                viol("loop", "a repeated section runs over %s in the header but over %s in the value row" % (pretty(h[1])[:120], pretty(v[1])[:120]))
            match(F, R, cls, h[2], v[2], fh, fv, path + "*", groups)
            R.count("repeated sections")
        elif h[0] == "sub":
            if not (isinstance(h[1][1], str) and "GetLogHeader" in h[1][1] and "GetLogValue" in v[1][1] and h[1][2] == v[1][2]):
                viol("sub", "nested log sections differ: %s vs %s" % (pretty(h[1]), pretty(v[1])))
        else:
            R.count("cells matched")
            groups.append((label_text(h[1]), h[1], v[1]))
        i += 1
    if len(H) != len(V):
        more, less = ("header", "value") if len(H) > len(V) else ("value", "header")
        extra = (H if len(H) > len(V) else V)[n:]
        viol("length", "%s row has %d more item(s) than the %s row, first: %s" % (more, abs(len(H) - len(V)), less, item(extra[0])))


def item(x):
    if x[0] in ("cell", "open"):
        return "cell '%s'" % describe(x[1])[:80]
    if x[0] == "cond":
        return "a section conditional on %s" % pretty(x[1])[:80]
    if x[0] == "loop":
        return "a section repeated over %s" % pretty(x[1])[:80]
    return "section %s" % pretty(x[1])[:80]


def check_cells(F, R, cls, fv, groups):
    info = []
    for label, hp, vp in groups:
        if len(vp) != 1:
            continue
        t, idx = value_names(vp[0])
        alts = [t]
        # a conditional source: all alternatives must fit
        flat = []
        while alts:
            x = alts.pop()
            if x[0] == "phi":
                alts += [x[2], x[3]]
            else:
                flat.append(x)
        for x in flat:
            nm = own_name(x)
            if nm is None:
                continue
            isnorm = nm.startswith("CalcNorm") or nm.startswith("CalcInner")
            if isnorm and x[2][0] != "noobj":
                src = own_name(x[2])
            else:
                src = nm
            lu, vu = label_unit(label), unit_of(src) if src else None
            if lu and vu:
                R.count("units compared")
                if not lu.same_dims(vu) or abs(lu.scale / vu.scale - 1) > 1e-6:
                    R.violation("%s/unit/%s" % (cls, axis_base(label)), F.where(fv), "cell '%s' is filled from %s, which is in %s, not %s" % (label, src, vu, lu), "log unit")
            lf = frame_in_label(label)
            vf = value_frame(src) if src else None
            if lf and vf and not isnorm:
                R.count("frames compared")
                if type(lf) is type(vf) and lf != vf:
                    R.violation("%s/frame/%s" % (cls, axis_base(label)), F.where(fv), "cell '%s' is filled from %s, expressed in frame %s" % (label, src, vf), "log frame")
            ax = axis_of(label)
            ix = idx
            if ax is not None and ix is not None:
                k = None
                if ix[0] == "c":
                    k = ix[1]
                elif ix[0] == "op" and ix[1] == "+" and is_c(ix[2]):
                    k = ix[2][1] % 3
                elif ix[0] == "op" and ix[1] == "+" and is_c(ix[3]):
                    k = ix[3][1] % 3
                if k is not None:
                    R.count("axes compared")
                    if k != ax:
                        R.violation("%s/axis/%s" % (cls, axis_base(label)), F.where(fv), "cell '%s' is filled from element %s of %s" % (label, k, src), "log axis")
            info.append((axis_base(label), label, src, idx, x))
    # swapped or duplicated quantities among cells of the same class
    seen = {}
    for b, label, src, idx, x in info:
        kx = (x, idx)
        if kx in seen and seen[kx] != label and x[0] != "call":
            R.violation("%s/dup/%s" % (cls, b), F.where(fv), "cells '%s' and '%s' are both filled from %s" % (seen[kx], label, pretty(x)), "log duplicate")
        seen[kx] = label
    byb = {}
    for b, label, src, idx, x in info:
        if src:
            byb.setdefault(b, (label, src))
    bs = sorted(byb)
    for i in range(len(bs)):
        for j in range(i + 1, len(bs)):
            (l1, s1), (l2, s2) = byb[bs[i]], byb[bs[j]]
            if s1 == s2:
                continue
            lw1, lw2, vw1, vw2 = label_words(l1), label_words(l2), value_words(s1), value_words(s2)
            own = sim(lw1, lw2, vw1) + sim(lw2, lw1, vw2)
            cross = sim(lw1, lw2, vw2) + sim(lw2, lw1, vw1)
            R.count("label pairs compared")
            if cross > own and sim(lw1, lw2, vw2) > sim(lw1, lw2, vw1) and sim(lw2, lw1, vw1) > sim(lw2, lw1, vw2):
                R.violation("%s/swap/%s/%s" % (cls, bs[i], bs[j]), F.where(fv), "cells '%s' and '%s' are filled from %s and %s: the two quantities are swapped" % (l1, l2, s1, s2), "log swap")


def value_frame(name):
    from names import frame_of
    return frames2(name) or frame_of(name)


def sim(own, other, vw):
    """How many words distinguish this label from the other and occur in the value's name."""
    return len((own - other) & vw) - len((other - own) & vw)


def check(F, R):
    classes = [q for q in sorted(F.derived(LOGGABLE))]
    if len(classes) < 30:
        raise AnalysisError("only %d loggable classes found" % len(classes))
    for cls in classes:
        hs, vs = F.func(cls + "::GetLogHeader"), F.func(cls + "::GetLogValue")
        short = cls.replace("s2e::", "")
        if bool(hs) != bool(vs):
            # inherits one and overrides the other
            R.violation(short + "/override", F.where((hs or vs)[0]), "class overrides only one of header and value row", "log schema")
            continue
        if not hs:
            continue
        out = []
        try:
            for f in (hs[0], vs[0]):
                S = Sym(F, pol)
                S.this_class = cls
                v, _ = S.run(f)
                out.append(cells(seq(v)))
        except Bad as e:
            R.violation(short + "/order", F.where(f), str(e), "log schema")
            continue
        R.count("loggable classes analysed")
        H, V = out
        opens = [x for x in V if x[0] == "open"]
        for x in opens:
            R.violation(short + "/comma", F.where(vs[0]), "the value row does not end with a cell separator (%s)" % item(x), "log schema")
        if [x for x in H if x[0] == "open"] and not opens:
            R.violation(short + "/comma", F.where(hs[0]), "the header row does not end with a cell separator (%s)" % item(H[-1]), "log schema")
        groups = []
        match(F, R, short, H, V, hs[0], vs[0], "", groups)
        check_cells(F, R, short, vs[0], groups)
        if groups:
            R.sample("%s: %d cells, first '%s' <- %s" % (short, len(groups), groups[0][0][:50], describe(groups[0][2])[:60]))
    # the logger itself: the same objects, in the same order, under the same condition
    fh, fv = F.one("s2e::logger::Logger::WriteHeaders"), F.one("s2e::logger::Logger::WriteValues")
    res = []
    for f, nm in ((fh, "GetLogHeader"), (fv, "GetLogValue")):
        S = Sym(F, lambda f, d: f["q"].startswith("s2e::logger::Logger::"))
        S.run(f)
        ev = [e for e in S.events if e["kind"] == "call" and e["q"].endswith("ILoggable::" + nm)]
        if not ev:
            raise AnalysisError("no call of %s in the logger" % nm)
        res.append([(unloop(I(e["g"])), unloop(I(e["obj"])), tuple(unloop(I(("o", l[1]))) if l[1] else None for l in e["loops"])) for e in ev])
        streams = [e for e in S.events if e["kind"] == "stream"]
        R.count("logger write sites", len(streams))
    if res[0] != res[1]:
        R.violation("Logger/iteration", F.where(fv), "the value row is not written for the same objects, in the same order and under the same condition as the header row", "logger")
    R.need("loggable classes analysed", 34)
    R.need("cells matched", 180)
    R.need("units compared", 120)
    R.need("frames compared", 100)
    R.need("axes compared", 120)
    R.need("label pairs compared", 160)
    R.need("logger write sites", 2)
    refs.check_file(F, R, "c01", "row specification", 80)


if __name__ == "__main__":
    report.run("C01", check, "for every loggable class the header and value rows, abstractly evaluated to cell sequences, have equal structure (cells, repeated and conditional sections) and no cell's label contradicts its value's unit, frame, axis or identity",
               "Herbrand abstract interpretation of GetLogHeader/GetLogValue of every loggable class (helpers inlined, constant loops unrolled, other loops summarised as repeated sections), then structural comparison")
