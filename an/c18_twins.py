"""C18: the alternative ways of constructing one part (with / without power port, overloads) agree."""
import report
from sym import *
from norm import norm, subst
from facts import AnalysisError


def policy(F):
    def pol(f, d):
        q = f["q"]
        if not q.startswith("s2e::") or q.startswith("s2e::setting_file_reader") or q.startswith("s2e::math"):
            return False
        if f["k"] == "ctor" and f.get("cls") in ("s2e::components::Component", "s2e::components::PowerPort"):
            return False
        return d <= 6
    return pol


def align(fa, fb):
    """Match parameters of two overloads: same type and same name first, else by order of types."""
    pa, pb = fa["ps"], fb["ps"]
    ta = [p["t"].replace("const ", "") for p in pa]
    tb = [p["t"].replace("const ", "") for p in pb]
    if len(pa) > len(pb):
        return [(j, i) for i, j in align(fb, fa)]
    # the with-power-port variant: identical list plus the port
    if [t for t in ta if "PowerPort" not in t] == [t for t in tb if "PowerPort" not in t] and len(ta) != len(tb):
        ia = [i for i, t in enumerate(ta) if "PowerPort" not in t]
        ib = [i for i, t in enumerate(tb) if "PowerPort" not in t]
        return list(zip(ia, ib))
    # parameters only one side has
    name_a = {p["n"]: i for i, p in enumerate(pa) if p["n"]}
    exact = [(name_a[p["n"]], j) for j, p in enumerate(pb) if p["n"] in name_a and ta[name_a[p["n"]]] == tb[j]]
    if len(exact) == min(len(pa), len(pb)) and sorted(exact) == exact:
        return exact
    return []


def fields_of(S, env):
    out = {}
    for k, v in env.items():
        if k[0] == "F" and k[1] == THIS:
            out[k[2]] = v
    return out


def evaluate(F, f, names):
    """Final object fields (after inlining its constructor) or the constructor's own fields."""
    S = Sym(F, policy(F))
    args = [I(("p", n)) for n in names]
    if f["k"] == "ctor":
        S.this_class = f["cls"]
        _, st = S.run(f, args)
        return "fields", fields_of(S, st.env), S.events
    v, st = S.run(f, args)
    return "value", v, S.events


def obj_fields(F, v, f):
    """Run the constructor of the returned object symbolically."""
    cls = v[1]
    cands = [c for c in F.funcs.values() if c["k"] == "ctor" and c.get("cls") == cls and len(c["ps"]) == len(v[2]) and not c.get("copy")]
    if len(cands) != 1:
        # choose by the construct event
        return None, cands
    S = Sym(F, policy(F))
    S.this_class = cls
    _, st = S.run(cands[0], list(v[2]))
    out = fields_of(S, st.env)
    for e in S.events:
        if e["kind"] == "basector":
            out["base:" + e["cls"]] = ("args",) + tuple(a for a, p in zip(e["args"], sig_types(e["fn"])) if "PowerPort" not in p)
    return out, cands[0]


def uses(t, names):
    for x in walk(t):
        if len(x) >= 2 and x[0] == "p" and x[1] in names:
            return True
    return False


IGNORE_BASE = ("s2e::components::Component", "s2e::components::PowerPort", "s2e::logger")


def compare(F, R, fa, fb, label):
    m = align(fa, fb)
    na = ["A%d:%s" % (i, p["n"]) for i, p in enumerate(fa["ps"])]
    nb = ["B%d:%s" % (i, p["n"]) for i, p in enumerate(fb["ps"])]
    for i, j in m:
        na[i] = nb[j] = "P%d:%s" % (i, fa["ps"][i]["n"])
    onlya = {n for n in na if n[0] == "A"}
    onlyb = {n for n in nb if n[0] == "B"}
    ka, va, ea = evaluate(F, fa, na)
    kb, vb, eb = evaluate(F, fb, nb)
    if ka == "value":
        if va[0] != "obj" or vb[0] != "obj":
            return False
        da, ca = obj_fields(F, va, fa)
        db, cb = obj_fields(F, vb, fb)
        if da is None or db is None:
            return False
    else:
        da, db = va, vb
        for d, ev in ((da, ea), (db, eb)):
            for e in ev:
                if e["kind"] == "basector":
                    d["base:" + e["cls"]] = ("args",) + tuple(a for a, p in zip(e["args"], sig_types(e["fn"])) if "PowerPort" not in p)
    R.count("overload pairs compared")
    n = 0
    for fld in sorted(set(da) | set(db)):
        a, b = da.get(fld), db.get(fld)
        if a is None or b is None:
            # set explicitly by one side only
            have = a if a is not None else b
            fd = F.allfields.get(fld)
            if fd is None:
                continue
            if uses(have, onlya | onlyb):
                continue
            if "PowerPort" in fd["t"]:
                continue
            other = fb if a is not None else fa
            if fd.get("init") is None and not is_default(have):
                R.violation("%s/%s" % (label, fld.rsplit("::", 1)[-1]), F.where(other),
                            "member %s is set from %s by one construction path (%s) and left unset by the other" % (fld.rsplit("::", 1)[-1], pretty(have)[:160], F.where(fa if other is fb else fb)), "twin")
            elif fd.get("init") is not None:
                S = Sym(F, policy(F)); S.frames = [Frame({"q": "?", "id": "?"}, THIS, 0)]
                _, dv = S.ev(fd["init"], St())
                if norm(dv, F) != norm(have, F) and any(x and x[0] == "p" for x in walk(have)):
                    R.violation("%s/%s" % (label, fld.rsplit("::", 1)[-1]), F.where(other),
                                "member %s is set from %s by one construction path but keeps its default in the other" % (fld.rsplit("::", 1)[-1], pretty(have)[:160]), "twin")
            n += 1
            continue
        if uses(a, onlya) or uses(b, onlyb):
            continue
        fd = F.allfields.get(fld)
        if fd is not None and fd["t"].endswith("SimulationMode"):
            continue  # software-in-the-loop / hardware-in-the-loop selection is what these overloads differ in
        x, y = norm(a, F), norm(b, F)
        n += 1
        R.count("members compared")
        if x != y:
            R.violation("%s/%s" % (label, fld.rsplit("::", 1)[-1]), F.where(fb),
                        "member %s is built differently by two construction paths: %s vs %s" % (fld.rsplit("::", 1)[-1], diff(a, b)[0], diff(a, b)[1]), "twin")
    if n:
        R.sample("%s: %s vs %s, %d members" % (label, F.where(fa), F.where(fb), n))
    # the variant with a power port must apply the power settings of the same file
    if ka == "value":
        for f, names, ev in ((fa, na, ea), (fb, nb, eb)):
            pp = [("p", nm) for p, nm in zip(f["ps"], names) if "PowerPort" in p["t"]]
            files = [("p", nm) for p, nm in zip(f["ps"], names) if "string" in p["t"]]
            for port in pp:
                R.count("power-port variants")
                ini = [e for e in ev if e["kind"] == "call" and e["q"].endswith("PowerPort::InitializeWithInitializeFile") and e["obj"] == port]
                if not any(e["args"][:1] and e["args"][0] in files and not [g for g in e["g"] if g[0] != "c"] for e in ini):
                    R.violation("%s/power_port" % label, F.where(f), "the power port passed in is not initialised from the component's own setting file on every path", "twin")
    return True


def is_default(t):
    return t[0] == "obj" and not t[2]


def diff(a, b):
    """Shortest differing subterms."""
    while isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] and len(a) == len(b):
        d = [(x, y) for x, y in zip(a, b) if x != y]
        if len(d) != 1:
            break
        if not isinstance(d[0][0], tuple):
            break
        a, b = d[0]
    return pretty(a)[:200], pretty(b)[:200]


def check(F, R):
    for q, fs in sorted(F.by_q.items()):
        if not q.startswith("s2e::components::"):
            continue
        d = [f for f in fs if f.get("body") is not None and not f.get("copy") and not f.get("move") and len(f["ps"]) > 1]
        if len(d) < 2:
            continue
        if d[0]["k"] == "func" and not q.rsplit("::", 1)[-1].startswith("Init"):
            continue
        if d[0]["k"] not in ("ctor", "func"):
            continue
        if q in ("s2e::components::Component::Component", "s2e::components::PowerPort::PowerPort"):
            continue
        d.sort(key=lambda f: len(f["ps"]))
        for i in range(len(d)):
            for j in range(i + 1, len(d)):
                if len(align(d[i], d[j])) < 2:
                    continue
                compare(F, R, d[i], d[j], q.replace("s2e::components::", "") + ("" if len(d) == 2 else "#%d-%d" % (i, j)))
    R.need("overload pairs compared", 15)
    R.need("members compared", 80)


if __name__ == "__main__":
    report.run("C18", check, "two overloads that construct the same part give every member the same provenance (same setting, same conversion, same argument) except what depends on the extra parameter",
               "Herbrand value-provenance interpretation of every pair of overloads, constructors inlined; terms compared in a normal form")
