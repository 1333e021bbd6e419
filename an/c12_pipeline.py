"""C12: one simulation step: stage order, freshness, exactly-once accumulation of forces and torques."""
import report
from spec import *

SC = "s2e::spacecraft::Spacecraft::Update"
E = "s2e::environment::"
D = "s2e::disturbances::Disturbance::"
DY = "s2e::dynamics::"
IC = "s2e::spacecraft::InstalledComponents::"
LEAF_ENV_ATT = [E + "LocalCelestialInformation::UpdateAllObjectsInformation", E + "GeomagneticField::CalcMagneticField"]
LEAF_ENV_ORB = [E + "SolarRadiationPressureEnvironment::UpdateAllStates", E + "EarthAlbedo::UpdateAllStates", E + "EarthInfrared::UpdateAllStates", E + "Atmosphere::CalcAirDensity_kg_m3"]
LEAF_D = [D + "UpdateIfEnabled", D + "GetTorque_b_Nm", D + "GetForce_b_N", D + "GetAcceleration_i_m_s2", D + "IsAttitudeDependent"]
TICK = E + "ClockGenerator::UpdateComponents"
INTERF = IC + "ComponentInterference"
GENT, GENF = IC + "GenerateTorque_b_Nm", IC + "GenerateForce_b_N"
ATT, ORB, UBA, TEMP = DY + "attitude::Attitude::Propagate", DY + "orbit::Orbit::Propagate", DY + "orbit::Orbit::UpdateByAttitude", DY + "thermal::Temperature::Propagate"
LEAVES = LEAF_ENV_ATT + LEAF_ENV_ORB + LEAF_D + [TICK, INTERF, GENT, GENF, ATT, ORB, UBA, TEMP]


def check(F, R):
    for q in LEAVES:
        if not F.func(q) and not any(m["id"].startswith(q + "(") for c_ in F.classes.values() for m in c_["methods"]):
            raise AnalysisError("anchor %s not found" % q)
    f = F.one(SC)
    S = Sym(F, inline_all(F, LEAVES))
    S.track = False     # order and freshness are rules of their own here
    snap = {}

    def on(e, st):
        if e["kind"] == "call" and e["q"] in (ATT, ORB, UBA):
            snap.setdefault(e["q"], []).append((e, st.fork()))
    S.on_event = on
    t = I(("p", "simulation_time", 0))
    S.run(f, [t])
    fa = form(value(F, E + "SimulationTime::GetAttitudePropagateFlag", t))
    fo = form(value(F, E + "SimulationTime::GetOrbitPropagateFlag", t))
    ft = form(value(F, E + "SimulationTime::GetThermalPropagateFlag", t))
    fc = True
    w = F.where(f)

    def viol(key, msg, e=None):
        R.violation(key, F.where(e["func"], e["node"]) if e else w, msg, "step pipeline")

    def once(q, guard, gname, what, loop=False):
        evs = calls(S, q)
        R.count("stage obligations")
        if not evs:
            viol("stage/%s/missing" % what, "the step never runs %s" % what)
            return None
        if not exclusive(evs):
            viol("stage/%s/twice" % what, "%s can run twice in one step" % what, evs[-1][1])
        g = total_guard(evs)
        if not equiv(g, guard):
            viol("stage/%s/guard" % what, "%s runs under %s instead of %s" % (what, show(g)[:200], gname), evs[0][1])
        for _, e in evs:
            if bool(e["loops"]) != loop:
                viol("stage/%s/loop" % what, "%s is %s" % (what, "repeated in a loop" if e["loops"] else "not run for every element"), e)
        return evs
    env = []
    for q in LEAF_ENV_ATT:
        env.append(once(q, fa, "the attitude update flag", "local environment update (%s)" % q.split("::")[-2]))
    for q in LEAF_ENV_ORB:
        env.append(once(q, fo, "the orbit update flag", "local environment update (%s)" % q.split("::")[-2]))
    # disturbances
    evd = calls(S, D + "UpdateIfEnabled")
    dep = calls(S, D + "IsAttitudeDependent")
    if not evd:
        viol("stage/disturbances/missing", "the step never updates the disturbances")
    R.count("stage obligations")
    for _, e in evd:
        if len(e["loops"]) != 1 or e["loops"][0][1] is None or e["obj"][0] not in ("elem", "deref") and not any(x[:2] == ("idx", e["loops"][0][1]) and x[2][0] == "iv" for x in walk(e["obj"]) if x):
            viol("stage/disturbances/loop", "a disturbance update does not range over the whole list", e)
    deps = {a for _, e in evd for x in e["g"] for a in walk(x) if fname(a) == "IsAttitudeDependent"}
    datom = form(next(iter(deps))) if deps else False
    g = total_guard(evd) if evd else False
    if evd and not equiv(g, ("or", fo, ("and", fa, datom))):
        viol("stage/disturbances/guard", "disturbances are updated under %s instead of (orbit flag or (attitude flag and attitude dependent))" % show(g)[:200], evd[0][1])
    if evd and not exclusive(evd):
        viol("stage/disturbances/twice", "a disturbance can be updated twice in one step", evd[-1][1])
    tick = once(TICK, True, "every step", "component update")
    inter = once(INTERF, True, "every step", "component interference")
    gt = once(GENT, True, "every step", "collection of component torque")
    gf = once(GENF, True, "every step", "collection of component force")
    pa = once(ATT, fa, "the attitude update flag", "attitude propagation")
    po = once(ORB, fo, "the orbit update flag", "orbit propagation")
    pu = once(UBA, True, "every step", "attitude-dependent orbit update")
    pt = once(TEMP, ft, "the thermal update flag", "thermal propagation")

    def before(a, b, na, nb):
        if not a or not b:
            return
        R.count("order obligations")
        if max(i for i, _ in a) > min(i for i, _ in b):
            viol("order/%s/%s" % (na, nb), "%s must come before %s within a step" % (na, nb), b[0][1])
    for q, x in zip(LEAF_ENV_ATT + LEAF_ENV_ORB, env):
        before(x, evd, q.split("::")[-2] + " update", "disturbance update")
        before(x, tick, q.split("::")[-2] + " update", "component update")
    lc = env[0]
    for q, x in list(zip(LEAF_ENV_ATT + LEAF_ENV_ORB, env))[2:]:
        before(lc, x, "LocalCelestialInformation update", q.split("::")[-2] + " update")
    srp = env[2]
    before(srp, env[3], "solar radiation update", "EarthAlbedo update")
    before(srp, env[4], "solar radiation update", "EarthInfrared update")
    before(evd, calls(S, D + "GetTorque_b_Nm"), "disturbance update", "disturbance torque collection")
    before(evd, calls(S, D + "GetForce_b_N"), "disturbance update", "disturbance force collection")
    before(evd, calls(S, D + "GetAcceleration_i_m_s2"), "disturbance update", "disturbance acceleration collection")
    for x, n in ((gt, "component torque collection"), (gf, "component force collection"), (inter, "component interference")):
        before(tick, x, "component update", n)
    for x, n in ((gt, "component torque collection"), (gf, "component force collection")):
        before(inter, x, "component interference", n)
    before(pa, pu, "attitude propagation", "attitude-dependent orbit update")
    before(po, pu, "orbit propagation", "attitude-dependent orbit update")
    for x, n in ((pa, "attitude propagation"), (po, "orbit propagation"), (pt, "thermal propagation")):
        for y, m in ((tick, "component update"), (evd, "disturbance update")):
            before(y, x, m, n)
    # accumulated inputs at the moment of propagation
    if pa and po:
        inputs(F, R, S, snap, viol)
    arguments(F, R, S, env, evd, pa, po, pu, pt, t, viol)
    globalenv(F, R)
    mainloop(F, R)
    R.need("stage obligations", 13)
    R.need("order obligations", 25)
    R.need("accumulated inputs", 2)


def vecatom(e):
    return e


def inputs(F, R, S, snap, viol):
    e, st = snap[ATT][0]
    att = e["obj"]
    kf = written(F, DY + "attitude::Attitude::SetTorque_b_Nm", att)
    got = linear(S.load(kf, st), F)
    want = [("GetTorque_b_Nm", 1), ("GenerateTorque_b_Nm", 0)]
    summarise(F, R, viol, "torque", got, want, e, None, None)
    e, st = snap[ORB][0]
    kf = written(F, DY + "orbit::Orbit::SetAcceleration_i_m_s2", e["obj"])
    got = linear(S.load(kf, st), F)
    q = norm(value(F, DY + "attitude::Attitude::GetQuaternion_i2b", att), F)
    want = [("GetAcceleration_i_m_s2", 1), ("GetForce_b_N", 1), ("GenerateForce_b_N", 0)]
    summarise(F, R, viol, "acceleration", got, want, e, q, "mass")


def summarise(F, R, viol, what, got, want, e, q, mass):
    R.count("accumulated inputs")
    left = list(got)
    for nm, each in want:
        hits = [x for x in left if fname(x[4]) == nm]
        if len(hits) != 1:
            viol("sum/%s/%s" % (what, nm), "the %s used for propagation contains %s %d times instead of exactly once" % (what, nm, len(hits)), e)
            left = [x for x in left if x not in hits]
            continue
        h = hits[0]
        left.remove(h)
        sign, fac, inv, ops, atom = h
        R.sample("%s input: %s%s" % (what, pretty(atom)[:90], " / mass, rotated" if ops else ""))
        if sign != 1 or fac:
            viol("sum/%s/%s/scale" % (what, nm), "%s enters the %s with a wrong sign or factor" % (nm, what), e)
        loops = [o for o in ops if o[0] == "each"]
        rots = [o for o in ops if o[0] != "each"]
        if len(loops) != each:
            viol("sum/%s/%s/each" % (what, nm), "%s is not summed over every disturbance" % nm, e)
        force = nm.endswith("_b_N")
        if force:
            if len(rots) != 1 or rots[0][0] != "InverseFrameConversion" or rots[0][1] != q:
                viol("sum/%s/%s/frame" % (what, nm), "%s is not rotated from the body to the inertial frame with the spacecraft attitude" % nm, e)
            if len(inv) != 1 or "mass" not in pretty(inv[0]).lower():
                viol("sum/%s/%s/mass" % (what, nm), "%s is not divided by the spacecraft mass exactly once" % nm, e)
        elif rots or inv:
            viol("sum/%s/%s/scale" % (what, nm), "%s enters the %s rotated or scaled" % (nm, what), e)
    for x in left:
        viol("sum/%s/extra" % what, "the %s used for propagation also contains %s (left over from earlier or counted twice)" % (what, pretty(x[4])[:200]), e)


def arguments(F, R, S, env, evd, pa, po, pu, pt, t, viol):
    if not (pa and po):
        return
    att, orb = pa[0][1]["obj"], po[0][1]["obj"]
    A = lambda g: norm(value(F, DY + "attitude::Attitude::" + g, att), F)
    O = lambda g: norm(value(F, DY + "orbit::Orbit::" + g, orb), F)
    TM = lambda g: norm(value(F, E + "SimulationTime::" + g, t), F)
    expect = [
        (env[0], [O("GetPosition_i_m"), O("GetVelocity_i_m_s"), A("GetQuaternion_i2b"), A("GetAngularVelocity_b_rad_s")], "local celestial information"),
        (env[1], [TM("GetCurrentDecimalYear"), TM("GetCurrentSiderealTime"), O("GetGeodeticPosition"), A("GetQuaternion_i2b")], "geomagnetic field"),
        (env[5], [TM("GetCurrentDecimalYear"), None], "atmosphere"),
        (pa, [TM("GetElapsedTime_s")], "attitude propagation"),
        (po, [TM("GetElapsedTime_s"), TM("GetCurrentTime_jd")], "orbit propagation"),
        (pu, [A("GetQuaternion_i2b")], "attitude-dependent orbit update"),
        (pt, [None, TM("GetElapsedTime_s")], "thermal propagation"),
    ]
    for evs, args, what in expect:
        for _, e in evs or []:
            for k, a in enumerate(args):
                if a is None:
                    continue
                R.count("stage arguments")
                if k >= len(e["args"]) or norm(e["args"][k], F) != a:
                    viol("arg/%s/%d" % (what, k), "%s is given %s instead of %s" % (what, pretty(e["args"][k])[:120] if k < len(e["args"]) else "nothing", pretty(a)[:120]), e)


def globalenv(F, R):
    f = F.one(E + "GlobalEnvironment::Update")
    L = [E + "SimulationTime::UpdateTime", E + "CelestialInformation::UpdateAllObjectsInformation", E + "GnssSatellites::Update"]
    S = Sym(F, inline_all(F, L))
    S.track = False     # order and freshness are rules of their own here
    S.run(f)
    prev = -1
    for q in L:
        evs = calls(S, q)
        n = q.split("::")[-2]
        R.count("stage obligations")
        if len(evs) != 1 or not equiv(total_guard(evs), True) or evs[0][1]["loops"]:
            R.violation("global/%s/once" % n, F.where(f), "%s is not updated exactly once per step" % n, "step pipeline")
            continue
        if evs[0][0] < prev:
            R.violation("global/%s/order" % n, F.where(f), "%s is updated before the stage it depends on" % n, "step pipeline")
        prev = evs[0][0]
        if q != L[0]:
            a = evs[0][1]["args"]
            if not a or "simulation_time" not in pretty(a[0]):
                R.violation("global/%s/time" % n, F.where(f), "%s is not given the simulation time" % n, "step pipeline")


def mainloop(F, R):
    f = F.one("s2e::simulation::SimulationCase::Main")
    W = "s2e::logger::Logger::WriteValues"
    G = E + "GlobalEnvironment::Update"
    TG = "s2e::simulation::SimulationCase::UpdateTargetObjects"
    RS = E + "GlobalEnvironment::Reset"
    S = Sym(F, inline_all(F, [W, G, TG, RS]))
    S.track = False     # order and freshness are rules of their own here
    S.run(f)
    gt = S  # noqa
    w, g, t, r = calls(S, W), calls(S, G), calls(S, TG), calls(S, RS)
    R.count("stage obligations", 4)

    def viol(k, m):
        R.violation("main/" + k, F.where(f), m, "main loop")
    if not (w and g and t):
        viol("missing", "the main loop no longer advances the environment, the targets and the log")
        return
    for nm, evs in (("environment", g), ("targets", t), ("log", w)):
        if len(evs) != 1 or len(evs[0][1]["loops"]) != 1:
            viol(nm + "/once", "the main loop does not run the %s stage exactly once per step" % nm)
            return
    lg = {l[0] for l in (x[0][1]["loops"][0] for x in (w, g, t))}
    if len(lg) != 1:
        viol("oneloop", "logging, environment and targets are not stepped by the same loop")
    if not g[0][0] < t[0][0]:
        viol("order", "the targets are updated before the global environment (they would see the previous step)")
    if g[0][0] < w[0][0] < t[0][0]:
        viol("snapshot", "a log row is written between the environment update and the targets' update: it mixes two steps")
    st = [x for x in walk(I(("x",) + tuple(w[0][1]["g"]))) if x[0] in ("fld", "fldv") and x[2].endswith("::log_output")]
    base = [x for x in g[0][1]["g"]]
    # log guard relative to the loop
    rel = [x for x in w[0][1]["g"] if x not in base]
    if not rel or not st or not equiv(conj(rel), form(st[0])):
        viol("log", "log rows are written under %s instead of the log output flag" % show(conj(rel))[:160])
    if not equiv(conj([x for x in t[0][1]["g"] if x not in base]), True):
        viol("targets/guard", "the targets are not updated in every step")
    fin = [x for x in walk(I(("x",) + tuple(base))) if x[0] in ("fld", "fldv") and x[2].endswith("::finish")]
    if not fin or not equiv(conj(base), ("neg", form(fin[0]))):
        viol("finish", "the main loop does not run exactly until the simulation has finished")
    if r and r[0][0] > w[0][0]:
        viol("reset", "the clock is reset after the loop started")


if __name__ == "__main__":
    report.run("C12", check, "stages of one step: exactly once, in producer-before-consumer order, under their own update flag, with the spacecraft's own state as arguments; the torque and acceleration at the moment of propagation are exactly the sum of this step's contributions",
               "Herbrand abstract interpretation of the step functions with helpers inlined down to the stage entry points; guards compared as Boolean functions, accumulated inputs as linear forms")
