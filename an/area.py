"""Area checks: every function of an area computes what its reference specification (ref/<name>.cpp) says."""
import sys
import refs, report

# property: (reference specification, what it specifies, fewest functions that must have been decided)
AREAS = {
    "C04": ("c04", "simulation time and update flags", 20),
    "C05": ("c05", "component clocking and power gating", 15),
    "C17": ("c17", "random generators and Monte Carlo cases", 45),
    "C22": ("c22", "sensors and observers", 60),
    "C23": ("c23", "actuators", 55),
    "C24": ("c24", "disturbance laws", 40),
    "C25": ("c25", "attitude and orbit dynamics", 85),
    "C26": ("c26", "antennas, link budget and ground stations", 24),
    "C28": ("c28", "ports, buses and telecommand links", 91),
    "C29": ("c29", "electrical power", 28),
    "C30": ("c30", "local environment", 70),
    "C31": ("c31", "GNSS", 68),
    "C32": ("c32", "spacecraft structure", 25),
    "C33": ("c33", "time systems", 21),
    "C35": ("c35", "global environment", 39),
    "C36": ("c36", "thermal network", 41),
    "C37": ("c37", "orbital mechanics, geodesy and optics", 31),
    "C38": ("c38", "setting files", 12),
    "C39": ("c39", "simulation flow and logging", 40),
    "C40": ("c40", "mathematics and numerical integration", 150),
    "C41": ("c41", "SGP4/SDP4 and its time and vector helpers", 22),
    "C43": ("c43", "sample application assembly", 14),
}

if __name__ == "__main__":
    pid = sys.argv[1]
    ref, what, least = AREAS[pid]
    report.run(pid, lambda F, R: refs.check_file(F, R, ref, what + " specification", least),
               "Every function of the area (%s) computes the values, member updates, calls and call order of its reference specification ref/%s.cpp for every input and state" % (what, ref),
               "Herbrand abstract interpretation of each function and of its reference specification, comparison of canonical value terms and guarded effects; nothing is executed")
