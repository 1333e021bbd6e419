#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json (run by hand after editing; the committed outputs are what counts)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, check=None, technique=None, note=None, na=None, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, check=check, technique=technique, note=note, na=na, state=state, observe=observe))


TESTS = "The existing tests exercise only the numerical helper functions; they sample a handful of inputs and never build a spacecraft, an environment, a component or a log file. "

prop("C01", "Log header and log rows agree",
     "For every object that writes to the simulation log, the header row and every value row have the same number of cells in the same order, including optional and repeated sections. "
     "Each cell of a value row holds the quantity its header names: same physical unit, same reference frame, same vector or quaternion element, same number of digits as specified, and no two columns have their quantities exchanged. "
     "Every cell is terminated by the separator, and the logger writes the same objects in the same order for the header and for every row.",
     ["configurations", "inputs"], "all loggable objects, all settings that enable optional columns, all numbers of nodes/components/spacecraft",
     TESTS + "A column mismatch shows only in the log of a particular component configuration.",
     ["src/logger/loggable.hpp", "src/logger/logger.cpp", "src/logger/log_utility.hpp", "src/components", "src/dynamics", "src/environment", "src/disturbances", "src/simulation"],
     [("GetLogHeader/GetLogValue pairs of every ILoggable", "src/logger/loggable.hpp"), ("Logger::WriteHeaders/WriteValues", "src/logger/logger.cpp")],
     check="c01_log.py", technique="Abstract interpretation (value-provenance domain) of header/value functions, structural comparison of the resulting cell sequences",
     observe=["log CSV file"])

prop("C18", "Alternative constructions of one part agree",
     "When the same part can be constructed in several ways (with or without a power supply port, or through overloaded constructors or initialization functions), every way gives every stored parameter the same value from the same settings and arguments, except what the extra argument itself determines. "
     "A construction that is given a power port also applies the power settings of the part's own setting file to that port.",
     ["configurations", "inputs"], "all setting files, all argument values, all construction variants of all components",
     TESTS + "No test constructs a component from a setting file.",
     ["src/components"], [("Init* overload pairs and overloaded constructors", "src/components/real, src/components/ideal")],
     check="c18_twins.py", technique="Value-provenance comparison of sibling constructors/initializers (Herbrand abstract interpretation, constructors inlined)")


def emit():
    lines, checks, na = [], [], []
    for p in P:
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], hook_needed=None)
        if p["state"]:
            a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, p["title"]
        lines.append(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"], anchors=a), ensure_ascii=False))
        if p["check"] and os.path.exists(os.path.join(V, "an", p["check"].split()[0])):
            cmd = "python3 an/" + p["check"]
            checks.append(dict(property=p["id"], quick_cmd=cmd, thorough_cmd="VERIF_TIER=thorough " + cmd, technique="static analysis: " + p["technique"], level="other",
                               level_note=p["note"] or "A purely static decision over all paths of the resolved program; see DESIGN.md for the abstraction and its limits.", evidence_file="evidence/%s.json" % p["id"]))
        else:
            na.append(dict(property=p["id"], reason=p["na"] or "no check built yet"))
    open(os.path.join(V, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
    m = dict(version=1, setup_cmd="python3 an/facts.py", checks=checks, not_applicable=na,
             notes="All checks are static: they re-parse /repo's current sources with a clang-18 libTooling extractor (tool/extract.cpp) and analyse the resolved program in Python.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
    print(len(checks), "checks,", len(na), "not applicable")


if __name__ == "__main__":
    exec(open(os.path.join(V, "meta", "more.py")).read()) if os.path.exists(os.path.join(V, "meta", "more.py")) else None
    emit()
