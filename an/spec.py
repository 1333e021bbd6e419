"""Helpers shared by the checks that compare extracted behaviour with a reference."""
import os
from sym import *
from logic import conj, disj as ldisj, equiv, implies, disjoint, show, linear, fname, form
from norm import norm
from facts import AnalysisError


_known = []


def known():
    """Functions that existed when the reference specifications were written."""
    if not _known:
        _known.append(set(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "ref", "funcs.txt")).read().split("\n")))
    return _known[0]


def inline_all(F, leaves=(), extra=None):
    """Inline every simulator function with a body except the named leaves and the math/file-reading libraries."""
    leaves = set(leaves)

    def pol(f, d):
        q = f["q"]
        if q.startswith("s2e::math::OrdinaryDifferentialEquation<") and q.endswith("::OrdinaryDifferentialEquation"):
            return True
        if "/src/" in f["file"] and q not in known() and q not in leaves and "<" not in q:
            return extra is None or extra(f, d)     # a helper that did not exist when the specifications were written
        if not q.startswith("s2e::") or q.startswith("s2e::math::") or q.startswith("s2e::setting_file_reader"):
            return False
        if q in leaves:
            return False
        if extra is not None:
            return extra(f, d)
        return True
    return pol


def value(F, q, this, args=()):
    """Term returned by the (unique) definition of a simple function on a given object."""
    f = F.one(q)
    S = Sym(F, inline_all(F))
    S.quiet = 1
    v, _ = S.run(f, list(args), this=I(this))
    return v


def written(F, q, this=THIS, arg=("theargument",)):
    """Field set to its argument by a setter."""
    f = F.one(q)
    S = Sym(F, inline_all(F))
    S.quiet = 1
    _, st = S.run(f, [I(arg)], this=I(this))
    ks = [k for k, v in st.env.items() if k[0] == "F" and v == I(arg)]
    if len(ks) != 1:
        raise AnalysisError("setter %s does not store its argument" % q)
    return ks[0]


def calls(S, q):
    """Call events (in program order) of the function with this qualified name."""
    qs = {q} if isinstance(q, str) else set(q)
    return [(i, e) for i, e in enumerate(S.events) if e["kind"] == "call" and e["q"] in qs]


def total_guard(evs):
    return ldisj([conj(e["g"]) for _, e in evs])


def exclusive(evs):
    for i in range(len(evs)):
        for j in range(i + 1, len(evs)):
            if not disjoint(conj(evs[i][1]["g"]), conj(evs[j][1]["g"])):
                return False
    return True


def loops_of(e):
    return [l for l in e["loops"]]
