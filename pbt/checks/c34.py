"""C34: logs survive any chain of formats."""
import os

from hypothesis import strategies as st

import files
import gen
import lib
from checks import c07
from harness import Scratch, Sub
from opyenxes.data_in.XUniversalParser import XUniversalParser

LEGS = ["xes", "xes", "xes.gz", "xez", "mxml", "mxml.gz", "xml", "clone"]


def xes_leg(leg):
    return leg == "clone" or leg.startswith("xe")


def plain(attrs):
    """No lists and containers: MXML can hold them only as text, in more than one way."""
    for place, attr in enumerate(attrs):
        if attr["t"] in gen.COLLECTIONS:
            attrs[place] = {"t": "string", "k": attr["k"], "v": "%s of %d" % (attr["t"], len(attr["a"])), "a": []}
        else:
            attr["a"] = list(attr["a"])
            plain(attr["a"])


@st.composite
def cases(draw):
    log = dict(draw(c07.logs()))
    log["rep"] = draw(st.sampled_from([1] * 20 + [4]))
    log["gt"] = draw(gen.maps(1, width=2)) if draw(st.integers(0, 3)) == 0 else []
    log["cl"] = draw(st.lists(gen.classifiers(), max_size=2)) if draw(st.integers(0, 3)) == 0 else []
    legs = draw(gen.several(st.sampled_from(LEGS), 6, 2))
    if any(not xes_leg(leg) for leg in legs):
        plain(log["attrs"])
        for trace in log["traces"]:
            plain(trace["attrs"])
            for event in trace["events"]:
                plain(event["attrs"])
    return {"log": log, "legs": legs, "universal": draw(st.booleans()), "shared": draw(st.booleans()), "binary": draw(st.booleans())}


def travel(log, leg, case, tools):
    if leg == "clone":
        return log.clone()
    form, zipped = "xes" if leg.startswith("xe") else "mxml", leg.endswith("gz") or leg == "xez"
    makers = (files.ZIPPED if zipped else files.PLAIN)[form]
    if not case["shared"] or (form, zipped) not in tools:
        tools[form, zipped] = [maker() for maker in makers]
    serializer, parser = tools[form, zipped]
    path = Scratch.file("log." + leg)
    files.write(log, path, form, zipped, serializer)
    logs = files.read(path, form, zipped, case["binary"], XUniversalParser if case["universal"] else parser)
    os.remove(path)
    lib.equal(len(logs), 1, "number of logs")
    return logs[0]


def mxml_view(log):
    """As in C07, where order and extensions do not matter."""
    return [c07.dump_element(log), [[c07.dump_element(t), [c07.dump_element(e) for e in t]] for t in log]]


def whole(log):
    """Everything but the extensions of attributes, which are found by their keys when reading."""
    return lib.unbind(lib.dump_log(log))


def written(dump):
    """What XES keeps of it: timestamps have milliseconds and an offset."""
    if isinstance(dump, dict):
        out = {name: written(part) for name, part in dump.items()}
        if dump.get("t") == "date":
            out["v"] = dump["v"][:6] + [dump["v"][6] // 1000 * 1000, dump["v"][7] or 0]
        return out
    return [written(part) for part in dump] if isinstance(dump, list) else dump


def check(case):
    log = lib.make_log(case["log"])
    tools = {}
    for number, leg in enumerate(case["legs"]):
        before, snap = whole(log), lib.snap_log(log)
        after = travel(log, leg, case, tools)
        what = "log after leg %d, %s" % (number + 1, leg)
        lib.same(snap, lib.snap_log(log), "log that was passed on by leg %d, %s" % (number + 1, leg))
        if xes_leg(leg):
            lib.same(before if leg == "clone" else written(before), whole(after), what)
        else:
            lib.same(c07.expected_read(before), mxml_view(after), what)
        log = after
    return ["mxml" if not all(map(xes_leg, case["legs"])) else "xes only", "%d legs" % len(case["legs"])]


SUBS = [
    Sub("chains", cases, check, lambda c: len(c["legs"]) > 1 and gen.has_content(c["log"]),
        "random logs passed through random formats one after another; non-trivial: several legs and some attribute", 1600),
]
ASSUMPTIONS = c07.ASSUMPTIONS
