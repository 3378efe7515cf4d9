"""C15: time boundaries are the earliest and latest registered time."""
import datetime

from hypothesis import strategies as st

import gen
import lib
from checks.c11 import times
from harness import Sub
from opyenxes.factory.XFactory import XFactory
from opyenxes.info.XTimeBounds import XTimeBounds


@st.composite
def cases(draw):
    naive = draw(st.integers(0, 3)) == 0
    pool = draw(times(naive))
    pick = st.integers(0, len(pool) - 1)
    op = st.one_of(st.tuples(st.just("date"), pick).map(list), st.tuples(st.just("event"), st.one_of(pick, pick, st.none()), gen.maps(0, width=1)).map(list),
                   st.tuples(st.just("bounds"), st.lists(pick, max_size=3)).map(list), st.just(["none"]), st.just(["itself"]), st.just(["empty"]),
                   st.tuples(st.just("many"), gen.counts([5, 20, 130]), pick).map(list))
    return {"pool": pool, "ops": draw(gen.several(op, 14, 2))}


def check(case):
    pool = [lib.make_value("date", parts) for parts in case["pool"]]
    step = datetime.timedelta(microseconds=1)
    probes = pool + [p + step for p in pool] + [p - step for p in pool] + [p + datetime.timedelta(hours=3) for p in pool]
    bounds = XTimeBounds()
    registered = []
    lib.check_bounds(bounds, registered, "new boundaries", probes)
    labels = set()
    for op in case["ops"]:
        if op[0] == "date":
            bounds.register(pool[op[1]])
            registered.append(pool[op[1]])
        elif op[0] == "event":
            event = XFactory.create_event()
            lib.put(event, [a for a in op[2] if a["k"] != "time:timestamp"])
            if op[1] is not None:
                event.get_attributes()["time:timestamp"] = lib.make_attribute({"t": "date", "k": "time:timestamp", "v": case["pool"][op[1]], "a": []})
                registered.append(pool[op[1]])
            before = lib.snap_event(event)
            bounds.register(event)
            lib.same(before, lib.snap_event(event), "the registered event")
            labels.add("event" if op[1] is not None else "event without timestamp")
        elif op[0] == "bounds":
            other = XTimeBounds()
            own = [pool[n] for n in op[1]]
            for value in own:
                other.register(value)
            bounds.register(other)
            lib.check_bounds(other, own, "the registered boundaries", probes)
            registered.extend(own)
            labels.add("boundaries" if own else "empty boundaries")
        elif op[0] == "many":
            for number in range(op[1]):
                bounds.register(pool[(number + op[2]) % len(pool)])
                registered.append(pool[(number + op[2]) % len(pool)])
            labels.add("many")
        elif op[0] == "none":
            bounds.register(None)
        elif op[0] == "itself":
            bounds.register(bounds)
        else:
            bounds.register(XTimeBounds())
            labels.add("empty boundaries")
        lib.check_bounds(bounds, registered, "after %s" % op[0], probes)
    if len(set(registered)) > 1:
        labels.add("several times")
    if len(registered) > len(set(registered)):
        labels.add("equal times")
    return sorted(labels)


SUBS = [
    Sub("registrations", cases, check, lambda c: sum(o[0] in ("date", "bounds", "event") for o in c["ops"]) > 1,
        "random histories of registering dates, events and boundaries, probed around every time; non-trivial: at least two registrations", 6000),
]
ASSUMPTIONS = ["timestamps with and without zone do not occur together"]
