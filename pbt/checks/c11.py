"""C11: ordered insertion keeps traces in time order."""
from hypothesis import strategies as st

import gen
import lib
from harness import Sub
from opyenxes.factory.XFactory import XFactory

@st.composite
def times(draw, naive):
    """A pool of timestamps with many equal and close ones."""
    own = gen.datetimes(offsets=st.none() if naive else None, allow_naive=naive, min_year=1900, max_year=2100)
    pool = draw(st.lists(own, min_size=1, max_size=4))
    for parts in list(pool) * 2:
        parts = list(parts)
        choice = draw(st.integers(0, 6))
        if choice == 0:
            parts[6] = (parts[6] + 1) % 1000000
        elif choice == 1 and not naive and parts[3] < 23 and abs(parts[7] + 60) <= 840:
            parts[3] += 1       # the same instant an hour east
            parts[7] += 60
        elif choice == 2 and not naive:
            parts[7] = -parts[7]
        elif choice == 3:
            parts[5] = (parts[5] + 1) % 60
        elif choice > 3:        # another time of the day, maybe with another offset
            parts[3] = draw(st.integers(0, 23))
            if not naive and choice > 4:
                parts[7] = draw(gen.OFFSETS)
        pool.append(parts)
    return pool


@st.composite
def cases(draw):
    naive = draw(st.integers(0, 3)) == 0
    pool = draw(times(naive))
    gaps = draw(st.integers(0, 2)) == 0
    pick = st.integers(0, len(pool) - 1)
    stamp = st.one_of(pick, pick, pick, st.none()) if gaps else pick
    sort = draw(st.booleans())
    first = draw(st.lists(stamp, max_size=6))
    ops = draw(gen.several(st.tuples(st.sampled_from(["insert"] * 6 + ["append", "remove", "again"]), stamp, gen.maps(0, width=1)).map(list), 12))
    return {"pool": pool, "first": first, "sort": sort, "ops": ops, "attrs": draw(gen.maps(0, width=1)),
            "times": draw(gen.counts([1] * 12 + [50], 400, 3))}


def make(case, number, attrs):
    event = XFactory.create_event()
    lib.put(event, [a for a in attrs if a["k"] != "time:timestamp"])
    if number is not None:
        event.get_attributes()["time:timestamp"] = lib.make_attribute({"t": "date", "k": "time:timestamp", "v": case["pool"][number], "a": []})
    return event


def time_of(event):
    attribute = event.get_attributes().get("time:timestamp")
    return None if attribute is None else attribute.get_value()


def in_order(events):
    stamps = [time_of(e) for e in events]
    return None not in stamps and all(a <= b for a, b in zip(stamps, stamps[1:]))


def check(case):
    trace = XFactory.create_trace()
    lib.put(trace, case["attrs"])
    first = case["first"]
    if case["sort"] and None not in first:
        first = sorted(first, key=lambda n: lib.make_value("date", case["pool"][n]))
    for number in first * case["times"] if not case["sort"] else [n for n in first for _ in range(case["times"])]:
        trace.append(make(case, number, []))
    model = list(trace)
    labels = set()
    for op, number, attrs in case["ops"]:
        event = make(case, number, attrs)
        if op == "append":
            trace.append(event)
            model.append(event)
        elif op == "remove":
            if model:
                place = (number or 0) % len(model)
                del trace[place], model[place]
        else:
            if op == "again" and model:
                event = model[(number or 0) % len(model)]
            before = [lib.snap_event(e) for e in model]
            own = lib.snap_event(event)
            map_before = lib.snap_map(trace)
            result = trace.insert_ordered(event)
            lib.check(type(result) is int and 0 <= result <= len(model), "returned index %r in a trace of %d" % (result, len(model)))
            wanted = None
            stamp = time_of(event)
            if stamp is None:
                wanted = len(model)
                labels.add("without timestamp")
            else:
                for place in range(len(model) - 1, -1, -1):
                    other = time_of(model[place])
                    if other is None:
                        wanted = len(model)
                        labels.add("meets an event without timestamp")
                        break
                    if other <= stamp:
                        break
                if in_order(model):
                    wanted = sum(time_of(e) <= stamp for e in model)
                    labels.add("into an ordered trace")
                    if any(time_of(e) == stamp for e in model):
                        labels.add("equal timestamps")
                    if 0 < wanted < len(model):
                        labels.add("in the middle")
                elif None not in [time_of(e) for e in model]:
                    labels.add("into an unordered trace")
            if wanted is not None:
                lib.equal(result, wanted, "index of the inserted event among %d" % len(model))
            lib.check(trace[result] is event, "the event is not at the returned index %d" % result)
            ordered = in_order(model) and stamp is not None
            model.insert(result, event)
            if ordered:
                lib.check(in_order(list(trace)), "time order is lost")
            before.insert(result, own)
            lib.same(before, [lib.snap_event(e) for e in trace], "events after the insertion")
            lib.same(map_before, lib.snap_map(trace), "attributes of the trace")
        lib.check(len(trace) == len(model) and all(a is b for a, b in zip(trace, model)), "other events moved or vanished")
    return sorted(labels)


SUBS = [
    Sub("insertions", cases, check, lambda c: len(c["first"]) + len(c["ops"]) >= 3 and any(o[0] == "insert" and o[1] is not None for o in c["ops"]),
        "random histories of ordered insertions, appends and removals; non-trivial: at least three events and an insertion with timestamp", 4000),
]
ASSUMPTIONS = ["timestamps with and without zone do not occur together in one trace",
               "where the event goes in a trace that is not in time order is only claimed up to the returned index"]
