"""C09: a clone has the same content and is independent of its original."""
import uuid

from hypothesis import strategies as st

import gen
import lib
from harness import Sub
from opyenxes.factory.XFactory import XFactory
from opyenxes.id.XIDFactory import XIDFactory
from opyenxes.model.XAttributeCollection import XAttributeCollection
from opyenxes.model.XAttributeID import XAttributeID
from opyenxes.model.XAttributeMap import XAttributeMap
from opyenxes.model.XEvent import XEvent
from opyenxes.model.XLog import XLog
from opyenxes.model.XTrace import XTrace

KINDS = ["log", "log", "trace", "event", "attribute", "map"]
OPS = ["value", "value", "value in place", "put", "put", "remove", "add child", "add child", "new map", "clear map", "event id",
       "append event", "insert event", "remove event", "reverse", "append trace", "remove trace", "swap traces",
       "add classifier", "remove classifier", "add extension", "remove extension", "add global", "remove global",
       "feature", "info", "clone again"]


@st.composite
def cases(draw):
    log = draw(gen.logs(depth=2, max_traces=2))
    log.pop("share", None)
    log["rep"] = draw(st.sampled_from([1] * 9 + [3]))
    if not log["traces"]:
        log["traces"] = [{"attrs": draw(gen.maps(1)), "events": [draw(gen.events(2))]}]
    ops = draw(gen.several(st.tuples(st.booleans(), st.sampled_from(OPS), st.integers(0, 60), gen.attributes(depth=1)).map(list), 10))
    return {"log": log, "kind": draw(st.sampled_from(KINDS)), "index": draw(st.integers(0, 30)), "ops": ops,
            "same": draw(st.lists(st.integers(0, 5), max_size=2)) if draw(st.integers(0, 3)) == 0 else [], "in_map": draw(st.booleans()),
            "renamed": draw(st.lists(st.sampled_from(["a", "b", "other", "third", ""]), max_size=4, unique=True)) if draw(st.booleans()) else [],
            "info": draw(st.integers(0, 3)) == 0, "features": draw(st.lists(gen.texts(), max_size=2))}


def children(node):
    """Attributes directly below a node, each object once."""
    out = list(node.values()) if isinstance(node, XAttributeMap) else list(node.get_attributes().values())
    if isinstance(node, XAttributeCollection):
        out.extend(c for c in node.get_collection() if not any(c is o for o in out))
    return out


def below(node):
    out = []
    for child in children(node):
        out.append(child)
        out.extend(below(child))
    return out


def parts(thing):
    """All elements and attributes of an object, the object included."""
    tops = [thing]
    if isinstance(thing, XLog):
        for trace in thing:
            tops.append(trace)
            tops.extend(trace)
    elif isinstance(thing, XTrace):
        tops.extend(thing)
    out = []
    for top in tops:
        out.append(top)
        out.extend(below(top))
    return out


def snap(thing):
    if isinstance(thing, XLog):
        return lib.snap_log(thing)
    if isinstance(thing, XTrace):
        return lib.snap_trace(thing)
    if isinstance(thing, XEvent):
        return lib.snap_event(thing)
    if isinstance(thing, XAttributeMap):
        return [[key, lib.snap_attribute(a)] for key, a in thing.items()]
    return lib.snap_attribute(thing)


def without_ids(thing):
    shot = snap(thing)
    if isinstance(thing, XLog):
        shot["traces"] = [[t[0], [e[1:] for e in t[1]]] for t in shot["traces"]]
        shot["ext"] = sorted(shot["ext"])
    elif isinstance(thing, XTrace):
        shot = [shot[0], [e[1:] for e in shot[1]]]
    elif isinstance(thing, XEvent):
        shot = shot[1:]
    return shot


def events_of(thing):
    return [p for p in parts(thing) if isinstance(p, XEvent)]


def pick(items, number):
    return items[number % len(items)] if items else None


def new_value(spec):
    return lib.make_value(spec["t"], spec["v"])


def apply(thing, op, number, spec):
    """Changes something in the object; returns whether there was anything to change."""
    nodes = parts(thing)
    logs = [n for n in nodes if isinstance(n, XLog)]
    traces = [n for n in nodes if isinstance(n, XTrace)]
    attribute = lib.make_attribute(spec)
    maps = [n if isinstance(n, XAttributeMap) else n.get_attributes() for n in nodes]
    if op == "value":
        valued = [n for n in nodes if hasattr(n, "set_value")]
        target = pick(valued, number)
        if target is None:
            return False
        kind = lib.TAG_OF[type(target)]
        target.set_value(new_value(spec) if spec["t"] == kind else
                         {"string": "changed", "int": -4711, "float": -47.11, "boolean": not target.get_value(),
                          "id": XIDFactory.create_id(), "date": lib.make_datetime([1234, 5, 6, 7, 8, 9, 10, 0])}[kind])
    elif op == "value in place":
        target = pick([n for n in nodes if isinstance(n, XAttributeID)], number)
        if target is None:
            return False
        target.get_value().set_uuid(uuid.UUID(int=number + 1))
    elif op == "put":
        pick(maps, number)[attribute.get_key()] = attribute
    elif op == "remove":
        target = pick([m for m in maps if m], number)
        if target is None:
            return False
        del target[pick(list(target), number)]
    elif op == "clear map":
        target = pick([m for m in maps if m], number)
        if target is None:
            return False
        target.clear()
    elif op == "new map":
        target = pick([n for n in nodes if not isinstance(n, XAttributeMap)], number)
        if target is None:
            return False
        target.set_attributes(XAttributeMap({attribute.get_key(): attribute}))
    elif op == "add child":
        target = pick([n for n in nodes if isinstance(n, XAttributeCollection)], number)
        if target is None:
            return False
        target.add_to_collection(attribute)
    elif op == "event id":
        target = pick(events_of(thing), number)
        if target is None:
            return False
        target.set_id(XIDFactory.create_id())
    elif op in ("append event", "insert event", "remove event", "reverse"):
        target = pick(traces, number)
        if target is None:
            return False
        if op == "append event":
            target.append(XFactory.create_event())
        elif op == "insert event":
            target.insert(number % (len(target) + 1), XFactory.create_event())
        elif op == "reverse":
            target.reverse()
        elif target:
            del target[number % len(target)]
    elif op == "clone again":
        thing.clone()
    else:
        if not logs:
            return False
        log = logs[0]
        if op == "append trace":
            log.append(lib.make_trace({"attrs": [spec], "events": [{"attrs": [spec]}]}))
        elif op == "remove trace":
            if log:
                del log[number % len(log)]
        elif op == "swap traces":
            log.reverse()
        elif op == "add classifier":
            log.get_classifiers().append(lib.make_classifier(["new", ["a", "b"]]))
        elif op == "remove classifier":
            del log.get_classifiers()[:1]
        elif op == "add extension":
            log.get_extensions().add(lib.extension(pick(gen.PREFIXES, number)))
        elif op == "remove extension":
            if log.get_extensions():
                log.get_extensions().discard(pick(sorted(log.get_extensions(), key=lambda e: e.get_name()), number))
        elif op == "add global":
            (log.get_global_trace_attributes() if number % 2 else log.get_global_event_attributes()).append(attribute)
        elif op == "remove global":
            del (log.get_global_trace_attributes() if number % 2 else log.get_global_event_attributes())[:1]
        elif op == "feature":
            if number % 2:
                log.set_features("f%d" % (number % 3), [number])
            else:
                log.get_features()["f%d" % (number % 3)] = number
        elif op == "info":
            log.set_info(lib.make_classifier(["info", ["a"]]), "info %d" % number)
    return True


def info_of(thing):
    return thing.get_info(lib.make_classifier(["info", ["a"]])) if isinstance(thing, XLog) else None


def check(case):
    log = lib.make_log(case["log"], children_in_map=case["in_map"])
    for index, feature in enumerate(case["features"]):
        log.set_features("f%d" % index, feature)
    for number in case.get("same", []):     # different events that claim the same identity
        events = events_of(log)
        if events:
            pick(events, number).set_id(pick(events, number + 1).get_id())
    every = parts(log)
    pool = {"log": [log], "trace": list(log), "event": events_of(log),
            "attribute": [p for p in every if hasattr(p, "get_key")],
            "map": [p.get_attributes() for p in every]}[case["kind"]]
    original = pick(pool, case["index"])
    if original is None:
        original = log
    if case["kind"] == "map" and case.get("renamed"):       # attributes under other keys than their own
        for number, key in enumerate(case["renamed"]):
            original[key] = lib.make_attribute(case["ops"][number % len(case["ops"])][3])
    if case.get("info") and isinstance(original, XLog):
        summary = object()
        original.set_info(lib.make_classifier(["before", ["a"]]), summary)
    before = snap(original)
    clone = original.clone()
    lib.check(type(clone) is type(original), "clone of %s is a %s" % (type(original).__name__, type(clone).__name__))
    lib.same(before, snap(original), "original changed by cloning")
    lib.same(without_ids(original), without_ids(clone), "content of the clone")
    mine, theirs = parts(original), parts(clone)
    for a, b in zip(mine, theirs):
        lib.check(a is not b, "original and clone share a %s" % type(a).__name__)
        if not isinstance(a, XAttributeMap):
            lib.check(type(b.get_attributes()) is XAttributeMap, "attribute map of the clone is a %s" % type(b.get_attributes()))
            lib.check(a.get_attributes() is not b.get_attributes(), "original and clone share a map of a %s" % type(a).__name__)
    identities = list({str(e.get_id()) for e in events_of(original)}) + [str(e.get_id()) for e in events_of(clone)]
    lib.equal(len(set(identities)), len(identities), "identities of the original's and the clone's events")
    sides = [original, clone]
    done = set()
    if case.get("info") and isinstance(original, XLog):
        # the clone may be changed, so what was found out about the original says nothing about it
        lib.check(clone.get_info(lib.make_classifier(["before", ["a"]])) is not summary, "the clone has a summary of the original")
    info = [info_of(original), info_of(clone)]
    for on_clone, op, number, spec in case["ops"]:
        changed, other = sides[on_clone], sides[not on_clone]
        shot = snap(other)
        if apply(changed, op, number, spec):
            done.add(op)
        lib.same(shot, snap(other), "%s on the %s is seen in the other" % (op, "clone" if on_clone else "original"))
        if op == "info":
            info[on_clone] = info_of(changed)
        lib.equal(info_of(other), info[not on_clone], "cached summary of the other")
    return ["clone of " + case["kind"]] + ["op " + d for d in sorted(done)]


SUBS = [
    Sub("independence", cases, check, lambda c: gen.has_content(c["log"]),
        "random logs, an element of any kind cloned, then up to 8 changes on either side; non-trivial: log with attributes", 2400),
]
ASSUMPTIONS = ["the objects in the lists of global attributes, classifiers and extensions of a log may be shared by a clone; "
               "only which of them each log has is claimed"]
