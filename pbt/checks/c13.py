"""C13: event classes partition the registered events."""
import collections

from hypothesis import strategies as st

import gen
import lib
from checks import c12
from harness import Sub
from opyenxes.classification.XEventClasses import XEventClasses
from opyenxes.factory.XFactory import XFactory


@st.composite
def cases(draw):
    case = draw(c12.event_lists())
    present = sorted({a["k"] for attrs in case["events"] for a in attrs})
    classifier = draw(c12.trees(tuple(present * 3 + case["pool"]), depth=1))
    count = len(case["events"])
    some = st.lists(st.integers(0, count - 1), max_size=4)
    op = st.one_of(st.tuples(st.just("event"), st.integers(0, count - 1)).map(list), st.tuples(st.just("trace"), some).map(list),
                   st.tuples(st.just("log"), st.lists(some, max_size=3)).map(list), st.just(["harmonize", 0]),
                   st.tuples(st.just("identity"), st.one_of(gen.texts(), st.sampled_from(["", "a", "b", "B", "&&", "A"]))).map(list),
                   st.tuples(st.just("many"), gen.counts([2, 11, 12, 30])).map(list),
                   st.tuples(st.just("repeat"), st.tuples(st.integers(0, count - 1), gen.counts([2, 11, 130], 70000)).map(list)).map(list),
                   st.tuples(st.just("identity of"), st.integers(0, count - 1)).map(list),
                   st.tuples(st.just("size"), st.tuples(st.integers(0, 9), gen.counts([0, 1, 2, 50])).map(list)).map(list))
    return {"events": case["events"], "classifier": classifier, "ops": draw(gen.several(op, 14)),
            "logs": draw(st.lists(some, max_size=4)), "probes": draw(st.lists(gen.texts(), max_size=2))}


def check_state(classes, counts, events, identities, probes, harmonized):
    found = list(classes.get_classes())
    lib.equal(len(classes), len(counts), "number of classes")
    lib.equal(sorted(c.get_id() for c in found), sorted(counts), "identities of the classes")
    lib.equal(sorted(c.get_index() for c in found), list(range(len(counts))), "indices of the classes")
    for known in found:
        lib.equal(known.size(), counts[known.get_id()], "size of class %r" % known.get_id())
        lib.check(classes.get_by_identity(known.get_id()) is known, "lookup by identity %r" % known.get_id())
        lib.check(classes.get_by_index(known.get_index()) is known, "lookup by index %d" % known.get_index())
    if harmonized:
        lib.equal([classes.get_by_index(i).get_id() for i in range(len(counts))], sorted(counts), "order of the classes")
    for event, identity in zip(events, identities):
        got = classes.get_class_of(event)
        if identity in counts:
            lib.check(got is not None and got is classes.get_by_identity(identity), "class of an event with identity %r" % identity)
        else:
            lib.check(got is None, "class of an event that has none: %s" % got)
    for probe in probes:
        if probe not in counts:
            lib.check(classes.get_by_identity(probe) is None, "class of the unknown identity %r" % probe)
    for index in (-1, len(counts), len(counts) + 7):
        lib.check(classes.get_by_index(index) is None, "class at index %d" % index)


def check(case):
    classifier, name, keys, _ = c12.build(case["classifier"])
    events = [lib.make_event({"attrs": attrs}) for attrs in case["events"]]
    identities = [lib.identity(keys, attrs) for attrs in case["events"]]
    probes = case["probes"] + ["", "a", "&&"]

    def trace_of(numbers):
        trace = XFactory.create_trace()
        trace.extend(events[n] for n in numbers)
        return trace

    def log_of(lists):
        log = XFactory.create_log()
        log.extend(trace_of(numbers) for numbers in lists)
        return log
    classes = XEventClasses(classifier)
    lib.check(classes.get_classifier() is classifier, "classifier of the classes")
    counts = collections.Counter()
    check_state(classes, counts, events, identities, probes, True)
    labels = set()
    for op, what in case["ops"]:
        if op == "event":
            classes.register(events[what])
            counts[identities[what]] += 1
        elif op == "trace":
            classes.register(trace_of(what))
            counts.update(identities[n] for n in what)
        elif op == "log":
            classes.register(log_of(what))
            counts.update(identities[n] for numbers in what for n in numbers)
        elif op == "repeat":
            for _ in range(what[1]):
                classes.register(events[what[0]])
            counts[identities[what[0]]] += what[1]
        elif op == "many":
            for number in range(what):
                classes.register("n%d" % number)
                counts["n%d" % number] += 1
        elif op == "size":
            if counts:
                identity = sorted(counts)[what[0] % len(counts)]
                classes.get_by_identity(identity).set_size(what[1])
                counts[identity] = what[1]
        elif op == "harmonize":
            classes.harmonize_indices()
            if list(counts) != sorted(counts):
                labels.add("harmonised out of order")
        else:
            identity = identities[what] if op == "identity of" else what
            classes.register(identity)
            counts[identity] += 1
        check_state(classes, counts, events, identities, probes, op == "harmonize")
    if len(counts) > 1:
        labels.add("several classes")
    if counts and max(counts.values()) > 1:
        labels.add("classes with several events")
    log = log_of(case["logs"])
    derived = XEventClasses.derive_event_classes(classifier, log)
    counts = collections.Counter(identities[n] for numbers in case["logs"] for n in numbers)
    check_state(derived, counts, events, identities, probes, True)
    lib.check(derived.get_classifier() is classifier, "classifier of the derived classes")
    registered = XEventClasses(classifier)
    registered.register(log)
    registered.harmonize_indices()
    lib.same([[c.get_id(), c.get_index(), c.size()] for c in sorted(registered.get_classes())],
             [[c.get_id(), c.get_index(), c.size()] for c in sorted(derived.get_classes())], "derived classes")
    return sorted(labels)


SUBS = [
    Sub("histories", cases, check, lambda c: any(o[0] not in ("harmonize", "size") and o[1] != [] for o in c["ops"]),
        "random histories of registering events, traces, logs and identities and of harmonising; non-trivial: something is registered", 4000),
]
ASSUMPTIONS = []
