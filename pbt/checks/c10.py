"""C10: comparison, equality and hashing obey their laws."""
import math
import uuid
from urllib.parse import urlparse, urlsplit

from hypothesis import strategies as st

import gen
import lib
from harness import Sub
from opyenxes.classification.XEventAndClassifier import XEventAndClassifier
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
from opyenxes.classification.XEventClass import XEventClass
from opyenxes.classification.XEventClasses import XEventClasses
from opyenxes.classification.XEventLifeTransClassifier import XEventLifeTransClassifier
from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
from opyenxes.classification.XEventResourceClassifier import XEventResourceClassifier
from opyenxes.extension.XExtension import XExtension
from opyenxes.factory.XFactory import XFactory
from opyenxes.id.XID import XID

COUNT = 4


# ---- generators ---------------------------------------------------------------------
@st.composite
def near(draw, kind, value):
    """A value of the kind close to the given one."""
    if kind == "string":
        return draw(st.sampled_from([value + " ", value + "a", value[:-1], value.swapcase(), value[::-1], "", value]))
    if kind == "int":
        return str(int(value) + draw(st.sampled_from([0, 1, -1, 2**64, 256])))
    if kind == "float":
        number = float(value)
        return repr(draw(st.sampled_from([number, math.nextafter(number, math.inf), math.nextafter(number, -math.inf), -number, number + 1])))
    if kind == "boolean":
        return draw(st.booleans())
    if kind == "id":
        bits = uuid.UUID(value).int ^ draw(st.sampled_from([0, 1, 1 << 127, 1 << 64, 255 << 32, 3 << 62]))
        return str(uuid.UUID(int=bits))
    parts = list(value)
    choice = draw(st.integers(0, 4))
    if choice == 1:
        parts[6] = (parts[6] + draw(st.sampled_from([1, 1000]))) % 1000000
    elif choice == 2:
        parts[5] = (parts[5] + 1) % 60
    elif choice == 3 and parts[7] is not None and 1 < parts[0] < 9999:
        # the same instant with another offset: an hour later on the clock, an hour east
        if parts[3] < 23 and abs(parts[7] + 60) <= 840:
            parts[3] += 1
            parts[7] += 60
    elif choice == 4 and parts[7] is not None and 1 < parts[0] < 9999:
        parts[7] = -parts[7]
    return parts


def date_values(naive):
    if naive:
        return gen.datetimes(offsets=st.none(), allow_naive=False)
    return gen.datetimes(allow_naive=False)


def kind_values(kind, naive):
    return date_values(naive) if kind == "date" else gen.values(kind)


@st.composite
def attribute_cases(draw):
    kind = draw(st.sampled_from(gen.TYPES + gen.COLLECTIONS))
    naive = draw(st.integers(0, 3)) == 0

    def one(kind, key, value):
        spec = {"t": kind, "k": key, "a": draw(gen.maps(0, width=1)), "e": draw(st.sampled_from([None, None, "concept", "my"]))}
        if kind not in gen.COLLECTIONS:
            spec["v"] = value
        return spec

    def fresh(kind):
        return None if kind in gen.COLLECTIONS else draw(kind_values(kind, naive))
    items = [one(kind, draw(gen.keys()), fresh(kind))]
    mixed = draw(st.integers(0, 2)) == 0
    while len(items) < COUNT:
        base = draw(st.sampled_from(items))
        key = draw(st.sampled_from([base["k"]] * 4 + ["a", base["k"] + " ", base["k"].swapcase()]))
        if mixed and draw(st.booleans()):
            other = draw(st.sampled_from(gen.TYPES + gen.COLLECTIONS))
            value = fresh(other)
            if base["t"] == "int" and other == "float" and abs(int(base["v"])) < 2**53:
                value = repr(float(int(base["v"])))
            if base["t"] in ("int", "id", "boolean") and other == "string":
                value = str(base["v"])
            items.append(one(other, key, value))
            continue
        choice = draw(st.integers(0, 3))
        if base["t"] in gen.COLLECTIONS:
            value = None
        elif choice == 0:
            value = base["v"]
        elif choice < 3:
            value = draw(near(base["t"], base["v"]))
        else:
            value = fresh(base["t"])
        items.append(one(base["t"], key, value))
    return {"mixed": mixed, "items": items}


@st.composite
def pools(draw, values, near_value=None):
    """COUNT values biased to equal and nearly equal ones."""
    items = [draw(values)]
    while len(items) < COUNT:
        base = draw(st.sampled_from(items))
        choice = draw(st.integers(0, 3))
        if choice == 0:
            items.append(base)
        elif near_value is not None and choice < 3:
            items.append(draw(near_value(base)))
        else:
            items.append(draw(values))
    return items


def ids():
    return pools(gen.UUIDS, lambda v: near("id", v))


SHORT_TEXT = st.one_of(st.sampled_from(["a", "b", "", "a b", "concept:name", "A", "(a AND b)", "Activity Classifier", "Event Name"]), gen.texts())


def class_cases():
    return pools(st.tuples(gen.texts(), st.integers(0, 3)).map(list),
                 lambda v: st.tuples(near("string", v[0]), st.integers(0, 3)).map(list))


@st.composite
def near_classifier(draw, spec):
    kind, name, keys = spec
    choice = draw(st.integers(0, 5))
    keys = list(keys)
    if choice == 0:
        name = draw(near("string", name))
    elif choice == 1:
        keys = keys[::-1]
    elif choice == 2:
        keys = keys + [draw(SHORT_TEXT)]
    elif choice == 3:
        keys = keys[1:]
    elif choice == 4 and keys:
        keys[-1] = draw(near("string", keys[-1]))
    return [draw(st.sampled_from(["plain", "plain", kind])), name, keys]


def classifier_cases():
    return pools(st.tuples(st.sampled_from(["plain", "plain", "plain", "and", "name", "resource", "transition"]), SHORT_TEXT,
                           st.lists(SHORT_TEXT, max_size=4)).map(list), near_classifier)


URIS = st.one_of(st.sampled_from(["http://a.org/x.xesext", "http://a.org/x.xesext#a", "http://a.org/X.xesext", "http://a.org:80/x.xesext", "",
                                  "urn:x", "https://a.org/x.xesext", "http://a.org/x.xesext?q", "http://a.org/x.xesext;p"]),
                 st.text("abc/:.?#", max_size=8))


def extension_cases():
    return pools(st.tuples(gen.texts(), gen.texts(), URIS).map(list),
                 lambda v: st.one_of(st.tuples(st.just("other"), st.just(v[1]), st.just(v[2])).map(list),
                                     st.tuples(st.just(v[0]), st.just(v[1]), URIS).map(list)))


@st.composite
def event_cases(draw):
    events = draw(st.lists(st.tuples(st.integers(0, 3), gen.maps(0, width=1)).map(list), min_size=COUNT, max_size=7))
    traces = draw(st.lists(st.lists(st.integers(0, 6), max_size=3), min_size=3, max_size=3))
    if draw(st.booleans()):
        traces[1] = list(traces[0])
    return {"events": events, "traces": traces, "ids": draw(st.lists(gen.UUIDS, min_size=4, max_size=4))}


# ---- laws ------------------------------------------------------------------------------
def sign(number):
    return (number > 0) - (number < 0)


def laws(objects, keys, ordered=True, hashable=True):
    """:param keys: reference: equal exactly if these are, ordered as these are."""
    for a, ka in zip(objects, keys):
        lib.check(a == a and not a != a, "%s is not equal to itself" % show(a))
        for strange in (None, 1, "x", str(a) if not isinstance(a, list) else "y", (), object()):
            lib.check((a == strange) is False and (a != strange) is True, "%s is equal to %r" % (show(a), strange))
        for b, kb in zip(objects, keys):
            expected = ka == kb
            pair = "%s and %s" % (show(a), show(b))
            lib.equal(a == b, expected, pair + " equal")
            lib.equal(a != b, not expected, pair + " not equal")
            if hashable and expected:
                lib.equal(hash(a), hash(b), "hashes of equal " + pair)
            if ordered:
                order = (ka > kb) - (ka < kb)
                lib.equal(sign(a.compare_to(b)), order, "compare_to of " + pair)
                lib.equal(a < b, order < 0, pair + " <")
                lib.equal(a <= b, order <= 0, pair + " <=")
                lib.equal(a > b, order > 0, pair + " >")
                lib.equal(a >= b, order >= 0, pair + " >=")
    if hashable:
        distinct = []
        for key in keys:
            if key not in distinct:
                distinct.append(key)
        lib.equal(len(set(objects)), len(distinct), "number of distinct objects in a set")
        table = dict.fromkeys(objects, 0)
        for a in objects:
            lib.check(a in table, "%s is not found in a dictionary" % show(a))
    if ordered:
        expected = [o for _, o in sorted(zip(keys, range(len(objects))))]
        actual = sorted(range(len(objects)), key=lambda i: objects[i])
        lib.same([keys[i] for i in expected], [keys[i] for i in actual], "sorted order")


def show(thing):
    if hasattr(thing, "get_key"):
        return "%s %r=%r" % (type(thing).__name__, thing.get_key(), str(thing))
    return "%s %r" % (type(thing).__name__, str(thing)[:100])


def pair_labels(keys):
    pairs = [(a, b) for i, a in enumerate(keys) for b in keys[i + 1:]]
    return ["with equal objects"] * any(a == b for a, b in pairs) + ["with different objects"] * any(a != b for a, b in pairs)


def check_attributes(case):
    objects = [lib.make_attribute(spec) for spec in case["items"]]
    keys = []
    for spec in case["items"]:
        if spec["t"] in gen.COLLECTIONS:
            keys.append((spec["t"], spec["k"]))
        else:
            value = lib.make_value(spec["t"], spec["v"])
            keys.append((spec["t"], spec["k"], value.get_uuid() if spec["t"] == "id" else value))
    same_type = len({spec["t"] for spec in case["items"]}) == 1
    laws(objects, keys, ordered=same_type)
    return ["type " + t for t in sorted({s["t"] for s in case["items"]})] + pair_labels(keys)


def check_ids(case):
    uuids = [uuid.UUID(v) for v in case]
    laws([XID(u) for u in uuids], uuids)
    laws([XFactory.create_attribute_id("k", XID(u)) for u in uuids], uuids)
    laws([XFactory.create_event(None, XID(u)) for u in uuids], uuids, ordered=False)
    return pair_labels(uuids)


def check_classes(case):
    objects = [XEventClass(name, index) for name, index in case]
    for number, thing in enumerate(objects):
        thing.set_size(number)
    laws(objects, [name for name, _ in case])
    return pair_labels([name for name, _ in case])


def check_classifiers(case):
    objects, keys = [], []
    for kind, name, own in case:
        if kind == "and":
            parts = [XEventAttributeClassifier(k, [k]) for k in own] or [XEventNameClassifier()]
            thing = XEventAndClassifier(parts)
            name = "(" + " AND ".join(own) + ")" if own else thing.name()
            own = sorted(set(own)) if own else ["concept:name"]
        elif kind == "plain":
            thing = XEventAttributeClassifier(name, list(own))
        else:
            thing = {"name": XEventNameClassifier, "resource": XEventResourceClassifier, "transition": XEventLifeTransClassifier}[kind]()
            name = thing.name()
            own = {"name": ["concept:name"], "resource": ["org:resource"], "transition": ["lifecycle:transition"]}[kind]
        lib.equal(thing.name(), name, "name of the classifier")
        objects.append(thing)
        keys.append((name, len(own), own))
    laws(objects, keys)
    # sets of event classes are equal if their classifiers are
    for a, ka in zip(objects, keys):
        for b, kb in zip(objects, keys):
            lib.equal(XEventClasses(a) == XEventClasses(b), ka == kb, "sets of event classes of %s and %s equal" % (show(a), show(b)))
            lib.equal(XEventClasses(a) != XEventClasses(b), ka != kb, "sets of event classes of %s and %s differ" % (show(a), show(b)))
    return pair_labels(keys)


def parse_uri(text):
    try:
        return urlparse(text)
    except ValueError:
        return urlsplit("urn:bad")


def check_extensions(case):
    uris = [parse_uri(uri) for _, _, uri in case]
    laws([XExtension(name, prefix, uri) for (name, prefix, _), uri in zip(case, uris)], uris, ordered=False)
    return pair_labels(uris)


def check_events(case):
    events = []
    for number, attrs in case["events"]:
        event = XFactory.create_event(None, XID(uuid.UUID(case["ids"][number])))
        lib.put(event, attrs)
        events.append(event)
    keys = [uuid.UUID(case["ids"][number]) for number, _ in case["events"]]
    laws(events, keys, ordered=False)
    traces, trace_keys = [], []
    for numbers in case["traces"]:
        trace = XFactory.create_trace()
        trace.extend(events[n % len(events)] for n in numbers)
        traces.append(trace)
        trace_keys.append([keys[n % len(events)] for n in numbers])
    laws(traces, trace_keys, ordered=False)
    return pair_labels(trace_keys)


def some_pair(keys):
    return len(keys) > len(set(map(repr, keys)))


SUBS = [
    Sub("attributes", attribute_cases, check_attributes, lambda c: len({(i["t"], i["k"]) for i in c["items"]}) < COUNT,
        "four attributes of one type or of several, biased to equal keys and near values; non-trivial: two of the same type and key", 6000),
    Sub("identifiers", ids, check_ids, lambda c: len(set(c)) > 1,
        "four identifiers differing in single bits or equal, also as attributes and events; non-trivial: two different", 1500),
    Sub("classes", class_cases, check_classes, lambda c: len({n for n, _ in c}) > 1,
        "four event classes with near names, any index and size; non-trivial: two different", 1200),
    Sub("classifiers", classifier_cases, check_classifiers, lambda c: len({(n, len(k)) for _, n, k in c}) < COUNT,
        "four classifiers, plain, standard and conjunctions, with near names and keys; non-trivial: two of the same name and number of keys", 1500),
    Sub("extensions", extension_cases, check_extensions, lambda c: some_pair([u for _, _, u in c]),
        "four extensions, equal or near URIs; non-trivial: two with the same URI", 1000),
    Sub("events", event_cases, check_events, lambda c: some_pair([n for n, _ in c["events"]]),
        "events with few identities and any attributes, traces of them; non-trivial: two events of the same identity", 1000),
]
ASSUMPTIONS = ["NaN has no order and is not claimed", "timestamps with and without zone are not compared with each other",
               "attributes of different types are compared for equality only"]
