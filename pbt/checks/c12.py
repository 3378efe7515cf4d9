"""C12: classifiers identify events by exactly their defining attributes."""
from hypothesis import strategies as st

import gen
import lib
from harness import Sub
from opyenxes.classification.XEventAndClassifier import XEventAndClassifier
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
from opyenxes.classification.XEventLifeTransClassifier import XEventLifeTransClassifier
from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
from opyenxes.classification.XEventResourceClassifier import XEventResourceClassifier

NOTHING = [{"t": "string", "v": v} for v in ("", " ", "None", "UNKNOWN", "0", "null", "nil", "\t", "False")] + \
    [{"t": "int", "v": "0"}, {"t": "float", "v": "0.0"}, {"t": "float", "v": "-0.0"}, {"t": "boolean", "v": False}, {"t": "list"}, {"t": "container"}]
POOL = ["concept:name", "org:resource", "lifecycle:transition", "time:timestamp", "a", "b", "c", "a b", "A"]
STANDARD = {"name": (XEventNameClassifier, "concept:name"), "resource": (XEventResourceClassifier, "org:resource"),
            "transition": (XEventLifeTransClassifier, "lifecycle:transition")}


@st.composite
def event_lists(draw):
    """A few events with mostly the same keys, each a variation of an earlier one."""
    pool = POOL + draw(st.lists(gen.keys(), max_size=2))
    first = draw(st.lists(st.sampled_from(pool).flatmap(lambda k: gen.attributes(depth=1, key=k, width=2)), max_size=6, min_size=draw(st.sampled_from([0, 1, 2])), unique_by=lambda a: a["k"]))
    events = [first]
    for _ in range(draw(st.integers(1, 3))):
        event = [dict(a) for a in draw(st.sampled_from(events))]
        for _ in range(draw(st.integers(0, 2))):
            choice = draw(st.integers(0, 3))
            if choice == 0 and event:
                del event[draw(st.integers(0, len(event) - 1))]
            elif choice == 1:
                event = event[::-1]
            else:
                key = draw(st.sampled_from(pool))
                other = draw(gen.attributes(depth=1, key=key, width=2)) if draw(st.integers(0, 3)) else dict(draw(st.sampled_from(NOTHING)), k=key, a=[])
                event = [a for a in event if a["k"] != key] + [other]
        events.append(event)
    return {"pool": pool, "events": events}


@st.composite
def key_lists(draw, pool):
    count = draw(st.sampled_from([0, 1, 1, 2, 2, 2, 3, 3, 4, 6]))
    return [draw(st.sampled_from(pool)) for _ in range(count)]


def trees(pool, depth=2):
    leaf = st.one_of(st.tuples(st.just("plain"), gen.texts(), key_lists(pool)).map(list),
                     st.tuples(st.sampled_from(sorted(STANDARD))).map(list))
    if depth == 0:
        return leaf
    return st.one_of(leaf, st.tuples(st.just("and"), st.lists(trees(pool, depth - 1), min_size=1, max_size=3)).map(list))


@st.composite
def cases(draw):
    case = draw(event_lists())
    present = sorted({a["k"] for attrs in case["events"] for a in attrs})
    case["classifier"] = draw(trees(tuple(present * 3 + case["pool"])))
    case["rename"] = draw(st.one_of(st.none(), gen.texts()))
    return case


def build(tree):
    """[classifier, expected name, expected keys, built parts]"""
    if tree[0] == "plain":
        return XEventAttributeClassifier(tree[1], list(tree[2])), tree[1], list(tree[2]), []
    if tree[0] == "and":
        parts = [build(t) for t in tree[1]]
        keys = sorted({k for p in parts for k in p[2]})
        return XEventAndClassifier([p[0] for p in parts]), "(" + " AND ".join(p[1] for p in parts) + ")", keys, parts
    kind, key = STANDARD[tree[0]]
    made = kind()
    return made, made.name(), [key], []


def all_parts(built):
    out = [built]
    for part in built[3]:
        out.extend(all_parts(part))
    return out


def check(case):
    built = build(case["classifier"])
    events = [lib.make_event({"attrs": attrs}) for attrs in case["events"]]
    before = [lib.snap_event(e) for e in events]
    plain = not any("&" in lib.value_text(a) for attrs in case["events"] for a in attrs)
    labels = set()
    for classifier, name, keys, parts in all_parts(built):
        lib.equal(classifier.name(), name, "name of the classifier")
        lib.equal(str(classifier), name, "text of the classifier")
        lib.equal(list(classifier.get_defining_attribute_keys()), keys, "keys of the classifier")
        labels.add("%d keys" % len(keys) if len(keys) < 4 else "4 or more keys")
        for attrs, event in zip(case["events"], events):
            lib.equal(classifier.get_class_identity(event), lib.identity(keys, attrs), "class identity for %r" % keys)
        for attrs_a, a in zip(case["events"], events):
            for attrs_b, b in zip(case["events"], events):
                values_a, values_b = ([{x["k"]: lib.value_text(x) for x in attrs}.get(k, "") for k in keys] for attrs in (attrs_a, attrs_b))
                if plain:
                    expected = values_a == values_b
                else:
                    expected = lib.identity(keys, attrs_a) == lib.identity(keys, attrs_b)
                lib.equal(bool(classifier.same_event_class(a, b)), expected, "same class of %r and %r for %r" % (values_a, values_b, keys))
                if a is not b:
                    labels.add("same class" if expected else "different classes")
                if parts and plain:
                    lib.equal(bool(classifier.same_event_class(a, b)), all(p[0].same_event_class(a, b) for p in parts),
                              "same class for a conjunction and its parts")
                    labels.add("conjunction")
    lib.same(before, [lib.snap_event(e) for e in events], "events after classifying")
    if case["rename"] is not None:
        classifier = built[0]
        classifier.set_name(case["rename"])
        lib.equal(classifier.name(), case["rename"], "new name")
        for attrs, event in zip(case["events"], events):
            lib.equal(classifier.get_class_identity(event), lib.identity(built[2], attrs), "class identity after renaming")
        for part in all_parts(built)[1:]:
            lib.equal(part[0].name(), part[1], "name of a part after renaming the conjunction")
    return sorted(labels)


SUBS = [
    Sub("identity", cases, check, lambda c: any(c["events"]),
        "random classifiers and conjunctions on events that differ in few attributes; non-trivial: some event has attributes", 6000),
]
ASSUMPTIONS = ["where values contain the separator character '&' only the identity text is claimed, as it may be ambiguous"]
