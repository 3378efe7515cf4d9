"""C27: identifiers are unique, comparable and survive text."""
import os
import random
import uuid

from hypothesis import strategies as st

import files
import gen
import lib
from harness import Sub
from isolate import Isolation
from opyenxes.factory.XFactory import XFactory
from opyenxes.id.XID import XID
from opyenxes.id.XIDFactory import XIDFactory
from opyenxes.model.XAttributeMap import XAttributeMap
from opyenxes.model.XEvent import XEvent

NUMBERS = st.one_of(st.integers(0, 2**128 - 1), st.sampled_from([0, 1, 2**64 - 1, 2**64, 2**127, 2**128 - 1, 2**96]),
                    st.integers(0, 2**16), st.tuples(st.integers(0, 255), st.integers(0, 15)).map(lambda t: t[0] << 8 * t[1]))


@st.composite
def values(draw):
    first = draw(NUMBERS)
    second = draw(st.one_of(NUMBERS, st.just(first), st.integers(0, 127).map(lambda bit: first ^ (1 << bit))))
    return {"a": "%032x" % first, "b": "%032x" % second, "mask": draw(st.integers(0, 2**32 - 1))}


def forms(value, mask):
    """Texts of an identifier."""
    text = str(value)
    mixed = "".join(c.upper() if mask >> (i % 32) & 1 else c for i, c in enumerate(text))
    return [text, text.upper(), mixed, text.replace("-", ""), "{%s}" % text.upper(), "urn:uuid:" + text]


def check_values(case):
    first, second = (uuid.UUID(case[name]) for name in "ab")
    a, b = XID(first), XID(second)
    lib.check(a.get_uuid() == first, "value of an identifier")
    text = str(a)
    lib.equal(text.lower(), str(first), "text of an identifier")
    for form in forms(first, case["mask"]) + [text, text.lower()]:
        read = XID.parse(form)
        lib.check(isinstance(read, XID) and read == a and not (read != a), "identifier read from %r is %s" % (form, read))
        lib.equal(hash(read), hash(a), "hash of an equal identifier")
        lib.equal(str(read), text, "text of the identifier read from %r" % form)
    same = first == second
    wanted = (first.int > second.int) - (first.int < second.int)
    got = a.compare_to(b)
    lib.check((got > 0) - (got < 0) == wanted, "order of %s and %s: %r" % (a, b, got))
    lib.equal([a == b, a != b, a < b, a <= b, a > b, a >= b],
              [same, not same, wanted < 0, wanted <= 0, wanted > 0, wanted >= 0], "comparisons of %s and %s" % (a, b))
    lib.equal(str(a) == str(b), same, "equal texts")
    lib.equal(len({a, b, XID(first)}), 1 if same else 2, "number of identifiers in a set")
    lib.equal([str(x) for x in sorted([b, a])], sorted([str(a), str(b)]), "sorted identifiers")
    for stranger in (None, text, first, 0):
        lib.check(not (a == stranger) and a != stranger, "identifier equals %r" % (stranger,))
    clone = a.clone()
    lib.check(clone == a and hash(clone) == hash(a) and clone.get_uuid() == first and isinstance(clone, XID), "copy of an identifier")
    if clone is not a:
        clone.set_uuid(second)
        lib.check(clone == b and a.get_uuid() == first, "identifiers after a change of the copy")
        lib.equal(hash(clone), hash(b), "hash of a changed identifier")
        lib.equal(str(clone), str(b), "text of a changed identifier")
    # as the value of an attribute, and through a document
    attribute = XFactory.create_attribute_id("key", a)
    lib.equal(str(attribute), text, "text of an attribute")
    log = XFactory.create_log()
    log.get_attributes()["key"] = attribute
    read = files.read_text(files.write_text(log))[0].get_attributes()["key"].get_value()
    lib.check(read == a, "identifier %s read back as %s" % (a, read))
    return ["equal"] if same else ["different"]


WAYS = ["id", "factory id", "instance id", "event", "event none", "constructor", "constructor map", "clone", "trace clone", "log clone",
        "read xes", "read mxml", "prototype"]


@st.composite
def creations(draw):
    step = st.tuples(st.sampled_from(WAYS + ["seed", "elsewhere", "fork"]), gen.counts([1, 2, 3, 4], 600, 3)).map(list)
    return {"steps": draw(gen.several(step, 16))}


def create(way, count):
    """New identifiers made in some way, as texts."""
    if way == "id":
        return [XID() for _ in range(count)]
    if way == "factory id":
        return [XIDFactory.create_id() for _ in range(count)]
    if way == "instance id":
        return [XIDFactory().create_id() for _ in range(count)]
    if way == "prototype":
        from opyenxes.utils.XAttributeUtils import XAttributeUtils
        attribute = XFactory.create_attribute_id("key", XID(uuid.UUID(int=1)))
        return [XAttributeUtils.derive_prototype(attribute).get_value() for _ in range(count)]
    if way == "read xes":
        text = '<log xes.version="1.0"><trace>' + "<event/>" * count + "</trace></log>"
        return [e.get_id() for t in files.read_text(text)[0] for e in t]
    if way == "read mxml":
        entry = "<AuditTrailEntry><WorkflowModelElement>a</WorkflowModelElement><EventType>start</EventType></AuditTrailEntry>"
        text = "<WorkflowLog><Process id='p'><ProcessInstance id='i'>%s</ProcessInstance></Process></WorkflowLog>" % (entry * count)
        return [e.get_id() for t in files.read_text(text, "mxml")[0] for e in t]
    if way in ("clone", "trace clone", "log clone"):
        trace = XFactory.create_trace()
        trace.extend(XFactory.create_event() for _ in range(count))
        log = XFactory.create_log()
        log.append(trace)
        if way == "clone":
            copies = [event.clone() for event in trace]
        elif way == "trace clone":
            copies = list(trace.clone())
        else:
            copies = list(log.clone()[0])
        return [event.get_id() for event in list(trace) + copies]
    make = {"event": lambda: XFactory.create_event(), "event none": lambda: XFactory().create_event(None, None),
            "constructor": lambda: XEvent(), "constructor map": lambda: XEvent(XAttributeMap())}[way]
    return [make().get_id() for _ in range(count)]


def elsewhere(task):
    return [str(i) for way in ("id", "event") for i in create(way, task)]


def in_child(count):
    """Identifiers made in a child process, as when traces are made by a pool of workers."""
    source, sink = os.pipe()
    child = os.fork()
    if child == 0:
        try:
            text = "\n".join(str(i) for way in ("id", "factory id", "event") for i in create(way, count))
            with open(sink, "w") as target:
                target.write(text)
        finally:
            os._exit(0)
    os.close(sink)
    with open(source) as found:
        texts = found.read().split("\n")
    os.waitpid(child, 0)
    lib.equal(len(texts), 3 * count, "number of identifiers made in a child process")
    return texts


def check_creations(case):
    Isolation.start(elsewhere)
    seen = []
    for way, count in case["steps"]:
        if way == "seed":
            random.seed(count)
        elif way == "elsewhere":
            seen.extend(Isolation.run(count))
        elif way == "fork":
            seen.extend(in_child(min(count, 20)))
        else:
            made = create(way, count)
            for identity in made:
                lib.check(isinstance(identity, XID), "%s gives %r" % (way, identity))
            lib.check(len(made) >= count, "number of identifiers made by %s" % way)
            seen.extend(map(str, made))
    lib.equal(len(set(seen)), len(seen), "number of identifiers")
    return sorted({way for way, _ in case["steps"]})


def check_many(case):
    seen = set()
    for _ in range(case["count"]):
        seen.add(str(XFactory.create_event().get_id()))
    lib.equal(len(seen), case["count"], "number of identities of %d events" % case["count"])
    return []


SUBS = [
    Sub("values", values, check_values, lambda c: True,
        "pairs of identifiers that are random, equal or differ in one bit, in all textual forms; all non-trivial", 5000),
    Sub("creations", creations, check_creations, lambda c: len(c["steps"]) > 1,
        "identifiers made in all ways, with the random generator reset and in other processes; non-trivial: several steps", 1200),
    Sub("many", lambda: st.fixed_dictionaries({"count": st.integers(1000, 5000)}), check_many, lambda c: True,
        "thousands of events; all non-trivial", 24, shards=4),
]
ASSUMPTIONS = ["copying an event gives it a new identifier"]
