"""C16: attribute statistics count exactly the registered attributes."""
from hypothesis import strategies as st

import gen
import lib
from harness import Sub
from opyenxes.info.XAttributeInfo import XAttributeInfo


@st.composite
def cases(draw):
    few = draw(st.lists(gen.keys(), min_size=1, max_size=4))
    if draw(st.booleans()):
        few += [k.swapcase() for k in few] + [k + " " for k in few]
    ext = st.sampled_from([None, None] + gen.PREFIXES + ["twin:concept", "twin:x", "twin:my"])
    attribute = st.one_of(gen.attributes(depth=1, width=2), st.sampled_from(few).flatmap(lambda k: gen.attributes(depth=1, key=k, width=2)),
                          st.sampled_from(few).flatmap(lambda k: gen.attributes(depth=0, key=k)))
    steps = draw(gen.several(st.tuples(attribute, st.one_of(st.just("own"), ext)).map(list), 14))
    if draw(st.integers(0, 9)) == 0:
        kinds = draw(st.lists(st.sampled_from(gen.TYPES + gen.COLLECTIONS), min_size=1, max_size=2))
        steps += [[a, draw(ext)] for a in gen.filling(draw(gen.counts([9, 20, 45], 200)), kinds)]
    return {"steps": steps, "again": draw(st.lists(st.integers(0, 9), max_size=3)), "many": draw(gen.counts([1] * 10 + [40], 200, 4))}


def check(case):
    info = XAttributeInfo()
    registered = []
    shots = []
    lib.check_attribute_info(info, registered, "nothing registered")
    for spec, ext in case["steps"]:
        spec = spec if ext == "own" else dict(spec, e=ext)
        attribute = lib.make_attribute(spec)
        shots.append([attribute, lib.snap_attribute(attribute)])
        for _ in range(case["many"]):
            info.register(attribute)
            registered.append(attribute)
        lib.check_attribute_info(info, registered, "after %d registrations" % len(registered))
    for number in case["again"]:
        attribute = registered[number % len(registered)]
        info.register(attribute)
        registered.append(attribute)
        lib.check_attribute_info(info, registered, "after registering one again")
    for attribute, shot in shots:
        lib.same(shot, lib.snap_attribute(attribute), "a registered attribute")
    # changes to the prototypes are not seen in the registered attributes
    for prototype in info.get_attributes():
        prototype.get_attributes()["new key"] = lib.make_attribute({"t": "string", "k": "new key", "v": "x", "a": []})
        for child in list(prototype.get_attributes().values()):
            if hasattr(child, "set_value"):
                child.set_value(None)
        if hasattr(prototype, "set_value"):
            prototype.set_value(None)
        else:
            prototype.add_to_collection(lib.make_attribute({"t": "string", "k": "new key", "v": "x", "a": []}))
    for attribute, shot in shots:
        lib.same(shot, lib.snap_attribute(attribute), "a registered attribute after changing the prototypes")
    kinds = {}
    for spec, _ in case["steps"]:
        kinds.setdefault(spec["k"], set()).add(spec["t"])
    return ["repeated keys"] * (len(kinds) < len(case["steps"])) + ["one key of several types"] * any(len(k) > 1 for k in kinds.values()) + \
        ["with extension"] * any(a.get_extension() is not None for a in registered)


SUBS = [
    Sub("registrations", cases, check, lambda c: len(c["steps"]) > 1,
        "random histories of registering attributes with repeated keys; non-trivial: at least two attributes", 3000),
]
ASSUMPTIONS = []
