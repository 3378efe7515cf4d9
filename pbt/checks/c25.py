"""C25: types of attributes, prototypes, and the extensions of elements."""
from hypothesis import strategies as st

import gen
import lib
from harness import Sub
from opyenxes.factory.XFactory import XFactory
from opyenxes.id.XID import XID
from opyenxes.model.XAttribute import XAttribute
from opyenxes.utils.XAttributeUtils import XAttributeUtils

TYPE_NAME = {"string": "LITERAL", "date": "TIMESTAMP", "int": "DISCRETE", "float": "CONTINUOUS", "boolean": "BOOLEAN",
             "id": "ID", "list": "LIST", "container": "CONTAINER"}
DEFAULTS = {"string": "UNKNOWN", "boolean": True, "int": "0", "float": "0.0"}
_subclasses = {}


def subclass(cls):
    """An implementation of an attribute type by someone else."""
    if cls not in _subclasses:
        _subclasses[cls] = type("My" + cls.__name__, (cls,), {})
    return _subclasses[cls]


def all_attributes(attribute):
    return lib.walk([attribute])


def check_default(spec, prototype):
    kind = spec["t"]
    if kind in gen.COLLECTIONS:
        return
    value = prototype.get_value()
    if kind == "id":
        lib.check(isinstance(value, XID), "default of an id is %r" % (value,))
    elif kind == "date":
        got = lib.dump_value("date", value)
        lib.equal(str(prototype), "1970-01-01T00:00:00.000Z", "default of a timestamp")
        lib.equal(got[7] or 0, 0, "offset of the default of a timestamp")
        lib.check(prototype.get_value_millis() == 0, "milliseconds of the default of a timestamp")
    else:
        lib.equal(lib.dump_value(kind, value), DEFAULTS[kind], "default value")


def check(case):
    spec = case["attr"]
    attribute = lib.make_attribute(spec, bind=case["bind"], children_in_map=case["in_map"])
    cls = lib.CLASS_OF[spec["t"]]
    for utils in (XAttributeUtils, XAttributeUtils()):
        lib.check(utils.get_type(attribute) is cls, "type is %s" % utils.get_type(attribute))
        lib.equal(utils.get_type_string(attribute), TYPE_NAME[spec["t"]], "name of the type")
    own = subclass(cls)(spec["k"]) if spec["t"] in gen.COLLECTIONS else subclass(cls)(spec["k"], lib.make_value(spec["t"], spec["v"]))
    lib.check(XAttributeUtils.get_type(own) is cls, "type of a derived class is %s" % XAttributeUtils.get_type(own))
    lib.equal(XAttributeUtils.get_type_string(own), TYPE_NAME[spec["t"]], "name of the type of a derived class")
    before = lib.snap_attribute(attribute)
    prototypes = [XAttributeUtils.derive_prototype(attribute) for _ in range(2)]
    for prototype in prototypes:
        lib.check(type(prototype) is cls, "class of the prototype is %s" % type(prototype).__name__)
        lib.equal(prototype.get_key(), spec["k"], "key of the prototype")
        lib.check(prototype.get_extension() == attribute.get_extension(), "extension of the prototype is %s" % prototype.get_extension())
        check_default(spec, prototype)
    again = XAttributeUtils.derive_prototype(prototypes[0])
    lib.check(type(again) is cls and again.get_key() == spec["k"], "prototype of the prototype")
    check_default(spec, again)
    lib.same(before, lib.snap_attribute(attribute), "attribute after deriving")
    parts = [id(a) for a in all_attributes(attribute)]
    maps = [id(a.get_attributes()) for a in all_attributes(attribute)]
    for prototype in prototypes:
        for part in all_attributes(prototype):
            lib.check(id(part) not in parts, "attribute %r is shared with a prototype" % part.get_key())
            lib.check(id(part.get_attributes()) not in maps, "a map of attributes is shared with a prototype")
        parts.extend(id(a) for a in all_attributes(prototype))
        maps.extend(id(a.get_attributes()) for a in all_attributes(prototype))
    # changes of a prototype stay there
    other = lib.snap_attribute(prototypes[1])
    for part in list(all_attributes(prototypes[0])):
        kind = lib.TAG_OF[type(part)]
        if kind in gen.COLLECTIONS:
            part.add_to_collection(XFactory.create_attribute_literal("new", "new"))
        else:
            part.get_attributes()["new"] = XFactory.create_attribute_literal("new", "new")
            if kind == "string":
                part.set_value("new value")
    lib.same(before, lib.snap_attribute(attribute), "attribute after a change of its prototype")
    lib.same(other, lib.snap_attribute(prototypes[1]), "second prototype after a change of the first")
    return ["type " + spec["t"]] + ["with children"] * bool(spec["a"])


@st.composite
def cases(draw):
    attr = draw(gen.attributes(depth=2))
    if draw(st.booleans()):     # an extension whatever the key is
        attr["e"] = draw(st.sampled_from(gen.PREFIXES))
    return {"attr": attr, "bind": draw(st.booleans()), "in_map": draw(st.booleans())}


@st.composite
def element_cases(draw):
    attrs = draw(st.lists(st.tuples(gen.attributes(depth=1), st.one_of(st.none(), st.sampled_from(gen.PREFIXES))), max_size=5,
                          unique_by=lambda t: t[0]["k"]))
    return {"kind": draw(st.sampled_from(["trace", "event", "attribute", "list"])), "attrs": [dict(a, e=e) for a, e in attrs],
            "own": draw(st.one_of(st.none(), st.sampled_from(gen.PREFIXES))),
            "steps": draw(gen.several(st.tuples(st.sampled_from(["put", "remove"]), st.integers(0, 5),
                                              st.one_of(st.none(), st.sampled_from(gen.PREFIXES))).map(list), 8, 0))}


def check_element(case):
    own = lib.extension(case["own"])
    element = {"trace": lambda: XFactory.create_trace(), "event": lambda: XFactory.create_event(),
               "attribute": lambda: XFactory.create_attribute_discrete("own", 1, own),
               "list": lambda: XFactory.create_attribute_list("own", own)}[case["kind"]]()
    lib.put(element, case["attrs"])
    wanted = {a["k"]: a["e"] for a in case["attrs"]}

    def compare():
        found = element.get_extensions()
        expected = {e for e in wanted.values() if e is not None}
        got = sorted(e.get_prefix() for e in found)
        if isinstance(element, XAttribute) and case["own"] in got and case["own"] not in expected:
            got.remove(case["own"])     # an attribute may count its own extension
        lib.equal(got, sorted(expected), "extensions of the element")
        for extension in found:
            lib.check(extension is lib.extension(extension.get_prefix()), "extension %s is another object" % extension.get_prefix())
    compare()
    for what, number, prefix in case["steps"]:
        if what == "put":
            key = "new%d" % number
            element.get_attributes()[key] = XFactory.create_attribute_literal(key, "v", lib.extension(prefix))
            wanted[key] = prefix
        elif wanted:
            key = sorted(wanted)[number % len(wanted)]
            del element.get_attributes()[key]
            del wanted[key]
        compare()
    before = lib.snap_map(element)
    found = element.get_extensions()
    found.clear()
    lib.same(before, lib.snap_map(element), "attributes after a change of the returned extensions")
    compare()
    return ["of " + case["kind"]]


SUBS = [
    Sub("prototypes", cases, check, lambda c: True,
        "random attributes with children: types, names, prototypes and their independence; all non-trivial", 4000),
    Sub("extensions", element_cases, check_element, lambda c: any(a["e"] for a in c["attrs"]),
        "extensions of traces, events and attributes while attributes come and go; non-trivial: some attribute has an extension", 2500),
]
ASSUMPTIONS = ["the default values are those the library documents by its own prototypes: UNKNOWN, true, 0, 0.0, 1970-01-01, any id",
               "children of a prototype are copies of those of the attribute"]
