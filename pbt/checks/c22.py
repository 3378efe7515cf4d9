"""C22: registries, factories, and which factory parsers build with."""
from hypothesis import strategies as st

import docs
import gen
import lib
import mxdocs
from checks import c20
from harness import Scratch, Sub
from opyenxes.data_in.XesXmlGZIPParser import XesXmlGZIPParser
from opyenxes.data_in.XesXmlParser import XesXmlParser
from opyenxes.data_in.XMxmlGZIPParser import XMxmlGZIPParser
from opyenxes.data_in.XMxmlParser import XMxmlParser
from opyenxes.data_in.XParserRegistry import XParserRegistry
from opyenxes.data_in.XUniversalParser import XUniversalParser
from opyenxes.data_out.XesXmlGZIPSerializer import XesXmlGZIPSerializer
from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
from opyenxes.data_out.XMxmlGZIPSerializer import XMxmlGZIPSerializer
from opyenxes.data_out.XMxmlSerializer import XMxmlSerializer
from opyenxes.data_out.XSerializerRegistry import XSerializerRegistry
from opyenxes.extension.XExtensionParser import XExtensionParser
from opyenxes.factory.XFactory import XFactory
from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
from opyenxes.id.XID import XID
from opyenxes.model.XAttributeMap import XAttributeMap
from opyenxes.utils.XRegistry import XRegistry


# ---- registries ---------------------------------------------------------------------------
class Thing:
    """An instance to register."""


class Named(Thing):
    """An instance whose text is that of all others."""
    def __str__(self):
        return "named"
    __repr__ = __str__


class Numbered(Thing):
    """An instance with contents, which several may have in common."""
    def __init__(self, number):
        self.number = number


def make_things(kind):
    if kind == "values":
        return VALUES
    return [Numbered(n % 3) if kind == "numbered" else Thing() if kind == "objects" else Named() for n in range(6)]


class Mine(XRegistry):
    pass


SYSTEM = {"factories": (XFactoryRegistry, [XFactory], XFactory),
          "parsers": (XParserRegistry, [XMxmlParser, XMxmlGZIPParser, XesXmlParser, XesXmlGZIPParser], XesXmlGZIPParser),
          "serializers": (XSerializerRegistry, [XMxmlSerializer, XMxmlGZIPSerializer, XesXmlSerializer, XesXmlGZIPSerializer], XesXmlGZIPSerializer)}


@st.composite
def registry_cases(draw):
    op = st.tuples(st.sampled_from(["register", "register", "default", "known"]), st.integers(0, 5)).map(list)
    return {"which": draw(st.sampled_from(["plain", "plain", "mine", "factories", "parsers", "serializers"])),
            "things": draw(st.sampled_from(["objects", "values", "named", "numbered"])), "ops": draw(gen.several(op, 16))}


VALUES = [0, "", "a", 7, (), frozenset()]


def check_registry(registry, members, default, outside):
    available = registry.get_available()
    lib.check(isinstance(available, (tuple, frozenset)), "the available instances can be changed: %r" % (available,))
    lib.equal(len(available), len(members), "number of available instances")
    for member in members:
        lib.check(any(member is a for a in available), "%r is not available" % (member,))
        lib.check(member in registry, "%r is not in the registry" % (member,))
    for stranger in outside:
        lib.check(stranger not in registry, "%r is in the registry" % (stranger,))
    lib.check(registry.current_default() is default, "default is %r instead of %r" % (registry.current_default(), default))


def check_history(case):
    things = make_things(case["things"])
    if case["which"] in SYSTEM:
        cls, kinds, preset = SYSTEM[case["which"]]
        registry = lib.fresh(cls)
        if registry is None:
            return check_history(dict(case, which="plain"))
        lib.equal(sorted(type(a).__name__ for a in registry.get_available()), sorted(k.__name__ for k in kinds), "instances from the start")
        lib.check(type(registry.current_default()) is preset, "default from the start: %r" % registry.current_default())
        lib.check(cls() is cls(), "the registry is a singleton")
    else:
        registry = XRegistry() if case["which"] == "plain" else Mine()
        lib.check(registry.current_default() is None, "default of an empty registry")
    members = list(registry.get_available())
    default = registry.current_default()
    labels = set()

    def outside():
        return [t for t in things if not any(t is m for m in members)] + [Thing()]
    check_registry(registry, members, default, outside())
    for op, number in case["ops"]:
        thing = things[number]
        if op == "known":
            if not members:
                continue
            thing = members[number % len(members)]
        known = any(thing is m for m in members)
        labels.add("%s %s" % (op, "again" if known else "new"))
        if op == "default":
            registry.set_current_default(thing)
        else:
            registry.register(thing)
        if not known:
            members.append(thing)
        if op == "default" or default is None:
            default = thing
        check_registry(registry, members, default, outside())
    other = XRegistry()
    check_registry(other, [], None, things)
    return sorted(labels)


# ---- which factory builds ------------------------------------------------------------------
class Recorder(XFactory):
    """Remembers what it has created."""
    def __init__(self):
        super().__init__()
        self.made = []

    def __contains__(self, element):
        return any(element is known for known in self.made)


def recording(name):
    original = getattr(XFactory, name)

    def create(self, *args, **kwargs):
        element = original(*args, **kwargs)
        self.made.append(element)
        return element
    return create


for _name in dir(XFactory):
    if _name.startswith("create_") and _name != "create_attribute_map":
        setattr(Recorder, _name, recording(_name))

FORMS = {"xes": (XesXmlParser, "a.xes"), "xes gzip": (XesXmlGZIPParser, "a.xes.gz"), "mxml": (XMxmlParser, "a.mxml"),
         "mxml gzip": (XMxmlGZIPParser, "a.mxml.gz")}


@st.composite
def parser_cases(draw):
    form = draw(st.sampled_from(["xes", "xes", "xes gzip", "mxml", "mxml", "mxml gzip"]))
    doc = draw(docs.documents(depth=2, max_traces=2)) if form.startswith("xes") else draw(mxdocs.documents())
    return {"form": form, "doc": doc, "given": draw(st.booleans()),
            "steps": draw(st.lists(st.sampled_from(["default 0", "default 1", "default 2", "read", "register 1", "registry", "universal"]), max_size=5)) + ["read"]}


def walk(logs):
    """All elements of the logs: (element, what it is)."""
    for log in logs:
        yield log, "log"
        for attribute in attributes(log.get_attributes().values()):
            yield attribute, "attribute"
        for found in (log.get_global_trace_attributes(), log.get_global_event_attributes()):
            for attribute in attributes(found):
                yield attribute, "attribute"
        for trace in log:
            yield trace, "trace"
            for attribute in attributes(trace.get_attributes().values()):
                yield attribute, "attribute"
            for event in trace:
                yield event, "event"
                for attribute in attributes(event.get_attributes().values()):
                    yield attribute, "attribute"


def attributes(found):
    return lib.walk(found)


def check_parser(case):
    lib.extension("x")
    cls, name = FORMS[case["form"]]
    xes = case["form"].startswith("xes")
    data = docs.render(case["doc"]) if xes else mxdocs.render(case["doc"])
    registry = XFactoryRegistry()
    initial = registry.current_default()
    recorders = [Recorder() for _ in range(3)]
    given = Recorder() if case["given"] else None
    default = initial
    labels = {"given factory" if given else "default factory"}
    path = Scratch.file(name)
    if case["form"].endswith("gzip"):
        import gzip
        with gzip.open(path, "wb") as out:
            out.write(data)
    else:
        with open(path, "wb") as out:
            out.write(data)
    parser = cls(given) if given else cls()
    try:
        for step in case["steps"]:
            if step.startswith("default"):
                default = recorders[int(step[-1])]
                registry.set_current_default(default)
            elif step.startswith("register "):
                registry.register(recorders[int(step[-1])])
            else:
                builder = given
                for recorder in recorders:
                    recorder.made.clear()
                if given:
                    given.made.clear()
                if step == "read":
                    with open(path, "rb") as file:
                        logs = parser.parse(file)
                else:
                    builder = None
                    with open(path, "rb") as file:
                        if step == "universal":
                            logs = XUniversalParser().parse(file)
                        else:
                            logs = next(p for p in XParserRegistry().get_available() if type(p) is cls).parse(file)
                builder = builder or default
                if not isinstance(builder, Recorder):
                    continue
                made = {id(element) for element in builder.made}
                for element, what in walk(logs):
                    if xes or what != "attribute":
                        lib.check(id(element) in made, "a %s was not built with the %s factory (%s)" % (
                            what, "given" if builder is given else "default", step))
                lib.check(made or not logs, "nothing was built")
                labels.add("checked")
                for other in recorders + [given]:
                    if other is not None and other is not builder:
                        lib.check(not other.made, "another factory was used")
    finally:
        registry.set_current_default(initial)
    return sorted(labels)


def check_extension_parser(case):
    registry = XFactoryRegistry()
    initial = registry.current_default()
    path = Scratch.file("x.xesext")
    with open(path, "wb") as out:
        out.write(c20.render(case["definition"]))
    try:
        for number in case["defaults"]:
            recorder = Recorder()
            registry.set_current_default(recorder)
            extension = XExtensionParser().parse(path)
            made = {id(element) for element in recorder.made}
            for attribute in extension.get_defined_attributes():
                lib.check(id(attribute) in made, "attribute %r was not built with the default factory" % attribute.get_key())
    finally:
        registry.set_current_default(initial)
    return []


# ---- factories -----------------------------------------------------------------------------
@st.composite
def element_cases(draw):
    return {"attrs": draw(st.one_of(st.none(), gen.maps(depth=1), gen.maps(depth=1))), "id": draw(st.one_of(st.none(), gen.UUIDS)),
            "own": draw(gen.attributes(depth=0)), "ext": draw(st.one_of(st.none(), st.sampled_from(gen.PREFIXES))),
            "instance": draw(st.booleans()), "list": draw(st.sampled_from(gen.COLLECTIONS))}


def check_elements(case):
    factory = XFactory() if case["instance"] else XFactory
    for name, kind in (("create_log", "XLog"), ("create_trace", "XTrace"), ("create_event", "XEvent")):
        create = getattr(factory, name)
        if case["attrs"] is None:
            element, empty = create(), create(None)
            lib.check(element.get_attributes() is not empty.get_attributes(), "two elements share a map")
            lib.equal([type(element).__name__, len(element.get_attributes()), len(empty.get_attributes())], [kind, 0, 0], "element without attributes")
            lib.equal(type(element.get_attributes()), XAttributeMap, "map of an element")
        else:
            attrs = factory.create_attribute_map()
            lib.equal([type(attrs), len(attrs)], [XAttributeMap, 0], "new map")
            holder = factory.create_event()
            lib.put(holder, case["attrs"])
            attrs.update(holder.get_attributes())
            element = create(attrs)
            lib.equal(type(element).__name__, kind, "class of the element")
            lib.same(lib.expected_map(case["attrs"]), lib.dump_map(element), "attributes of a new %s" % kind)
            for key, attribute in attrs.items():
                lib.check(element.get_attributes()[key] is attribute, "attribute %r is another one" % key)
        if kind != "XEvent":
            lib.equal(len(element), 0, "length of a new %s" % kind)
        if kind == "XLog":
            lib.equal([len(element.get_extensions()), len(element.get_classifiers()), len(element.get_global_trace_attributes()),
                       len(element.get_global_event_attributes())], [0, 0, 0, 0], "parts of a new log")
        if kind == "XEvent" and case["id"]:
            identity = XID.parse(case["id"])
            events = [create(identity=identity), create(None, identity)]
            if case["attrs"] is not None:
                events.append(create(attrs, identity))
                lib.same(lib.expected_map(case["attrs"]), lib.dump_map(events[-1]), "attributes of an event with identity")
            for event in events:
                lib.equal(str(event.get_id()), case["id"].upper(), "identity of a new event")
    ext = lib.extension(case["ext"])
    own = case["own"]
    attribute = lib.make_attribute(dict(own, e=case["ext"]), factory)
    lib.check(type(attribute) is lib.CLASS_OF[own["t"]], "class of the attribute")
    lib.equal(attribute.get_key(), own["k"], "key")
    lib.check(attribute.get_extension() is ext, "extension of the attribute")
    lib.equal(len(attribute.get_attributes()), 0, "children of a new attribute")
    value = lib.make_value(own["t"], own["v"])
    got = attribute.get_value()
    lib.check(type(got) is type(value), "type of the value %r" % (got,))
    lib.same(lib.dump_value(own["t"], value), lib.dump_value(own["t"], got), "value")
    again = {"string": factory.create_attribute_literal, "date": factory.create_attribute_timestamp,
             "int": factory.create_attribute_discrete, "float": factory.create_attribute_continuous,
             "boolean": factory.create_attribute_boolean, "id": factory.create_attribute_id}[own["t"]](own["k"], value)
    lib.check(again.get_extension() is None, "extension of an attribute without")
    lib.same(lib.dump_value(own["t"], value), lib.dump_value(own["t"], again.get_value()), "value")
    if own["t"] == "date":
        # timestamps can also be given in milliseconds
        back = factory.create_attribute_timestamp(own["k"], 1000 * 86400 * 365, ext)
        lib.equal(str(back), "1971-01-01T00:00:00.000Z", "timestamp from milliseconds")
    create = factory.create_attribute_list if case["list"] == "list" else factory.create_attribute_container
    for collection, wanted in ((create(own["k"], ext), ext), (create(own["k"]), None)):
        lib.check(type(collection) is lib.CLASS_OF[case["list"]], "class of the collection")
        lib.equal([collection.get_key(), len(collection.get_collection()), len(collection.get_attributes())], [own["k"], 0, 0], "new collection")
        lib.check(collection.get_extension() is wanted, "extension of the collection")
    return ["attributes" if case["attrs"] else "no attributes"]


SUBS = [
    Sub("registries", registry_cases, check_history, lambda c: len(c["ops"]) > 1,
        "random histories on plain, derived and system registries; non-trivial: at least two operations", 3000),
    Sub("parsers", parser_cases, check_parser, lambda c: c["given"] or any(s.startswith("default") for s in c["steps"]),
        "documents read by parsers with and without own factory while the default factory changes; non-trivial: a factory "
        "is given or made default", 900),
    Sub("extension parser", lambda: st.fixed_dictionaries({"definition": c20.definitions(), "defaults": st.lists(st.integers(0, 1), min_size=1, max_size=3)}),
        check_extension_parser, lambda c: any(a for _, a in c["definition"]["sections"]),
        "extension definitions read while the default factory changes; non-trivial: some attribute is declared", 400),
    Sub("elements", element_cases, check_elements, lambda c: bool(c["attrs"]),
        "elements and attributes created from random parts; non-trivial: some attributes are given", 3000),
]
ASSUMPTIONS = ["supplied empty maps may be replaced by new ones",
               "attributes of MXML logs may be copies of prototypes, only those of XES must come from the factory"]
