"""C33: the modules can be imported and used first in any order."""
import contextlib
import importlib
import io
import os
import sys

from hypothesis import strategies as st

import gen
import harness
import lib
import surroundings
from harness import Sub
from isolate import Isolation

SOURCES = os.path.join(os.path.realpath(harness.REPO), "src")


def all_modules():
    found = []
    for place, folders, names in os.walk(os.path.join(SOURCES, "opyenxes")):
        folders.sort()
        for name in sorted(names):
            if name.endswith(".py") and name not in ("cli.py", "__main__.py"):
                path = os.path.relpath(os.path.join(place, name), SOURCES)[:-3]
                found.append(path.replace(os.sep, ".").replace(".__init__", ""))
    return found


MODULES = all_modules()
SINGLETONS = ["extension.XExtensionManager", "info.XGlobalAttributeNameMap", "factory.XFactoryRegistry", "data_in.XParserRegistry", "data_out.XSerializerRegistry",
              "extension.std.XConceptExtension", "extension.std.XCostExtension", "extension.std.XIdentityExtension", "extension.std.XLifecycleExtension",
              "extension.std.XMicroExtension", "extension.std.XOrganizationalExtension", "extension.std.XSemanticExtension", "extension.std.XTimeExtension", "id.XIDFactory"]
USES = ["read xes", "write xes", "read mxml", "write mxml", "timer", "event", "logging", "summary", "nothing"]


@st.composite
def cases(draw):
    step = st.one_of(st.tuples(st.sampled_from(["import", "import", "import all of"]), st.sampled_from(MODULES)),
                     st.tuples(st.just("make"), st.sampled_from(SINGLETONS)), st.tuples(st.just("use"), st.sampled_from(USES))).map(list)
    steps = draw(gen.several(step, 12))
    if draw(st.integers(0, 4)) == 0:
        steps = steps[:2] + [["import", name] for name in draw(st.permutations(MODULES))]
    return {"steps": steps}


XES = """<log xes.version="1.0"><extension name="Concept" prefix="concept" uri="http://www.xes-standard.org/concept.xesext"/>
<global scope="event"><string key="concept:name" value="g"/></global><classifier name="c" keys="concept:name"/>
<trace><string key="concept:name" value="t"/><event><string key="concept:name" value="e"><int key="n" value="5"/></string><date key="time:timestamp" value="2001-02-03T04:05:06.007+01:00"/>
<float key="cost:total" value="1.5"/><boolean key="b" value="true"/><list key="l"><string key="a" value="b"/></list></event></trace></log>"""
MXML = """<WorkflowLog><Source program="s"/><Process id="p"><ProcessInstance id="i"><AuditTrailEntry><Data><Attribute name="a">1</Attribute></Data><WorkflowModelElement>w</WorkflowModelElement>
<EventType>start</EventType><Timestamp>2001-02-03T04:05:06.007+01:00</Timestamp><Originator>o</Originator></AuditTrailEntry></ProcessInstance></Process></WorkflowLog>"""


def get(name):
    module = importlib.import_module("opyenxes." + name)
    return getattr(module, name.split(".")[-1])


def element(thing):
    def attribute(a):
        extension = a.get_extension()
        return [type(a).__name__, a.get_key(), str(a), extension and extension.get_prefix(), [attribute(c) for c in a.get_attributes().values()]]
    return [attribute(a) for a in thing.get_attributes().values()]


def whole(logs):
    return [[element(log), [[element(trace), [element(event) for event in trace]] for trace in log], [c.name() for c in log.get_classifiers()],
             sorted(e.get_name() for e in log.get_extensions())] for log in logs]


def use(what):
    if what.startswith("read"):
        form = {"xes": "Xes", "mxml": "XMxml"}[what[5:]]
        return whole(get("data_in." + {"Xes": "XesXmlParser", "XMxml": "XMxmlParser"}[form])().parse(io.StringIO(XES if form == "Xes" else MXML)))
    if what.startswith("write"):
        log = get("factory.XFactory").create_log()
        log.append(get("factory.XFactory").create_trace())
        log[0].append(get("factory.XFactory").create_event())
        log[0][0].get_attributes()["concept:name"] = get("factory.XFactory").create_attribute_literal("concept:name", "x", None)
        out = io.StringIO()
        get("data_out." + {"xes": "XesXmlSerializer", "mxml": "XMxmlSerializer"}[what[6:]])().serialize(log, out)
        return out.getvalue()
    if what == "timer":
        return get("utils.XTimer").format_duration(61001)
    if what == "event":
        return element(get("model.XEvent")())
    if what == "logging":
        return get("log.XLogging")().log("x")
    if what == "summary":
        log = get("factory.XFactory").create_log()
        return get("info.XLogInfo").create(log).get_number_of_traces()


def report():
    """All that can be observed of a library that has just been loaded."""
    out = {"use " + what: use(what) for what in USES}
    manager, names = get("extension.XExtensionManager")(), get("info.XGlobalAttributeNameMap")()
    extensions = []
    index = 0
    while manager.get_by_index(index) is not None:
        extensions.append(manager.get_by_index(index))
        index += 1
    out["extensions"] = []
    keys = set()
    for extension in extensions:
        levels = [extension.get_log_attributes(), extension.get_trace_attributes(), extension.get_event_attributes(), extension.get_meta_attributes()]
        keys.update(a.get_key() for level in levels for a in level)
        out["extensions"].append([extension.get_name(), extension.get_prefix(), extension.get_uri().geturl(), type(extension).__name__,
                                  [sorted([type(a).__name__, a.get_key(), a.get_extension() is extension] for a in level) for level in levels],
                                  manager.get_by_uri(extension.get_uri()) is extension])
    out["names"] = {name: {key: names.get_mapping(name).map(key) for key in sorted(keys)} for name in sorted(names.get_available_mapping_names())}
    for name in ("factory.XFactoryRegistry", "data_in.XParserRegistry", "data_out.XSerializerRegistry"):
        registry = get(name)()
        out[name] = [type(registry.current_default()).__name__, sorted(type(x).__name__ for x in registry.get_available())]
    out["one of each"] = [get(name)() is get(name)() for name in SINGLETONS]
    out["standard ones"] = [manager.get_by_index(i) is get(name)() for i, name in enumerate(SINGLETONS[5:13])]
    return out


def session(steps):
    for name in list(sys.modules):
        if name.split(".")[0] == "opyenxes":
            del sys.modules[name]
    before = surroundings.state()
    failed, printed = [], ""
    surroundings.Watch.start()
    for op, name in steps:
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                if op == "import":
                    importlib.import_module(name)
                elif op == "import all of":
                    exec("from %s import *" % name, {})
                elif op == "make":
                    get(name)()
                else:
                    use(name)
        except Exception as problem:
            failed.append("%s %s: %r" % (op, name, problem))
        if op.startswith("import"):
            printed += out.getvalue()
    surroundings.Watch.stop()
    after = surroundings.state()
    with contextlib.redirect_stdout(io.StringIO()):
        found = report()
    return {"failed": failed, "printed": printed, "settings": [name for name in before if before[name] != after[name]],
            "files": [p for p in surroundings.Watch.writes if not p.endswith(".pyc") and "__pycache__" not in p and ".pyc." not in p] + surroundings.Watch.data_read(), "others": surroundings.Watch.others, "report": found}


class Reference:
    report = None


def check(case):
    Isolation.start(session)
    if Reference.report is None:
        Reference.report = Isolation.run([["import", name] for name in MODULES])["report"]
    found = Isolation.run(case["steps"])
    lib.equal(found["failed"], [], "imports and uses that fail")
    lib.equal(found["printed"], "", "printed by imports")
    lib.equal(found["settings"], [], "changed settings of the process")
    lib.equal(found["files"], [], "files used")
    lib.equal(found["others"], [], "other effects")
    lib.same(Reference.report, found["report"], "the library after these imports")
    return sorted({op if op != "make" else "make first" for op, _ in case["steps"][:1]})


SUBS = [
    Sub("orders", cases, check, lambda c: len(c["steps"]) > 1,
        "random imports and first uses, each in a process without the library; non-trivial: several of them", 600),
]
ASSUMPTIONS = ["program code may be read at any time; opyenxes.cli, which needs another package, is left out"]
