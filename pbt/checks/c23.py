"""C23: logs, elements and successive operations do not share state."""
import gzip
import importlib
import io
import json
import os

from hypothesis import strategies as st

import docs
import files
import gen
import lib
import mxdocs
from checks import c14
from harness import Scratch, Sub
from isolate import Isolation
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
from opyenxes.factory.XFactory import XFactory
from opyenxes.info.XLogInfo import XLogInfo
from opyenxes.info.XLogInfoFactory import XLogInfoFactory
from opyenxes.model.XAttributable import XAttributable
from opyenxes.model.XElement import XElement
from opyenxes.model.XEvent import XEvent
from opyenxes.model.XLog import XLog
from opyenxes.model.XTrace import XTrace

FORMS = ["xes", "xes", "mxml", "mxml", "xes gzip", "mxml gzip"]


class Direct(XFactory):
    """Creates elements with their constructors."""
    create_log = staticmethod(lambda attributes=None: XLog(attributes))
    create_trace = staticmethod(lambda attributes=None: XTrace(attributes))
    create_event = staticmethod(lambda attributes=None, identity=None: XEvent(attributes, identity))


# ---- what is done with a log, alone or among others ---------------------------------------------
def obtain(source, tools):
    """The logs of a source."""
    if source["src"] == "made":
        return [lib.make_log(source["log"], factory=Direct if source["direct"] else XFactory)]
    form = source["src"]
    data = docs.render(source["doc"]) if form.startswith("xes") else mxdocs.render(source["doc"])
    parser = tools.get("parser " + form)
    if form.endswith("gzip"):
        path = place("log.%s.gz" % form[:-5], source["same"])
        with gzip.open(path, "wb") as out:
            out.write(data)
    elif source["same"] is None:
        return parser.parse(io.BytesIO(data))
    else:
        path = place("log." + form, source["same"])
        if data[:2] not in (b"\xff\xfe", b"\xfe\xff"):
            data += b"\n" * (-len(data) % 8192)      # other contents of the same length
        with open(path, "wb") as out:
            out.write(data)
    if source["same"]:
        os.utime(path, (10**9, 10**9))
    with open(path, "rb") as file:
        return parser.parse(file)


def place(name, same):
    """A new path, or that of all files with this name."""
    return os.path.join(Scratch.path, name) if same else Scratch.file(name)


class Tools:
    """Parser and serializer objects: shared ones or new ones every time."""
    def __init__(self, shared):
        self.shared = shared
        self.known = {}

    def get(self, name):
        kind, form = name.split(" ", 1)
        pair = files.ZIPPED[form[:-5]] if form.endswith("gzip") else files.PLAIN[form]
        make = pair[0] if kind == "serializer" else pair[1]
        if not self.shared:
            return make()
        if name not in self.known:
            self.known[name] = make()
        return self.known[name]


def write(log, form, tools):
    serializer = tools.get("serializer " + form)
    if form.endswith("gzip"):
        path = Scratch.file("out.%s.gz" % form[:-5])
        with open(path, "w") as out:
            serializer.serialize(log, out)
        with gzip.open(path) as file:
            text = file.read().decode("utf-8")
    else:
        out = io.StringIO()
        serializer.serialize(log, out)
        text = out.getvalue()
    lines = text.split("\n")
    return [line for line in lines if "<extension " not in line] + sorted(line for line in lines if "<extension " in line)


def summary(log, how, keys):
    classifier = XEventAttributeClassifier("c", keys) if keys else None
    if how == "factory":
        info = XLogInfoFactory.create_log_info(log.clone(), classifier)
    else:
        info = XLogInfo.create(log, classifier)
    out = {"counts": [info.get_number_of_traces(), info.get_number_of_event()],
           "times": [str(info.get_log_time_boundaries().get_start_date()), str(info.get_log_time_boundaries().get_end_date())]}
    for name, classes in (("default", info.get_event_classes()), ("name", info.get_name_classes()),
                          ("resource", info.get_resource_classes()), ("transition", info.get_transition_classes())):
        out[name] = [[classes.get_by_index(i).get_id(), classes.get_by_index(i).size()] for i in range(len(classes))]
    for name, found in (("log", info.get_log_attribute_info()), ("trace", info.get_trace_attribute_info()),
                        ("event", info.get_event_attribute_info()), ("meta", info.get_meta_attribute_info())):
        out[name + " attributes"] = sorted([key, found.get_frequency(key), repr(found.get_relative_frequency(key))]
                                           for key in found.get_attribute_keys())
    return out


def result_of(function, *args):
    try:
        return function(*args)
    except Exception as error:
        return {"error": type(error).__name__}


def dump(log):
    out = lib.dump_log(log)
    out["features"] = dict(log.get_features())
    return out


def elements(log):
    found = [log]
    for trace in log:
        found.append(trace)
        found.extend(trace)
    return found


NEW = {"string": "changed", "date": [2020, 2, 2, 2, 2, 2, 0, 0], "int": "77", "float": "7.5", "boolean": True,
       "id": "12345678-1234-1234-1234-123456789abc"}


def nested(element):
    """All attributes below an element."""
    return lib.walk(element.get_attributes().values())


def change(log, kind, where, number, spec):
    """Changes the log; returns the element whose attributes were changed, or None."""
    found = elements(log)
    element = found[where % len(found) if where < 16 else 0]
    attributes = nested(element)
    if kind == "put":
        lib.put(element, [spec])
        return element
    if kind == "value":
        attributes = [a for a in attributes if lib.TAG_OF[type(a)] in gen.TYPES]
        if attributes:
            attribute = attributes[number % len(attributes)]
            tag = lib.TAG_OF[type(attribute)]
            attribute.set_value(lib.make_value(tag, NEW[tag]))
        return element
    if kind == "values":
        for attribute in attributes:
            tag = lib.TAG_OF[type(attribute)]
            if tag in gen.TYPES:
                attribute.set_value(lib.make_value(tag, NEW[tag]))
        return element
    if kind == "nested":
        if attributes:
            attribute = attributes[number % len(attributes)]
            if lib.TAG_OF[type(attribute)] in gen.COLLECTIONS:
                attribute.add_to_collection(lib.make_attribute(spec))
            else:
                lib.put(attribute, [spec])
        return element
    if kind == "clear":
        element.get_attributes().clear()
        return element
    if kind == "remove":
        keys = list(element.get_attributes())
        if keys:
            del element.get_attributes()[keys[number % len(keys)]]
        return element
    if kind == "event":
        if len(log):
            log[where % len(log)].append(lib.make_event({"attrs": [spec]}))
    elif kind == "drop":
        if len(log) and len(log[where % len(log)]):
            log[where % len(log)].pop()
    elif kind == "trace":
        log.append(lib.make_trace({"attrs": [spec], "events": []}))
    elif kind == "feature":
        log.set_features("xes.more", "more")
    elif kind == "classifier":
        log.get_classifiers().append(XEventAttributeClassifier("more", ["more"]))
    elif kind == "rename":
        if log.get_classifiers():
            log.get_classifiers()[number % len(log.get_classifiers())].set_name("renamed")
    elif kind == "keys":
        if log.get_classifiers():
            keys = log.get_classifiers()[number % len(log.get_classifiers())].get_defining_attribute_keys()
            if isinstance(keys, list):
                keys.append("more")
    elif kind == "global":
        log.get_global_event_attributes().append(lib.make_attribute(spec))
        log.get_global_trace_attributes().append(lib.make_attribute(spec))
    elif kind == "extension":
        log.get_extensions().add(lib.extension("my"))
    return None


def alone(task):
    """Body of an isolated process: one log, brought into its state, and one result."""
    lib.extension("x")
    Scratch.counter = os.getpid() * 1000000    # the shard uses the same folder
    tools = Tools(False)
    logs = result_of(obtain, task["source"], tools)
    if isinstance(logs, dict):
        return logs
    if task["final"][0] == "obtain":
        return [dump(log) for log in logs]
    log = logs[task["number"]]
    for step in task["steps"]:
        if step[0] == "clone":
            log = log.clone()
        else:
            change(log, *step[1:])
    return finish(log, task["final"], tools)


def finish(log, final, tools):
    if final[0] == "write":
        return result_of(write, log, final[1], tools)
    if final[0] == "summary":
        return result_of(summary, log, final[1], final[2])
    return dump(log)


# ---- histories -----------------------------------------------------------------------------------
@st.composite
def sources(draw):
    kind = draw(st.sampled_from(["made", "xes", "mxml", "mxml", "xes gzip", "mxml gzip"]))
    if kind == "made":
        log = draw(gen.logs(depth=1, max_traces=2, naive=False))
        log["traces"] = [dict(t, events=[{"attrs": c14.proper_times(e["attrs"])} for e in t["events"]]) for t in log["traces"]]
        if draw(st.booleans()):
            log["traces"] = [{"attrs": [], "events": [{"attrs": []}, {"attrs": []}]}, {"attrs": [], "events": [{"attrs": []}]}]
        return {"src": "made", "log": dict(log, rep=1, share=False), "direct": draw(st.booleans())}
    same = draw(st.sampled_from([None, False, True, True]))
    if kind.startswith("xes"):
        return {"src": kind, "same": same, "doc": draw(docs.documents(depth=1, max_traces=2))}
    doc = draw(mxdocs.documents())
    if draw(st.booleans()):
        doc["source"] = doc["source"] or {"program": "program", "ref": None, "data": [{"n": "n", "v": "v", "ref": None}]}
        doc["processes"] = (doc["processes"] * 2)[:max(2, len(doc["processes"]))]
    return {"src": kind, "same": same, "doc": doc}


@st.composite
def histories(draw):
    numbers = st.integers(0, 20)
    found = draw(st.lists(sources(), min_size=1, max_size=3))
    changes = st.tuples(st.just("change"), numbers, st.sampled_from(
        ["put", "put", "value", "value", "values", "values", "nested", "clear", "remove", "event", "drop", "trace", "feature", "classifier", "rename", "keys", "keys", "global", "extension"]),
        numbers, numbers, gen.attributes(depth=0).filter(lambda a: a["k"] != "time:timestamp")).map(list)
    op = st.one_of(st.tuples(st.just("obtain"), numbers).map(list), st.tuples(st.just("obtain"), numbers).map(list),
                   st.tuples(st.just("write"), numbers, st.sampled_from(FORMS)).map(list),
                   st.tuples(st.just("write"), numbers, st.sampled_from(FORMS)).map(list),
                   st.tuples(st.just("clone"), numbers).map(list),
                   st.tuples(st.just("summary"), numbers, st.sampled_from(["create", "factory"]),
                             st.one_of(st.none(), st.lists(st.sampled_from(["concept:name", "a", "org:resource"]), min_size=1, max_size=2))).map(list),
                   changes, changes, changes)
    last = [["change", number, "values", draw(numbers), 0, {"t": "string", "k": "k", "v": "v", "a": []}] for number in range(draw(st.integers(0, 3)))]
    return {"sources": found, "shared": draw(st.booleans()),
            "ops": [["obtain", 0]] + draw(st.lists(op, min_size=2, max_size=8)) + last + [["obtain", 0]]}


class Live:
    """A log of the history, and how it came about."""
    def __init__(self, log, source, number, steps):
        self.log, self.source, self.number, self.steps = log, source, number, steps
        self.copied = False     # it is, or has, a copy made by clone


def maps_of(lives):
    """The attributes of every element of the logs, and the rest of the logs."""
    out = {}
    for live in lives:
        for element in elements(live.log):
            out[id(element)] = lib.snap_map(element)
    return out


def check_history(case):
    Isolation.start(alone)
    lib.extension("x")
    tools = Tools(case["shared"])
    lives = []
    labels = set()

    def compare(live, final, got, what):
        wanted = Isolation.run({"source": live.source, "number": live.number, "steps": live.steps, "final": final})
        lib.same(wanted, json.loads(json.dumps(got)), "%s among others" % what)
    for op in case["ops"]:
        before = [lib.snap_log(live.log) for live in lives]
        changed = None
        if op[0] == "obtain":
            source = case["sources"][op[1] % len(case["sources"])]
            logs = result_of(obtain, source, tools)
            got = logs if isinstance(logs, dict) else [dump(log) for log in logs]
            compare(Live(None, source, 0, []), ["obtain"], got, "reading" if source["src"] != "made" else "creating")
            if not isinstance(logs, dict):
                lives.extend(Live(log, source, number, []) for number, log in enumerate(logs))
            labels.add("%s source" % source["src"])
        elif not lives:
            continue
        else:
            live = lives[op[1] % len(lives)]
            if op[0] == "clone":
                lives.append(Live(live.log.clone(), live.source, live.number, live.steps + [["clone"]]))
                live.copied = lives[-1].copied = True
            elif op[0] == "change" and op[2] in ("rename", "keys") and live.copied:
                continue
            elif op[0] == "change":
                maps = maps_of(lives)
                changed = live
                element = change(live.log, *op[2:])
                live.steps = live.steps + [op[:1] + op[2:]]
                for other in (o for l in lives for o in elements(l.log)):
                    if other is not element and id(other) in maps:
                        lib.same(maps[id(other)], lib.snap_map(other), "another element after a change")
            else:
                final = [op[0]] + op[2:]
                compare(live, final, finish(live.log, final, tools), "writing" if op[0] == "write" else "summarising")
        labels.add(op[0])
        for live, snap in zip(lives, before):
            if live is not changed:
                lib.same(snap, lib.snap_log(live.log), "another log after %s" % op[0])
    for live in lives[-6:]:
        compare(live, ["dump"], dump(live.log), "the final state")
    return sorted(labels) + (["shared objects"] if case["shared"] else [])


# ---- elements created without attributes ---------------------------------------------------------
@st.composite
def creations(draw):
    return {"kinds": draw(st.lists(st.sampled_from(["log", "trace", "event", "attribute", "list", "container", "element", "attributable", "date",
                                                   "int", "float", "boolean", "id"]), min_size=2, max_size=6)),
            "how": draw(st.sampled_from(["factory", "instance", "constructor", "none", "empty"])),
            "changes": draw(st.lists(st.tuples(st.integers(0, 5), gen.attributes(depth=1)).map(list), min_size=1, max_size=4))}


MAKERS = {"date": "timestamp", "int": "discrete", "float": "continuous", "boolean": "boolean", "id": "id"}


def create(kind, how):
    from opyenxes.model.XAttributeMap import XAttributeMap
    factory = {"factory": XFactory, "instance": XFactory(), "constructor": Direct}.get(how, XFactory)
    if kind in ("log", "trace", "event"):
        maker = getattr(factory, "create_" + kind)
        return maker() if how in ("factory", "instance", "constructor") else maker(None) if how == "none" else maker(XAttributeMap())
    if kind in ("element", "attributable"):
        maker = XElement if kind == "element" else XAttributable
        return maker() if how in ("factory", "instance", "constructor") else maker(None) if how == "none" else maker(XAttributeMap())
    if kind in NEW:
        maker = getattr(factory, "create_attribute_" + MAKERS[kind])
        return maker("key", lib.make_value(kind, NEW[kind]))
    if kind == "attribute":
        return factory.create_attribute_literal("key", "value")
    return factory.create_attribute_list("key") if kind == "list" else factory.create_attribute_container("key")


def check_creations(case):
    made = [create(kind, case["how"]) for kind in case["kinds"]]
    expected = [[] for _ in made]
    for number, spec in case["changes"]:
        number %= len(made)
        lib.put(made[number], [spec])
        expected[number] = [a for a in expected[number] if a["k"] != spec["k"]] + [spec]
        made.append(create(case["kinds"][number % len(case["kinds"])], case["how"]))
        expected.append([])
        for element, attrs in zip(made, expected):
            lib.same(sorted(map(repr, lib.expected_map(attrs))), sorted(map(repr, lib.dump_map(element))), "attributes of an element")
    maps = [element.get_attributes() for element in made]
    lib.equal(len({id(m) for m in maps}), len(maps), "number of attribute maps")
    for element, kind in zip(made, case["kinds"]):
        if kind in ("log", "trace"):
            lib.equal(len(element), 0, "length of a new %s" % kind)
    logs = [element for element in made if isinstance(element, XLog)]
    for which in (XLog.get_extensions, XLog.get_classifiers, XLog.get_global_trace_attributes, XLog.get_global_event_attributes, XLog.get_features):
        lib.equal(len({id(which(log)) for log in logs}), len(logs), "number of collections of logs")
    return ["by " + case["how"]]


# ---- singletons ----------------------------------------------------------------------------------
SINGLETONS = ["extension.XExtensionManager", "factory.XFactoryRegistry", "data_in.XParserRegistry", "data_out.XSerializerRegistry",
              "info.XGlobalAttributeNameMap"] + ["extension.std.X%sExtension" % n for n in (
                  "Concept", "Cost", "Identity", "Lifecycle", "Micro", "Organizational", "Semantic", "Time")]


def check_singletons(case):
    Isolation.start(alone)
    first = {}
    for number, how in case["requests"]:
        name = SINGLETONS[number % len(SINGLETONS)]
        cls = getattr(importlib.import_module("opyenxes." + name), name.split(".")[-1])
        if how == "read":
            files.read_text('<log xes.version="1.0"><trace><event><string key="concept:name" value="a"/></event></trace></log>')
            continue
        found = cls()
        lib.check(type(found) is cls, "%s() is a %s" % (name, type(found).__name__))
        lib.check(first.setdefault(name, found) is found, "%s() is another object" % name)
    return []


SUBS = [
    Sub("histories", histories, check_history, lambda c: len(c["sources"]) > 1 and len(c["ops"]) > 4,
        "random interleavings of making, reading, writing, cloning, summarising and changing several logs with shared or new parser "
        "and serializer objects; every result is compared with that of a process that did nothing else; non-trivial: several "
        "sources and at least five operations", 900),
    Sub("creations", creations, check_creations, lambda c: True,
        "elements created without attributes in all ways, changed in turn; all non-trivial", 1500),
    Sub("singletons", lambda: st.fixed_dictionaries({"requests": st.lists(st.tuples(
        st.integers(0, 12), st.sampled_from(["ask", "ask", "ask", "read"])).map(list), min_size=2, max_size=40)}),
        check_singletons, lambda c: True, "random requests for the documented singletons; all non-trivial", 300),
]
ASSUMPTIONS = ["copies made by clone share their extensions and classifiers; their classifiers are not changed",
               "summaries of changed logs are made anew, not taken from the cache of the log"]
