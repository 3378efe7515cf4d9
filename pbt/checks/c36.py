"""C36: logs can be processed in several threads, and in the middle of one another."""
import gzip
import json
import sys

from hypothesis import strategies as st

import docs
import files
import gen
import lib
import mxdocs
from checks import c12, c14, c20, c23
from harness import Scratch, Sub
from schedule import Schedule, beside, lines_of
from opyenxes.classification.XEventClasses import XEventClasses
from opyenxes.data_in.XUniversalParser import XUniversalParser
from opyenxes.extension.XExtensionManager import XExtensionManager
from opyenxes.extension.XExtensionParser import XExtensionParser
from opyenxes.extension.std.XConceptExtension import XConceptExtension
from opyenxes.extension.std.XCostExtension import XCostExtension
from opyenxes.extension.std.XExtendedEvent import XExtendedEvent
from opyenxes.extension.std.XLifecycleExtension import XLifecycleExtension
from opyenxes.extension.std.XOrganizationalExtension import XOrganizationalExtension
from opyenxes.extension.std.XSemanticExtension import XSemanticExtension
from opyenxes.extension.std.XTimeExtension import XTimeExtension
from opyenxes.factory.XFactory import XFactory
from opyenxes.id.XID import XID
from opyenxes.info.XAttributeInfo import XAttributeInfo
from opyenxes.info.XTimeBounds import XTimeBounds
from opyenxes.model.XAttributeID import XAttributeID
from opyenxes.utils.XAttributeUtils import XAttributeUtils
from opyenxes.utils.XsDateTimeConversion import parse_date_time
from opyenxes.utils.XTokenHelper import XTokenHelper


# ---- what is done with a log, alone or beside others ----------------------------------------------
def perform(task, tools):
    kind = task["do"]
    if kind == "read":
        logs = universal(task["source"]) if task["universal"] else c23.obtain(task["source"], tools)
        return [c23.dump(log) for log in logs]
    if kind == "extension":
        path = Scratch.file("some.xesext")
        with open(path, "wb") as out:
            out.write(c20.render(task["definition"]))
        extension = XExtensionParser().parse(path)
        return [extension.get_name(), extension.get_prefix(), extension.get_uri().geturl()] + [
            sorted([a.get_key(), type(a).__name__, a.get_extension() is extension]
                   for a in getattr(extension, "get_%s_attributes" % level)()) for level in c20.LEVELS]
    if kind == "insert":
        return insert(task)
    if kind == "convert":
        return convert(task)
    log = c23.obtain({"src": "made", "log": task["log"], "direct": False}, tools)[0]
    if kind == "write":
        return c23.result_of(c23.write, log, task["form"], tools)     # MXML cannot hold all of them
    if kind == "chain":
        for form in task["forms"]:
            log = chain(log, form, tools)
        return c23.dump(log)
    if kind == "clone":
        copy = log.clone()
        return [c23.dump(copy), c23.dump(log), any(a == b for t, u in zip(log, copy) for a, b in zip(t, u))]
    if kind == "summary":
        return c23.summary(log, task["how"], task["keys"])
    if kind == "classes":
        classifier = tools.classifier(task["classifier"])
        classes = XEventClasses.derive_event_classes(classifier, log)
        return [[c.get_id(), c.get_index(), c.size()] for c in classes.get_classes()] + [
            classifier.get_class_identity(event) for trace in log for event in trace]
    return access(log, task["words"])


def universal(source):
    form = source["src"]
    data = docs.render(source["doc"]) if form.startswith("xes") else mxdocs.render(source["doc"])
    path = Scratch.file(("l\u00f6g." if sys.getfilesystemencoding() == "utf-8" else "log.") + (form[:-5] + ".gz" if form.endswith("gzip") else form))
    with (gzip.open if form.endswith("gzip") else open)(path, "wb") as out:
        out.write(data)
    with open(path, "rb") as file:
        return XUniversalParser.parse(file)


class Tools(c23.Tools):
    """Parsers, serializers and classifiers."""
    def classifier(self, spec):
        name = json.dumps(spec)
        if not self.shared or name not in self.known:
            self.known[name] = c12.build(spec)[0]
        return self.known[name]


def convert(task):
    """Conversions between texts and values."""
    out = []
    for text in task["dates"]:
        value = parse_date_time(text)
        if value:
            attribute = XFactory.create_attribute_timestamp("k", value, None)
            out.append([str(value), str(attribute), attribute.get_value_millis()])
        else:
            out.append([str(value)])
    for words in task["tokens"]:
        text = XTokenHelper.format_token(words)
        out.append([text, XTokenHelper.extract_tokens(text)])
    for text in task["ids"]:
        identity = XID.parse(text)
        out.append([str(identity), str(identity.clone()), identity == XID.parse(text)])
    bounds = XTimeBounds()
    for text in task["dates"]:
        value = parse_date_time(text)
        if value:
            bounds.register(value)
    out.append([str(bounds.get_start_date()), str(bounds.get_end_date())])
    return out


def chain(log, form, tools):
    """The log after writing and reading; an MXML document without processes or with odd names is given up."""
    lines = c23.write(log, form, tools)
    plain = form.split(" ")[0]
    logs = files.read_text("\n".join(lines) if plain == "mxml" else joined(lines), plain, tools.get("parser " + plain))
    return logs[0]


def joined(lines):
    """The document again whose extension declarations were put last: they go after the log's tag."""
    moved = [line for line in lines if "<extension " in line]
    rest = [line for line in lines if "<extension " not in line]
    number = next(i for i, line in enumerate(rest) if line.startswith("<log"))
    if moved and rest[number].endswith("/>"):
        raise AssertionError("a log with extensions is written as an empty tag")
    return "\n".join(rest[:number + 1] + moved + rest[number + 1:])


def insert(task):
    trace = XFactory.create_trace()
    places = []
    for number, moment in enumerate(task["times"]):
        event = XFactory.create_event()
        XConceptExtension().assign_name(event, "event %d" % number)
        if moment is not None:
            XTimeExtension().assign_timestamp(event, moment * 1000)
        places.append(trace.insert_ordered(event))
    return [places, [XConceptExtension().extract_name(event) for event in trace]]


def access(log, words):
    """Assigns and extracts with all kinds of accessors."""
    out = []
    info = XAttributeInfo()
    for number, trace in enumerate(log):
        for event in trace:
            word = words[number % len(words)]
            event.get_attributes().clear()     # of other types than the accessors expect, maybe
            wrapped = XExtendedEvent.wrap(event)
            XConceptExtension().assign_name(event, word)
            wrapped.set_instance(word + "i")
            XOrganizationalExtension().assign_resource(event, word + "r")
            XLifecycleExtension().assign_transition(event, "complete")
            XSemanticExtension().assign_model_references(event, [word.replace(" ", "_")] * 2)
            XCostExtension().assign_nested_amounts(event, {(word, "a"): 1234.5625 + number, (word, "b", "c"): 3.5, (word,): 2.5})
            XCostExtension().assign_drivers(event, {word: "driver"})
            XTimeExtension().assign_timestamp(event, 10**9 * (number + 1))
            out.append([wrapped.get_name(), wrapped.get_instance(), wrapped.get_resourse(), wrapped.get_standard_transition(),
                        wrapped.get_model_references(), str(wrapped.get_time_stamp()),
                        sorted([list(k), v] for k, v in XCostExtension().extract_nested_amounts(event).items()),
                        sorted(map(list, XCostExtension().extract_drivers(event).items())),
                        sorted(e.get_prefix() for e in event.get_extensions())])
            for attribute in event.get_attributes().values():
                info.register(attribute)
    out.append([[key, info.get_frequency(key)] for key in info.get_attribute_keys()])
    out.append([[a.get_key(), XAttributeUtils.get_type_string(a), str(a), sorted(a.get_attributes())] for a in info.get_attributes()
                if not isinstance(a, XAttributeID)])       # prototypes, of which those of identifiers are random
    out.append([XExtensionManager().get_by_prefix(p).get_name() for p in ("concept", "time", "org", "cost")])
    return out


KINDS = ["read"] * 6 + ["write"] * 3 + ["chain", "clone", "summary", "classes", "classes", "access", "access", "extension", "insert", "convert"]


@st.composite
def tasks(draw, kinds=st.sampled_from(KINDS)):
    kind = draw(kinds)
    if kind == "read":
        source = draw(c23.sources().filter(lambda s: s["src"] != "made"))
        return {"do": kind, "source": dict(source, same=None), "universal": draw(st.integers(0, 3)) == 0}
    if kind == "extension":
        definition = draw(c20.definitions(uris=st.just("http://e/threads")))
        return {"do": kind, "definition": dict(definition, many=0, head="",
                                               sections=[[level, [dict(a, al=a["al"][:1] and [["EN", "alias"]]) for a in attrs]]
                                                         for level, attrs in definition["sections"]])}
    if kind == "insert":
        return {"do": kind, "times": draw(st.lists(st.one_of(st.none(), st.integers(0, 9), st.integers(0, 9)), min_size=2, max_size=10))}
    if kind == "convert":
        return {"do": kind, "dates": draw(st.lists(dates(), min_size=1, max_size=3)),
                "tokens": draw(st.lists(st.lists(gen.simple_words(), min_size=1, max_size=4), max_size=2)),
                "ids": draw(st.lists(st.uuids().map(str), max_size=2))}
    log = draw(gen.logs(depth=1, max_traces=2, naive=False))
    log = dict(log, rep=1, share=False)
    log["traces"] = [dict(t, events=[{"attrs": c14.proper_times(e["attrs"])} for e in t["events"]]) for t in log["traces"]]
    out = {"do": kind, "log": log}
    if kind == "write":
        out["form"] = draw(st.sampled_from(c23.FORMS))
    elif kind == "chain":
        out["forms"] = draw(st.lists(st.just("xes"), min_size=1, max_size=2))
    elif kind == "summary":
        out["how"] = draw(st.sampled_from(["create", "factory"]))
        out["keys"] = draw(st.one_of(st.none(), st.just(["concept:name", "a"])))
    elif kind == "classes":
        out["classifier"] = draw(st.one_of(st.sampled_from([["plain", "c", ["concept:name", "a", "org:resource"]], ["name"]]),
                                           c12.trees(("concept:name", "a", "org:resource"), depth=1)))
        log["traces"].append({"attrs": [], "events": draw(st.lists(
            st.fixed_dictionaries({k: gen.simple_words() for k in ("concept:name", "a", "org:resource")}).map(
                lambda words: {"attrs": [{"t": "string", "k": k, "v": v, "a": []} for k, v in words.items()]}),
            min_size=1, max_size=3))})
    elif kind == "access":
        out["words"] = draw(st.lists(gen.simple_words(), min_size=1, max_size=3))
    return out


@st.composite
def dates(draw):
    return "%04d-%02d-%02dT%02d:%02d:%02d%s%s" % (
        draw(st.integers(1900, 2100)), draw(st.integers(1, 13)), draw(st.integers(1, 28)), draw(st.integers(0, 23)),
        draw(st.integers(0, 59)), draw(st.integers(0, 59)), draw(st.sampled_from(["", ".5", ".123", ".000001"])),
        draw(st.sampled_from(["Z", "", "+01:00", "-02:30", "+14:00", "-00:45"])))


@st.composite
def few(draw):
    """Some tasks, often of one kind; the first one twice now and then."""
    kind = draw(st.one_of(st.none(), st.sampled_from(KINDS), st.sampled_from(KINDS)))
    found = draw(st.lists(tasks(st.just(kind)) if kind else tasks(), min_size=2, max_size=3))
    found = found[:1] + [alike(found[0], task, True)[1] for task in found[1:]]
    return found + found[:1] if draw(st.integers(0, 2)) == 0 else found


def settled(result):
    return json.loads(json.dumps(result))


def alone(task):
    return settled(perform(task, Tools(False)))


# ---- threads --------------------------------------------------------------------------------------
@st.composite
def thread_cases(draw):
    lengths = draw(st.sampled_from([4, 30, 30, 200, 1000]))
    turns = st.tuples(st.integers(1, lengths), st.integers(0, 3)).map(list)
    return {"tasks": draw(few()), "shared": draw(st.sampled_from([True, True, False])),
            "turns": draw(st.lists(turns, min_size=1, max_size=12)), "fine": draw(st.integers(0, 5)) == 0}


def warm():
    """Extensions are registered before threads start."""
    for prefix in gen.PREFIXES:
        lib.extension(prefix)


def check_threads(case):
    warm()
    expected = [alone(task) for task in case["tasks"]]
    tools = Tools(case["shared"])
    if case["shared"]:
        for form in c23.FORMS:
            tools.get("parser " + form)
            tools.get("serializer " + form)
    schedule = Schedule(case["turns"], case["fine"])
    outcome = schedule.run([lambda task=task: perform(task, tools) for task in case["tasks"]])
    for task, wanted, (how, got) in zip(case["tasks"], expected, outcome):
        if how == "error":
            raise got
        lib.same(wanted, settled(got), "%s beside others" % task["do"])
    return sorted({task["do"] for task in case["tasks"]}) + (["switched"] if schedule.switches else []) + \
        (["let go"] if schedule.free else []) + (["between instructions"] if case["fine"] else [])


# ---- one in another thread, at a certain line of another --------------------------------------------
def alike(first, second, same):
    """Two tasks, which use one classifier or serializer if they use any."""
    what = {"classes": "classifier", "write": "form"}.get(first["do"])
    return [first, dict(second, **{what: first[what]}) if same and what and first["do"] == second["do"] else second]


def line_cases(kind):
    return st.builds(lambda first, second, shared, turns: {"tasks": alike(first, second, shared), "shared": shared, "turns": turns},
                     tasks(st.just(kind)), st.one_of(tasks(st.just(kind)), tasks(st.just(kind)), tasks()),
                     st.sampled_from([True, True, False]), st.lists(st.integers(0, 999), min_size=1, max_size=8))


STEPS = 500000      # lines run in a case, at most about


def check_lines(case):
    warm()
    first, second = case["tasks"]
    wanted, wanted_beside = alone(first), alone(second)
    tools = Tools(case["shared"])
    lib.same(wanted, settled(perform(first, tools)), "%s with these tools" % first["do"])
    lines = lines_of(lambda: perform(first, tools))
    total = sum(often for _, often in lines)
    skip = 1 + total * len(lines) // STEPS      # of large tasks every second or third line only, and so on
    reached = set()
    for number, (place, often) in enumerate(lines):
        if (number + case["turns"][0]) % skip:
            continue
        turn = case["turns"][number % len(case["turns"])]
        mine, others = beside(lambda: perform(first, tools), place, turn * often // 1000 + 1, lambda: perform(second, tools))
        for what, expected, outcome in (("%s with %s at a line of it" % (first["do"], second["do"]), wanted, mine),
                                        ("%s at a line of %s" % (second["do"], first["do"]), wanted_beside, others)):
            if outcome is None:
                continue
            if outcome[0] == "error":
                raise outcome[1]
            lib.same(expected, settled(outcome[1]), what)
            reached.add(place)
    return ["%s in %s" % (second["do"], first["do"])] + (["more than 50 lines"] if len(reached) > 50 else [])


# ---- one in the middle of another -----------------------------------------------------------------
@st.composite
def nested_cases(draw):
    source = draw(c23.sources().filter(lambda s: s["src"] in ("xes", "mxml")))
    inner = st.tuples(st.integers(0, 12), tasks()).map(list)
    return {"source": source, "chunk": draw(st.sampled_from([1, 7, 20, 64, 200, 1000])), "shared": draw(st.sampled_from([True, True, False])),
            "inner": draw(st.lists(inner, min_size=1, max_size=3))}


def check_nested(case):
    warm()
    source = dict(case["source"], same=None)
    wanted = alone({"do": "read", "source": source, "universal": False})
    expected = [alone(task) for _, task in case["inner"]]
    tools = Tools(case["shared"])
    data = docs.render(source["doc"]) if source["src"] == "xes" else mxdocs.render(source["doc"])
    chunk = max(case["chunk"], len(data) // 400)
    results = []
    waiting = list(zip(case["inner"], expected))

    def between(read):
        # the tasks are done where they are due: in the middle, after some share of the document
        for entry in list(waiting):
            (place, task), result = entry
            if read * chunk >= place * len(data) // 12:
                waiting.remove(entry)
                results.append((task, result, settled(perform(task, tools))))
    stream = files.Slow(data, chunk, between)

    def read():
        logs = tools.get("parser " + source["src"]).parse(stream)
        return [c23.dump(log) for log in logs]
    got = read()
    lib.same(wanted, settled(got), "reading with other work in between")
    for task, result, found in results:
        lib.same(result, found, "%s while a document is read" % task["do"])
    return ["in the middle"] if results else []


SUBS = [
    Sub("threads", thread_cases, check_threads, lambda c: len(c["turns"]) > 1,
        "reading, writing, cloning, summarising, classifying, inserting, converting and accessing in two to four threads, which take turns between "
        "lines or instructions as a random schedule says; non-trivial: the schedule has several turns", 700),
    Sub("nested", nested_cases, check_nested, lambda c: True,
        "documents read from a stream that does other work with the same tools between its chunks; all non-trivial", 400),
]
for kind, number in (("read", 64), ("write", 64), ("chain", 12), ("clone", 16), ("summary", 16), ("classes", 24), ("access", 24),
                     ("extension", 24), ("insert", 12), ("convert", 24)):
    SUBS.append(Sub("lines " + kind, lambda kind=kind: line_cases(kind), check_lines, lambda c: True,
                    "one task (%s) is started, and another one, mostly of the same kind, is done in another thread when it is at a certain "
                    "line, for each line it runs, and a random one of the times it runs it; all non-trivial" % kind, number, shards=4 if number < 32 else 8))
ASSUMPTIONS = ["singletons exist before threads start (their first creation by several threads at once is not claimed)",
               "each thread has logs of its own; registrations (extensions, aliases, defaults) are not made meanwhile, but for equal ones"]
