"""C37: effort grows in proportion to what there is to do."""
import io

from hypothesis import strategies as st

import docs
import files
import gen
import lib
import schedule
from checks import c14
from harness import Sub
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
from opyenxes.classification.XEventClasses import XEventClasses
from opyenxes.extension.std.XConceptExtension import XConceptExtension
from opyenxes.extension.std.XCostExtension import XCostExtension
from opyenxes.factory.XFactory import XFactory
from opyenxes.info.XLogInfo import XLogInfo

# Lines of the library that are run are counted, so that the outcome depends on the input only.
SLACK = 1.25        # twice the growth, and a logarithm for what is sorted
DEEP = 6            # nesting: the text of a list and prototypes hold all below, so effort may grow with the square of the depth


# ---- growing logs ---------------------------------------------------------------------------------
def attribute(kind, key, children=(), number=0):
    value = {"string": "v%d" % number, "date": [2010, 1 + number % 12, 12, 13, 14, number % 60, 160000, 60], "int": str(number),
             "float": "1.5", "boolean": number % 2 == 0, "id": "00000000-0000-0000-0000-%012d" % number}
    out = {"t": kind, "k": key, "a": list(children)}
    if kind not in gen.COLLECTIONS:
        out["v"] = value[kind]
    return out


def deep(kinds, depth):
    inner = []
    for level in range(depth):
        inner = [attribute(kinds[level % len(kinds)], "k%d" % level, inner, level)]
    return inner


def grow(case, size):
    """The log of the case in that size."""
    how, unit = case["how"], case["unit"]
    kinds = case["kinds"]
    log = {"attrs": [], "ext": [], "gt": [], "ge": [], "cl": [], "traces": [dict(unit)]}
    many = [attribute(kinds[n % len(kinds)], case["prefix"] + "k%d" % n, (), n) for n in range(size)]
    if how == "traces":
        log["traces"] = [unit] * size
    elif how == "events":
        log["traces"] = [dict(unit, events=(unit["events"] or [{"attrs": []}]) * size)]
    elif how == "names":
        log["traces"] = [dict(unit, events=[{"attrs": [attribute("string", "concept:name", (), number * 7919 % 1000)]} for number in range(size)])]
    elif how == "times":
        log["traces"] = [{"attrs": [], "events": [{"attrs": [{"t": "date", "k": "time:timestamp", "a": [],
                                                              "v": [2010, 1, 1 + n // 1440, n // 60 % 24, n % 60, 0, 0, 0]}]} for n in range(size)]}]
    elif how == "event attributes":
        log["traces"] = [dict(unit, events=unit["events"] + [{"attrs": many}])]
    elif how == "log attributes":
        log["attrs"] = many
    elif how == "children":
        log["traces"] = [dict(unit, events=unit["events"] + [{"attrs": [attribute(case["parent"], "parent", many)]}])]
    elif how == "globals":
        log["gt"], log["ge"] = many, many
    elif how == "classifiers":
        log["cl"] = [["c%d" % n, ["k%d" % n, "a b"]] for n in range(size)] + [["many", ["k%d" % n for n in range(size)]]]
    elif how == "depth":
        log["attrs"] = deep(kinds, size)
        log["traces"] = [dict(unit, events=unit["events"] + [{"attrs": deep(kinds, size)}])]
    elif how == "text":
        log["attrs"] = [{"t": "string", "k": "k" * size * 10, "v": "some text & more " * size, "a": []}]
    return log


HOW = ["traces", "events", "names", "times", "event attributes", "log attributes", "children", "globals", "classifiers", "depth", "depth", "text"]


def limited(spec):
    """Attributes of a sort that MXML can hold are left as they are; names are texts."""
    return [dict(a, t="string", v="text") if a["k"].split(":")[0] in gen.PREFIXES and a["k"] != "time:timestamp" else a
            for a in c14.proper_times(spec)]


@st.composite
def growing(draw):
    unit = draw(gen.traces(depth=1, naive=False, max_events=2))
    unit = {"attrs": limited(unit["attrs"]), "events": [{"attrs": limited(e["attrs"])} for e in unit["events"]]}
    return {"how": draw(st.sampled_from(HOW)), "unit": unit, "parent": draw(st.sampled_from(["string", "int", "list", "container"])),
            "kinds": draw(st.one_of(st.just(["string"]), st.lists(st.sampled_from(gen.TYPES + gen.COLLECTIONS), min_size=1, max_size=4))),
            "prefix": draw(st.sampled_from(["", "", "cost:", "un:known:"])), "salt": draw(st.integers(0, 999)) * 10,
            "tasks": draw(st.lists(st.sampled_from(sorted(TASKS)), min_size=2, max_size=4, unique=True))}


# ---- tasks ----------------------------------------------------------------------------------------
def in_time_order(log):
    for trace in log:
        new = XFactory.create_trace()
        for event in trace:
            new.insert_ordered(event)


def accessed(log):
    for trace in log:
        for event in trace:
            XConceptExtension().assign_name(event, "n")
            XConceptExtension().extract_name(event)
            XCostExtension().extract_nested_amounts(event)


def classes(log):
    found = XEventClasses.derive_event_classes(XEventAttributeClassifier("c", ["concept:name", "a"]), log)
    for trace in log:
        for event in trace:
            found.get_class_of(event)


def texts(log):
    for element in [log] + list(log) + [e for t in log for e in t]:
        for found in element.get_attributes().values():
            str(found)


def written(form, log):
    out = io.StringIO()
    files.PLAIN[form][0]().serialize(log, out)
    return out.getvalue()


TASKS = {
    "write xes": lambda spec, log: lambda: written("xes", log),
    "write mxml": lambda spec, log: lambda: written("mxml", log),
    "read xes": lambda spec, log: reader("xes", docs.render(dict(spec, features={}, enc="utf-8"))),
    "read mxml": lambda spec, log: reader("mxml", written("mxml", log).encode("utf-8")),
    "clone": lambda spec, log: log.clone,
    "summarise": lambda spec, log: lambda: XLogInfo.create(log),
    "classes": lambda spec, log: lambda: classes(log),
    "insert": lambda spec, log: lambda: in_time_order(log),
    "access": lambda spec, log: lambda: accessed(log),
    "texts": lambda spec, log: lambda: texts(log),
}


def reader(form, data):
    return lambda: files.PLAIN[form][1]().parse(io.BytesIO(data))


def effort(function):
    """How many lines of the library it runs."""
    count = [0]

    def at_line(frame):
        count[0] += 1
    schedule.traced(function, at_line)
    return count[0]


def plain(spec):
    """The document's extension declarations are of no interest here."""
    return dict(spec, ext=[], salt=spec.get("salt", 0), rep=1)


def judge(what, how, sizes, efforts):
    small, middle, large = efforts
    if how == "depth":
        if middle > DEEP * small + 500 or large > DEEP * middle + 500:
            raise AssertionError("%s: %r lines for depths %r" % (what, efforts, sizes))
    elif large - middle > SLACK * 2 * max(0, middle - small) + 300:
        raise AssertionError("%s: %r lines for %r %s" % (what, efforts, sizes, how))


def check_growth(case):
    sizes = [8, 16, 32] if case["how"] == "depth" else [75, 150, 300]
    efforts = {task: [] for task in case["tasks"]}
    for size in sizes:
        spec = plain(dict(grow(case, size), salt=case["salt"]))
        for task in case["tasks"]:
            run = TASKS[task](spec, lib.make_log(spec))
            if size == sizes[0]:
                run()       # whatever is done the first time only
            efforts[task].append(effort(run))
    for task in case["tasks"]:
        judge(task, case["how"], sizes, efforts[task])
    return [case["how"]] + case["tasks"]


# ---- growing history ------------------------------------------------------------------------------
def vary(spec, number):
    """The same with other texts."""
    if isinstance(spec, list):
        return [vary(part, number) for part in spec]
    if isinstance(spec, dict):
        out = {name: vary(part, number) for name, part in spec.items()}
        if spec.get("t") == "string" and "v" in spec or "n" in spec and "v" in spec:
            out["v"] = "%s %d" % (spec["v"], number)
        elif "originator" in spec:
            out.update(originator="%s %d" % (spec["originator"], number), name="%s %d" % (spec["name"], number))
        elif "entries" in spec:
            out["id"] = "instance %d" % number
        elif "al" in spec:
            out["k"] = "%s%d" % (spec["k"], number)
        elif "sections" in spec:
            out["uri"] = "%s%d" % (spec["uri"], number)
        return out
    return spec


@st.composite
def histories(draw):
    return dict(draw(growing()), size=draw(st.sampled_from([1, 2, 5])), times=draw(st.sampled_from([8, 20])))


def check_history(case):
    """The twentieth time takes what the second time took, with other contents each time."""
    for task in case["tasks"]:
        efforts = []
        for number in range(case["times"]):
            spec = plain(dict(vary(grow(case, case["size"]), 1000 + number), salt=case["salt"]))
            efforts.append(effort(TASKS[task](spec, lib.make_log(spec))))
        if efforts[-1] > efforts[1] * 1.05 + 20:
            raise AssertionError("%s: %r lines at the second time, %r at the %dth" % (task, efforts[1], efforts[-1], case["times"]))
    return case["tasks"]


SUBS = [
    Sub("sizes", growing, check_growth, lambda c: True,
        "reading, writing, cloning, summarising, classifying, inserting in time order, accessing and printing logs of three sizes: more traces, "
        "events, names, times, attributes, children, globals, classifiers, longer texts, deeper nesting; all non-trivial", 500),
    Sub("histories", histories, check_history, lambda c: True,
        "the same task with other contents again and again; all non-trivial", 250),
]
ASSUMPTIONS = ["effort is the number of lines of the library that are run; what one line does (in C code) is not counted",
               "nesting may take effort that grows with the square of the depth (texts of lists, prototypes)",
               "inserting is counted for events that come in time order"]
