"""C07: MXML round trip."""
import re

from hypothesis import strategies as st

import files
import gen
import lib
import refmxml
from harness import Sub

KNOWN_TYPES = sorted(refmxml.TYPES)


def one_line(text):
    return re.sub(r"[\t\n\r]", "", text)


def clean_key(text):
    return one_line(text).strip()


def keys():
    return gen.keys().map(clean_key).filter(lambda k: k and k not in SPECIAL)


SPECIAL = {"concept:name", "lifecycle:transition", "org:resource", "org:role", "org:group", "time:timestamp",
           "semantic:modelReference"}


def filled():
    return gen.texts().map(one_line).filter(lambda t: t.strip())


def plain_texts():
    return gen.texts().map(lambda t: t.replace("\r", ""))


def ref(value):
    return {"t": "string", "k": "semantic:modelReference", "v": value, "a": []}


@st.composite
def attributes(draw, depth=2):
    key = draw(keys())
    kind = draw(st.sampled_from(gen.TYPES + (["list", "container"] if depth else [])))
    if kind in gen.COLLECTIONS:
        out = {"t": kind, "k": key, "a": []}
        for _ in range(draw(st.integers(0, 2))):
            out["a"].append(draw(attributes(depth=depth - 1)))
        return out
    value = draw(plain_texts()) if kind == "string" else draw(gen.values(kind))
    return {"t": kind, "k": key, "v": value, "a": draw(children(depth)) if draw(st.integers(0, 2)) == 0 else []}


@st.composite
def children(draw, depth, referenced=True):
    out = draw(st.lists(attributes(depth=depth - 1), max_size=2, unique_by=lambda a: a["k"])) if depth else []
    if referenced and draw(st.integers(0, 2)) == 0:
        out = out + [ref(draw(filled()))]
    return out


@st.composite
def element(draw, special):
    """Attributes of an element; flattened names do not clash."""
    out = [a for a in draw(special)]
    if draw(st.integers(0, 3)) == 0:
        out.append(ref(draw(filled())))
    for attr in draw(st.lists(attributes(), max_size=3)):
        if not clash(out + [attr]):
            out.append(attr)
    return draw(st.permutations(out)) if draw(st.booleans()) else out


def flat_names(attrs, prefix=""):
    for attr in attrs:
        if attr["k"] != "semantic:modelReference":
            yield prefix + attr["k"]
            if attr["t"] not in gen.COLLECTIONS:
                yield from flat_names(attr["a"], prefix + attr["k"] + ":")


def clash(attrs):
    names = list(flat_names(attrs))
    reserved = SPECIAL - {a["k"] for a in attrs}
    nested = [n for n in names if n in reserved]
    return len(set(names)) != len(names) or bool(nested)


@st.composite
def named(draw):
    if draw(st.integers(0, 3)):
        return [{"t": "string", "k": "concept:name", "v": draw(filled()), "a": draw(children(1, False))}]
    return []


@st.composite
def event_attributes(draw):
    out = []
    if draw(st.integers(0, 3)):
        out.append({"t": "string", "k": "concept:name", "v": draw(plain_texts()), "a": draw(children(1, False))})
    if draw(st.integers(0, 3)):
        value = draw(st.one_of(st.sampled_from(KNOWN_TYPES), st.sampled_from(["Complete", "START", " complete ", "Pi_Abort", "done", "x "]),
                               filled()))
        if value.strip().lower() != "unknown":
            out.append({"t": "string", "k": "lifecycle:transition", "v": value, "a": draw(children(1))})
    for key in draw(st.lists(st.sampled_from(["org:resource", "org:role", "org:group"]), max_size=3, unique=True)):
        out.append({"t": "string", "k": key, "v": draw(st.one_of(plain_texts(), st.sampled_from(["Pete", "Sue"]))),
                    "a": draw(children(1))})
    if draw(st.booleans()):
        out.append({"t": "date", "k": "time:timestamp", "v": draw(gen.datetimes()), "a": draw(children(1, False))})
    return out


@st.composite
def logs(draw):
    traces = []
    for _ in range(draw(st.sampled_from([0, 1, 1, 2]))):
        traces.append({"attrs": draw(element(named())),
                       "events": [{"attrs": draw(element(event_attributes()))}
                                  for _ in range(draw(st.sampled_from([0, 1, 1, 2, 3])))]})
    return {"attrs": draw(element(named())), "traces": traces,
            "rep": draw(st.sampled_from([1] * 20 + [9])), "share": draw(st.integers(0, 7)) == 0}


@st.composite
def cases(draw):
    return {"log": draw(logs()), "mode": draw(st.sampled_from(files.MODES))}


@st.composite
def one_event(draw):
    return {"log": {"attrs": [], "rep": 1, "traces": [{"attrs": [], "events": [{"attrs": draw(element(event_attributes()))}]}]},
            "mode": "memory"}


# ---- expectations ----------------------------------------------------------------
def text_of(attr):
    kind = attr["t"]
    if kind in gen.COLLECTIONS:
        return "[" + ",".join(c["k"] + ":" + text_of(c) for c in attr["a"]) + "]"
    value = attr["v"]
    if kind == "date":
        offset = value[7] or 0
        zone = "Z" if offset == 0 else "%s%02d:%02d" % ("-" if offset < 0 else "+", abs(offset) // 60, abs(offset) % 60)
        return "%04d-%02d-%02dT%02d:%02d:%02d" % tuple(value[:6]) + ".%03d" % (value[6] // 1000) + zone
    if kind == "boolean":
        return "true" if value else "false"
    if kind == "float":
        return value.replace("inf", "INF")
    if kind == "id":
        return value.upper()
    return value


def own_ref(attrs):
    for attr in attrs:
        if attr["k"] == "semantic:modelReference":
            return attr["v"]
    return None


def flat(attrs, prefix=""):
    """{name: [text, model reference]} of all attributes and nested ones."""
    out = {}
    for attr in attrs:
        if attr["k"] == "semantic:modelReference":
            continue
        nested = attr["a"] if attr["t"] not in gen.COLLECTIONS else []
        out[prefix + attr["k"]] = [text_of(attr).strip(), own_ref(nested)]
        out.update(flat(nested, prefix + attr["k"] + ":"))
    return out


def find(attrs, key):
    for attr in attrs:
        if attr["k"] == key:
            return attr
    return None


def transition_of(attrs):
    attr = find(attrs, "lifecycle:transition")
    if attr is None:
        return ["complete", None]
    value = attr["v"].strip().lower()
    return [value if value in refmxml.TYPES else attr["v"], own_ref(attr["a"])]


def originator_of(attrs):
    for key in ("org:resource", "org:role", "org:group"):
        attr = find(attrs, key)
        if attr is not None:
            return [attr["v"].strip(), own_ref(attr["a"])]
    return None


def stamp_of(attrs):
    attr = find(attrs, "time:timestamp")
    if attr is None:
        return None
    return attr["v"][:6] + [attr["v"][6] // 1000 * 1000, attr["v"][7] or 0]


def name_of(attrs):
    attr = find(attrs, "concept:name")
    return attr["v"] if attr else None


def expected_document(spec):
    instances = []
    for trace in lib.expand(spec):
        entries = [{"data": flat(e["attrs"]), "name": (name_of(e["attrs"]) or "").strip(), "ref": own_ref(e["attrs"]),
                    "type": transition_of(e["attrs"]), "originator": originator_of(e["attrs"]), "timestamp": stamp_of(e["attrs"])}
                   for e in trace["events"]]
        instances.append({"id": name_of(trace["attrs"]) or "None", "ref": own_ref(trace["attrs"]), "data": flat(trace["attrs"]),
                          "entries": entries})
    return {"id": name_of(spec["attrs"]) or "none", "ref": own_ref(spec["attrs"]), "data": flat(spec["attrs"]),
            "instances": instances}


def expected_read(spec):
    """[attributes of the log, [[attributes of the trace, [attributes of the events]]]], as {key: [text, ref]}"""
    document = expected_document(spec)

    def kept(data):
        return {k: v for k, v in data.items() if v[0]}

    def with_ref(out, reference):
        if reference:
            out["semantic:modelReference"] = [reference, None]
        return out
    attrs = {"source": ["XES MXML serialization", None], "concept:name": [document["id"], None],
             "lifecycle:model": ["standard", None], "description": ["process with id " + (name_of(spec["attrs"]) or "None"), None]}
    attrs.update(kept(document["data"]))
    out = [with_ref(attrs, document["ref"]), []]
    for instance in document["instances"]:
        if not instance["entries"]:
            continue
        inner = {"concept:name": [instance["id"], None], "description": ["instance with id " + instance["id"], None]}
        inner.update(kept(instance["data"]))
        events = []
        for entry in instance["entries"]:
            event = kept(entry["data"])
            if entry["name"]:
                event["concept:name"] = [entry["name"], None]
            event["lifecycle:transition"] = entry["type"]
            if entry["originator"] and entry["originator"][0]:
                event["org:resource"] = entry["originator"]
            event.pop("time:timestamp", None)
            if entry["timestamp"]:
                event["time:timestamp"] = [entry["timestamp"], None]
            events.append(with_ref(event, entry["ref"]))
        out[1].append([with_ref(inner, instance["ref"]), events])
    return out


def dump_element(element):
    out = {}
    for attr in lib.dump_map(element):
        refs = [a["v"] for a in attr["a"] if a["k"] == "semantic:modelReference"]
        lib.check(len(refs) == len(attr["a"]) and len(refs) <= 1, "attributes nested in %r: %r" % (attr["k"], attr["a"]))
        lib.equal(attr["t"], "date" if attr["k"] == "time:timestamp" else "string", "type of %r" % attr["k"])
        out[attr["k"]] = [attr["v"], refs[0] if refs else None]
    return out


def check(case):
    spec, mode = case["log"], case["mode"]
    log = lib.make_log(spec)
    before = lib.snap_log(log)
    handle = files.write_mode(log, mode, "mxml")
    lib.same(before, lib.snap_log(log), "log after writing")
    text = files.text_of(handle, mode)
    lib.same(expected_document(spec), refmxml.read(text.encode("utf-8")), "independent reader")
    logs = files.read_mode(handle, mode, "mxml")
    lib.equal(len(logs), 1, "number of logs")
    got = [dump_element(logs[0]), [[dump_element(t), [dump_element(e) for e in t]] for t in logs[0]]]
    lib.same(expected_read(spec), got, "read log")
    return gen.shape_labels(spec) + ["mode " + mode]


SUBS = [
    Sub("roundtrip", cases, check, lambda c: gen.has_content(c["log"]),
        "random logs within what MXML can express; non-trivial: at least one attribute", 1600),
    Sub("event", one_event, check, lambda c: gen.has_content(c["log"]),
        "one event with random attributes; non-trivial: at least one attribute", 3000),
]
ASSUMPTIONS = ["names, keys and model references have no line breaks or tabs, other text no carriage returns",
               "flattened names do not clash, standard attributes have their standard type",
               "no model references on names and timestamps", "transitions are not blank and not called unknown"]
