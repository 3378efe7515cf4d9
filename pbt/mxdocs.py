"""Generated MXML documents, and what reading them must give."""
import io

from hypothesis import strategies as st

import docs
import files
import gen
import lib
from opyenxes.data_in.XMxmlParser import XMxmlParser

RESERVED = {"concept:name", "lifecycle:transition", "lifecycle:model", "org:resource", "time:timestamp",
            "semantic:modelReference", "source", "description"}
PARTS = ["Data", "WorkflowModelElement", "EventType", "Timestamp", "Originator"]
KNOWN_TYPES = ["schedule", "assign", "withdraw", "reassign", "start", "suspend", "resume", "pi_abort", "ate_abort",
               "complete", "autoskip", "manualskip"]


def filled():
    return gen.texts().filter(lambda t: t.strip() != "")


def refs():
    return st.one_of(st.none(), st.none(), st.none(), st.sampled_from(["urn:a", "http://x.org/o#A http://x.org/o#B"]), filled())


@st.composite
def data(draw, width=3):
    items = draw(st.lists(st.fixed_dictionaries({"n": filled(), "v": gen.texts(), "ref": refs()}), max_size=width,
                          unique_by=lambda d: d["n"].strip()))
    return [d for d in items if d["n"].strip() not in RESERVED]


@st.composite
def entries(draw):
    parts = draw(st.permutations(PARTS)) if draw(st.integers(0, 2)) == 0 else list(PARTS)
    dropped = draw(st.sets(st.sampled_from(PARTS), max_size=3)) if draw(st.integers(0, 2)) == 0 else set()
    kind = draw(st.integers(0, 3))
    if kind == 0:
        event_type = {"text": "unknown", "unknown": draw(filled().filter(lambda t: t != "UNKNOWN"))}
    elif kind == 1:
        event_type = {"text": draw(gen.texts()), "unknown": None}
    else:
        event_type = {"text": draw(st.sampled_from(KNOWN_TYPES)), "unknown": None}
    event_type["ref"] = draw(refs())
    return {"order": [p for p in parts if p not in dropped], "name": draw(st.one_of(st.sampled_from("ABC"), gen.texts())),
            "name_ref": draw(refs()), "type": event_type, "timestamp": {"value": draw(gen.datetimes())},
            "originator": draw(st.one_of(st.sampled_from(["Pete", "Sue"]), gen.texts())), "originator_ref": draw(refs()),
            "data": draw(data())}


@st.composite
def instances(draw, min_events=0):
    count = draw(st.sampled_from([c for c in (0, 1, 1, 2, 3) if c >= min_events]))
    return {"id": draw(st.one_of(st.none(), filled(), st.sampled_from(["1", "2"]))),
            "description": draw(st.one_of(st.none(), filled())), "ref": draw(refs()), "data": draw(data()),
            "late": draw(data(2)) if draw(st.integers(0, 5)) == 0 else [], "entries": [draw(entries()) for _ in range(count)]}


@st.composite
def documents(draw, min_events=0):
    processes = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3] if min_events else [0, 1, 1, 1, 2, 3]))):
        count = draw(st.sampled_from([1, 2, 3] if min_events else [0, 1, 1, 2, 3]))
        processes.append({"id": draw(st.one_of(st.none(), filled())), "description": draw(st.one_of(st.none(), filled())),
                          "ref": draw(refs()), "data": draw(data()),
                          "instances": [draw(instances(min_events)) for _ in range(count)]})
    source = None
    if draw(st.booleans()):
        source = {"program": draw(filled()), "ref": draw(refs()), "data": draw(data())}
    return {"source": source, "processes": processes, "salt": draw(st.integers(0, 2**31)) if draw(st.booleans()) else 0,
            "enc": draw(st.sampled_from(["utf-8", "utf-8", "utf-8", "utf-16", "iso-8859-1"]))}


class Layout(docs.Layout):
    def tag(self, name):
        return name

    def gap(self):
        return self.pick(["\n\t", "", " ", "\r\n  ", "\n<!-- <Attribute name=\"no\">no</Attribute> -->\n"])

    def text(self, text):
        """Text content that denotes the text."""
        if text and self.pick([0, 0, 0, 1]) and "]]>" not in text and "\r" not in text and \
                (self.unicode or text.isascii()):
            return "<![CDATA[" + text + "]]>"
        out = []
        for char in text:
            if char == "\r":
                out.append("&#13;")
            elif char in "<&>":
                out.append({"<": "&lt;", "&": "&amp;", ">": "&gt;"}[char])
            else:
                out.append(char)
        if len(out) > 1 and self.pick([0, 0, 0, 1]):
            out.insert(len(out) // 2, "<!-- inside -->")
        return "".join(out)

    def leaf(self, name, attrs, text):
        attrs = [(k, v) for k, v in attrs if v is not None]
        head = "<" + name + "".join(" " + k + "=" + self.quote(v) for k, v in attrs)
        if not text and self.pick([0, 1]):
            return head + "/>"
        pad = self.pick(["", "", " ", "\n\t\t"])
        return head + ">" + pad + self.text(text) + pad + "</" + name + ">"


def render_data(items, layout):
    return layout.element("Data", [], [layout.leaf("Attribute", [("name", layout.pick(["", "", " "]) + d["n"]), ("modelReference", d["ref"])],
                                                   d["v"]) for d in items])


def date_text(value, layout):
    return docs.lexical("date", value, layout)


def render_entry(entry, layout):
    parts = []
    for part in entry["order"]:
        if part == "Data":
            parts.append(render_data(entry["data"], layout))
        elif part == "WorkflowModelElement":
            parts.append(layout.leaf(part, [("modelReference", entry["name_ref"])], entry["name"]))
        elif part == "EventType":
            parts.append(layout.leaf(part, [("unknowntype", entry["type"]["unknown"]), ("modelReference", entry["type"]["ref"])],
                                     entry["type"]["text"]))
        elif part == "Timestamp":
            stamp = entry["timestamp"]
            parts.append(layout.leaf(part, [], stamp["bad"] if "bad" in stamp else date_text(stamp["value"], layout)))
        else:
            parts.append(layout.leaf(part, [("modelReference", entry["originator_ref"])], entry["originator"]))
    return layout.element("AuditTrailEntry", [], parts)


def given(*pairs):
    return [(k, v) for k, v in pairs if v is not None]


def render(doc):
    layout = Layout(doc["salt"])
    layout.unicode = doc["enc"].startswith("utf")
    parts = []
    if doc["source"]:
        source = doc["source"]
        parts.append(layout.element("Source", given(("program", source["program"]), ("modelReference", source["ref"])),
                                    [render_data(source["data"], layout)] if source["data"] else []))
    for process in doc["processes"]:
        body = [render_data(process["data"], layout)] if process["data"] or layout.pick([0, 1]) else []
        for instance in process["instances"]:
            inner = [render_data(instance["data"], layout)] if instance["data"] or layout.pick([0, 1]) else []
            inner += [render_entry(e, layout) for e in instance["entries"]]
            if instance["late"]:
                inner.append(render_data(instance["late"], layout))
            body.append(layout.element("ProcessInstance", given(
                ("id", instance["id"]), ("description", instance["description"]), ("modelReference", instance["ref"])), inner))
        parts.append(layout.element("Process", given(
            ("id", process["id"]), ("description", process["description"]), ("modelReference", process["ref"])), body))
    text = '<?xml version="1.0" encoding="%s"?>\n' % doc["enc"] + layout.element(
        "WorkflowLog", [("xmlns:xsi", "http://www.w3.org/2001/XMLSchema-instance"),
                        ("xsi:noNamespaceSchemaLocation", "WorkflowLog.xsd")], parts)
    return text.encode(doc["enc"], "xmlcharrefreplace")


def parse(doc):
    data = render(doc)
    salt = doc.get("salt", 0)
    return XMxmlParser().parse(files.Slow(data, 1 + salt // 3 % 80) if salt % 3 == 1 else io.BytesIO(data))


# ---- expectation ------------------------------------------------------------------
def literal(key, value, ext=None, ref=None, more=()):
    return {"t": "string", "k": key, "e": ext, "v": value, "a": ordered(reference(ref) + list(more))}


def reference(ref):
    if ref:
        return [{"t": "string", "k": "semantic:modelReference", "e": lib.URI_OF["semantic"], "v": ref, "a": []}]
    return []


def ordered(attrs):
    return sorted(attrs, key=lambda a: a["k"])


def expected_data(items):
    return {d["n"].strip(): literal(d["n"].strip(), d["v"].strip(), None, d["ref"]) for d in items if d["v"].strip()}


def expected_entry(entry):
    out = {}
    if "Data" in entry["order"]:
        out.update(expected_data(entry["data"]))
    if "WorkflowModelElement" in entry["order"]:
        if entry["name"].strip():
            out["concept:name"] = literal("concept:name", entry["name"].strip(), lib.URI_OF["concept"])
        for attr in reference(entry["name_ref"]):
            out[attr["k"]] = attr
    if "EventType" in entry["order"]:
        value = entry["type"]["unknown"] or entry["type"]["text"].strip()
        if value:
            out["lifecycle:transition"] = literal("lifecycle:transition", value, lib.URI_OF["lifecycle"], entry["type"]["ref"])
    if "Timestamp" in entry["order"] and "value" in entry["timestamp"]:
        value = entry["timestamp"]["value"]
        out["time:timestamp"] = {"t": "date", "k": "time:timestamp", "e": lib.URI_OF["time"],
                                 "v": value[:7] + [value[7] or 0], "a": []}
    if "Originator" in entry["order"] and entry["originator"].strip():
        out["org:resource"] = literal("org:resource", entry["originator"].strip(), lib.URI_OF["org"], entry["originator_ref"])
    return {"attrs": ordered(out.values())}


CLASSIFIERS = [["MXML Legacy Classifier", ["concept:name", "lifecycle:transition"]], ["Event Name", ["concept:name"]],
               ["Resource", ["org:resource"]]]


def expected(doc):
    out = []
    for process in doc["processes"]:
        attrs = expected_data(process["data"])
        if doc["source"]:
            source = doc["source"]
            attrs["source"] = literal("source", source["program"], None, source["ref"], expected_data(source["data"]).values())
        if process["id"] is not None:
            attrs["concept:name"] = literal("concept:name", process["id"], lib.URI_OF["concept"])
        attrs["lifecycle:model"] = literal("lifecycle:model", "standard", lib.URI_OF["lifecycle"])
        if process["description"]:
            attrs["description"] = literal("description", process["description"])
        for attr in reference(process["ref"]):
            attrs[attr["k"]] = attr
        traces = []
        for instance in process["instances"]:
            if not instance["entries"]:
                continue
            inner = expected_data(instance["data"])
            inner.update(expected_data(instance["late"]))
            name = "None" if instance["id"] is None else instance["id"]
            inner["concept:name"] = literal("concept:name", name, lib.URI_OF["concept"])
            if instance["description"]:
                inner["description"] = literal("description", instance["description"])
            for attr in reference(instance["ref"]):
                inner[attr["k"]] = attr
            traces.append({"attrs": ordered(inner.values()), "events": [expected_entry(e) for e in instance["entries"]]})
        out.append({"attrs": ordered(attrs.values()), "traces": traces,
                    "ext": sorted([lib.NAME_OF[p], p, lib.URI_OF[p]] for p in ("concept", "org", "lifecycle", "semantic", "time")),
                    "cl": CLASSIFIERS, "gt": ["concept:name"], "ge": ["concept:name", "lifecycle:transition"]})
    return out


def sort_maps(dump):
    if isinstance(dump, dict):
        return {k: (ordered(sort_maps(v)) if k in ("a", "attrs") else sort_maps(v)) for k, v in dump.items()}
    if isinstance(dump, list):
        return [sort_maps(v) for v in dump]
    return dump


def dump(log):
    out = sort_maps(lib.dump_log(log))
    for name in ("gt", "ge"):
        out[name] = [a["k"] for a in out[name]]
    return out


def labels(doc):
    out = ["%d processes" % len(doc["processes"])]
    if doc["source"]:
        out.append("source")
    for process in doc["processes"]:
        for instance in process["instances"]:
            if not instance["entries"]:
                out.append("empty instance")
            if len(instance["entries"]) > 1:
                out.append("several entries")
    return sorted(set(out))
