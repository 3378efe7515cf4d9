"""An independent reader of MXML, written from the format's schema."""
import xml.etree.ElementTree as ElementTree

import refxes
from refxes import require

TYPES = {"schedule", "assign", "withdraw", "reassign", "start", "suspend", "resume", "pi_abort", "ate_abort", "complete",
         "autoskip", "manualskip"}


def read_data(element):
    out = {}
    require(set(element.attrib) == set(), "Data with attributes")
    for child in element:
        require(child.tag == "Attribute" and set(child.attrib) <= {"name", "modelReference"} and not len(child), "Data child")
        name = child.get("name")
        require(name is not None and name not in out, "data name %r" % name)
        out[name] = [(child.text or "").strip(), child.get("modelReference")]
    return out


def read(data):
    root = ElementTree.fromstring(data)
    require(root.tag == "WorkflowLog", "root %r" % root.tag)
    children = list(root)
    require([c.tag for c in children] == ["Source", "Process"], "children of the log")
    require(children[0].get("program"), "source without program")
    process = children[1]
    log = {"id": process.get("id"), "ref": process.get("modelReference"), "data": {}, "instances": []}
    for position, child in enumerate(process):
        if child.tag == "Data":
            require(position == 0, "Data after instances")
            log["data"] = read_data(child)
            continue
        require(child.tag == "ProcessInstance", "unexpected %r" % child.tag)
        instance = {"id": child.get("id"), "ref": child.get("modelReference"), "data": {}, "entries": []}
        for place, part in enumerate(child):
            if part.tag == "Data":
                require(place == 0, "Data after entries")
                instance["data"] = read_data(part)
                continue
            require(part.tag == "AuditTrailEntry", "unexpected %r" % part.tag)
            parts = {}
            for piece in part:
                require(piece.tag not in parts, "two %s" % piece.tag)
                parts[piece.tag] = piece
            require(set(parts) <= {"Data", "WorkflowModelElement", "EventType", "Timestamp", "Originator"},
                    "entry with %r" % sorted(parts))
            require("WorkflowModelElement" in parts and "EventType" in parts, "incomplete entry")
            kind = parts["EventType"]
            if kind.text == "unknown":
                value = kind.get("unknowntype")
                require(value is not None, "unknown type without its name")
                require(value.strip().lower() not in TYPES, "the event type %r is not an unknown one" % value)
            else:
                require(kind.text in TYPES and "unknowntype" not in kind.attrib, "event type %r" % kind.text)
                value = kind.text
            entry = {"data": read_data(parts["Data"]) if "Data" in parts else {},
                     "name": (parts["WorkflowModelElement"].text or "").strip(),
                     "ref": parts["WorkflowModelElement"].get("modelReference"),
                     "type": [value, kind.get("modelReference")], "originator": None, "timestamp": None}
            if "Originator" in parts:
                entry["originator"] = [(parts["Originator"].text or "").strip(), parts["Originator"].get("modelReference")]
            if "Timestamp" in parts:
                entry["timestamp"] = refxes.read_date(parts["Timestamp"].text)
            instance["entries"].append(entry)
        log["instances"].append(instance)
    return log
