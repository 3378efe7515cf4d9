"""An independent reader of XES, written from the XES 1.0 standard and XML Schema.

Shares nothing with the library; it accepts only documents in the standard's
vocabulary, element order and lexical forms.
"""
import re
import xml.etree.ElementTree as ElementTree

ATTRIBUTE_TAGS = {"string", "date", "int", "float", "boolean", "id", "list", "container"}
DATE = re.compile(r"(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(\.\d+)?(Z|[+-]\d\d:\d\d)?\Z", re.A)
LEXICAL = {
    "int": re.compile(r"[+-]?\d+\Z", re.A),
    "float": re.compile(r"(?:[+-]?(?:\d+(?:\.\d*)?|\.\d+)(?:[eE][+-]?\d+)?|INF|-INF|NaN)\Z", re.A),
    "boolean": re.compile(r"(?:true|false)\Z"),
    "id": re.compile(r"[0-9A-Fa-f]{8}-(?:[0-9A-Fa-f]{4}-){3}[0-9A-Fa-f]{12}\Z"),
    "date": DATE,
}


class NotXes(Exception):
    pass


def require(condition, what):
    if not condition:
        raise NotXes(what)


def read_date(text):
    match = DATE.match(text)
    require(match, "not an xs:dateTime: %r" % text)
    year, month, day, hour, minute, second = (int(match.group(i)) for i in range(1, 7))
    fraction = ((match.group(7) or ".")[1:] + "000000")[:6]
    zone = match.group(8)
    if zone is None or zone == "Z":
        offset = 0
    else:
        require(int(zone[4:]) < 60 and int(zone[1:3]) * 60 + int(zone[4:]) <= 840, "offset %r" % zone)
        offset = (int(zone[1:3]) * 60 + int(zone[4:])) * (-1 if zone[0] == "-" else 1)
    return [year, month, day, hour, minute, second, int(fraction), offset]


def read_attribute(element):
    tag = element.tag
    require(tag in ATTRIBUTE_TAGS, "unexpected element %r" % tag)
    collection = tag in ("list", "container")
    require(set(element.attrib) == ({"key"} if collection else {"key", "value"}),
            "%s has the XML attributes %r" % (tag, sorted(element.attrib)))
    require(not (element.text or "").strip(), "text %r" % element.text)
    out = {"t": tag, "k": element.get("key")}
    if not collection:
        value = element.get("value")
        if tag in LEXICAL:
            require(LEXICAL[tag].match(value), "%r is no %s" % (value, tag))
        if tag == "date":
            out["v"] = read_date(value)
        elif tag == "int":
            out["v"] = str(int(value))
        elif tag == "float":
            out["v"] = repr(float(value.replace("INF", "inf")))
        elif tag == "boolean":
            out["v"] = value == "true"
        elif tag == "id":
            out["v"] = value.lower()
        else:
            out["v"] = value
    out["a"] = [read_attribute(child) for child in element]
    return out


def split_keys(text):
    """Space-separated keys; a key with spaces is quoted with apostrophes."""
    keys, position = [], 0
    while position < len(text):
        if text[position] == " ":
            position += 1
        elif text[position] == "'":
            end = text.find("'", position + 1)
            require(end > 0, "open quote in %r" % text)
            keys.append(text[position + 1:end])
            position = end + 1
            require(position == len(text) or text[position] == " ", "%r" % text)
        else:
            end = text.find(" ", position)
            end = len(text) if end < 0 else end
            keys.append(text[position:end])
            position = end
    return keys


def read(data):
    root = ElementTree.fromstring(data)
    require(root.tag == "log", "root element %r" % root.tag)
    require(root.get("xes.version") == "1.0", "xes.version %r" % root.get("xes.version"))
    require("xes.features" in root.attrib and "openxes.version" in root.attrib, "log attributes")
    log = {"ext": [], "gt": [], "ge": [], "cl": [], "attrs": [], "traces": []}
    order = ["extension", "global", "classifier", "attribute", "trace"]
    stage = 0
    scopes = []
    for child in root:
        kind = "attribute" if child.tag in ATTRIBUTE_TAGS else child.tag
        require(kind in order, "unexpected element %r" % child.tag)
        require(order.index(kind) >= stage, "%r after %r" % (child.tag, order[stage]))
        stage = order.index(kind)
        if kind == "extension":
            require(set(child.attrib) == {"name", "prefix", "uri"} and not len(child), "extension %r" % child.attrib)
            log["ext"].append([child.get("name"), child.get("prefix"), child.get("uri")])
        elif kind == "global":
            scope = child.get("scope")
            require(set(child.attrib) == {"scope"} and scope in ("trace", "event"), "global %r" % child.attrib)
            require(scope not in scopes, "scope %r twice" % scope)
            scopes.append(scope)
            require(len(child), "empty global scope %r" % scope)
            log["gt" if scope == "trace" else "ge"].extend(read_attribute(a) for a in child)
        elif kind == "classifier":
            require(set(child.attrib) == {"name", "keys"} and not len(child), "classifier %r" % child.attrib)
            log["cl"].append([child.get("name"), split_keys(child.get("keys"))])
        elif kind == "attribute":
            log["attrs"].append(read_attribute(child))
        else:
            require(not child.attrib, "trace %r" % child.attrib)
            trace = {"attrs": [], "events": []}
            for element in child:
                if element.tag == "event":
                    require(not element.attrib, "event %r" % element.attrib)
                    trace["events"].append({"attrs": [read_attribute(a) for a in element]})
                else:
                    require(not trace["events"], "trace attribute after event")
                    trace["attrs"].append(read_attribute(element))
            log["traces"].append(trace)
    log["ext"].sort()
    return log
