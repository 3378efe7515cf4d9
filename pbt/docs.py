"""Generated XES documents: a spec of the content plus a spec of the layout."""
import hashlib

from hypothesis import strategies as st

import gen

ENCODINGS = ["utf-8", "utf-8", "utf-8", "utf-8-sig", "utf-16", "iso-8859-1", "us-ascii"]


class Layout:
    """Layout choices, a pure function of the salt; salt 0 is plain."""
    def __init__(self, salt):
        self.salt = salt
        self.count = 0

    def pick(self, options):
        if not self.salt:
            return options[0]
        self.count += 1
        data = hashlib.md5(b"%d/%d" % (self.salt, self.count)).digest()
        return options[int.from_bytes(data[:4], "big") % len(options)]

    def tag(self, name):
        return self.pick([name, name, name, name.upper(), name.capitalize(), name.swapcase()])

    def gap(self):
        return self.pick(["\n\t", "", " ", "\r\n  ", "\n<!-- <string key=\"no\" value=\"no\"/> -->\n", "\n\n", "<?pi trace?>"])

    def quote(self, text):
        """An XML attribute value that denotes the text."""
        mark = self.pick(['"', '"', "'"])
        out = []
        for char in text:
            if char in "\t\n\r":
                out.append(self.pick(["&#%d;", "&#x%x;", "&#x%X;", "&#00%d;"]) % ord(char))
            elif char == "&":
                out.append(self.pick(["&amp;", "&#38;", "&#x26;"]))
            elif char == "<":
                out.append(self.pick(["&lt;", "&#60;"]))
            elif char == ">":
                out.append(self.pick(["&gt;", ">"]))
            elif char == mark:
                out.append("&quot;" if mark == '"' else "&apos;")
            else:
                out.append(char)
        return mark + "".join(out) + mark

    def element(self, name, attrs, children=()):
        """:param attrs: [(name, value)], :param children: rendered elements"""
        tag = self.tag(name)
        if self.pick([0, 0, 1]):
            attrs = list(reversed(attrs))
        equals = self.pick(["=", "=", " = "])
        text = "<" + tag + "".join(self.pick([" ", " ", "\n   "]) + k + equals + self.quote(v) for k, v in attrs)
        if not children and self.pick([0, 0, 1]) == 0:
            return text + self.pick(["/>", " />"])
        text += self.pick([">", " >"])
        for child in children:
            text += self.gap() + child
        return text + self.gap() + "</" + tag + self.pick([">", ">", "\n>"])


def lexical(kind, value, layout):
    """A text of the value, in one of its valid forms."""
    pick = layout.pick
    if kind == "int":
        number = int(value)
        if number >= 0:
            return pick([str(number), str(number), "+%d" % number, "00%d" % number])
        return pick([str(number), "-0%d" % -number])
    if kind == "float":
        number = float(value)
        if number in (float("inf"), float("-inf")):
            return "INF" if number > 0 else "-INF"
        text = repr(number)
        return pick([text, text, text.upper(), "%.17e" % number, ("+" + text) if not text.startswith("-") else text])
    if kind == "boolean":
        return pick(["true", "true", "True", "TRUE", "1"]) if value else pick(["false", "false", "False", "FALSE", "0"])
    if kind == "id":
        return pick([value.upper(), value.lower()])
    if kind == "date":
        year, month, day, hour, minute, second, micro, offset = value
        text = "%04d-%02d-%02dT%02d:%02d:%02d" % (year, month, day, hour, minute, second)
        fraction = "%06d" % micro
        if micro == 0:
            text += pick(["", ".0", ".000", ".000000", ".000000000"])
        elif micro % 1000 == 0:
            text += "." + pick([fraction[:3], fraction, fraction.rstrip("0"), fraction + "000"])
        else:
            text += "." + pick([fraction, fraction + "9", fraction + "123"])
        if offset is None:
            return text
        if offset == 0:
            return text + pick(["Z", "+00:00", "-00:00"])
        return text + "%s%02d:%02d" % ("-" if offset < 0 else "+", abs(offset) // 60, abs(offset) % 60)
    return value


def render_attribute(attr, layout):
    children = [render_attribute(a, layout) for a in attr["a"]]
    if attr["t"] in gen.COLLECTIONS:
        if children and layout.pick([0, 0, 0, 0, 0, 1]):
            children = [layout.element("values", [], children)]
        return layout.element(attr["t"], [("key", attr["k"])], children)
    text = attr["v"] if attr.get("raw") else lexical(attr["t"], attr["v"], layout)
    return layout.element(attr["t"], [("key", attr["k"]), ("value", text)], children)


def key_text(keys, layout):
    return layout.pick([" ", " ", "  "]).join(
        ("'%s'" % k) if " " in k or layout.pick([0, 0, 0, 1]) else k for k in keys)


def mixed(first, second, layout):
    """Both lists, one after the other or in turns."""
    if layout.pick([0, 0, 0, 0, 0, 1]) == 0:
        return first + second
    out, first, second = [], list(first), list(second)
    while first and second:
        out.append((first if layout.pick([0, 1]) else second).pop(0))
    return out + first + second


def render(doc):
    """The document as bytes."""
    layout = Layout(doc.get("salt", 0))
    parts = []
    for ext in doc["ext"]:
        parts.append(layout.element("extension", [(k, ext[k]) for k in ("name", "prefix", "uri") if k in ext]))
    for scope, name in (("trace", "gt"), ("event", "ge")):
        if doc[name] or layout.pick([0, 0, 1]):
            cut = layout.pick([0, 0, 0, 1, 2])
            for part in [doc[name][:cut], doc[name][cut:]] if cut else [doc[name]]:
                parts.append(layout.element("global", [("scope", layout.pick([scope, scope, scope.capitalize()]))],
                                            [render_attribute(a, layout) for a in part]))
    for name, keys in doc["cl"]:
        parts.append(layout.element("classifier", [("name", name), ("keys", key_text(keys, layout))]))
    parts = mixed(parts, [render_attribute(a, layout) for a in doc["attrs"]], layout)
    traces = []
    for trace in doc["traces"]:
        events = [layout.element("event", [], [render_attribute(a, layout) for a in event["attrs"]]) for event in trace["events"]]
        body = mixed([render_attribute(a, layout) for a in trace["attrs"]], events, layout)
        traces.append(layout.element("trace", [], body))
    parts = mixed(parts, traces, layout)
    features = list(doc["features"].items())
    if layout.pick([0, 1]):
        features.append(("xmlns", "http://www.xes-standard.org/"))
    body = layout.element("log", features, parts)
    encoding = doc.get("enc", "utf-8")
    declared = {"utf-8-sig": "utf-8"}.get(encoding, encoding)
    head = ""
    if encoding not in ("utf-8", "utf-16") or layout.pick([0, 0, 1]) == 0:
        head = '<?xml version="1.0" encoding="%s"%s?>' % (
            layout.pick([declared, declared.upper()]), layout.pick(["", ' standalone="yes"', " "]))
        head += layout.pick(["\n", "", "\n<!-- c -->\n", "\r\n"])
    return (head + body + layout.pick(["", "\n", "\n<!-- end -->"])).encode(encoding, "xmlcharrefreplace")


@st.composite
def extension_declarations(draw):
    out = []
    known = draw(st.lists(st.sampled_from(gen.PREFIXES), max_size=5, unique=True))
    import lib
    for prefix in known:
        full = {"name": lib.NAME_OF[prefix], "prefix": prefix, "uri": lib.URI_OF[prefix]}
        form = draw(st.sampled_from(["full", "full", "full", "uri", "prefix", "othername"]))
        if form == "uri":
            full = {"name": full["name"], "uri": full["uri"]}
        elif form == "prefix":
            full = {"prefix": full["prefix"]}
        elif form == "othername":
            full["name"] = "Some name"
        out.append(full)
    if draw(st.integers(0, 5)) == 0:
        out.append({"name": "Nobody", "prefix": "nobody", "uri": "http://example.invalid/nobody.xesext"})
    return draw(st.permutations(out))


@st.composite
def documents(draw, depth=2, max_traces=3):
    spec = draw(gen.logs(depth=depth, max_traces=max_traces))
    spec["ext"] = draw(extension_declarations())
    spec["features"] = draw(st.dictionaries(
        st.sampled_from(["xes.version", "xes.features", "openxes.version", "xes.x", "openxes.other"]),
        st.one_of(st.sampled_from(["1.0", "2.0", "nested-attributes", "", "1.0RC7"]), gen.texts()), max_size=4))
    spec["salt"] = draw(st.integers(0, 2**31)) if draw(st.integers(0, 3)) else 0
    spec["enc"] = draw(st.sampled_from(ENCODINGS)) if spec["salt"] else "utf-8"
    spec["rep"] = 1
    return spec


def expected(doc):
    """What reading the document must give (see lib.dump_log), features included."""
    import lib
    known = [e.get("prefix") or {v: k for k, v in lib.URI_OF.items()}.get(e.get("uri")) for e in doc["ext"]]
    spec = dict(doc, ext=[p for p in known if p in lib.URI_OF])
    out = lib.expected_log(zone(spec), written=False)
    out["features"] = dict(doc["features"])
    return out


def zone(value):
    """Dates without zone are read as UTC."""
    if isinstance(value, dict):
        out = {k: zone(v) for k, v in value.items()}
        if out.get("t") == "date" and isinstance(out.get("v"), list):
            out["v"] = out["v"][:7] + [out["v"][7] or 0]
        return out
    if isinstance(value, list):
        return [zone(v) for v in value]
    return value
