"""C20: reading extension definitions."""
import sys
from urllib.parse import quote, urlparse

from hypothesis import strategies as st

import docs
import gen
import lib
from harness import Scratch, Sub
from web import Server
from opyenxes.extension.XExtension import XExtension
from opyenxes.extension.XExtensionParser import XExtensionParser
from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap

LEVELS = ["log", "trace", "event", "meta"]
MAPPINGS = ["EN", "DE", "FR", "IT", "ES", "NL", "PT", "mine"]


def key_words():
    return st.one_of(st.sampled_from(["name", "a", "b", "A", "level", "x:y", "name ", "string"]), gen.texts())


@st.composite
def definitions(draw, uris=None):
    declared = st.fixed_dictionaries({
        "t": st.sampled_from(gen.TYPES), "k": key_words(),
        "al": st.lists(st.tuples(st.one_of(st.sampled_from(MAPPINGS), gen.texts()), gen.texts()).map(list), max_size=3)})
    sections = []
    used = {level: set() for level in LEVELS}
    for level in draw(st.lists(st.sampled_from(LEVELS), max_size=5)):
        attrs = draw(st.lists(declared, max_size=4, unique_by=lambda a: a["k"]))
        attrs = [a for a in attrs if a["k"] not in used[level]]
        used[level].update(a["k"] for a in attrs)
        sections.append([level, attrs])
    return {"name": draw(st.one_of(st.sampled_from(["Some extension", "Concept", "X"]), gen.texts())),
            "prefix": draw(st.one_of(st.sampled_from(["some", "x", "concept", "a:b"]), gen.texts())),
            "uri": draw(uris if uris is not None else st.one_of(st.sampled_from(["http://example.org/x.xesext", "http://www.xes-standard.org/concept.xesext",
                                                           "urn:x", "https://e.org:8/a?b=c&d=e#f"]),
                                          gen.simple_words().map(lambda w: "http://e/" + w)).filter(parses)),
            "sections": sections, "salt": draw(st.integers(0, 2**31)) if draw(st.integers(0, 3)) else 0,
            "many": draw(st.sampled_from([0] * 40 + [20, 300, 1500, 4000])),
            "enc": draw(st.sampled_from(docs.ENCODINGS)), "head": draw(st.sampled_from(["", "", "doctype", "entity", "stylesheet"]))}


def enlarge(definition):
    """The definition with the many further attributes it may ask for."""
    more = [{"t": gen.TYPES[n % 6], "k": "attribute %d" % n, "al": []} for n in range(definition["many"])]
    if not more:
        return definition
    return dict(definition, many=0, sections=definition["sections"] + [["event", more]])


def parses(text):
    try:
        return urlparse(text).geturl() == text
    except ValueError:
        return False


HEADS = {"": "", "doctype": '<!DOCTYPE xesextension SYSTEM "http://127.0.0.1:9/none.dtd">\n',
         "entity": '<!DOCTYPE xesextension [<!ENTITY e SYSTEM "http://127.0.0.1:9/none.xml"><!ENTITY i "I">]>',
         "stylesheet": '<?xml-stylesheet type="text/xsl" href="http://127.0.0.1:9/none.xsl"?>'}


def render(definition):
    """The definition as bytes."""
    layout = docs.Layout(definition["salt"])
    sections = []
    for level, attrs in definition["sections"]:
        sections.append(layout.element(level, [], [
            layout.element(a["t"], [("key", a["k"])],
                           [layout.element("alias", [("mapping", mapping), ("name", name)]) for mapping, name in a["al"]])
            for a in attrs]))
    body = layout.element("xesextension", [("name", definition["name"]), ("prefix", definition["prefix"]), ("uri", definition["uri"])], sections)
    encoding = definition["enc"] if definition["salt"] else "utf-8"
    declared = {"utf-8-sig": "utf-8"}.get(encoding, encoding)
    head = ""
    if encoding not in ("utf-8", "utf-16", "utf-8-sig") or layout.pick([0, 0, 1]) == 0:
        head = '<?xml version="1.0" encoding="%s"?>' % layout.pick([declared, declared.upper()]) + layout.pick(["\n", "", "\n<!-- c -->\n", "\r\n"])
    return (head + HEADS[definition["head"]] + body + layout.pick(["", "\n", "\n<!-- end -->"])).encode(encoding, "xmlcharrefreplace")


def declared(definition):
    """What the definition declares on each level: sorted (key, type)."""
    out = {level: [] for level in LEVELS}
    for level, attrs in definition["sections"]:
        out[level].extend([definition["prefix"] + ":" + a["k"], a["t"]] for a in attrs)
    return {level: sorted(found) for level, found in out.items()}


def check_extension(extension, definition, what="extension"):
    lib.check(isinstance(extension, XExtension), "%s: got %r" % (what, extension))
    lib.equal([extension.get_name(), extension.get_prefix(), extension.get_uri()],
              [definition["name"], definition["prefix"], urlparse(definition["uri"])], what)
    lib.equal(extension.get_uri().geturl(), definition["uri"], what + ": URI")
    levels = declared(definition)
    for level, found in zip(LEVELS, (extension.get_log_attributes(), extension.get_trace_attributes(),
                                     extension.get_event_attributes(), extension.get_meta_attributes())):
        lib.same(levels[level], sorted([a.get_key(), lib.TAG_OF[type(a)]] for a in found), "%s: attributes of the %s" % (what, level))
        for attribute in found:
            lib.check(attribute.get_extension() == extension, "%s: extension of %r" % (what, attribute.get_key()))
    everything = sorted({tuple(a) for found in levels.values() for a in found})
    lib.same(everything, sorted({(a.get_key(), lib.TAG_OF[type(a)]) for a in extension.get_defined_attributes()}), what + ": all attributes")


def aliases():
    found = {}
    for mapping in XGlobalAttributeNameMap().get_available_mappings():
        found[mapping.get_mapping_name()] = mapping
    return found


class Network:
    """Watches for network access, once installed."""
    events = []
    active = False
    installed = False

    @classmethod
    def hook(cls, event, args):
        if cls.active and (event.startswith(("socket.", "urllib.", "http.", "ftplib."))):
            cls.events.append([event, str(args)[:200]])

    @classmethod
    def watch(cls):
        if not cls.installed:
            cls.installed = True
            sys.addaudithook(cls.hook)
        cls.events.clear()
        cls.active = True


def read(data, source, name):
    if source == "http":
        url = Server.start() + "/" + quote(name)
        Server.documents["/" + quote(name)] = data
        extension = XExtensionParser.parse(url)
        lib.equal(Server.requests, ["/" + quote(name)], "requests")
        return extension
    path = Scratch.file(name)
    with open(path, "wb") as out:
        out.write(data)
    Network.watch()
    try:
        extension = XExtensionParser().parse(path) if source == "file" else XExtensionParser.parse("file://" + quote(path))
    finally:
        Network.active = False
    events = [e for e in Network.events if e[0].startswith("socket.") or source == "file"]
    events = [e for e in events if not (e[0] in ("socket.gethostname", "socket.gethostbyname", "socket.getaddrinfo") and source == "file url")]
    lib.check(not events, "network access: %s" % events)
    return extension


def check(case):
    definition = enlarge(case["definition"])
    lib.extension("concept")
    keys = {definition["prefix"] + ":" + a["k"] for _, attrs in definition["sections"] for a in attrs} | {a["k"] for _, attrs in definition["sections"] for a in attrs}
    wanted = {name: {k: mapping.map(k) for k in keys if mapping.map(k) is not None} for name, mapping in aliases().items()}
    count = 0
    for _, attrs in definition["sections"]:
        for attr in attrs:
            for mapping, alias in attr["al"]:
                wanted.setdefault(mapping, {})[definition["prefix"] + ":" + attr["k"]] = alias
                count += 1
    extension = read(render(definition), case["source"], case["file"])
    check_extension(extension, definition)
    found = {name: {k: mapping.map(k) for k in keys if mapping.map(k) is not None} for name, mapping in aliases().items()}
    lib.same(wanted, found, "aliases")
    return ["from " + case["source"]] + (["aliases"] if count else []) + (["varied layout"] if definition["salt"] else [])


@st.composite
def cases(draw):
    return {"definition": draw(definitions()), "source": draw(st.sampled_from(["file", "file", "file url", "http"])),
            "file": draw(st.sampled_from(["x.xesext", "x.xml", "a b.xesext", "\u00fc", "x.XESEXT", "c#d.xesext"]))}


def redefinitions(case):
    """Several definitions read one after the other."""
    for definition in case["definitions"]:
        check({"definition": definition, "source": "file", "file": "x.xesext"})
    return []


@st.composite
def sequences(draw):
    return {"definitions": draw(st.lists(definitions(uris=st.just("http://example.org/x.xesext")), min_size=2, max_size=3))}


SUBS = [
    Sub("definitions", cases, check, lambda c: any(attrs for _, attrs in c["definition"]["sections"]),
        "random extension definitions in random layout and encoding, read from files, file URLs and a web server on the loopback "
        "interface; non-trivial: at least one attribute", 2500),
    Sub("sequences", sequences, redefinitions, lambda c: any(attrs for d in c["definitions"] for _, attrs in d["sections"]),
        "two or three definitions of one URI read in turn; non-trivial: at least one attribute", 500),
]
ASSUMPTIONS = ["no key is declared twice on one level", "URIs are the same after parsing with urllib",
               "prefix and key are joined by a colon, whatever characters they have"]
