"""C06: every supported file format is recognised by name and read by its parser."""
import gzip
import os

from hypothesis import strategies as st

import files
import gen
import lib
import mxdocs
from harness import Scratch, Sub
from opyenxes.data_in.XesXmlGZIPParser import XesXmlGZIPParser
from opyenxes.data_in.XesXmlParser import XesXmlParser
from opyenxes.data_in.XMxmlGZIPParser import XMxmlGZIPParser
from opyenxes.data_in.XMxmlParser import XMxmlParser
from opyenxes.data_in.XParserRegistry import XParserRegistry
from opyenxes.data_in.XUniversalParser import XUniversalParser
from opyenxes.data_out.XesXmlGZIPSerializer import XesXmlGZIPSerializer
from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
from opyenxes.data_out.XMxmlGZIPSerializer import XMxmlGZIPSerializer
from opyenxes.data_out.XMxmlSerializer import XMxmlSerializer
from opyenxes.data_out.XSerializerRegistry import XSerializerRegistry

SUFFIXES = {XesXmlParser: [".xes"], XesXmlGZIPParser: [".xes.gz", ".xez"], XMxmlParser: [".mxml", ".xml"],
            XMxmlGZIPParser: [".mxml.gz"]}
SERIALIZERS = {XesXmlSerializer: {"xes"}, XesXmlGZIPSerializer: {"xez", "xes.gz"}, XMxmlSerializer: {"mxml"},
               XMxmlGZIPSerializer: {"mxml.gz"}}
PARSER_OF = {".xes": XesXmlParser, ".xes.gz": XesXmlGZIPParser, ".xez": XesXmlGZIPParser, ".mxml": XMxmlParser,
             ".xml": XMxmlParser, ".mxml.gz": XMxmlGZIPParser}
PIECES = [".xes", ".xez", ".mxml", ".xml", ".gz", ".xes.gz", ".mxml.gz", "xes", "gz", "xml", "mxml", ".", ".bak", "~", ".zip",
          ".xesx", ".x", "log", "a b", "/", "dir/", "dir.xes/", "x.mxml/", ".xe", ".xe s", "\u00e9", "..", ".csv", "z", "m", ".xml.gz",
          ".xes ", ".xes\n", ".Xes.", ".gz.xes"]


def mixed_case(draw, text):
    choice = draw(st.integers(0, 4))
    if choice < 2:
        return text
    if choice == 2:
        return text.upper()
    end = text[-40:]        # where the suffix is
    flags = draw(st.lists(st.booleans(), min_size=len(end), max_size=len(end)))
    return text[:-40] + "".join(c.upper() if f else c for c, f in zip(end, flags))


@st.composite
def names(draw):
    piece = gen.weighted((1, st.sampled_from(PIECES)), (1, st.text(st.characters(max_codepoint=0x7f), max_size=3)), (1, gen.hinted()))
    name = "".join(draw(st.lists(piece, min_size=1, max_size=4)))
    if draw(st.integers(0, 9)) == 0:
        name = draw(st.sampled_from(["a", ".", "/a", " "])) * draw(gen.counts([20, 260, 1030], 5000)) + name
    return mixed_case(draw, name)


def accepted(name, suffixes):
    return any(len(name) > len(s) and name[-len(s):].lower() == s for s in suffixes)


def check_names(name):
    whole = {s for group in SUFFIXES.values() for s in group}
    expected_any = False
    for parser, suffixes in SUFFIXES.items():
        if name.lower() in whole:
            continue    # nothing but a suffix: no file name to speak of
        expected = accepted(name, suffixes)
        expected_any = expected_any or expected
        lib.equal(bool(parser().can_parse(name)), expected, "%s can parse %r" % (parser.__name__, name))
    if name.lower() not in whole:
        lib.equal(bool(XUniversalParser.can_parse(name)), expected_any, "universal parser can parse %r" % name)
        lib.equal(bool(XUniversalParser().can_parse(name)), expected_any, "universal parser can parse %r" % name)
    return ["accepted" if expected_any else "refused"]


def bases():
    """File names without a suffix."""
    words = gen.hinted()
    return gen.weighted(
        (3, st.sampled_from(["log", "a.b", "x.xes", "y.mxml", "z.gz", "a b", "\u00e9", "l.XML", "-", "a%20b", "a" * 150])),
        (1, st.text(st.characters(min_codepoint=0x21, max_codepoint=0x17f, exclude_characters="/", exclude_categories=["Cc", "Cs"]), min_size=1, max_size=8)),
        (1, None if words is None else words.map(lambda t: t.replace("/", "_")).filter(lambda t: t.isprintable() and 0 < len(t.encode()) < 150)))


@st.composite
def formats(draw):
    suffix = draw(st.sampled_from(sorted(PARSER_OF)))
    mxml = suffix in (".mxml", ".xml", ".mxml.gz")
    return {"suffix": mixed_case(draw, suffix), "base": draw(bases()),
            "binary": draw(st.booleans()), "link": draw(st.sampled_from([None] * 4 + ["data", "x.xes", "x.mxml", "x.xes.gz", "x.txt"])),
            "log": draw(gen.logs(depth=1, max_traces=2)), "mxml": draw(mxdocs.documents()) if mxml else None}


def dump(logs):
    return [lib.dump_log(log) for log in logs]


def check_formats(case):
    """Writes with the format's serializer, reads with the universal parser and with the format's parser."""
    suffix = case["suffix"].lower()
    path = Scratch.file(case["base"] + case["suffix"])
    if case["mxml"] is not None:
        with (gzip.open if suffix.endswith(".gz") else open)(path, "wb") as out:
            out.write(mxdocs.render(case["mxml"]))
    else:
        files.write(lib.make_log(case["log"]), path, "xes", suffix != ".xes")
    if case["link"] is not None:
        target = Scratch.file(case["link"])
        if not os.path.exists(target):
            os.rename(path, target)
            os.symlink(target, path)
    lib.equal(bool(XUniversalParser.can_parse(path)), True, "universal parser can parse %r" % path)

    def opened():
        return open(path, "rb") if case["binary"] else open(path, encoding="utf-8")
    if case["mxml"] is not None and not suffix.endswith("gz"):
        case = dict(case, binary=True)     # the document may be in another encoding
    with opened() as file:
        universal = XUniversalParser.parse(file)
    with opened() as file:
        direct = PARSER_OF[suffix]().parse(file)
    if case["mxml"] is not None:
        expected = mxdocs.expected(case["mxml"])
        lib.same(expected, [mxdocs.dump(log) for log in universal], "universal parser")
        lib.same(expected, [mxdocs.dump(log) for log in direct], "direct parser")
    else:
        expected = [lib.expected_log(case["log"], written=True)]
        lib.same(expected, dump(universal), "universal parser")
        lib.same(expected, dump(direct), "direct parser")
    return ["suffix " + suffix]


@st.composite
def serializer_cases(draw):
    return {"log": draw(gen.logs(depth=1, max_traces=2)), "which": draw(st.integers(0, 7)),
            "case": draw(st.sampled_from(["lower", "upper", "title"]))}


def check_serializers(case):
    """Whatever a registered serializer declares as its suffix can be read back by the universal parser."""
    registered = {type(s): s for s in XSerializerRegistry().get_available()}
    lib.equal(set(registered), set(SERIALIZERS), "registered serializers")
    for kind, suffixes in SERIALIZERS.items():
        lib.equal(set(registered[kind].get_suffices()), suffixes, "suffixes of %s" % kind.__name__)
    pairs = sorted(((kind.__name__, kind, suffix) for kind in SERIALIZERS for suffix in registered[kind].get_suffices()),
                   key=lambda p: (p[0], p[2]))
    name, kind, suffix = pairs[case["which"] % len(pairs)]
    spec = dict(case["log"], attrs=[], traces=[dict(t, attrs=[], events=[{"attrs": []} for _ in t["events"]])
                                               for t in case["log"]["traces"]]) if "mxml" in suffix else case["log"]
    shown = {"lower": suffix, "upper": suffix.upper(), "title": suffix.title()}[case["case"]]
    path = Scratch.file("out." + shown)
    with open(path, "w", encoding="utf-8") as out:
        registered[kind].serialize(lib.make_log(spec), out)
    lib.check(XUniversalParser.can_parse(path), "universal parser refuses %r" % path)
    with open(path, "rb") as file:
        logs = XUniversalParser.parse(file)
    lib.equal(len(logs), 1, "number of logs")
    if "mxml" in suffix:
        lib.equal([len(t) for t in logs[0]], [len(t["events"]) for t in lib.expand(spec) if t["events"]], "events per trace")
    else:
        lib.same(lib.expected_log(spec, written=True), lib.dump_log(logs[0]), "read log")
    return ["%s .%s" % (name, suffix)]


class PlainParser:
    """A custom parser for the registry."""
    def __init__(self, suffix):
        self.suffix = suffix

    def can_parse(self, file):
        return file.endswith(self.suffix)

    def parse(self, file):
        return [self.suffix, file.read()]


class FailingParser(PlainParser):
    """One that accepts a file and then cannot read it."""
    def __init__(self, suffix, message):
        super().__init__(suffix)
        self.message = message

    def parse(self, file):
        raise ValueError(self.message)


registered_suffixes = []


@st.composite
def custom_cases(draw):
    letters = st.text("abcdefgh", min_size=3, max_size=5)
    return {"new": draw(letters), "probes": draw(st.lists(letters, max_size=3)), "content": draw(st.text("abc<>&", max_size=20)),
            "fails": draw(st.lists(gen.texts(), max_size=3)), "bad": draw(st.sampled_from([".xes", ".xml", ".xez", ".mxml.gz", ".txt", ""]))}


def check_custom(case):
    new = "._" + case["new"]
    if new not in registered_suffixes:
        registered_suffixes.append(new)
        XParserRegistry().register(PlainParser(new))
        for message in case["fails"]:       # which of these is tried first is not known
            XParserRegistry().register(FailingParser(new, message))
    for probe in [new] + registered_suffixes[-3:] + ["._" + p for p in case["probes"]]:
        known = probe in registered_suffixes
        path = Scratch.file("file" + probe)
        with open(path, "w") as out:
            out.write(case["content"])
        lib.equal(bool(XUniversalParser.can_parse(path)), known, "universal parser can parse %r" % probe)
        with open(path) as file:
            try:
                result = XUniversalParser.parse(file)
            except Exception:
                result = None
        lib.equal(result, [probe, case["content"]] if known else None, "universal parser on %r" % probe)
    # not in the format its name says, or in none
    path = Scratch.file("file" + case["bad"])
    with open(path, "w") as out:
        out.write(case["content"])
    with open(path) as file:
        try:
            result = XUniversalParser.parse(file)
        except Exception:
            result = None
    lib.check(result is None, "a file %r with text %r was read as %r" % (case["bad"], case["content"], result))


SUBS = [
    Sub("names", names, check_names, lambda n: accepted(n, sorted(PARSER_OF)) or "." in n,
        "random file names made of suffix-like pieces in any case; non-trivial: with a dot", 8000),
    Sub("formats", formats, check_formats, lambda c: True,
        "random content written under every suffix in any case, read by the universal and the direct parser; all non-trivial", 1000),
    Sub("serializers", serializer_cases, check_serializers, lambda c: gen.has_content(c["log"]),
        "random logs written by every registered serializer under each suffix it declares; non-trivial: log with attributes", 600),
    Sub("custom", custom_cases, check_custom, lambda c: True,
        "custom parsers added to the registry, and files no parser can read; all non-trivial", 800),
]
ASSUMPTIONS = ["a name that is nothing but a suffix is not claimed", "of the registered parsers that accept the same name, one at most can read the file"]
