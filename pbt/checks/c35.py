"""C35: the library touches nothing but what it is given."""
import gzip
import os
import re
import xml.parsers.expat as expat

from hypothesis import strategies as st

import docs
import files
import gen
import lib
import mxdocs
import surroundings
from checks import c07, c14
from harness import Scratch, Sub
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
from opyenxes.data_in.XUniversalParser import XUniversalParser
from opyenxes.extension.XExtensionParser import XExtensionParser
from opyenxes.info.XLogInfo import XLogInfo
from opyenxes.info.XLogInfoFactory import XLogInfoFactory

HEADS = ["", "", '<!DOCTYPE log SYSTEM "{url}">', '<!DOCTYPE log PUBLIC "-//X//Y" "{url}">', '<!DOCTYPE log [<!ENTITY x SYSTEM "{url}">]>',
         '<!DOCTYPE log [<!ENTITY % x SYSTEM "{url}">%x;]>', '<!DOCTYPE log SYSTEM "{url}" [<!ENTITY x SYSTEM "{url}">]>',
         '<!DOCTYPE log [<!NOTATION n SYSTEM "{url}"><!ENTITY u SYSTEM "{url}" NDATA n>]>',
         '<?xml-stylesheet type="text/xsl" href="{url}"?>', '<?xml-model href="{url}"?>', '<?include {url}?>']
ROOTS = ["", "", ' xmlns:e="http://www.w3.org/2001/XMLSchema-instance" e:schemaLocation="http://www.xes-standard.org/ {url}"',
         ' xmlns:e="http://www.w3.org/2001/XMLSchema-instance" e:noNamespaceSchemaLocation="{url}"', ' xml:base="{url}"', ' xmlns:e="{url}"']
CHILDREN = ["", "", "&x;", '<xi:include xmlns:xi="http://www.w3.org/2001/XInclude" href="{url}"/>', "<?include {url}?>", '<!-- {url} -->']
DECLARATIONS = ['<extension name="Evil" prefix="evil" uri="{url}"/>', '<extension uri="{url}"/>', '<extension name="Time" prefix="time" uri="{url}"/>',
                '<extension name="{url}" prefix="org" uri="{url}"/>', '<classifier name="{url}" keys="{url}"/>']
URLS = ["file://{secret}", "{secret}", "secret.dtd", "../other/secret.dtd", "http://127.0.0.1:9/x.dtd", "https://127.0.0.1:9/x.xesext", "ftp://127.0.0.1:9/x", "data:text/xml,<log/>"]
SECRET = '<string key="secret" value="s"/>'
NEIGHBOURS = ["log.{form}.tmp", "log.{form}~", "log.{form}.bak", ".log.{form}.swp", "log.{form}.part", "log", "log.xes", "log.xes.gz", "log.mxml", "log.txt",
              "tmp", "temp.{form}", "other.{form}", "secret.dtd", "log.dtd", "log.xsd", "xes.xsd", "LOG.{form}", "log.{form}.lock", "log.{form}.gz"]
BESIDE = NEIGHBOURS + ["log.ini", "log.cfg", "log.json", "log.py", "log.idx", "log.cache", "log.xesext", "log.pickle", "opyenxes.ini", "opyenxes.cfg", ".opyenxes", "xes.rng",
                       "log.{form}.xsd", "log.{form}.dtd", "log.{form}.idx", "log.{form}.json", "log.{form}.md5", "log.xml", "mxml.xsd", "WorkflowLog.xsd", "catalog.xml", "concept.xesext"]
FORMS = ["xes", "xes", "xes.gz", "xez", "mxml", "mxml.gz"]


def kind_of(form):
    return "xes" if form.startswith("xe") else "mxml", form.endswith("gz") or form == "xez"


@st.composite
def reading_cases(draw):
    form = draw(st.sampled_from(FORMS))
    doc = dict(draw(docs.documents() if form.startswith("xe") else mxdocs.documents()), enc="utf-8")
    return {"form": form, "doc": doc, "head": draw(st.sampled_from(HEADS)), "root": draw(st.sampled_from(ROOTS)), "child": draw(st.sampled_from(CHILDREN)),
            "declared": draw(st.lists(st.sampled_from(DECLARATIONS), max_size=2)) if form.startswith("xe") else [], "url": draw(st.sampled_from(URLS)),
            "by": draw(st.sampled_from(["text", "binary", "binary"])), "cwd": draw(st.booleans()), "universal": draw(st.booleans()), "neighbours": sorted(draw(st.sets(st.sampled_from(BESIDE), max_size=8)))}


@st.composite
def writing_cases(draw):
    form = draw(st.sampled_from(FORMS))
    log = draw(gen.logs(naive=False) if form.startswith("xe") else c07.logs())
    return {"form": form, "log": log, "neighbours": sorted(draw(st.sets(st.sampled_from(NEIGHBOURS), max_size=6))), "there": draw(st.booleans()),
            "cwd": draw(st.booleans()), "times": draw(st.integers(1, 3))}


USES = ["clone", "hash", "compare", "summary", "factory summary", "classify", "text", "extension", "extension", "sort", "features"]


@st.composite
def using_cases(draw):
    spec = draw(gen.logs(naive=False))
    spec["traces"] = [dict(t, events=[dict(e, attrs=c14.proper_times(e["attrs"])) for e in t["events"]]) for t in spec["traces"]]
    return {"log": spec, "uses": draw(gen.several(st.sampled_from(USES), 8)), "url": draw(st.sampled_from(URLS)), "head": draw(st.sampled_from(HEADS)), "cwd": draw(st.booleans())}


# ---- surroundings ---------------------------------------------------------------------------
def contents(folder):
    out = {}
    for place, _, names in os.walk(folder):
        for name in names:
            path = os.path.join(place, name)
            with open(path, "rb") as file:
                out[os.path.relpath(path, folder)] = file.read()
    return out


class Guard:
    """Nothing but the stated files may be used in the block."""
    def __init__(self, folder, reads=(), writes=()):
        self.folder, self.reads, self.writes = folder, reads, writes

    def __enter__(self):
        self.files, self.state = contents(self.folder), surroundings.state()
        self.open = surroundings.open_files()
        surroundings.Watch.start()

    def __exit__(self, kind, error, trace):
        surroundings.Watch.stop()
        if kind is not None:
            return
        watch, own = surroundings.Watch, {os.path.abspath(p) for p in self.writes}
        lib.equal([p for p in watch.data_read() if p not in own and p not in self.reads], [], "files that were read")
        lib.equal([p for p in watch.writes if p not in own and not (own and near(p, own)) and not code(p)], [], "changes of files")
        lib.equal(watch.others, [], "other effects")
        after = surroundings.state()
        lib.equal([n for n in self.state if self.state[n] != after[n]], [], "changed settings of the process")
        lib.equal(surroundings.open_files(), self.open, "open files")
        found = contents(self.folder)
        allowed = {os.path.relpath(p, self.folder) for p in own}
        lib.equal(sorted((set(found) ^ set(self.files)) - allowed), [], "files that came or went")
        lib.equal([n for n in self.files if n not in allowed and self.files[n] != found.get(n)], [], "changed files")


def near(effect, own):
    """Helper files beside the target are fine, as long as they are gone in the end."""
    return any(os.path.dirname(path) + os.sep in effect for path in own)


def code(path):
    return path.endswith(".pyc") or "__pycache__" in path


def setting(name):
    """(folder, path in it); an unrelated file lies beside it."""
    path = Scratch.file("mark")
    top = os.path.dirname(path)
    for folder in ("in", "other"):
        os.mkdir(os.path.join(top, folder))
        with open(os.path.join(top, folder, "secret.dtd"), "w") as file:
            file.write(SECRET)
    return top, os.path.join(top, "in", name)


# ---- checks ------------------------------------------------------------------------------------
def hostile(data, case, secret):
    """The document with references to other files."""
    url = case["url"].format(secret=secret).replace("<", "&lt;")
    head, child = case["head"], case["child"]
    if child == "&x;" and "<!ENTITY x" not in head:
        child = ""
    start = []
    parser = expat.ParserCreate()
    parser.StartElementHandler = lambda *_: start.append(parser.CurrentByteIndex) if not start else None
    parser.Parse(data, True)
    found = re.compile(rb"<([^\s/>]+)").match(data, start[0])
    at, end = start[0], found.end()
    opening = re.compile(rb"(?:[^\"'>]|\"[^\"]*\"|'[^']*')*>").match(data, end).end()
    put = {"head": head.format(url=url), "root": case["root"].format(url=url),
           "child": "".join(d.format(url=url) for d in case["declared"]) + child.format(url=url)}
    put = {name: text.encode() for name, text in put.items()}
    if data[opening - 2:opening] == b"/>":
        rest = data[end:opening - 2] + b">" + put["child"] + b"</" + found.group(1) + b">" + data[opening:]
    else:
        rest = data[end:opening] + put["child"] + data[opening:]
    return data[:at] + put["head"] + data[at:end] + put["root"] + rest


def whole(logs):
    """Declarations aside, which are among what is put in."""
    return [[{n: p for n, p in lib.dump_log(log).items() if n not in ("ext", "cl")}, dict(log.get_features())] for log in logs]


def put_beside(names, path, form):
    """Other files in the folder."""
    for name in names:
        near_by = os.path.join(os.path.dirname(path), name.format(form=form))
        if near_by != path and not os.path.exists(near_by):
            with open(near_by, "w") as file:
                file.write("neighbour " + name)


def write_data(path, data, zipped):
    with (gzip.open if zipped else open)(path, "wb") as file:
        file.write(data)


def check_reading(case):
    lib.extension("time")       # registers the additional ones
    form, zipped = kind_of(case["form"])
    top, path = setting("log." + case["form"])
    put_beside(case["neighbours"], path, case["form"])
    parser = XUniversalParser if case["universal"] else (files.ZIPPED if zipped else files.PLAIN)[form][1]()
    data = (docs if form == "xes" else mxdocs).render(case["doc"])
    write_data(path, data, zipped)
    binary = case["by"] == "binary"
    expected = whole(files.read(path, form, zipped, binary, parser))
    write_data(path, hostile(data, case, os.path.join(top, "other", "secret.dtd")), zipped)
    folder = os.getcwd()
    os.chdir(os.path.dirname(path) if case["cwd"] else top)
    try:
        with Guard(top, reads=[path]):
            try:
                logs = files.read(path, form, zipped, binary, parser)
            except Exception:
                if "!DOCTYPE" not in case["head"]:
                    raise
                logs = None     # refusing such documents would be fine as well
    finally:
        os.chdir(folder)
    if logs is not None:
        lib.same(expected, whole(logs), "the log in the document with references")
    with open(path, "rb") as file:
        lib.check(bool(file.read()), "the file is empty now")
    return [case["form"], "doctype" if "DOCTYPE" in case["head"] else "no doctype", "refused" if logs is None else "read"]


def check_writing(case):
    form, zipped = kind_of(case["form"])
    top, path = setting("log." + case["form"])
    put_beside(case["neighbours"], path, case["form"])
    if case["there"]:
        with open(path, "wb") as file:
            file.write(b"old content " * 5000)
    log = lib.make_log(case["log"])
    folder = os.getcwd()
    os.chdir(os.path.dirname(path) if case["cwd"] else top)
    written = []
    try:
        for _ in range(case["times"]):
            with Guard(top, writes=[path]):
                files.write(log, os.path.basename(path) if case["cwd"] else path, form, zipped)
            with open(path, "rb") as file:
                written.append(file.read())
    finally:
        os.chdir(folder)
    logs = files.read(path, form, zipped)
    lib.equal(len(logs), 1, "number of logs")
    lib.equal(len(logs[0]), sum(1 for t in log if len(t) or form == "xes"), "number of traces")
    return [case["form"], "%d neighbours" % min(3, len(case["neighbours"]))]


DEFINITION = """%s<xesextension name="%s" prefix="%s" uri="%s"><log><string key="a"><alias mapping="EN" name="A"/></string></log>
<event><date key="b"><alias mapping="DE" name="B"/></date></event></xesextension>"""


def use(what, log, case, path):
    if what == "clone":
        log.clone()
    elif what == "hash":
        [hash(a) for t in log for a in t.get_attributes().values()]
    elif what == "compare":
        other = log.clone()
        [a == b for t, u in zip(log, other) for a, b in zip(t.get_attributes().values(), u.get_attributes().values())]
    elif what in ("summary", "factory summary"):
        info = (XLogInfo.create if what == "summary" else XLogInfoFactory.create_log_info)(log, XEventAttributeClassifier("c", ["concept:name"]))
        [info.get_event_classes(), info.get_log_time_boundaries(), info.get_trace_attribute_info().get_attribute_keys()]
    elif what == "classify":
        classifier = XEventAttributeClassifier("c", ["concept:name", "x"])
        [classifier.get_class_identity(e) for t in log for e in t]
    elif what == "text":
        [str(a) for t in log for e in t for a in e.get_attributes().values()]
    elif what == "sort":
        for trace in log:
            sorted(trace, key=lambda e: str(e.get_attributes().get("time:timestamp")))
    elif what == "features":
        log.set_features("xes.version", case["url"])
    elif what == "extension":
        try:
            found = XExtensionParser.parse(path)
        except Exception:
            if "!DOCTYPE" not in case["head"]:
                raise
            return
        lib.equal([found.get_name(), len(found.get_log_attributes()), len(found.get_event_attributes()), len(found.get_trace_attributes())], ["Mine", 1, 1, 0], "extension")


def check_using(case):
    top, path = setting("mine.xesext")
    url = case["url"].format(secret=os.path.join(top, "other", "secret.dtd")).replace("<", "&lt;")
    with open(path, "w") as file:
        file.write(DEFINITION % (case["head"].format(url=url), "Mine", "mine", url))
    log = lib.make_log(case["log"])
    folder = os.getcwd()
    os.chdir(os.path.dirname(path) if case["cwd"] else top)
    try:
        with Guard(top, reads=[path]):
            for what in case["uses"]:
                use(what, log, case, path)
    finally:
        os.chdir(folder)
    return sorted(set(case["uses"]))


SUBS = [
    Sub("reading", reading_cases, check_reading, lambda c: bool(c["head"] or c["root"] or c["child"] or c["declared"]),
        "random XES and MXML documents, beside other files, with references to other files and addresses; non-trivial: at least one reference", 900),
    Sub("writing", writing_cases, check_writing, lambda c: gen.has_content(c["log"]),
        "random logs written beside other files; non-trivial: some attribute", 600),
    Sub("using", using_cases, check_using, lambda c: gen.has_content(c["log"]),
        "random uses of random logs and of an extension definition; non-trivial: some attribute", 500),
]
ASSUMPTIONS = ["time:timestamp of an event is a date, with a time zone", "program code may be read at any time", "helper files beside the target are fine if they are gone in the end",
               "documents with a document type declaration may be refused"]
