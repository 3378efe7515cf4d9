"""C03: reading XES builds exactly what the document says."""
import gzip
import io
from urllib.parse import urlparse

from hypothesis import strategies as st

import docs
import files
import gen
import lib
from harness import Scratch, Sub
from isolate import Isolation
from opyenxes.data_in.XesXmlGZIPParser import XesXmlGZIPParser
from opyenxes.data_in.XesXmlParser import XesXmlParser
from opyenxes.extension.XExtension import XExtension
from opyenxes.extension.XExtensionManager import XExtensionManager


def parse(data, mode, encoding="utf-8"):
    if mode == "memory":
        return XesXmlParser().parse(io.BytesIO(data))
    if mode == "slow":
        return XesXmlParser().parse(files.Slow(data, 1 + len(data) % 83))
    if mode == "gzip":
        path = Scratch.file("doc.xes.gz")
        with gzip.open(path, "wb") as out:
            out.write(data)
        with open(path, "rb") as file:
            return XesXmlGZIPParser().parse(file)
    path = Scratch.file("doc.xes")
    with open(path, "wb") as out:
        out.write(data)
    if mode == "text" and encoding == "utf-8":
        with open(path, encoding="utf-8") as file:
            return XesXmlParser().parse(file)
    with open(path, "rb") as file:
        return XesXmlParser().parse(file)


def dump(log):
    out = lib.dump_log(log)
    out["features"] = dict(log.get_features())
    return out


def check(case):
    doc = case["doc"]
    lib.extension("x")
    logs = parse(docs.render(doc), case["mode"], doc.get("enc", "utf-8"))
    lib.equal(len(logs), 1, "number of logs")
    lib.same(docs.expected(doc), dump(logs[0]), "read log")
    ids = [str(e.get_id()) for t in logs[0] for e in t]
    lib.equal(len(set(ids)), len(ids), "number of event identities")
    return gen.shape_labels(doc) + ["mode " + case["mode"], "encoding " + doc.get("enc", "utf-8")] + \
        (["varied layout"] if doc["salt"] else [])


@st.composite
def cases(draw):
    return {"doc": draw(docs.documents()), "mode": draw(st.sampled_from(["memory"] * 3 + ["slow", "text", "bytes", "gzip"]))}


@st.composite
def one_value(draw):
    attr = draw(gen.attributes(depth=1))
    doc = {"attrs": [], "ext": [], "gt": [], "ge": [], "cl": [], "traces": [{"attrs": [], "events": [{"attrs": []}]}],
           "features": {}, "salt": draw(st.integers(0, 2**31)), "enc": draw(st.sampled_from(docs.ENCODINGS))}
    place = draw(st.sampled_from(["log", "trace", "event", "gt", "ge"]))
    {"log": doc["attrs"], "trace": doc["traces"][0]["attrs"], "event": doc["traces"][0]["events"][0]["attrs"],
     "gt": doc["gt"], "ge": doc["ge"]}[place].append(attr)
    return {"doc": doc, "mode": "memory"}


@st.composite
def headers(draw):
    return {"doc": draw(docs.documents(depth=0, max_traces=1)), "mode": "memory"}


# ---- extensions that become known between readings ---------------------------------------------
LATE = ["late", "later", "Late", "l", "l\u00e4te", "time", "x"]
LATE_URIS = ["http://example.org/late/%d" % n for n in range(4)]


@st.composite
def late_cases(draw):
    pick = st.integers(0, len(LATE) - 1)
    place = st.integers(0, len(LATE_URIS) - 1)
    op = st.one_of(st.tuples(st.just("register"), pick, place).map(list), st.tuples(st.just("register"), pick, place).map(list),
                   st.just(["parser"]))
    read = st.tuples(st.just("read"), st.lists(pick, min_size=1, max_size=4, unique=True), st.lists(st.tuples(place, st.booleans()).map(list), max_size=2),
                     st.sampled_from(["log", "trace", "event", "nested", "global"])).map(list)
    return {"ops": draw(gen.several(st.one_of(op, read, read), 12, 2)) + [draw(op), draw(read)]}


def late(case):
    """To be run in a process that knows the standard extensions only; returns what is wrong."""
    manager = XExtensionManager()
    known = {}
    for number in range(8):
        extension = manager.get_by_index(number)
        known[extension.get_uri().geturl()] = extension
    parser = XesXmlParser()
    for op in case["ops"]:
        if op[0] == "parser":
            parser = XesXmlParser()
        elif op[0] == "register":
            uri = LATE_URIS[op[2]]
            known[uri] = XExtension("Late %d" % op[2], LATE[op[1]], urlparse(uri))
            manager.register(known[uri])
        else:
            keys = [LATE[n] + ":key" for n in op[1]]
            attributes = "".join('<string key="%s" value="v"/>' % k for k in keys)
            declared = []
            head = ""
            for n, full in op[2]:
                extension = known.get(LATE_URIS[n])
                if extension is None:
                    head += '<extension name="n" prefix="unknown%d" uri="%s"/>' % (n, LATE_URIS[n])
                elif full and sum(e.get_prefix() == extension.get_prefix() for e in known.values()) == 1:
                    head += '<extension name="%s" prefix="%s" uri="%s"/>' % (extension.get_name(), extension.get_prefix(), LATE_URIS[n])
                    declared.append(extension)
                else:
                    head += '<extension name="n" uri="%s"/>' % LATE_URIS[n]
                    declared.append(extension)
            places = dict.fromkeys(["log", "trace", "event", "nested", "global"], "")
            places[op[3]] = attributes
            text = '<log>%s<global scope="event">%s</global>%s<trace>%s<event>%s<string key="n" value="v">%s</string></event></trace></log>' % (
                head, places["global"], places["log"], places["trace"], places["event"], places["nested"])
            log = parser.parse(io.BytesIO(text.encode()))[0]
            event = log[0][0]
            found = {"log": log.get_attributes(), "trace": log[0].get_attributes(), "event": event.get_attributes(),
                     "nested": event.get_attributes()["n"].get_attributes(),
                     "global": {a.get_key(): a for a in log.get_global_event_attributes()}}[op[3]]
            for key, number in zip(keys, op[1]):
                carriers = [e for e in known.values() if e.get_prefix() == LATE[number]]
                got = found[key].get_extension()
                if not (any(got is e for e in carriers) if carriers else got is None):
                    return "%r is bound to %s, extensions with this prefix: %s" % (
                        key, got and got.get_uri().geturl(), [e.get_uri().geturl() for e in carriers])
            if {id(e) for e in log.get_extensions()} != {id(e) for e in declared}:
                return "the log has %s instead of %s" % (sorted(e.get_uri().geturl() for e in log.get_extensions()),
                                                         sorted(e.get_uri().geturl() for e in declared))
    return None


def check_late(case):
    Isolation.start(late)
    problem = Isolation.run(case)
    lib.check(problem is None, "%s" % problem)
    first = next((n for n, op in enumerate(case["ops"]) if op[0] == "read"), len(case["ops"]))
    return ["registered after reading"] * any(op[0] == "register" for op in case["ops"][first:])


SUBS = [
    Sub("extensions", late_cases, check_late, lambda c: any(o[0] == "register" for o in c["ops"]) and any(o[0] == "read" for o in c["ops"]),
        "extensions registered and replaced between readings with the same or new parsers, each history in a process of its own; non-trivial: "
        "something is registered and read", 500),
    Sub("document", cases, check, lambda c: gen.has_content(c["doc"]),
        "random documents in random layout; non-trivial: at least one attribute", 1300),
    Sub("values", one_value, check, lambda c: True,
        "one attribute in any lexical form at a random place; all non-trivial", 4000),
    Sub("headers", headers, check, lambda c: bool(c["doc"]["ext"] or c["doc"]["cl"] or c["doc"]["features"]),
        "random extension declarations, globals, classifiers and features; non-trivial: at least one", 1200),
]
ASSUMPTIONS = ["documents are valid XES 1.0 apart from the order of XML attributes, the case of tags and booleans, "
               "and `values` elements of XES 2.0 lists", "the renderer pbt/docs.py writes what its spec says"]
