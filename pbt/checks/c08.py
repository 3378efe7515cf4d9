"""C08: reading MXML puts every datum on the element it belongs to."""
import gzip

from hypothesis import strategies as st

import lib
import mxdocs
from harness import Scratch, Sub
from opyenxes.data_in.XMxmlGZIPParser import XMxmlGZIPParser
from opyenxes.data_in.XMxmlParser import XMxmlParser


@st.composite
def cases(draw):
    return {"doc": draw(mxdocs.documents()), "mode": draw(st.sampled_from(["memory", "memory", "memory", "file", "gzip"]))}


def check(case):
    doc = case["doc"]
    if case["mode"] == "memory":
        logs = mxdocs.parse(doc)
    else:
        path = Scratch.file("log.mxml" + (".gz" if case["mode"] == "gzip" else ""))
        with (gzip.open if case["mode"] == "gzip" else open)(path, "wb") as out:
            out.write(mxdocs.render(doc))
        with open(path, "rb") as file:
            logs = (XMxmlGZIPParser if case["mode"] == "gzip" else XMxmlParser)().parse(file)
    lib.same(mxdocs.expected(doc), [mxdocs.dump(log) for log in logs], "read logs")
    events = [str(e.get_id()) for log in logs for t in log for e in t]
    lib.equal(len(set(events)), len(events), "number of event identities")
    return mxdocs.labels(doc) + ["mode " + case["mode"]]


@st.composite
def one_entry(draw):
    doc = {"source": None, "salt": draw(st.integers(0, 2**31)), "enc": "utf-8",
           "processes": [{"id": "p", "description": None, "ref": None, "data": [],
                          "instances": [{"id": "1", "description": None, "ref": None, "data": [], "late": [],
                                         "entries": [draw(mxdocs.entries())]}]}]}
    return {"doc": doc, "mode": "memory"}


def entry_count(case):
    return sum(len(i["entries"]) for p in case["doc"]["processes"] for i in p["instances"])


SUBS = [
    Sub("document", cases, check, lambda c: entry_count(c) > 0,
        "random MXML documents; non-trivial: at least one audit trail entry", 2400),
    Sub("entry", one_entry, check, lambda c: True, "one audit trail entry with parts in any order; all non-trivial", 3000),
]
ASSUMPTIONS = ["names of data attributes differ from each other and from the keys MXML elements are mapped to",
               "descriptions and names are not blank, an unknown type is not called UNKNOWN"]
