"""C04: an unreadable timestamp costs only that attribute."""
import calendar
import copy

from hypothesis import strategies as st

import docs
import gen
import lib
import mxdocs
from checks import c03
from harness import Sub

BAD = ["", " ", "yesterday", "2010-13-01T00:00:00Z", "2010-00-10T00:00:00Z", "2010-02-30T00:00:00.000+01:00",
       "2010-01-01", "10:00:00", "2010-01-01T25:00:00", "2010-01-01T10:60:00Z", "2010-01-01T00:00:00+25:00",
       "2010-01-01T00:00:00.000-30:00", "2010-01-01T00:00:00+xx:00", "2010-01-01T00:00:00+01", "2010-01-01T00:00:00-0100",
       "10000-01-01T00:00:00Z", "0000-01-01T00:00:00Z", "2010-01-01T00:00:00+99999999999999:00", "1262304000000",
       "01.02.2010 10:00", "Fri, 01 Jan 2010 00:00:00 GMT", "2010-01-01T00:00:00.Z", "T", "Z", "+", "-", ":", "+:", "-:",
       "-2010-01-01T00:00:00Z", "2010-01-01 00:00:00", "20100101T000000Z", "2010-01-01T00:00", "\u0662\u0660", "NaN", "None"]


@st.composite
def bad_texts(draw):
    kind = draw(st.integers(0, 4))
    if kind < 2:
        return draw(st.sampled_from(BAD))
    if kind == 2:
        return draw(gen.texts().filter(lambda t: not any(c.isdigit() for c in t)))
    year, month, day, hour, minute, second = draw(gen.datetimes())[:6]
    if kind == 4:       # one field just out of its range
        field = draw(st.sampled_from(["month", "day", "day", "hour", "minute", "second", "zone"]))
        zone = draw(st.sampled_from(["", "Z", "+01:00", "-05:30"]))
        if field == "month":
            month = draw(st.sampled_from([0, 13]))
        elif field == "day":
            month = draw(st.sampled_from([2, month]))
            last = calendar.monthrange(year, month)[1]
            day = draw(st.sampled_from([0, last + 1, last + 1, 32]))
        elif field == "hour":
            hour, minute = draw(st.sampled_from([(24, 1), (25, minute)]))
        elif field == "minute":
            minute = 60
        elif field == "second":
            second = draw(st.sampled_from([60, 61, 62]))
        else:
            zone = draw(st.sampled_from(["+24:00", "-24:00", "+99:59"]))
        return "%04d-%02d-%02dT%02d:%02d:%02d%s%s" % (year, month, day, hour, minute, second, draw(st.sampled_from(["", ".5", ".123"])), zone)
    good = "%04d-%02d-%02dT%02d:%02d:%02d" % (year, month, day, hour, minute, second)
    position = draw(st.integers(0, len(good) - 1))
    return good[:position] + draw(st.sampled_from(["x", "?", "T", "#"])) + good[position + (good[position] != "T"):] \
        if good[position] != "T" else good.replace("T", " T ")


def attribute_lists(spec):
    found = []

    def walk(attrs):
        found.append(attrs)
        for attr in attrs:
            walk(attr["a"])
    for name in ("attrs", "gt", "ge"):
        walk(spec[name])
    for trace in spec["traces"]:
        walk(trace["attrs"])
        for event in trace["events"]:
            walk(event["attrs"])
    return found


@st.composite
def cases(draw):
    doc = copy.deepcopy(draw(docs.documents(max_traces=2)))
    for _ in range(draw(st.sampled_from([1, 1, 2, 3, 6]))):
        lists = attribute_lists(doc)
        target = lists[draw(st.integers(0, len(lists) - 1))]
        bad = {"t": "date", "k": draw(st.one_of(st.just("time:timestamp"), gen.keys())), "v": draw(bad_texts()), "raw": True,
               "a": copy.deepcopy(draw(gen.maps(depth=1))) if draw(st.booleans()) else []}
        target.insert(draw(st.integers(0, len(target))), bad)
    return {"doc": doc, "mode": draw(st.sampled_from(["memory", "memory", "memory", "text", "bytes", "gzip"]))}


def without_bad(value):
    if isinstance(value, dict):
        return {k: without_bad(v) for k, v in value.items()}
    if isinstance(value, list):
        return [without_bad(v) for v in value if not (isinstance(v, dict) and v.get("raw"))]
    return value


def check(case):
    doc = case["doc"]
    lib.extension("x")
    logs = c03.parse(docs.render(doc), case["mode"], doc["enc"])
    lib.equal(len(logs), 1, "number of logs")
    clean = without_bad(doc)
    lib.same(docs.expected(clean), c03.dump(logs[0]), "read log")
    direct = c03.parse(docs.render(clean), case["mode"], doc["enc"])
    lib.same(c03.dump(direct[0]), c03.dump(logs[0]), "compared with the document without the dates")
    labels = ["mode " + case["mode"]]
    if any(a.get("raw") and a["a"] for attrs in attribute_lists(doc) for a in attrs):
        labels.append("bad date with children")
    depth = max(_depth(doc, 0), 0)
    labels.append("bad date at nesting depth %d" % min(depth, 4))
    return labels


def _depth(doc, _):
    deepest = 0

    def walk(attrs, depth):
        nonlocal deepest
        for attr in attrs:
            if attr.get("raw"):
                deepest = max(deepest, depth)
            walk(attr["a"], depth + 1)
    for attrs in [doc["attrs"], doc["gt"], doc["ge"]] + [t["attrs"] for t in doc["traces"]] + \
            [e["attrs"] for t in doc["traces"] for e in t["events"]]:
        walk(attrs, 1)
    return deepest


@st.composite
def mxml_cases(draw):
    doc = copy.deepcopy(draw(mxdocs.documents(min_events=1)))
    entries = [e for p in doc["processes"] for i in p["instances"] for e in i["entries"]]
    for _ in range(draw(st.integers(1, 3))):
        entry = entries[draw(st.integers(0, len(entries) - 1))]
        bad = draw(bad_texts())
        entry["timestamp"] = {"bad": bad}
        if "Timestamp" not in entry["order"]:
            entry["order"] = entry["order"] + ["Timestamp"]
    return doc


def check_mxml(doc):
    logs = mxdocs.parse(doc)
    lib.same(mxdocs.expected(doc), [mxdocs.dump(log) for log in logs], "read logs")


SUBS = [
    Sub("xes", cases, check, lambda c: True,
        "random documents with one to six unreadable dates at random places; all non-trivial", 2400),
    Sub("mxml", mxml_cases, check_mxml, lambda c: True,
        "random MXML documents with one to three unreadable event timestamps; all non-trivial", 900),
]
ASSUMPTIONS = ["dates counted as unreadable are ones that no lenient reading of a date and time accepts"]
