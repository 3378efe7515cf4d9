"""Strategies for specs: plain JSON-able descriptions of logs, documents and values."""
import ast
import calendar
import functools
import os
import re

from hypothesis import strategies as st

import hints

TYPES = ["string", "date", "int", "float", "boolean", "id"]
COLLECTIONS = ["list", "container"]

# Extensions besides the standard ones that the checks register: [name, prefix, URI]
CUSTOM = [
    ["My Extension", "my", "http://example.org/my.xesext"],
    ["Grüße & <Co>", "größe", "http://example.org/a?b=c&d=%20e#f"],
    ["X", "x", "urn:x"],
    ["Name", "concept2", "http://example.org/concept.xesext"],
    ["q'\"", "a b", "https://example.org:8080/~q/a'b"],
]
STANDARD_PREFIXES = ["concept", "cost", "identity", "lifecycle", "micro", "org", "semantic", "time"]
PREFIXES = STANDARD_PREFIXES + [c[1] for c in CUSTOM]


@functools.lru_cache(None)
def thresholds():
    """Integers where someone may have drawn a line."""
    found = {int(n) for n in hints.numbers()}
    for power in list(range(17)) + [20, 24, 31, 32, 63, 64]:
        found.update([2**power - 1, 2**power, 2**power + 1])
    for power in range(1, 10):
        found.update([10**power - 1, 10**power, 10**power + 1])
    return sorted(found | {-n for n in found})


def counts(usual, limit=1500, share=1):
    """One of the usual sizes, or one close to a number that is new in the sources (1 in 1 + share)."""
    more = hints.new_sizes(limit)
    return st.one_of(st.sampled_from(more), *[st.sampled_from(usual)] * share) if more else st.sampled_from(usual)


def several(step, longest, least=1):
    """Histories of steps; plain lists would nearly all be short."""
    sizes = sorted({min(longest, n) for n in (least, least + 1, max(least, longest // 3), max(least, 2 * longest // 3))})
    return st.sampled_from(sizes).flatmap(lambda size: st.lists(step, min_size=size, max_size=longest))


def weighted(*pairs):
    """one_of with weights; alternatives that are None are left out."""
    out = []
    for weight, strategy in pairs:
        if strategy is not None:
            out.extend([strategy] * weight)
    return st.one_of(*out)


@functools.lru_cache(None)
def hinted():
    """Texts made with constants that are new in the sources, or None."""
    found = [t for t in hints.new_texts()]
    numbers = [str(n) for n in hints.new_numbers()]
    if not found and not numbers:
        return None
    if not found:
        return st.sampled_from(numbers)
    found = st.sampled_from(found)
    near = st.one_of(st.sampled_from(["a", "b", " ", "1", "A", ":", ".", "_", "-", "x y"]), st.sampled_from(NASTY))
    return st.one_of(found, found, st.tuples(found, near).map("".join), st.tuples(near, found).map("".join),
                     st.tuples(near, found, near).map("".join), found.map(str.upper), found.map(str.lower), found.map(str.swapcase),
                     found.map(str.strip), found.map(lambda t: t[:-1]), found.map(lambda t: t * 2),
                     found.map(lambda t: t.replace("%s", "a").replace("{}", "b").replace("\\", ""))).filter(hints.xml_legal)


NASTY = ["", " ", "  ", "a b", " a", "a ", "&", "<", ">", "\"", "'", "&amp;", "&#10;", "]]>", "<!--", "-->",
         "\n", "\t", "\r", "\r\n", "a\nb", "a\tb", "\\", "\\n", "%s", "%", "{}", "{0}", "$x", "\u00e9", "e\u0301",
         "\u00df", "\u0130", "\u0085", "\u2028", "\u200b", "\u00a0", "\ufeff", "\ufffd", "\U0001f600", "\U0010ffff",
         "None", "none", "null", "true", "True", "false", "0", "1", "-1", "nan", "UNKNOWN", "unknown", "DEFAULT",
         "key", "value", "trace", "event", "log", "list", "=", "/", "a/b", "..", ":", "::", "a:b", "a:", ":a", "&&",
         "\u4e2d\u6587", "\u0645\u0631\u062d\u0628\u0627", "complete", "COMPLETE", "start", "  x  y  "]

CHARS = st.one_of(
    st.characters(min_codepoint=0x20, max_codepoint=0x7e),
    st.sampled_from("\t\n\r&<>\"' :;,.-_/\\=#%[]{}()"),
    st.characters(min_codepoint=0xa0, max_codepoint=0xd7ff),
    st.characters(min_codepoint=0x20, exclude_categories=["Cs", "Cc"]).filter(lambda c: c not in "\ufffe\uffff"),
)


@functools.lru_cache(None)
def texts(allow_empty=True):
    """Any XML-legal text."""
    words = st.sampled_from(["a", "b", "A", "Activity", "register request", "x1", "Pete", "42"])
    sizes = hints.new_sizes(5000)
    base = weighted(
        (1, words), (1, st.sampled_from(NASTY)), (1, st.sampled_from(hints.texts() or NASTY)), (2, hinted()),
        (1, st.text(CHARS, max_size=12)), (1, st.text(CHARS, max_size=6)),
        (1, st.tuples(st.sampled_from(NASTY), st.sampled_from(NASTY), words).map("".join)),
        (1, st.tuples(st.text(CHARS, min_size=1, max_size=3), st.sampled_from([20, 100, 1030])).map(lambda t: t[0] * t[1])),
        (1, st.tuples(st.text(CHARS, min_size=1, max_size=1), st.sampled_from(sizes)).map(lambda t: t[0] * t[1]) if sizes else None),
    )
    return base if allow_empty else base.filter(lambda s: s != "")


@functools.lru_cache(None)
def simple_words():
    words = hinted()
    words = words.map(lambda t: "".join(c for c in t if c > " " and c not in "'\"")).filter(lambda t: t != "") if words is not None else None
    return weighted((2, st.sampled_from(["a", "b", "c", "d", "A", "ab", "a b", "x:y", "concept:name", "\u00e9"])), (1, words), (2,
                     st.text(st.characters(min_codepoint=0x21, max_codepoint=0x17f, exclude_characters="'\"",
                                           exclude_categories=["Cc", "Cs"]), min_size=1, max_size=5)))


STANDARD_KEYS = ["concept:name", "concept:instance", "lifecycle:transition", "lifecycle:model", "org:resource",
                 "org:role", "org:group", "time:timestamp", "semantic:modelReference", "identity:id", "cost:total",
                 "cost:currency", "cost:amount", "cost:driver", "cost:type", "micro:level", "micro:length",
                 "micro:parentId", "time", "description", "source"]


@functools.lru_cache(None)
def keys():
    return st.one_of(
        st.sampled_from(["a", "b", "c", "key", "x"]),
        st.sampled_from(STANDARD_KEYS),
        texts(),
        st.tuples(st.sampled_from(PREFIXES), st.just(":"), texts()).map("".join),
        st.tuples(st.sampled_from(PREFIXES).flatmap(almost), st.just(":"), st.sampled_from(["name", "x", "", "timestamp"])).map("".join),
    )


def almost(prefix):
    """Texts that are nearly the prefix."""
    return st.sampled_from([prefix.upper(), prefix.capitalize(), " " + prefix, prefix + " ", prefix[:-1], prefix + "s", prefix[1:], prefix + prefix])


def key_extension(key):
    """The prefix of the known extension a key belongs to, or None."""
    if ":" in key:
        prefix = key[:key.index(":")]
        if prefix in PREFIXES:
            return prefix
    return None


# ---- times --------------------------------------------------------------------
OFFSETS = st.one_of(st.just(0), st.sampled_from([60, 120, -60, -300, 330, -210, -30, 30, -1, 1, 59, -59, 839, 840, -839, -840]),
                    st.integers(-840, 840))


@st.composite
def datetimes(draw, offsets=None, allow_naive=True, min_year=1, max_year=9999):
    """[year, month, day, hour, minute, second, microsecond, offset in minutes or None]"""
    if draw(st.integers(0, 3)) == 0:
        year = draw(st.integers(min_year, max_year))
    else:
        year = draw(st.sampled_from([y for y in (1969, 1970, 1971, 1999, 2000, 2004, 2010, 2016, 2038, 1900, 2100, 1, 9999, 999)
                                     if min_year <= y <= max_year]))
    month = draw(st.integers(1, 12))
    last = calendar.monthrange(year, month)[1]
    day = draw(st.one_of(st.integers(1, last), st.sampled_from([1, last])))
    hour = draw(st.sampled_from([0, 1, 11, 12, 13, 23, 7]))
    minute = draw(st.one_of(st.integers(0, 59), st.sampled_from([0, 59])))
    second = draw(st.one_of(st.integers(0, 59), st.sampled_from([0, 59])))
    micro = draw(st.one_of(st.sampled_from([0, 1, 999, 1000, 1001, 10000, 100000, 500000, 999000, 999999, 123456, 7000]),
                           st.integers(0, 999).map(lambda m: m * 1000), st.integers(0, 999999)))
    choices = [offsets if offsets is not None else OFFSETS]
    if allow_naive:
        choices.append(st.none())
    offset = draw(st.one_of(*choices))
    if offset is not None and (year, month) in ((1, 1), (9999, 12)):
        offset = 0      # keep the UTC instant representable
    found = [year, month, day, hour, minute, second, micro, offset]
    if hints.new_numbers() and draw(st.integers(0, 3)) == 0:
        place = draw(st.integers(0, 7))
        low, high = [(min_year, max_year), (1, 12), (1, 28), (0, 23), (0, 59), (0, 59), (0, 999999), (-840, 840)][place]
        numbers = hints.new_in(low, high)
        if place == 6:
            numbers = numbers + [n * 1000 for n in numbers if n < 1000]
        if place == 7:
            numbers = sorted(set(numbers) | {n * 60 for n in numbers if abs(n) <= 14}) if offset is not None and offsets is None else []
        if numbers and (place or (month, day) != (2, 29)) and year not in (1, 9999):
            found[place] = draw(st.sampled_from(numbers))
            if place == 1 and day > 28:
                found[2] = 28
            if found[0] in (1, 9999) and found[7] is not None:
                found[7] = 0
    return found


def _new_numbers():
    found = hints.new_numbers()
    return st.sampled_from([int(n) for n in found]) if found else st.integers(-100, 100)


INTS = st.one_of(st.integers(-5, 5), st.deferred(_new_numbers), st.deferred(lambda: st.sampled_from(thresholds())), st.integers(-2**31, 2**31), st.integers(-2**70, 2**70),
                 st.sampled_from([2**31 - 1, 2**31, -2**31, 2**53 + 1, 2**63 - 1, -2**63, 2**64, 10**30, -10**100]))
FLOATS = st.one_of(st.floats(allow_nan=False), st.deferred(lambda: _new_numbers().map(float).filter(lambda n: abs(n) < 1e300)), st.floats(-1000, 1000), st.integers(-10, 10).map(float),
                   st.sampled_from([0.0, -0.0, 0.1, 1e22, 1e16, 1e-7, 5e-324, 1.7976931348623157e308, float("inf"),
                                    float("-inf"), 2.0**53 + 2, 1 / 3]))
UUIDS = st.one_of(st.uuids().map(str), st.sampled_from(["00000000-0000-0000-0000-000000000001",
                                                       "ffffffff-ffff-ffff-ffff-ffffffffffff"]))


def float_out(value):
    """Floats are kept as text in specs, so that JSON keeps them exactly."""
    return repr(value)


def values(kind, naive=True):
    return {"string": texts(), "int": INTS.map(str), "float": FLOATS.map(repr),
            "boolean": st.booleans(), "id": UUIDS, "date": datetimes(allow_naive=naive)}[kind]


# ---- attributes -----------------------------------------------------------------
@st.composite
def attributes(draw, depth=3, key=None, kinds=None, naive=True, width=3):
    """{"t": type, "k": key, "v": value, "a": children}"""
    if key is None:
        key = draw(keys())
    pool = kinds or TYPES + (COLLECTIONS if depth > 0 else [])
    kind = draw(st.sampled_from(pool))
    spec = {"t": kind, "k": key}
    if kind in COLLECTIONS:
        spec["a"] = draw(st.lists(attributes(depth=depth - 1, kinds=kinds, naive=naive, width=width), max_size=width)) if depth > 0 else []
    else:
        spec["v"] = draw(values(kind, naive))
        if depth > 0 and draw(st.integers(0, 3)) == 0:
            spec["a"] = draw(maps(depth - 1, kinds=kinds, naive=naive, width=width))
        else:
            spec["a"] = []
    return spec


@st.composite
def chains(draw):
    """A deeply nested attribute."""
    spec = draw(attributes(depth=0))
    for _ in range(min(60, draw(counts([5, 12, 30])))):
        outer = draw(st.sampled_from(TYPES + COLLECTIONS))
        spec = {"t": outer, "k": draw(st.sampled_from(["n", "m", "concept:name", "x:y"])), "a": [spec]}
        if outer not in COLLECTIONS:
            spec["v"] = draw(values(outer))
    return spec


def maps(depth=2, kinds=None, naive=True, width=3, key=None):
    """Attributes with different keys."""
    return st.lists(attributes(depth=depth, kinds=kinds, naive=naive, width=width, key=None if key is None else key),
                    max_size=width, unique_by=lambda a: a["k"])


@st.composite
def typical_event(draw, naive=True, offsets=None):
    """Attributes as events usually have them."""
    out = []
    if draw(st.integers(0, 4)):
        out.append({"t": "string", "k": "concept:name", "v": draw(st.one_of(st.sampled_from("ABCD"), texts())), "a": []})
    if draw(st.booleans()):
        out.append({"t": "string", "k": "lifecycle:transition", "v": draw(st.sampled_from(
            ["complete", "start", "Complete", "COMPLETE", "schedule", "ate_abort", "foo", "unknown", ""])), "a": []})
    if draw(st.booleans()):
        out.append({"t": "date", "k": "time:timestamp", "v": draw(datetimes(allow_naive=naive, offsets=offsets)), "a": []})
    if draw(st.booleans()):
        out.append({"t": "string", "k": draw(st.sampled_from(["org:resource", "org:role", "org:group"])),
                    "v": draw(st.one_of(st.sampled_from(["Pete", "Sue", ""]), texts())), "a": []})
    return out


@st.composite
def events(draw, depth=2, naive=True):
    attrs = draw(typical_event(naive=naive)) if draw(st.booleans()) else []
    more = draw(maps(depth, naive=naive))
    used = {a["k"] for a in attrs}
    attrs = attrs + [a for a in more if a["k"] not in used]
    return {"attrs": attrs}


@st.composite
def traces(draw, depth=2, naive=True, max_events=4):
    count = draw(st.sampled_from([0, 1, 1, 2, 3, max_events]))
    return {"attrs": draw(maps(depth, naive=naive)),
            "events": [draw(events(depth, naive)) for _ in range(count)]}


FILLING = {"string": "v", "date": [2010, 11, 12, 13, 14, 15, 160000, 60], "int": "17", "float": "1.5", "boolean": True,
           "id": "00000000-0000-0000-0000-000000000012"}


def filling(count, kinds, prefix="f"):
    """Many attributes with different keys."""
    out = []
    for number in range(count):
        kind = kinds[number % len(kinds)]
        out.append({"t": kind, "k": "%s%d" % (prefix, number), "a": []})
        if kind not in COLLECTIONS:
            out[-1]["v"] = FILLING[kind]
    return out


def fill(draw, spec):
    """Makes some part of a log much wider than the other strategies do."""
    count = draw(counts([9, 17, 33, 70]))
    more = filling(count, draw(st.lists(st.sampled_from(TYPES + COLLECTIONS), min_size=1, max_size=3)))
    places = [spec["attrs"], spec["gt"], spec["ge"]]
    for trace in spec["traces"][:2]:
        places.append(trace["attrs"])
        places.extend(event["attrs"] for event in trace["events"][:2])
    nested = [a["a"] for place in places for a in place]
    place = draw(st.sampled_from(nested)) if nested and draw(st.booleans()) else draw(st.sampled_from(places))
    used = {a["k"] for a in place}
    place.extend(a for a in more if a["k"] not in used)


def classifier_keys():
    return st.one_of(st.sampled_from(STANDARD_KEYS), st.sampled_from(["a", "b", "a b", "my key", "k\u00e9y", "a  b", "x&y", "<k>"]),
                     texts().map(clean_classifier_key)).filter(lambda k: k != "")


def clean_classifier_key(text):
    """No apostrophes, no outer or odd white space: the key list of XES cannot hold them."""
    return re.sub(r"[^\S ]", "", text.replace("'", "")).strip()


def classifiers():
    return st.tuples(texts(allow_empty=False), st.lists(classifier_keys(), min_size=1, max_size=4)).map(list)


@st.composite
def logs(draw, depth=2, naive=True, header=True, max_traces=3):
    spec = {"attrs": draw(maps(depth, naive=naive)), "ext": [], "gt": [], "ge": [], "cl": []}
    if draw(st.integers(0, 7)) == 0:
        chain = draw(chains())
        spec["attrs"] = [a for a in spec["attrs"] if a["k"] != chain["k"]] + [chain]
    if header:
        spec["ext"] = draw(st.lists(st.sampled_from(PREFIXES), max_size=5, unique=True))
        spec["gt"] = draw(maps(1, naive=naive, width=2))
        spec["ge"] = draw(maps(1, naive=naive, width=2))
        spec["cl"] = draw(st.lists(classifiers(), max_size=3))
    count = draw(st.sampled_from([0, 1, 1, 2, max_traces]))
    spec["traces"] = [draw(traces(depth, naive)) for _ in range(count)]
    if header and draw(st.integers(0, 15)) == 0:
        fill(draw, spec)
        if draw(st.booleans()):
            spec["cl"].append(["many", ["k%d" % n for n in range(draw(counts([9, 20, 60])))]])
    # big logs: repeat the traces and the events of the traces
    spec["rep"] = draw(counts([1] * 30 + [7, 40], 130, 24))
    if draw(st.integers(0, 15)) == 0:       # equal parts are the same object
        spec["share"] = True
        spec["rep"] = draw(st.sampled_from([2, 3, 9, 17]))
    return spec


def shape_labels(spec):
    """Class labels of a log spec for the evidence."""
    labels = []
    kinds = set()
    deepest = 0

    def walk(attrs, depth):
        nonlocal deepest
        for attr in attrs:
            kinds.add(attr["t"])
            deepest = max(deepest, depth)
            walk(attr["a"], depth + 1)
    for where in ("attrs", "gt", "ge"):
        walk(spec.get(where, []), 1)
    for trace in spec["traces"]:
        walk(trace["attrs"], 1)
        for event in trace["events"]:
            walk(event["attrs"], 1)
    labels.extend("has " + k for k in sorted(kinds))
    if deepest > 1:
        labels.append("nested")
    if deepest > 4:
        labels.append("nested deeper than 4")
    if spec.get("share") and spec["traces"]:
        labels.append("shared parts")
    if spec.get("rep", 1) > 1 and spec["traces"]:
        labels.append("repeated traces")
    for name in ("ext", "gt", "ge", "cl"):
        if spec.get(name):
            labels.append("has " + name)
    return labels


def has_content(spec):
    """Non-trivial log: some attribute somewhere."""
    return bool(spec["attrs"]) or any(t["attrs"] or any(e["attrs"] for e in t["events"]) for t in spec["traces"])
