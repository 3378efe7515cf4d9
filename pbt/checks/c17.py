"""C17: standard extension accessors store and return what they are given."""
import datetime
import uuid
from urllib.parse import urlparse

from hypothesis import strategies as st

import gen
import lib
from harness import Sub
from opyenxes.extension.std.XConceptExtension import XConceptExtension
from opyenxes.extension.std.XCostExtension import XCostExtension
from opyenxes.extension.std.XExtendedEvent import XExtendedEvent
from opyenxes.extension.std.XIdentityExtension import XIdentityExtension
from opyenxes.extension.std.XLifecycleExtension import XLifecycleExtension
from opyenxes.extension.std.XMicroExtension import XMicroExtension
from opyenxes.extension.std.XOrganizationalExtension import XOrganizationalExtension
from opyenxes.extension.std.XSemanticExtension import XSemanticExtension
from opyenxes.extension.std.XTimeExtension import XTimeExtension
from opyenxes.factory.XFactory import XFactory
from opyenxes.id.XID import XID

ANY = ("log", "trace", "event", "event2", "attribute")
EVENT = ("event", "event2")
TRANSITIONS = ["schedule", "assign", "withdraw", "reassign", "start", "suspend", "resume", "pi_abort", "ate_abort", "complete",
               "autoskip", "manualskip", "unknown"]

# accessor: (extension, suffix of the methods, key, kind of value, elements, wrapper getter, wrapper setter)
ACCESSORS = {
    "name": (XConceptExtension, "name", "concept:name", "text", ANY, "get_name", "set_name"),
    "instance": (XConceptExtension, "instance", "concept:instance", "text", EVENT, "get_instance", "set_instance"),
    "total": (XCostExtension, "total", "cost:total", "amount", ("trace",) + EVENT, None, None),
    "currency": (XCostExtension, "currency", "cost:currency", "text", ("trace",) + EVENT, None, None),
    "amount": (XCostExtension, "amount", "cost:amount", "amount", ("attribute",) + EVENT, None, None),
    "driver": (XCostExtension, "driver", "cost:driver", "text", ("attribute",) + EVENT, None, None),
    "type": (XCostExtension, "type", "cost:type", "text", ("attribute",) + EVENT, None, None),
    "id": (XIdentityExtension, "id", "identity:id", "id", ANY, None, None),
    "model": (XLifecycleExtension, "model", "lifecycle:model", "trimmed", ("log",), None, None),
    "transition": (XLifecycleExtension, "transition", "lifecycle:transition", "trimmed", EVENT, "get_transition", "set_transition"),
    "standard transition": (XLifecycleExtension, "standard_transition", "lifecycle:transition", "transition", EVENT,
                            "get_standard_transition", "set_standard_transition"),
    "level": (XMicroExtension, "level", "micro:level", "level", EVENT, None, None),
    "parent": (XMicroExtension, "parent_id", "micro:parentId", "parent", EVENT, None, None),
    "length": (XMicroExtension, "length", "micro:length", "length", EVENT, None, None),
    "resource": (XOrganizationalExtension, "resource", "org:resource", "text", EVENT, "get_resourse", "set_resource"),
    "role": (XOrganizationalExtension, "role", "org:role", "text", EVENT, "get_role", "set_role"),
    "group": (XOrganizationalExtension, "group", "org:group", "text", EVENT, "get_group", "set_group"),
    "references": (XSemanticExtension, "model_references", "semantic:modelReference", "references", ANY,
                   "get_model_references", "set_model_references"),
    "uris": (XSemanticExtension, "model_reference_uris", "semantic:modelReference", "uris", ANY,
             "get_model_references_uris", "set_model_references_uris"),
    "timestamp": (XTimeExtension, "timestamp", "time:timestamp", "time", EVENT, "get_time_stamp", "set_time_stamp"),
}
TYPE = {"text": "string", "trimmed": "string", "transition": "string", "references": "string", "uris": "string", "amount": "float",
        "id": "id", "parent": "id", "level": "int", "length": "int", "time": "date"}
REMOVABLE = sorted(name for name, found in ACCESSORS.items() if hasattr(found[0], "remove_" + found[1])) or sorted(ACCESSORS)
KEY_TYPE = {key: TYPE[kind] for _, _, key, kind, _, _, _ in ACCESSORS.values()}

WORDS = st.text(st.characters(min_codepoint=0x21, max_codepoint=0x24f, exclude_categories=["Cc", "Cs", "Zs"], exclude_characters="\x85"),
                min_size=1, max_size=8)
POSITIVE = st.one_of(st.floats(min_value=0, exclude_min=True), st.integers(1, 10**6).map(float), st.just(float("inf")))
EPOCH = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)


@st.composite
def uris(draw):
    text = draw(st.sampled_from(["http://a.org/x", "urn:x:y", "http://a.org/b;p?q=1&r=2#f", "#frag", "a/b", "http://u@h:80/"])) + \
        draw(st.text("abc123-_.", max_size=4))
    return text


def some_values(kind):
    """Valid values; 'none' stands for values that are nothing and must be ignored."""
    blank = st.sampled_from([None, "", " ", " \t\n "])
    return {
        "text": st.one_of(gen.texts(), gen.texts(), gen.texts(), blank),
        "trimmed": st.one_of(gen.texts(), gen.texts(), st.sampled_from([" complete ", "standard", " standard\n", "START"]), blank),
        "transition": st.one_of(st.sampled_from(TRANSITIONS), st.sampled_from([" Complete", "START ", "foo", "Pi_Abort", "x y", ""]), gen.texts()),
        "amount": st.one_of(POSITIVE.map(repr), POSITIVE.map(repr), st.sampled_from([None, "0.0", "-1.5", "-inf"])),
        "id": st.one_of(gen.UUIDS, gen.UUIDS, st.none()),
        "parent": st.one_of(gen.UUIDS, gen.UUIDS, st.none()),
        "level": st.one_of(st.integers(1, 10), gen.INTS, st.sampled_from(gen.thresholds()), st.integers(0, 1000), st.sampled_from([0, -1, 1])).map(str),
        "length": st.one_of(st.integers(0, 10), gen.INTS, st.sampled_from(gen.thresholds()), st.integers(0, 1000), st.sampled_from([0, -1, 1])).map(str),
        "references": st.lists(st.one_of(WORDS, uris()), max_size=3),
        "uris": st.lists(uris(), max_size=3),
        "time": st.one_of(gen.datetimes(), st.integers(-2 * 10**12, 4 * 10**12), st.integers(-2 * 10**9, 4 * 10**9).map(lambda s: s * 1000)),
    }[kind]


def blank(text):
    return text is None or not text.strip()


@st.composite
def preset(draw):
    """Attributes an element starts with."""
    attrs = draw(gen.maps(1, width=3))
    out = []
    for attr in attrs:
        if attr["k"] in KEY_TYPE:
            continue
        out.append(attr)
    for key in draw(st.lists(st.sampled_from(sorted(KEY_TYPE)), max_size=3, unique=True)):
        kind = KEY_TYPE[key]
        value = draw(st.lists(WORDS, max_size=3).map(" ".join) if key == "semantic:modelReference" else gen.values(kind))
        out.append({"t": kind, "k": key, "v": value, "a": []})
    return out


@st.composite
def cases(draw):
    steps = []
    few = draw(st.lists(st.sampled_from(sorted(ACCESSORS)), min_size=1, max_size=3))
    targets = {name: draw(st.sampled_from(ACCESSORS[name][4])) for name in few}
    for _ in range(draw(st.sampled_from([1, 2, 4, 8, 14]))):
        name = draw(st.one_of(st.sampled_from(few), st.sampled_from(sorted(ACCESSORS))))
        kind = ACCESSORS[name][3]
        op = draw(st.sampled_from(["assign"] * 6 + ["wrapper"] * 3 + ["remove", "change in place", "new attributes", "share"]))
        if op == "remove" and draw(st.booleans()):
            name = draw(st.sampled_from(REMOVABLE))
            kind = ACCESSORS[name][3]
        target = targets[name] if name in targets and draw(st.integers(0, 2)) else draw(st.sampled_from(ACCESSORS[name][4]))
        if op == "new attributes":
            steps.append([op, draw(st.booleans()), draw(st.sampled_from(EVENT)), draw(preset())])
            continue
        steps.append([op, name, target, draw(some_values(kind))])
    return {"elements": [draw(preset()) for _ in ANY], "steps": steps}


# ---- reference -------------------------------------------------------------------------
def stored(kind, value):
    """('keep',) or ('set', spec value) or ('drop',)"""
    if kind in ("text", "trimmed"):
        return ("keep",) if blank(value) else ("set", value.strip() if kind == "trimmed" else value)
    if kind == "transition":
        known = value.strip().lower()
        return ("set", known if known in TRANSITIONS else "unknown")
    if kind == "amount":
        return ("set", value) if value is not None and float(value) > 0 else ("keep",)
    if kind == "id":
        return ("keep",) if value is None else ("set", value)
    if kind == "parent":
        return ("drop",) if value is None else ("set", value)
    if kind == "level":
        return ("set", value) if int(value) > 0 else ("keep",)
    if kind == "length":
        return ("set", value) if int(value) >= 0 else ("keep",)
    if kind in ("references", "uris"):
        return ("set", " ".join(value)) if value else ("keep",)
    if isinstance(value, int):
        moment = EPOCH + datetime.timedelta(milliseconds=value)
        return ("set", lib.datetime_value(moment))
    return ("set", value)


def argument(kind, value):
    if value is None:
        return None
    if kind == "amount":
        return float(value)
    if kind in ("id", "parent"):
        return XID(uuid.UUID(value))
    if kind in ("level", "length"):
        return int(value)
    if kind == "uris":
        return [urlparse(v) for v in value]
    if kind == "time" and not isinstance(value, int):
        return lib.make_datetime(value)
    return value


def expected_value(kind, spec):
    """What the extractor returns for the attribute spec (None: not there)."""
    if kind in ("references", "uris"):
        references = [] if spec is None else spec["v"].split()
        return [urlparse(r) for r in references] if kind == "uris" else references
    if kind in ("level", "length") and spec is None:
        return -1
    if spec is None:
        return None
    if kind == "transition":
        known = spec["v"].strip().lower()
        return known if known in TRANSITIONS else "unknown"
    return lib.make_value(spec["t"], spec["v"])


def wipe(attrs):
    """Comparable attributes by key; lists of references up to white space."""
    out = {}
    for attr in lib.expected_map(attrs):
        if attr["k"] == "semantic:modelReference":
            attr["v"] = attr["v"].split()
        out[attr["k"]] = attr
    return out


def seen(element):
    out = {}
    for attr in lib.dump_map(element):
        if attr["k"] == "semantic:modelReference":
            attr["v"] = attr["v"].split()
        out[attr["k"]] = attr
    return out


def check_value(actual, expected, what):
    if isinstance(expected, float):
        lib.check(type(actual) in (float, int) and (actual == expected), "%s: expected %r, got %r" % (what, expected, actual))
    else:
        lib.equal(actual, expected, what)


def check(case):
    elements = {"log": XFactory.create_log(), "trace": XFactory.create_trace(), "event": XFactory.create_event(),
                "event2": XFactory.create_event(), "attribute": XFactory.create_attribute_literal("element", "value")}
    model = {}
    for name, attrs in zip(ANY, case["elements"]):
        lib.put(elements[name], attrs)
        model[name] = [dict(a) for a in attrs]
    wrappers = {name: XExtendedEvent.wrap(elements[name]) for name in EVENT}
    labels = set()

    def find(target, key):
        return next((a for a in model[target] if a["k"] == key), None)

    def check_all(what):
        for name in ANY:
            lib.same(wipe(model[name]), seen(elements[name]), "%s: attributes of %s" % (what, name))
        for accessor, (ext, suffix, key, kind, targets, getter, _) in ACCESSORS.items():
            for target in targets:
                expected = expected_value(kind, find(target, key))
                check_value(getattr(ext(), "extract_" + suffix)(elements[target]), expected, "%s: %s of %s" % (what, accessor, target))
                if getter:
                    if target in EVENT:
                        check_value(getattr(wrappers[target], getter)(), expected, "%s: %s of the wrapped %s" % (what, accessor, target))
        model_text = expected_value("trimmed", find("log", "lifecycle:model"))
        lib.equal(bool(XLifecycleExtension().uses_standard_model(elements["log"])), model_text is not None and model_text.strip() == "standard",
                  what + ": uses the standard model")
        for target in EVENT:
            lib.check(wrappers[target].get_attributes() is elements[target].get_attributes(), "attributes of the wrapper")
            lib.equal(bool(wrappers[target].has_attributes()), bool(model[target]), "wrapper has attributes")
            lib.equal({e.get_prefix() for e in wrappers[target].get_extensions()},
                      {e.get_prefix() for e in elements[target].get_extensions()}, "extensions of the wrapper")
    check_all("at first")
    for op, name, target, value in case["steps"]:
        if op == "new attributes":
            holder = lib.make_event({"attrs": value})
            fresh = holder.get_attributes()
            (wrappers if name else elements)[target].set_attributes(fresh)
            model[target] = [dict(a) for a in value]
            lib.check(elements[target].get_attributes() is fresh, "the attributes set for %s" % target)
            labels.add("new attributes")
            check_all("new attributes of " + target)
            continue
        ext, suffix, key, kind, targets, _, setter = ACCESSORS[name]
        what = "%s %s %r on %s" % (op, name, value, target)
        if op == "remove" and hasattr(ext, "remove_" + suffix):
            getattr(ext(), "remove_" + suffix)(elements[target])
            model[target] = [a for a in model[target] if a["k"] != key]
        elif op == "share":
            # another element holds the very same attribute
            spec = find(target, key)
            other = "event" if target != "event" else "event2"
            if spec is not None:
                elements[other].get_attributes()[key] = elements[target].get_attributes()[key]
                model[other] = [a for a in model[other] if a["k"] != key] + [spec]
                labels.add("shared")
        elif op == "change in place":
            # a change to the attribute itself must not be seen anywhere else
            spec = find(target, key)
            effect = stored(kind, value)
            if spec is not None and effect[0] == "set":
                elements[target].get_attributes()[key].set_value(lib.make_value(TYPE[kind], effect[1]))
                spec["v"] = effect[1]
                labels.add("changed in place")
        else:
            if op == "wrapper" and setter and target in EVENT:
                getattr(wrappers[target], setter)(argument(kind, value))
                labels.add("through the wrapper")
            else:
                getattr(ext(), "assign_" + suffix)(elements[target], argument(kind, value))
            effect = stored(kind, value)
            if effect[0] == "set":
                spec = find(target, key)
                fresh = {"t": TYPE[kind], "k": key, "v": effect[1], "a": []}
                if spec is None:
                    model[target].append(fresh)
                else:
                    model[target][model[target].index(spec)] = fresh
                    labels.add("assigned again")
            elif effect[0] == "drop":
                model[target] = [a for a in model[target] if a["k"] != key]
            labels.add("assign " + name if effect[0] == "set" else "ignored value")
        check_all(what)
    copy = wrappers["event"].clone()
    lib.same(seen(elements["event"]), seen(copy), "attributes of the cloned wrapper")
    lib.check(wrappers["event"] == wrappers["event"] and not wrappers["event"] != wrappers["event"], "a wrapper equals itself")
    lib.check(wrappers["event"] != copy and not wrappers["event"] == copy, "a wrapper differs from its clone")
    copy.set_name("another name")
    copy.set_time_stamp(EPOCH)
    check_all("after changing a clone of the wrapper")
    # the prototypes of the extensions are untouched
    for prefix, keys in DECLARED.items():
        extension = lib.extension(prefix)
        lib.equal(sorted({a.get_key() for a in extension.get_defined_attributes()}), keys, "attributes defined by " + prefix)
    return sorted(labels)


DECLARED = {"concept": ["concept:instance", "concept:name"],
            "cost": ["cost:amount", "cost:currency", "cost:driver", "cost:total", "cost:type"],
            "identity": ["identity:id"], "lifecycle": ["lifecycle:model", "lifecycle:transition"],
            "micro": ["micro:length", "micro:level", "micro:parentId"], "org": ["org:group", "org:resource", "org:role"],
            "semantic": ["semantic:modelReference"], "time": ["time:timestamp"]}


# ---- what the extensions declare ---------------------------------------------------------
LEVELS = {  # key: (type, levels)
    "concept:name": ("string", {"log", "trace", "event"}), "concept:instance": ("string", {"event"}),
    "cost:total": ("float", {"trace", "event"}), "cost:currency": ("string", {"trace", "event"}),
    "cost:amount": ("float", {"event"}), "cost:driver": ("string", {"event"}), "cost:type": ("string", {"event"}),
    "identity:id": ("id", {"log", "trace", "event", "meta"}),
    "lifecycle:model": ("string", {"log"}), "lifecycle:transition": ("string", {"event"}),
    "micro:level": ("int", {"event"}), "micro:parentId": ("id", {"event"}), "micro:length": ("int", {"event"}),
    "org:resource": ("string", {"event"}), "org:role": ("string", {"event"}), "org:group": ("string", {"event"}),
    "semantic:modelReference": ("string", {"log", "trace", "event", "meta"}), "time:timestamp": ("date", {"event"}),
}


@st.composite
def decode_cases(draw):
    if draw(st.integers(0, 3)) == 0:
        return draw(gen.texts())
    known = draw(st.sampled_from(TRANSITIONS))
    cases = draw(st.lists(st.booleans(), min_size=len(known), max_size=len(known)))
    text = "".join(c.upper() if up else c for c, up in zip(known, cases))
    return draw(st.sampled_from(["", " ", "\t\n", "x"])) + draw(st.sampled_from([text, text, text, text[:-1], text.replace("_", "")])) + \
        draw(st.sampled_from(["", " ", "\n", "s"]))


def check_decode(text):
    known = text.strip().lower()
    known = known if known in TRANSITIONS else "unknown"
    model = XLifecycleExtension.StandardModel()
    lib.equal(model.decode(text), known, "decoded transition %r" % text)
    lib.equal(list(model.values()), TRANSITIONS, "standard transitions")
    event = XFactory.create_event()
    event.get_attributes()["lifecycle:transition"] = lib.make_attribute({"t": "string", "k": "lifecycle:transition", "v": text, "a": []})
    lib.equal(XLifecycleExtension().extract_standard_transition(event), known, "standard transition of an event")
    for key, (kind, levels) in LEVELS.items():
        ext = lib.extension(key.split(":")[0])
        for level in ("log", "trace", "event", "meta"):
            found = [a for a in getattr(ext, "get_%s_attributes" % level)() if a.get_key() == key]
            lib.equal(len(found), int(level in levels), "%s on level %s" % (key, level))
            for a in found:
                lib.check(type(a) is lib.CLASS_OF[kind] and a.get_extension() is ext, "type and extension of %s on level %s" % (key, level))
    return ["known" if known != "unknown" else "unknown"]


SUBS = [
    Sub("accessors", cases, check, lambda c: any(s[0] in ("assign", "wrapper") for s in c["steps"]),
        "random histories of assigning, removing and changing on five elements, all extractors compared after each step; non-trivial: something is assigned", 1600),
    Sub("transitions", decode_cases, check_decode, lambda t: t.strip() != "",
        "transition texts in any case with surroundings, and the declared attributes; non-trivial: not blank", 1500),
]
ASSUMPTIONS = ["values of preset attributes under standard keys have the documented type",
               "nothing means: no value or a blank text, no positive amount or level, a negative length; a parent without value is removed",
               "life-cycle texts are trimmed; model references contain no white space"]
