"""Builds library objects from specs and dumps library objects to plain data.

Only the public interface of opyenxes is used, so that refactorings of its
internals do not matter.
"""
import datetime
import functools
import hashlib
import json
import os
import uuid
from urllib.parse import urlparse

import gen
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
from opyenxes.extension.XExtension import XExtension
from opyenxes.extension.XExtensionManager import XExtensionManager
from opyenxes.factory.XFactory import XFactory
from opyenxes.id.XID import XID
from opyenxes.model.XAttributeBoolean import XAttributeBoolean
from opyenxes.model.XAttributeContainer import XAttributeContainer
from opyenxes.model.XAttributeContinuous import XAttributeContinuous
from opyenxes.model.XAttributeDiscrete import XAttributeDiscrete
from opyenxes.model.XAttributeID import XAttributeID
from opyenxes.model.XAttributeList import XAttributeList
from opyenxes.model.XAttributeLiteral import XAttributeLiteral
from opyenxes.model.XAttributeMap import XAttributeMap
from opyenxes.model.XAttributeTimestamp import XAttributeTimestamp
from opyenxes.model.XEvent import XEvent
from opyenxes.model.XLog import XLog
from opyenxes.model.XTrace import XTrace

CLASS_OF = {"string": XAttributeLiteral, "date": XAttributeTimestamp, "int": XAttributeDiscrete,
            "float": XAttributeContinuous, "boolean": XAttributeBoolean, "id": XAttributeID,
            "list": XAttributeList, "container": XAttributeContainer}
TAG_OF = {cls: tag for tag, cls in CLASS_OF.items()}

_extensions = {}


def extension(prefix):
    """The registered extension with the prefix; registers the custom ones on first use."""
    if prefix is None:
        return None
    if not _extensions:
        manager = XExtensionManager()
        for name, custom, uri in gen.CUSTOM:
            _extensions[custom] = XExtension(name, custom, urlparse(uri))
            manager.register(_extensions[custom])
        for standard in gen.STANDARD_PREFIXES:
            _extensions[standard] = manager.get_by_prefix(standard)
    if prefix not in _extensions and prefix.startswith("twin:"):
        # another extension that is only in its URI different
        model = _extensions[prefix[5:]]
        _extensions[prefix] = XExtension(model.get_name(), model.get_prefix(), urlparse("http://example.org/twin/%s" % model.get_prefix()))
    return _extensions[prefix]


# ---- values -----------------------------------------------------------------------
def make_datetime(parts):
    year, month, day, hour, minute, second, micro, offset = parts
    zone = None if offset is None else datetime.timezone(datetime.timedelta(minutes=offset))
    return datetime.datetime(year, month, day, hour, minute, second, micro, zone)


def make_value(kind, value):
    if kind == "date":
        return make_datetime(value)
    if kind == "int":
        return int(value)
    if kind == "float":
        return float(value)
    if kind == "id":
        return XID(uuid.UUID(value))
    return value


def millis_value(parts):
    """What is left of a timestamp when it is written: [seconds since year 1 in UTC, ms, offset]."""
    return list(parts[:6]) + [parts[6] // 1000, parts[7] or 0]


def datetime_value(value):
    if not isinstance(value, datetime.datetime):
        raise AssertionError("not a datetime: %r" % (value,))
    offset = value.utcoffset()
    if offset is None:
        minutes = None
    else:
        minutes = offset.total_seconds() / 60
        minutes = int(minutes) if minutes == int(minutes) else minutes
    return [value.year, value.month, value.day, value.hour, value.minute, value.second, value.microsecond, minutes]


def dump_value(kind, value):
    """The spec form of a value; checks its Python type."""
    expected = {"string": str, "int": int, "float": float, "boolean": bool, "id": XID,
                "date": datetime.datetime}[kind]
    if type(value) is not expected:
        raise AssertionError("%s value is %r (%s)" % (kind, value, type(value).__name__))
    if kind == "date":
        return datetime_value(value)
    if kind == "int":
        return str(value)
    if kind == "float":
        return repr(value)
    if kind == "id":
        return str(value.get_uuid())
    return value


# ---- building ---------------------------------------------------------------------
class Shared:
    """While a log is made: the parts it has so far, where equal parts are to be the same object."""
    known = None

    @classmethod
    def part(cls, make):
        @functools.wraps(make)
        def found(spec, *args, **kw):
            if cls.known is None:
                return make(spec, *args, **kw)
            key = make.__name__ + json.dumps(spec, sort_keys=True)
            if key not in cls.known:
                cls.known[key] = make(spec, *args, **kw)
            return cls.known[key]
        return found


@Shared.part
def make_attribute(spec, factory=XFactory, bind=True, children_in_map=False):
    """:param bind: give the attribute the known extension its key belongs to."""
    key = spec["k"]
    ext = spec["e"] if "e" in spec else (gen.key_extension(key) if bind else None)
    ext = extension(ext)
    kind = spec["t"]
    if kind in gen.COLLECTIONS:
        create = factory.create_attribute_list if kind == "list" else factory.create_attribute_container
        attribute = create(key, ext)
        for child in spec["a"]:
            built = make_attribute(child, factory, bind, children_in_map)
            attribute.add_to_collection(built)
            if children_in_map:
                attribute.get_attributes()[built.get_key()] = built
        return attribute
    create = {"string": factory.create_attribute_literal, "date": factory.create_attribute_timestamp,
              "int": factory.create_attribute_discrete, "float": factory.create_attribute_continuous,
              "boolean": factory.create_attribute_boolean, "id": factory.create_attribute_id}[kind]
    attribute = create(key, make_value(kind, spec["v"]), ext)
    put(attribute, spec["a"], factory, bind, children_in_map)
    return attribute


def put(element, attrs, factory=XFactory, bind=True, children_in_map=False):
    for child in attrs:
        built = make_attribute(child, factory, bind, children_in_map)
        element.get_attributes()[built.get_key()] = built


@Shared.part
def make_event(spec, factory=XFactory, **kw):
    event = factory.create_event()
    put(event, spec["attrs"], factory, **kw)
    return event


@Shared.part
def make_trace(spec, factory=XFactory, **kw):
    trace = factory.create_trace()
    put(trace, spec["attrs"], factory, **kw)
    for event in spec["events"]:
        trace.append(make_event(event, factory, **kw))
    return trace


def make_classifier(spec):
    return XEventAttributeClassifier(spec[0], list(spec[1]))


def make_log(spec, factory=XFactory, **kw):
    Shared.known = {} if spec.get("share") else None
    try:
        return make_parts(spec, factory, **kw)
    finally:
        Shared.known = None


def make_parts(spec, factory, **kw):
    log = factory.create_log()
    put(log, spec["attrs"], factory, **kw)
    for prefix in spec.get("ext", []):
        log.get_extensions().add(extension(prefix))
    for name, target in (("gt", log.get_global_trace_attributes()), ("ge", log.get_global_event_attributes())):
        for attr in spec.get(name, []):
            target.append(make_attribute(attr, factory, **kw))
    for classifier in spec.get("cl", []):
        log.get_classifiers().append(make_classifier(classifier))
    for trace in expand(spec):
        log.append(make_trace(trace, factory, **kw))
    return log


def expand(spec):
    """The traces of a log spec, repeated as it says."""
    repeat = spec.get("rep", 1)
    if repeat == 1:
        return spec["traces"]
    return [dict(t, events=t["events"] * (1 + repeat // 8)) for t in spec["traces"]] * repeat


# ---- dumping ----------------------------------------------------------------------
def dump_attribute(attribute, collections="list"):
    tag = TAG_OF.get(type(attribute))
    if tag is None:
        raise AssertionError("unexpected attribute class %s" % type(attribute).__name__)
    ext = attribute.get_extension()
    out = {"t": tag, "k": attribute.get_key(), "e": None if ext is None else ext.get_uri().geturl()}
    if tag in gen.COLLECTIONS:
        out["a"] = [dump_attribute(child) for child in attribute.get_collection()]
    else:
        out["v"] = dump_value(tag, attribute.get_value())
        out["a"] = dump_map(attribute)
    return out


def dump_map(element):
    out = []
    for key, attribute in element.get_attributes().items():
        if key != attribute.get_key():
            raise AssertionError("attribute %r is filed under %r" % (attribute.get_key(), key))
        out.append(dump_attribute(attribute))
    return out


def dump_trace(trace):
    if not isinstance(trace, XTrace):
        raise AssertionError("not a trace: %r" % type(trace))
    events = []
    for event in trace:
        if not isinstance(event, XEvent):
            raise AssertionError("not an event: %r" % type(event))
        events.append({"attrs": dump_map(event)})
    return {"attrs": dump_map(trace), "events": events}


def dump_log(log):
    if not isinstance(log, XLog):
        raise AssertionError("not a log: %r" % type(log))
    return {"attrs": dump_map(log),
            "ext": sorted([e.get_name(), e.get_prefix(), e.get_uri().geturl()] for e in log.get_extensions()),
            "gt": [dump_attribute(a) for a in log.get_global_trace_attributes()],
            "ge": [dump_attribute(a) for a in log.get_global_event_attributes()],
            "cl": [[c.name(), list(c.get_defining_attribute_keys())] for c in log.get_classifiers()],
            "traces": [dump_trace(t) for t in log]}


# ---- expected dumps, straight from specs ---------------------------------------------
URI_OF = {"concept": "http://www.xes-standard.org/concept.xesext", "cost": "http://www.xes-standard.org/cost.xesext",
          "identity": "http://www.xes-standard.org/identity.xesext",
          "lifecycle": "http://www.xes-standard.org/lifecycle.xesext",
          "micro": "http://www.xes-standard.org/micro.xesext", "org": "http://www.xes-standard.org/org.xesext",
          "semantic": "http://www.xes-standard.org/semantic.xesext", "time": "http://www.xes-standard.org/time.xesext"}
URI_OF.update({prefix: uri for _, prefix, uri in gen.CUSTOM})
NAME_OF = {"concept": "Concept", "cost": "Cost", "identity": "Identity", "lifecycle": "Lifecycle", "micro": "Micro",
           "org": "Organizational", "semantic": "Semantic", "time": "Time"}
NAME_OF.update({prefix: name for name, prefix, _ in gen.CUSTOM})


def expected_attribute(spec, written=False, bind=True):
    """:param written: as it looks after writing and reading."""
    ext = spec["e"] if "e" in spec else (gen.key_extension(spec["k"]) if bind else None)
    out = {"t": spec["t"], "k": spec["k"], "e": URI_OF[ext] if ext is not None else None}
    if spec["t"] not in gen.COLLECTIONS:
        value = spec["v"]
        if spec["t"] == "date" and written:
            value = value[:6] + [value[6] // 1000 * 1000, value[7] or 0]
        if spec["t"] == "id":
            value = value.lower()
        out["v"] = value
    out["a"] = [expected_attribute(a, written, bind) for a in spec["a"]]
    return out


def expected_map(attrs, written=False, bind=True):
    return [expected_attribute(a, written, bind) for a in attrs]


def expected_log(spec, written=False, bind=True):
    return {"attrs": expected_map(spec["attrs"], written, bind),
            "ext": sorted([NAME_OF[p], p, URI_OF[p]] for p in spec.get("ext", [])),
            "gt": expected_map(spec.get("gt", []), written, bind),
            "ge": expected_map(spec.get("ge", []), written, bind),
            "cl": [[name, list(keys)] for name, keys in spec.get("cl", [])],
            "traces": [{"attrs": expected_map(t["attrs"], written, bind),
                        "events": [{"attrs": expected_map(e["attrs"], written, bind)} for e in t["events"]]}
                       for t in expand(spec)]}


def difference(expected, actual, path=""):
    """Where two plain structures differ first, as text; None if equal."""
    if type(expected) is not type(actual):
        return "%s: expected %r, got %r" % (path or "result", _short(expected), _short(actual))
    if isinstance(expected, dict):
        for key in expected:
            if key not in actual:
                return "%s/%s is missing" % (path, key)
            found = difference(expected[key], actual[key], "%s/%s" % (path, key))
            if found:
                return found
        extra = [k for k in actual if k not in expected]
        return "%s: unexpected %r" % (path, extra) if extra else None
    if isinstance(expected, (list, tuple)):
        for index, (a, b) in enumerate(zip(expected, actual)):
            found = difference(a, b, "%s[%d]" % (path, index))
            if found:
                return found
        if len(expected) != len(actual):
            return "%s: expected %d items, got %d: %s / %s" % (path, len(expected), len(actual),
                                                               _short(expected), _short(actual))
        return None
    if expected != actual:
        return "%s: expected %r, got %r" % (path or "result", _short(expected), _short(actual))
    return None


def _short(value):
    text = repr(value)
    return text if len(text) < 300 else text[:300] + "..."


def same(expected, actual, what=""):
    found = difference(expected, actual)
    if found:
        raise AssertionError((what + ": " if what else "") + found)


def equal(actual, expected, what):
    if type(actual) is not type(expected) or actual != expected:
        raise AssertionError("%s: expected %r, got %r" % (what, expected, actual))


def check(condition, what):
    if not condition:
        raise AssertionError(what)


def exercise_timezone(name):
    import time
    os.environ["TZ"] = name
    time.tzset()


def unbind(dump):
    """A dump without the extensions of attributes."""
    if isinstance(dump, dict):
        return {k: unbind(v) for k, v in dump.items() if k != "e"}
    if isinstance(dump, list):
        return [unbind(v) for v in dump]
    return dump


# ---- full snapshots: everything observable, identities included -------------------------
def snap_attribute(attribute, known=None, depth=0):
    """What there is to see of an attribute.

    A child may be both in the map and in the collection of its parent, on every level: each
    attribute is looked at once, and deeper levels are summed up.
    """
    known = {} if known is None else known
    place = id(attribute), depth > 3
    if place in known:
        return known[place][1]
    ext = attribute.get_extension()
    out = [type(attribute).__name__, attribute.get_key(), None if ext is None else id(ext)]
    if isinstance(attribute, (XAttributeList, XAttributeContainer)):
        out.append([snap_attribute(a, known, depth + 1) for a in attribute.get_collection()])
    else:
        out.append(repr(attribute.get_value() if not isinstance(attribute, XAttributeID) else str(attribute.get_value())))
    out.append(snap_map(attribute, known, depth + 1))
    if depth > 3 and isinstance(out[3], list):
        out = hashlib.sha1(json.dumps(out).encode()).hexdigest()
    known[place] = attribute, out
    return out


def snap_map(element, known=None, depth=0):
    known = {} if known is None else known
    return [[key, snap_attribute(a, known, depth)] for key, a in element.get_attributes().items()]


def fresh(cls):
    """Another instance of a singleton, or None where its class does not let one be made."""
    try:
        another = type.__call__(cls)
    except TypeError:
        return None
    return None if another is cls() else another


def walk(attributes):
    """The given attributes and all below, each object once."""
    seen = {}
    stack = list(reversed(list(attributes)))
    while stack:
        attribute = stack.pop()
        if id(attribute) in seen:
            continue
        seen[id(attribute)] = attribute
        below = list(attribute.get_collection()) if isinstance(attribute, (XAttributeList, XAttributeContainer)) else []
        stack.extend(reversed(below + list(attribute.get_attributes().values())))
    return list(seen.values())


def snap_event(event):
    return [str(event.get_id()), snap_map(event)]


def snap_trace(trace):
    return [snap_map(trace), [snap_event(e) for e in trace]]


def snap_log(log):
    return {"map": snap_map(log), "ext": [id(e) for e in log.get_extensions()],
            "gt": [snap_attribute(a) for a in log.get_global_trace_attributes()],
            "ge": [snap_attribute(a) for a in log.get_global_event_attributes()],
            "cl": [[type(c).__name__, c.name(), list(c.get_defining_attribute_keys())] for c in log.get_classifiers()],
            "features": dict(log.get_features()), "traces": [snap_trace(t) for t in log]}


# ---- texts of values, as attributes show them ---------------------------------------------
def value_text(spec):
    kind = spec["t"]
    if kind in gen.COLLECTIONS:
        return "[" + ",".join(c["k"] + ":" + value_text(c) for c in spec["a"]) + "]"
    value = spec["v"]
    if kind == "boolean":
        return "true" if value else "false"
    if kind == "id":
        return value.upper()
    if kind == "float":
        return {"inf": "INF", "-inf": "-INF", "nan": "NaN"}.get(value, value)
    if kind == "date":
        year, month, day, hour, minute, second, micro, offset = value
        zone = "Z"
        if offset:
            zone = "%s%02d:%02d" % ("-" if offset < 0 else "+", abs(offset) // 60, abs(offset) % 60)
        return "%04d-%02d-%02dT%02d:%02d:%02d.%03d%s" % (year, month, day, hour, minute, second, micro // 1000, zone)
    return value


def identity(keys, attrs):
    """Reference: the class identity of an event with these attributes for a classifier with these keys."""
    texts = {a["k"]: value_text(a) for a in attrs}
    return "&&".join(texts.get(key, "") for key in keys)


# ---- summaries ----------------------------------------------------------------------------
ALL_TYPES = list(CLASS_OF.values())


def check_attribute_info(info, registered, what, ordered=True):
    """Compares attribute statistics with the attributes that were registered.

    :param ordered: they were registered in this order, so the first of each key is its model.
    """
    first = {}
    counts = {}
    for attribute in registered:
        key = attribute.get_key()
        first.setdefault(key, attribute)
        counts[key] = counts.get(key, 0) + 1
    keys = sorted(first)
    equal(sorted(info.get_attribute_keys()), keys, what + ": keys")
    prototypes = list(info.get_attributes())
    equal(sorted(p.get_key() for p in prototypes), keys, what + ": keys of the prototypes")
    for prototype in prototypes:
        if not ordered:
            first[prototype.get_key()] = next(
                (a for a in registered if a.get_key() == prototype.get_key() and type(a) is type(prototype)
                 and a.get_extension() == prototype.get_extension()), first[prototype.get_key()])
        model = first[prototype.get_key()]
        check(type(prototype) is type(model), "%s: prototype of %r is a %s instead of a %s" % (
            what, model.get_key(), type(prototype).__name__, type(model).__name__))
        check(prototype.get_extension() == model.get_extension(), "%s: extension of the prototype of %r is %s instead of %s" % (
            what, model.get_key(), prototype.get_extension(), model.get_extension()))
        check(all(prototype is not a for a in registered), "%s: prototype of %r is the registered attribute" % (what, model.get_key()))
    for key in keys:
        share = counts[key] / len(registered)
        for element in (key, first[key]):
            equal(info.get_frequency(element), counts[key], "%s: frequency of %r" % (what, key))
            relative = info.get_relative_frequency(element)
            check(isinstance(relative, (int, float)) and abs(relative - share) <= 1e-13,
                  "%s: relative frequency of %r is %r instead of %r" % (what, key, relative, share))
    by_key = {p.get_key(): p for p in prototypes}

    def listing(found, found_keys, wanted, which):
        equal(sorted(a.get_key() for a in found), sorted(wanted), "%s: attributes %s" % (what, which))
        equal(sorted(found_keys), sorted(wanted), "%s: keys %s" % (what, which))
        for a in found:
            check(type(a) is type(by_key[a.get_key()]) and a.get_extension() == by_key[a.get_key()].get_extension(),
                  "%s: prototype of %r %s differs" % (what, a.get_key(), which))
    for cls in ALL_TYPES:
        listing(info.get_attributes_for_type(cls), info.get_keys_for_type(cls),
                [k for k in keys if type(first[k]) is cls], "of type " + cls.__name__)
    for prefix in gen.PREFIXES + [p for p in _extensions if p.startswith("twin:")]:
        ext = extension(prefix)
        listing(info.get_attributes_for_extension(ext), info.get_keys_for_extension(ext),
                [k for k in keys if first[k].get_extension() == ext], "of extension " + prefix)
    without = [k for k in keys if first[k].get_extension() is None]
    listing(info.get_attributes_without_extension(), info.get_keys_without_extension(), without, "without extension")
    listing(info.get_attributes_for_extension(None), info.get_keys_for_extension(None), without, "of no extension")


def check_bounds(bounds, times, what, probes=()):
    """Compares time boundaries with the times they should cover."""
    first, last = (min(times), max(times)) if times else (None, None)
    for name, got, wanted in (("start", bounds.get_start_date(), first), ("end", bounds.get_end_date(), last)):
        if wanted is None:
            check(got is None, "%s: %s of empty boundaries is %r" % (what, name, got))
        else:
            check(isinstance(got, datetime.datetime) and got == wanted, "%s: %s is %r instead of %r" % (what, name, got, wanted))
    for probe in probes:
        expected = bool(times) and first <= probe <= last
        equal(bool(bounds.is_within(probe)), expected, "%s: %r within %r and %r" % (what, str(probe), str(first), str(last)))
