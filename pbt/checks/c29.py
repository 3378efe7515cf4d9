"""C29: logs, traces, events, attributes and extensions hold exactly what is put into them."""
from urllib.parse import urlparse

from hypothesis import strategies as st

import gen
import hints
import lib
from harness import Sub
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
from opyenxes.classification.XEventClass import XEventClass
from opyenxes.classification.XEventNameClassifier import XEventNameClassifier
from opyenxes.extension.XExtension import XExtension
from opyenxes.factory.XFactory import XFactory
from opyenxes.id.XID import XID
from opyenxes.model.XAttributeMap import XAttributeMap

LISTS = ["append", "append", "append", "insert", "extend", "replace", "delete", "pop", "reverse", "clear", "slice", "again"]
MAPS = ["put", "put", "put", "put", "remove", "pop key", "clear map", "new map", "default", "update"]
OTHERS = ["feature", "feature", "feature", "feature", "classifier", "classifier", "remove classifier", "extension", "remove extension", "global", "remove global",
          "info", "info", "event id", "value", "value", "level", "level", "name classifier"]
CLASSIFIERS = [["A", ["a"]], ["A", ["a"]], ["A", ["a", "b"]], ["B", ["a"]], ["", []], ["A", ["b", "a"]]]


@st.composite
def cases(draw):
    number = st.integers(0, 40)
    other = st.tuples(st.just("other"), st.sampled_from(OTHERS), number, number, number)
    op = st.one_of(other, st.tuples(st.sampled_from(["log", "trace", "trace"]), st.sampled_from(LISTS), number, number, number),
                   st.tuples(st.just("map"), st.sampled_from(MAPS), number, number, number),
                   other).map(list)
    return {"attrs": draw(st.lists(gen.attributes(depth=0), min_size=3, max_size=9)),
            "values": draw(st.lists(gen.attributes(depth=0), min_size=1, max_size=5)),
            "features": draw(st.lists(st.tuples(st.sampled_from(["xes.version", "xes.version", "xes.features", "openxes.version", "a", " a", "a ", "A", "", "xes.version "]),
                                                    st.one_of(gen.texts(), st.sampled_from(["", "1.0", None, 0, False, []]))).map(list), min_size=2, max_size=5)),
            "ops": draw(gen.several(op, 25)), "many": draw(gen.counts([0] * 20 + [40], 600, 24))}


class World:
    def __init__(self, case):
        self.log = XFactory.create_log()
        self.traces = [XFactory.create_trace() for _ in range(5)]
        self.events = [XFactory.create_event() for _ in range(7)]
        self.attrs = [lib.make_attribute(dict(spec, a=[])) for spec in case["attrs"]]
        self.extensions = [XExtension("N%d" % n, "p%d" % n, urlparse("http://e/%d" % n)) for n in range(3)]
        self.classifiers = [XEventAttributeClassifier(n, list(k)) for n, k in CLASSIFIERS] + [XEventNameClassifier()]
        self.infos = [object() for _ in range(4)]
        # the model
        self.in_log = []
        self.in_trace = [[] for _ in self.traces]
        self.owners = [self.log] + self.traces + self.events + self.attrs
        self.maps = [{} for _ in self.owners]
        self.features, self.log_extensions, self.log_classifiers = {}, [], []
        self.globals = [[], []]
        self.cache = []             # [classifier, info], latest first
        self.ids = [event.get_id() for event in self.events]
        self.values = [None if spec["t"] in gen.COLLECTIONS else spec for spec in case["attrs"]]
        self.levels = [[[] for _ in range(4)] for _ in self.extensions]

    def level_sets(self, number):
        extension = self.extensions[number]
        return [extension.get_log_attributes(), extension.get_trace_attributes(), extension.get_event_attributes(), extension.get_meta_attributes()]


def same_objects(found, expected, what):
    found, expected = list(found), list(expected)
    lib.check(len(found) == len(expected), "%s: %d instead of %d" % (what, len(found), len(expected)))
    for place, (a, b) in enumerate(zip(found, expected)):
        lib.check(a is b, "%s: another object at %d" % (what, place))


def check_world(w):
    same_objects(w.log, w.in_log, "traces of the log")
    lib.equal(len(w.log), len(w.in_log), "length of the log")
    for number, trace in enumerate(w.traces):
        same_objects(trace, w.in_trace[number], "events of trace %d" % number)
        same_objects([trace[i] for i in range(len(trace))], w.in_trace[number], "events of trace %d by index" % number)
        lib.equal(len(trace), len(w.in_trace[number]), "length of a trace")
    for owner, model in zip(w.owners, w.maps):
        what = "attributes of a %s" % type(owner).__name__
        found = owner.get_attributes()
        lib.equal(list(found), list(model), what)
        same_objects(found.values(), list(model.values()), what)
        lib.equal(bool(owner.has_attributes()), bool(model), "there are " + what)
        lib.equal(bool(found.is_empty()), not model, "empty " + what)
        lib.equal(len(found), len(model), "number of " + what)
        if owner is not w.log:
            wanted = {id(a.get_extension()) for a in model.values()} - {id(None)}
            lib.equal({id(e) for e in owner.get_extensions()}, wanted, "extensions of a %s" % type(owner).__name__)
    lib.equal(dict(w.log.get_features()), w.features, "features")
    lib.equal(sorted(id(e) for e in w.log.get_extensions()), sorted(id(e) for e in w.log_extensions), "extensions of the log")
    same_objects(w.log.get_classifiers(), w.log_classifiers, "classifiers")
    same_objects(w.log.get_global_trace_attributes(), w.globals[0], "trace globals")
    same_objects(w.log.get_global_event_attributes(), w.globals[1], "event globals")
    for classifier in w.classifiers:
        hits = [info for known, info in w.cache if known == classifier]
        got = w.log.get_info(classifier)
        if w.cache and w.cache[0][0] == classifier:
            lib.check(got is hits[0], "cached summary")
        else:
            lib.check(got is None or hits and got is hits[0], "summary of another classifier")
    for event, identity in zip(w.events, w.ids):
        lib.check(event.get_id() == identity, "identity of an event")
    for attribute, spec in zip(w.attrs, w.values):
        if spec is not None:
            lib.equal(lib.dump_value(spec["t"], attribute.get_value()), lib.dump_value(spec["t"], lib.make_value(spec["t"], spec["v"])), "value")
    for number, extension in enumerate(w.extensions):
        together = []
        for found, model in zip(w.level_sets(number), w.levels[number]):
            lib.check(len(found) == len(model) and all(any(a is b for b in found) for a in model), "attributes of a level")
            together.extend(a for a in model if not any(a == b for b in together))
        defined = extension.get_defined_attributes()
        lib.check(len(defined) == len(together) and all(any(a == b for b in defined) for a in together), "attributes defined by the extension")
        lib.equal([extension.get_name(), extension.get_prefix(), extension.get_uri().geturl()], ["N%d" % number, "p%d" % number, "http://e/%d" % number], "extension")


def change_list(target, model, pool, op, a, b):
    thing = pool[a % len(pool)]
    place = b % (len(model) + 1)
    if op == "append":
        target.append(thing)
        model.append(thing)
    elif op == "insert":
        target.insert(place, thing)
        model.insert(place, thing)
    elif op == "extend":
        more = [thing, pool[b % len(pool)]]
        target.extend(more)
        model.extend(more)
    elif op == "slice":
        lib.check(all(x is y for x, y in zip(list(target[place:]), model[place:])), "slice")
        target[place:] = [thing]
        model[place:] = [thing]
    elif op == "reverse":
        target.reverse()
        model.reverse()
    elif op == "clear":
        if b % 4:
            return False
        target.clear()
        model.clear()
    elif not model:
        return False
    elif op == "replace":
        target[b % len(model)] = thing
        model[b % len(model)] = thing
    elif op == "delete":
        del target[b % len(model)]
        del model[b % len(model)]
    elif op == "pop":
        lib.check(target.pop() is model.pop(), "last one")
    elif op == "again":
        target.append(model[b % len(model)])
        model.append(model[b % len(model)])
    return True


def change_map(w, op, a, b):
    number = a % len(w.owners)
    owner, model = w.owners[number], w.maps[number]
    # nothing contains itself
    first = number - (len(w.owners) - len(w.attrs)) + 1 if number >= len(w.owners) - len(w.attrs) else 0
    pool = w.attrs[first:]
    found = owner.get_attributes()
    if op in ("put", "new map", "default", "update"):
        if not pool:
            return False
        attribute = pool[b % len(pool)]
        key = attribute.get_key()
        if op == "put":
            found[key] = attribute
            model[key] = attribute
        elif op == "default":
            lib.check(found.setdefault(key, attribute) is model.setdefault(key, attribute), "attribute that is there")
        elif op == "update":
            more = {x.get_key(): x for x in pool[:3]}
            found.update(more)
            model.update(more)
        else:
            more = {x.get_key(): x for x in pool[:b % 4]}
            previous = found, dict(model)
            owner.set_attributes(XAttributeMap(more))
            lib.equal(list(previous[0]), list(previous[1]), "map that was replaced")
            same_objects(previous[0].values(), previous[1].values(), "attributes in a map that was replaced")
            model.clear()
            model.update(more)
    elif op == "clear map":
        found.clear()
        model.clear()
    elif not model:
        return False
    else:
        key = list(model)[b % len(model)]
        if op == "remove":
            del found[key]
            del model[key]
        else:
            lib.check(found.pop(key) is model.pop(key), "attribute taken out")
    return True


def change_other(w, case, op, a, b, c):
    if op == "feature":
        key, value = case["features"][a % len(case["features"])]
        w.log.set_features(key, value)
        w.features[key] = value
    elif op in ("classifier", "name classifier"):
        classifier = w.classifiers[a % len(w.classifiers) if op == "classifier" else -1]
        w.log.get_classifiers().append(classifier)
        w.log_classifiers.append(classifier)
    elif op == "remove classifier":
        if not w.log_classifiers:
            return False
        del w.log.get_classifiers()[a % len(w.log_classifiers)]
        del w.log_classifiers[a % len(w.log_classifiers)]
    elif op == "extension":
        extension = w.extensions[a % len(w.extensions)]
        w.log.get_extensions().add(extension)
        if not any(e is extension for e in w.log_extensions):
            w.log_extensions.append(extension)
    elif op == "remove extension":
        extension = w.extensions[a % len(w.extensions)]
        w.log.get_extensions().discard(extension)
        w.log_extensions = [e for e in w.log_extensions if e is not extension]
    elif op in ("global", "remove global"):
        target = [w.log.get_global_trace_attributes, w.log.get_global_event_attributes][a % 2]()
        model = w.globals[a % 2]
        if op == "global":
            target.insert(b % (len(model) + 1), w.attrs[c % len(w.attrs)])
            model.insert(b % (len(model) + 1), w.attrs[c % len(w.attrs)])
        elif model:
            del target[b % len(model)]
            del model[b % len(model)]
        else:
            return False
    elif op == "info":
        classifier = w.classifiers[a % len(w.classifiers)]
        info = w.infos[b % len(w.infos)]
        w.log.set_info(classifier, info)
        w.cache.insert(0, [classifier, info])
    elif op == "event id":
        identity = XID() if b % 2 else w.ids[b % len(w.ids)]
        w.events[a % len(w.events)].set_id(identity)
        w.ids[a % len(w.events)] = identity
    elif op == "value":
        number = a % len(w.attrs)
        specs = [s for s in case["values"] if w.values[number] is not None and s["t"] == w.values[number]["t"]]
        if not specs:
            return False
        spec = specs[b % len(specs)]
        w.attrs[number].set_value(lib.make_value(spec["t"], spec["v"]))
        w.values[number] = spec
    elif op == "level":
        # values decide what is the same attribute, so attributes of an extension keep theirs
        attribute = lib.make_attribute(dict(case["attrs"][b % len(case["attrs"])], a=[]))
        model = w.levels[a % len(w.extensions)][c % 4]
        target = w.level_sets(a % len(w.extensions))[c % 4]
        target.add(attribute)
        if not any(x == attribute for x in model):
            model.append(attribute)
    return True


def check(case):
    w = World(case)
    labels = set()
    check_world(w)
    for _ in range(case["many"]):
        w.log.append(w.traces[0])
        w.in_log.append(w.traces[0])
        w.traces[1].append(w.events[0])
        w.in_trace[1].append(w.events[0])
    for where, op, a, b, c in case["ops"]:
        if where == "log":
            done = change_list(w.log, w.in_log, w.traces, op, a, b)
        elif where == "trace":
            done = change_list(w.traces[c % 5], w.in_trace[c % 5], w.events, op, a, b)
        elif where == "map":
            done = change_map(w, op, a, b)
        else:
            done = change_other(w, case, op, a, b, c)
        if done:
            labels.add(op)
        check_world(w)
    return sorted(labels)


@st.composite
def class_cases(draw):
    number = st.one_of(st.integers(0, 5), st.integers(0, 10**9), st.sampled_from(gen.thresholds()).map(abs), st.sampled_from(hints.new_numbers() or [0]).map(lambda n: abs(int(n))))
    op = st.tuples(st.sampled_from(["increment", "increment", "set"]), number).map(list)
    return {"id": draw(gen.texts()), "index": draw(st.one_of(st.integers(0, 5), st.integers(0, 10**9))), "ops": draw(st.lists(op, max_size=12))}


def check_class(case):
    made, other = XEventClass(case["id"], case["index"]), XEventClass(case["id"] + "x", 1)
    size = 0
    for op, number in case["ops"]:
        if op == "set":
            made.set_size(number)
            size = number
        else:
            made.increment_size()
            size += 1
        lib.equal([made.get_id(), made.get_index(), made.size(), other.size()], [case["id"], case["index"], size, 0], "event class")
    lib.equal(str(made), case["id"], "text of an event class")
    return []


SUBS = [
    Sub("histories", cases, check, lambda c: len(c["ops"]) > 1,
        "random changes of the parts of a log, its elements, their attributes and of extensions against lists and dictionaries; non-trivial: several changes", 4000),
    Sub("classes", class_cases, check_class, lambda c: c["ops"], "event classes of random size; non-trivial: a size is changed", 800),
]
ASSUMPTIONS = ["an attribute is filed under its own key", "a summary that was replaced in the cache of a log may be kept for its own classifier"]
