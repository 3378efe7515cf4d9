"""C19: the extension manager finds exactly what has been registered."""
from urllib.parse import urlparse

from hypothesis import strategies as st

import gen
import lib
from harness import Sub
from opyenxes.extension.std.XConceptExtension import XConceptExtension
from opyenxes.extension.std.XCostExtension import XCostExtension
from opyenxes.extension.std.XIdentityExtension import XIdentityExtension
from opyenxes.extension.std.XLifecycleExtension import XLifecycleExtension
from opyenxes.extension.std.XMicroExtension import XMicroExtension
from opyenxes.extension.std.XOrganizationalExtension import XOrganizationalExtension
from opyenxes.extension.std.XSemanticExtension import XSemanticExtension
from opyenxes.extension.std.XTimeExtension import XTimeExtension
from opyenxes.extension.XExtension import XExtension
from opyenxes.extension.XExtensionManager import XExtensionManager

STANDARD = {"concept": XConceptExtension, "cost": XCostExtension, "identity": XIdentityExtension,
            "lifecycle": XLifecycleExtension, "micro": XMicroExtension, "org": XOrganizationalExtension,
            "semantic": XSemanticExtension, "time": XTimeExtension}
NAMES = ["Alpha", "Beta", "alpha", "Concept", "Time", "", "My Extension", "\u00dcber"]
SHORT = ["alpha", "beta", "a", "concept", "time", "", "A", "\u00fc"]
URIS = ["http://example.org/%s.xesext" % n for n in "abcde"] + ["http://example.org/A.xesext", "http://example.org/a.xesext/",
        "http://example.org/a.xesext?v=1", "http://example.org/a.xesext#f", "https://example.org/a.xesext", "urn:x", "file:///a", "",
        "http://www.xes-standard.org/concept.xesext?", "http://www.xes-standard.org/other.xesext"]


def uris(standard):
    some = URIS if standard else [u for u in URIS if not u.endswith("concept.xesext?")]    # an empty query makes no difference
    choices = [st.sampled_from(some), st.sampled_from(some),
               gen.simple_words().map(lambda w: "http://e/" + w).filter(parses)]
    if standard:
        choices.append(st.sampled_from([lib.URI_OF[p] for p in gen.STANDARD_PREFIXES]))
    return st.one_of(*choices)


def parses(text):
    try:
        urlparse(text)
    except ValueError:
        return False
    return True


@st.composite
def cases(draw):
    fresh = draw(st.integers(0, 3)) > 0
    registration = st.tuples(st.just("register"), st.one_of(st.sampled_from(NAMES), gen.texts()),
                             st.one_of(st.sampled_from(SHORT), gen.texts()), uris(fresh)).map(list)
    many = st.tuples(st.just("many"), gen.counts([3, 12, 40], 150)).map(list) if fresh else registration
    again = st.tuples(st.just("again"), st.integers(0, 30)).map(list)
    ops = draw(gen.several(st.one_of(registration, registration, registration, again, st.just(["standard"]), many), 14))
    return {"fresh": fresh, "ops": ops, "probes": draw(st.lists(gen.texts(), max_size=2))}


class Model:
    """The registered extensions in order of their first registration."""
    def __init__(self, manager):
        self.slots = []
        while manager.get_by_index(len(self.slots)) is not None:
            self.slots.append(manager.get_by_index(len(self.slots)))
        self.gone = set()

    def index(self, uri):
        for number, known in enumerate(self.slots):
            if known.get_uri() == uri:
                return number
        return -1

    def register(self, extension):
        at = self.index(extension.get_uri())
        if at < 0:
            self.slots.append(extension)
        else:
            self.gone.add(self.slots[at].get_name())
            self.gone.add(self.slots[at].get_prefix())
            self.slots[at] = extension


def check_state(manager, model, probes, since):
    slots = model.slots
    for number, known in enumerate(slots):
        lib.check(manager.get_by_index(number) is known, "extension at index %d" % number)
        if number < since:
            continue
        lib.check(manager.get_by_uri(known.get_uri()) is known, "extension with URI %s" % known.get_uri().geturl())
        lib.equal(manager.get_index(known), number, "index of %s" % known.get_uri().geturl())
    lib.equal(len({e.get_uri() for e in slots}), len(slots), "number of URIs")
    count = len(slots)
    for index in (-1, -count, count, count + 5, -count - 1):
        lib.check(manager.get_by_index(index) is None, "extension at index %d of %d" % (index, count))
    texts = {e.get_name() for e in slots[since:]} | {e.get_prefix() for e in slots[since:]} | model.gone | set(probes)
    for text in sorted(texts):
        for what, lookup, got in (("name", manager.get_by_name, XExtension.get_name), ("prefix", manager.get_by_prefix, XExtension.get_prefix)):
            found = lookup(text)
            carriers = [e for e in slots if got(e) == text]
            if carriers:
                lib.check(any(found is e for e in carriers), "extension with %s %r is %s" % (what, text, found and found.get_uri().geturl()))
            else:
                lib.check(found is None, "extension with unknown %s %r" % (what, text))
    for uri in URIS:
        if model.index(urlparse(uri)) < 0:
            lib.check(manager.get_by_uri(urlparse(uri)) is None, "extension with the unknown URI %r" % uri)
            lib.equal(manager.get_index(XExtension("Alpha", "alpha", urlparse(uri))), -1, "index of an unknown extension")


def check(case):
    manager = lib.fresh(XExtensionManager) if case["fresh"] else XExtensionManager()
    if manager is None:
        manager, case = XExtensionManager(), dict(case, fresh=False)
    lib.check(XExtensionManager() is XExtensionManager(), "the manager is a singleton")
    model = Model(manager)
    since = 0 if case["fresh"] else 8
    for prefix, uri in zip(gen.STANDARD_PREFIXES, map(lib.URI_OF.get, gen.STANDARD_PREFIXES)):
        known = manager.get_by_uri(urlparse(uri))
        lib.check(known is not None, "standard extension %s" % prefix)
        lib.equal([known.get_name(), known.get_prefix(), known.get_uri().geturl()], [lib.NAME_OF[prefix], prefix, uri], "standard extension")
        lib.check(known is STANDARD[prefix](), "standard extension %s is the one of its class" % prefix)
    lib.equal([e.get_prefix() for e in model.slots[:8]], gen.STANDARD_PREFIXES, "standard extensions in order")
    # a shared manager keeps what earlier cases registered
    probes = case["probes"] + NAMES + SHORT
    labels = set()
    made = []
    check_state(manager, model, probes, since)
    for op in case["ops"]:
        if op[0] == "register":
            extension = XExtension(op[1], op[2], urlparse(op[3]))
            made.append(extension)
        elif op[0] == "again":
            pool = made + (model.slots if case["fresh"] else [])
            if not pool:
                continue
            extension = pool[op[1] % len(pool)]
        elif op[0] == "many":
            for number in range(op[1]):
                extension = XExtension("N%d" % number, "n%d" % (number // 2), urlparse("http://example.org/n%d" % number))
                model.register(extension)
                manager.register(extension)
                made.append(extension)
            labels.add("many extensions")
            check_state(manager, model, probes, since)
            continue
        else:
            manager.register_standard_extensions()
            for prefix in gen.STANDARD_PREFIXES:
                model.register(STANDARD[prefix]())
            check_state(manager, model, probes, since)
            continue
        if model.index(extension.get_uri()) >= 0:
            labels.add("replacement")
        if any(e.get_prefix() == extension.get_prefix() and e is not extension for e in model.slots):
            labels.add("shared prefix")
        model.register(extension)
        manager.register(extension)
        lib.equal(manager.get_index(extension), model.index(extension.get_uri()), "index of the registered extension")
        check_state(manager, model, probes, since)
    return sorted(labels) + (["fresh manager"] if case["fresh"] else ["the singleton"])


SUBS = [
    Sub("histories", cases, check, lambda c: any(o[0] == "register" for o in c["ops"]),
        "random registrations of new extensions and replacements, on the singleton and on fresh managers, every lookup compared "
        "with a model after each; non-trivial: some extension is registered", 3000),
]
ASSUMPTIONS = ["URIs are ParseResults and are the same when these are equal"]
