"""C21: attribute name mappings."""
import importlib

from hypothesis import strategies as st

import gen
import lib
from harness import Sub
from isolate import Isolation
from opyenxes.extension.XExtensionManager import XExtensionManager
from opyenxes.factory.XFactory import XFactory
from opyenxes.info.XAttributeNameMap import XAttributeNameMap
from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap

MAPPINGS = ["EN", "DE", "NL", "en", "", "mine", "FR", "E", "EN "]
KEYS = ["concept:name", "a", "b", "A", "", "org:resource", "time:timestamp", "EN", "DE"]


@st.composite
def cases(draw):
    names = draw(st.lists(st.one_of(st.sampled_from(MAPPINGS), gen.texts()), min_size=1, max_size=4)) + ["EN"]
    keys = draw(st.lists(st.one_of(st.sampled_from(KEYS), gen.texts()), min_size=1, max_size=4))
    name, key = st.sampled_from(names), st.sampled_from(keys)
    alias = st.one_of(st.sampled_from(["Name", "name", "", "a"]), gen.texts())
    how = st.sampled_from(["global", "global attr", "map", "map attr"])
    ops = st.one_of(st.tuples(st.just("register"), name, key, alias, how).map(list),
                    st.tuples(st.just("register"), name, key, alias, how).map(list),
                    st.tuples(st.just("get"), name).map(list),
                    st.tuples(st.just("own"), key, alias, st.booleans()).map(list),
                    st.tuples(st.just("safely"), key, st.one_of(gen.texts(), st.sampled_from(MAPPINGS))).map(list))
    return {"fresh": draw(st.integers(0, 3)) > 0, "names": names, "keys": keys, "ops": draw(gen.several(ops, 16)),
            "kind": draw(st.sampled_from(gen.TYPES)), "others": draw(st.lists(gen.texts(), max_size=2))}


def attribute(key, case):
    value = {"string": "v", "date": [2010, 1, 1, 0, 0, 0, 0, 0], "int": "1", "float": "1.0", "boolean": True,
             "id": "00000000-0000-0000-0000-000000000001"}[case["kind"]]
    return lib.make_attribute({"t": case["kind"], "k": key, "v": value, "a": []})


def check_state(maps, model, own, own_model, case):
    names = maps.get_available_mapping_names()
    lib.equal(sorted(set(names)), sorted(model), "names of the mappings")
    lib.equal(len(names), len(model), "number of names")
    mappings = maps.get_available_mappings()
    lib.equal(sorted(m.get_mapping_name() for m in mappings), sorted(model), "available mappings")
    by_name = {m.get_mapping_name(): m for m in mappings}
    keys = case["keys"] + case["others"] + ["concept:name"]
    attributes = {key: attribute(key, case) for key in keys}
    lib.check(maps.get_standard_mapping() is by_name["EN"], "the standard mapping")
    lib.equal(maps.get_mapping_name(), "EN", "name of the standard mapping")
    standard = model["EN"]
    for name in sorted(set(case["names"] + case["others"] + ["DE"])):
        entries = model.get(name, {})
        if name in model:
            lib.check(maps.get_mapping(name) is by_name[name], "mapping %r" % name)
            for key in keys:
                lib.equal(by_name[name].map(key), entries.get(key), "alias of %r in %r" % (key, name))
                lib.equal(by_name[name].map(attributes[key]), entries.get(key), "alias of the attribute %r in %r" % (key, name))
        for key in keys:
            wanted = entries.get(key, standard.get(key, key))
            for target in (key, attributes[key]):
                lib.equal(maps.map_safely(target, name), wanted, "safe alias of %r in %r" % (key, name))
                if name in model:
                    lib.equal(maps.map_safely(target, by_name[name]), wanted, "safe alias of %r in the mapping %r" % (key, name))
    for key in keys:
        for target in (key, attributes[key]):
            lib.equal(maps.map(target), standard.get(key), "standard alias of %r" % key)
            lib.equal(maps.map_safely(target, None), standard.get(key, key), "safe alias of %r without mapping" % key)
            lib.equal(own.map(target), own_model.get(key), "alias of %r in a mapping of its own" % key)
            lib.equal(maps.map_safely(target, own), own_model.get(key, standard.get(key, key)), "safe alias of %r in a mapping of its own" % key)
    lib.equal(sorted(maps.get_available_mapping_names()), sorted(model), "names of the mappings after lookups")


def check(case):
    lib.extension("concept")    # the standard extensions register their aliases when they are first used
    maps = lib.fresh(XGlobalAttributeNameMap) if case["fresh"] else XGlobalAttributeNameMap()
    if maps is None:
        maps, case = XGlobalAttributeNameMap(), dict(case, fresh=False)
    lib.check(XGlobalAttributeNameMap() is XGlobalAttributeNameMap(), "the global mapping is a singleton")
    keys = set(case["keys"] + case["others"] + ["concept:name"])
    # the singleton keeps what earlier cases registered
    model = {m.get_mapping_name(): {k: m.map(k) for k in keys if m.map(k) is not None} for m in maps.get_available_mappings()}
    lib.check("EN" in model, "the standard mapping is available")
    own, own_model = XAttributeNameMap("own"), {}
    lib.equal(own.get_mapping_name(), "own", "name of a mapping")
    labels = set()
    check_state(maps, model, own, own_model, case)
    for op in case["ops"]:
        if op[0] == "register":
            _, name, key, alias, how = op
            target = attribute(key, case) if how.endswith("attr") else key
            if how.startswith("global"):
                maps.register_mapping(name, target, alias)
            else:
                maps.get_mapping(name).register_mapping(target, alias)
            labels.add("overwritten" if key in model.get(name, {}) else "new")
            model.setdefault(name, {})[key] = alias
        elif op[0] == "get":
            mapping = maps.get_mapping(op[1])
            lib.equal(mapping.get_mapping_name(), op[1], "name of the mapping")
            model.setdefault(op[1], {})
        elif op[0] == "own":
            own.register_mapping(attribute(op[1], case) if op[3] else op[1], op[2])
            own_model[op[1]] = op[2]
        else:
            _, key, name = op
            lib.equal(maps.map_safely(key, name), model.get(name, {}).get(key, model["EN"].get(key, key)), "safe alias of %r in %r" % (key, name))
        check_state(maps, model, own, own_model, case)
    return sorted(labels)


# ---- aliases of the standard extensions ---------------------------------------------------------
STANDARD = {
    "concept:instance": {"DE": "Instanz", "EN": "Instance", "ES": "Instancia", "FR": "Entité", "PT": "Instância"},
    "concept:name": {"DE": "Name", "EN": "Name", "ES": "Nombre", "FR": "Appellation", "PT": "Nome"},
    "cost:amount": {"EN": "Cost Amount"},
    "cost:currency": {"EN": "Currency of Cost"},
    "cost:driver": {"EN": "Cost Driver"},
    "cost:total": {"EN": "Total Cost"},
    "cost:type": {"EN": "Cost Type"},
    "identity:id": {"DE": "Identität", "EN": "Identity", "ES": "Identidad", "FR": "Identité", "PT": "Identidade"},
    "lifecycle:model": {"DE": "Lebenszyklus-Model", "EN": "Lifecycle Model", "ES": "Modelo de Ciclo de Vida", "FR": "Modèle du Cycle Vital", "PT": "Modelo do Ciclo de Vida"},
    "lifecycle:transition": {"DE": "Lebenszyklus-Transition", "EN": "Lifecycle Transition", "ES": "Transición en Ciclo de Vida", "FR": "Transition en Cycle Vital", "PT": "Transição do Ciclo de Vida"},
    "micro:length": {"EN": "Number of child events for this event"},
    "micro:level": {"EN": "Micro level of this event"},
    "micro:parentId": {"EN": "Id of parent event of this event"},
    "org:group": {"DE": "Gruppe", "EN": "Group", "ES": "Grupo", "FR": "Groupe", "PT": "Grupo"},
    "org:resource": {"DE": "Akteur", "EN": "Resource", "ES": "Recurso", "FR": "Agent", "PT": "Recurso"},
    "org:role": {"DE": "Rolle", "EN": "Role", "ES": "Papel", "FR": "Rôle", "PT": "Papel"},
    "semantic:modelReference": {"DE": "Ontologie-Modellreferenz", "EN": "Ontology Model Reference", "ES": "Referencia de Modelo Ontológico", "FR": "Référence au Modèle Ontologique", "PT": "Referência de Modelo Ontológico"},
    "time:timestamp": {"DE": "Zeitstempel", "EN": "Timestamp", "ES": "Timestamp", "FR": "Horodateur", "PT": "Timestamp"},
}
LANGUAGES = ["EN", "DE", "FR", "ES", "PT", "NL", "IT", "XX"]


def standard(task):
    """Body of an isolated process: extensions are asked for in some order, then aliases."""
    maps = XGlobalAttributeNameMap()
    for action in task["before"]:
        if action[0] == "manager":
            XExtensionManager()
        elif action[0] == "ask":
            module = importlib.import_module("opyenxes.extension.std.X%sExtension" % action[1])
            getattr(module, "X%sExtension" % action[1])()
        elif action[0] == "get":
            maps.get_mapping(action[1])
        else:
            XExtensionManager()         # registered later than the standard aliases
            maps.register_mapping(*action[1:])
    XExtensionManager()
    names = set(maps.get_available_mapping_names())
    return [[maps.get_mapping(language).map(key) if language in names else None, maps.map_safely(key, language), maps.map(key)]
            for key, language in task["asked"]]


def check_standard(case):
    Isolation.start(standard)
    model = {}
    for key, found in STANDARD.items():
        for language, alias in found.items():
            model.setdefault(language, {})[key] = alias
    for action in case["before"]:
        if action[0] == "register":
            model.setdefault(action[1], {})[action[2]] = action[3]
    wanted = []
    for key, language in case["asked"]:
        english = model["EN"].get(key)
        alias = model.get(language, {}).get(key)
        wanted.append([alias, alias if alias is not None else english if english is not None else key, english])
    lib.same(wanted, Isolation.run(case), "aliases of standard attributes")
    return sorted({a[0] for a in case["before"]})


@st.composite
def standard_cases(draw):
    names = st.sampled_from(["Concept", "Cost", "Identity", "Lifecycle", "Micro", "Organizational", "Semantic", "Time"])
    keys = st.one_of(st.sampled_from(sorted(STANDARD)), st.sampled_from(sorted(STANDARD)), st.sampled_from(["name", "concept:", "cost:none", "time:timestamp2"]))
    action = st.one_of(st.tuples(st.just("ask"), names).map(list), st.tuples(st.just("ask"), names).map(list), st.just(["manager"]),
                       st.tuples(st.just("get"), st.sampled_from(LANGUAGES)).map(list),
                       st.tuples(st.just("register"), st.sampled_from(LANGUAGES), keys, gen.texts()).map(list))
    return {"before": draw(st.lists(action, max_size=5)),
            "asked": draw(st.lists(st.tuples(keys, st.sampled_from(LANGUAGES)).map(list), min_size=10, max_size=30))}


SUBS = [
    Sub("standard", standard_cases, check_standard, lambda c: True,
        "aliases of the attributes of the standard extensions in new processes, after random first uses of extensions and registrations; "
        "all non-trivial", 300),
    Sub("histories", cases, check, lambda c: any(o[0] in ("register", "own") for o in c["ops"]),
        "random registrations and lookups in several mappings, everything compared with dictionaries after each; "
        "non-trivial: some alias is registered", 2500),
]
ASSUMPTIONS = ["asking the global map for a mapping by name creates it, as documented"]
