"""C18: nested cost values can be assigned and read back by key path."""
from hypothesis import strategies as st

import gen
import lib
from harness import Sub
from opyenxes.extension.std.XCostExtension import XCostAmount, XCostDriver, XCostExtension, XCostType
from opyenxes.factory.XFactory import XFactory

FAMILIES = {"amount": (XCostAmount, "cost:amount", "float"), "driver": (XCostDriver, "cost:driver", "string"),
            "type": (XCostType, "cost:type", "string")}
RESERVED = {key for _, key, _ in FAMILIES.values()}
KEYS = st.one_of(st.sampled_from(["a", "b", "c", "a", "b", "", "a:b", "cost:total", "concept:name", "key.1", "a b"]),
                 gen.keys().filter(lambda k: k not in RESERVED))


def family_values(family):
    if family == "amount":
        return st.one_of(st.floats(min_value=0, exclude_min=True), st.integers(1, 100).map(float)).map(repr)
    return gen.texts().filter(lambda t: t.strip())


@st.composite
def preset(draw, depth=2):
    """Attributes that are there already, some with cost values, zero and blank ones included."""
    out = []
    for key in draw(st.lists(KEYS, max_size=3, unique=True)):
        kind = draw(st.sampled_from(gen.TYPES + gen.COLLECTIONS))
        spec = {"t": kind, "k": key, "a": []}
        if kind not in gen.COLLECTIONS:
            spec["v"] = draw(gen.values(kind))
        for family in sorted(FAMILIES):
            if draw(st.integers(0, 2)) == 0:
                value = draw(st.one_of(st.sampled_from(["0.0", "-0.0", "-2.5", "1.5"]), gen.FLOATS.map(repr))) if family == "amount" else \
                    draw(st.one_of(st.just(""), gen.texts()))
                spec["a"].append({"t": FAMILIES[family][2], "k": FAMILIES[family][1], "v": value, "a": []})
        if depth and draw(st.booleans()):
            spec["a"] += draw(preset(depth - 1))
        out.append(spec)
    return out


@st.composite
def paths(draw, known):
    """A new path, or a variation of a known one: longer, shorter, with another end."""
    if known and draw(st.integers(0, 2)):
        base = list(draw(st.sampled_from(known)))
        choice = draw(st.integers(0, 3))
        if choice == 0:
            return base + [draw(KEYS)]
        if choice == 1 and len(base) > 1:
            return base[:-1]
        if choice == 2:
            return base[:-1] + [draw(KEYS)]
        return base
    return draw(st.lists(KEYS, min_size=1, max_size=4))


def known_paths(attrs, before=()):
    out = []
    for attr in attrs:
        if attr["k"] not in RESERVED:
            out.append(list(before) + [attr["k"]])
            out.extend(known_paths(attr["a"], out[-1]))
    return out


@st.composite
def cases(draw):
    steps = []
    element = draw(preset())
    known = known_paths(element)
    for _ in range(draw(st.integers(1, 5))):
        family = draw(st.sampled_from(sorted(FAMILIES)))
        nested = draw(st.integers(0, 2)) > 0
        chosen = []
        for _ in range(draw(st.integers(0, 4))):
            path = draw(paths(known))
            if not nested:
                path = path[:1]
            if path not in chosen:
                chosen.append(path)
                known.append(path)
        steps.append([family, nested, [[path, draw(family_values(family))] for path in chosen], draw(st.booleans())])
    return {"element": draw(st.sampled_from(["event", "trace", "attribute", "log"])), "preset": element, "steps": steps}


def plain_value(family, value):
    return float(value) if family == "amount" else value


def read_model(attrs, family, path=()):
    """{path: value} of all attributes that carry a value of the family."""
    out = {}
    for attr in attrs:
        own = path + (attr["k"],)
        for child in attr["a"]:
            if child["k"] == FAMILIES[family][1]:
                out[own] = plain_value(family, child["v"])
        out.update(read_model(attr["a"], family, own))
    return out


def assign_model(attrs, family, path, value):
    created = 0
    for key in path:
        found = next((a for a in attrs if a["k"] == key), None)
        if found is None:
            found = {"t": "string", "k": key, "v": "", "a": [], "e": None}
            attrs.append(found)
            created += 1
        attrs = found["a"]
    key, kind = FAMILIES[family][1:]
    fresh = {"t": kind, "k": key, "v": value, "a": []}
    for index, attr in enumerate(attrs):
        if attr["k"] == key:
            attrs[index] = fresh
            break
    else:
        attrs.append(fresh)
    return created


def copied(attrs):
    return [dict(a, a=copied(a["a"])) for a in attrs]


def expected(model):
    """Order among the attributes of an element is not claimed here."""
    return {a["k"]: [lib.expected_attribute(dict(a, a=[])), expected(a["a"])] for a in model}


def found(element):
    out = {}
    for key, attribute in element.get_attributes().items():
        shot = dict(lib.dump_attribute(attribute), a=[])
        if shot["t"] in gen.COLLECTIONS:
            lib.equal(attribute.get_collection(), [], "children in the collection of %r" % key)
        out[key] = [shot, found(attribute)]
    return out


def fill(element, attrs):
    """Attributes with nested ones in their maps, those of lists and containers too."""
    for spec in attrs:
        attribute = lib.make_attribute(dict(spec, a=[]))
        element.get_attributes()[spec["k"]] = attribute
        fill(attribute, spec["a"])


def check_all(element, model, what):
    lib.same(expected(model), found(element), what + ": attributes")
    ext = XCostExtension()
    for family, (support, _, _) in FAMILIES.items():
        nested = read_model(model, family)
        flat = {path[0]: value for path, value in nested.items() if len(path) == 1}
        for name, got, wanted in (("nested", getattr(ext, "extract_nested_%ss" % family)(element), nested),
                                  ("nested", support().extract_nested_values(element), nested),
                                  ("flat", getattr(ext, "extract_%ss" % family)(element), flat),
                                  ("flat", support().extract_values(element), flat)):
            lib.equal(set(got), set(wanted), "%s: keys of the %s %ss" % (what, name, family))
            for key in wanted:
                lib.equal(got[key], wanted[key], "%s: %s %s of %r" % (what, name, family, key))


def check(case):
    element = {"event": XFactory.create_event, "trace": XFactory.create_trace, "log": XFactory.create_log,
               "attribute": lambda: XFactory.create_attribute_literal("element", "x")}[case["element"]]()
    fill(element, case["preset"])
    model = copied(case["preset"])
    check_all(element, model, "at first")
    labels = {"on " + case["element"]}
    for family, nested, values, direct in case["steps"]:
        support = FAMILIES[family][0]()
        if nested:
            argument = {tuple(path): plain_value(family, value) for path, value in values}
            (support.assign_nested_values if direct else getattr(XCostExtension(), "assign_nested_%ss" % family))(element, argument)
            lib.same({tuple(p): plain_value(family, v) for p, v in values}, argument, "the assigned dictionary")
        else:
            argument = {path[0]: plain_value(family, value) for path, value in values}
            (support.assign_values if direct else getattr(XCostExtension(), "assign_%ss" % family))(element, argument)
        for path, value in values:
            before = read_model(model, family)
            created = assign_model(model, family, path, value)
            labels.add("creates %s attributes" % ("no" if not created else "some"))
            if tuple(path) in before:
                labels.add("replaces a value")
            if any(len(p) != len(path) and list(p[:len(path)]) == path[:len(p)] for p in before):
                labels.add("one path a prefix of another")
        check_all(element, model, "after assigning %s %r" % (family, values))
    if any(v == 0 for v in read_model(model, "amount").values()):
        labels.add("reads a zero")
    return sorted(labels)


SUBS = [
    Sub("paths", cases, check, lambda c: sum(len(s[2]) for s in c["steps"]) > 1,
        "random histories of assigning amounts, drivers and types under keys and key paths on elements with attributes; non-trivial: at least two values assigned", 3000),
]
ASSUMPTIONS = ["assigned amounts are positive, drivers and types not blank", "no key of a path is one of the cost keys themselves"]
