"""C28: lists and containers keep their children in order; key lists of classifiers."""
import re

from hypothesis import strategies as st

import files
import gen
import lib
from harness import Sub
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
from opyenxes.factory.XFactory import XFactory
from opyenxes.utils.XTokenHelper import XTokenHelper


@st.composite
def histories(draw):
    keys = draw(st.lists(gen.keys(), min_size=1, max_size=3))
    child = gen.attributes(depth=2, key=None)
    repeated = st.sampled_from(keys).flatmap(lambda k: gen.attributes(depth=1, key=k))
    target = st.integers(0, 6)
    op = st.one_of(st.tuples(st.just("add"), target, st.one_of(child, repeated, repeated)).map(list),
                   st.tuples(st.just("add"), target, st.one_of(child, repeated, repeated)).map(list),
                   st.tuples(st.just("again"), target, st.integers(0, 6)).map(list),
                   st.tuples(st.just("mutate"), target, st.sampled_from(["clear", "reverse", "append", "pop"])).map(list),
                   st.tuples(st.just("many"), target, gen.counts([3, 12, 40], 300)).map(list),
                   st.tuples(st.just("write"), target).map(list), st.tuples(st.just("clone"), target).map(list))
    return {"kind": draw(st.sampled_from(gen.COLLECTIONS)), "key": draw(gen.keys()), "ops": draw(gen.several(op, 16))}


class Node:
    """A collection and the children it should have: Nodes and specs with their attributes."""
    def __init__(self, attribute, kind):
        self.attribute, self.kind, self.children = attribute, kind, []


def node_of(spec, nodes):
    attribute = lib.make_attribute(spec)
    return wrap(attribute, spec, nodes)


def wrap(attribute, spec, nodes):
    if spec["t"] not in gen.COLLECTIONS:
        return [attribute, spec]
    node = Node(attribute, spec["t"])
    nodes.append(node)
    for child, child_spec in zip(attribute.get_collection(), spec["a"]):
        node.children.append(wrap(child, child_spec, nodes))
    return node


def text_of(part):
    if isinstance(part, Node):
        return "[" + ",".join(key_of(child) + ":" + text_of(child) for child in part.children) + "]"
    return lib.value_text(part[1])


def key_of(part):
    return (part.attribute if isinstance(part, Node) else part[0]).get_key()


def object_of(part):
    return part.attribute if isinstance(part, Node) else part[0]


def check_nodes(nodes):
    for node in nodes:
        found = list(node.attribute.get_collection())
        lib.equal(len(found), len(node.children), "number of children of %r" % node.attribute.get_key())
        for child, part in zip(found, node.children):
            lib.check(child is object_of(part), "child %r is another object" % child.get_key())
        lib.equal(str(node.attribute), text_of(node), "text of %r" % node.attribute.get_key())


def check_history(case):
    make = XFactory.create_attribute_list if case["kind"] == "list" else XFactory.create_attribute_container
    root = Node(make(case["key"]), case["kind"])
    nodes = [root]
    added = []
    labels = {case["kind"]}
    check_nodes(nodes)
    for op in case["ops"]:
        node = nodes[op[1] % len(nodes)]
        if op[0] == "add":
            part = node_of(op[2], nodes)
            if any(key_of(child) == op[2]["k"] for child in node.children):
                labels.add("repeated key")
            node.attribute.add_to_collection(object_of(part))
            node.children.append(part)
            if not isinstance(part, Node):
                added.append(part)
            else:
                labels.add("nested")
        elif op[0] == "again" and added:
            part = added[op[2] % len(added)]
            node.attribute.add_to_collection(part[0])
            node.children.append(part)
            labels.add("same child again")
        elif op[0] == "many":
            for number in range(op[2]):
                spec = {"t": "string", "k": "m%d" % (number % 7), "v": str(number), "a": []}
                node.children.append([lib.make_attribute(spec), spec])
                node.attribute.add_to_collection(node.children[-1][0])
            labels.add("many children")
        elif op[0] == "mutate":
            found = node.attribute.get_collection()
            lib.check(isinstance(found, list), "the children are a %s" % type(found).__name__)
            if op[2] == "clear":
                found.clear()
            elif op[2] == "reverse":
                found.reverse()
            elif op[2] == "append":
                found.append(XFactory.create_attribute_literal("no", "no"))
            elif found:
                found.pop()
        elif op[0] == "clone":
            copy = node.attribute.clone()
            lib.equal(str(copy), text_of(node), "text of a copy")
            lib.equal([c.get_key() for c in copy.get_collection()], [key_of(c) for c in node.children], "keys of a copy")
            copy.add_to_collection(XFactory.create_attribute_literal("no", "no"))
        elif op[0] == "write":
            event = XFactory.create_event()
            event.get_attributes()[node.attribute.get_key()] = node.attribute
            trace = XFactory.create_trace()
            trace.append(event)
            log = XFactory.create_log()
            log.append(trace)
            read = files.read_text(files.write_text(log))[0][0][0].get_attributes()[node.attribute.get_key()]
            lib.equal([c.get_key() for c in read.get_collection()], [key_of(c) for c in node.children], "keys of the children read")
            lib.equal(str(read), text_of(node), "text of the attribute read")
        check_nodes(nodes)
    return sorted(labels)


# ---- key lists -----------------------------------------------------------------------------------
def key_texts():
    """Keys without apostrophes and outer white space."""
    return st.one_of(st.sampled_from(["a", "b", "a b", "a  b", "concept:name", "my key", "x\ty", "\u00e9 \u00e8", "\"", "a,b", "&", "a\u00a0b"]),
                     gen.texts().map(lambda t: t.replace("'", "").strip()),
                     st.text("ab :\"", max_size=6).map(str.strip)).filter(lambda k: k != "")


@st.composite
def key_lists(draw):
    keys = draw(st.lists(key_texts(), min_size=1, max_size=5))
    if draw(st.integers(0, 9)) == 0:
        keys = (keys * 300)[:draw(gen.counts([9, 20, 70], 300))]
    return {"keys": keys, "quotes": draw(st.lists(st.booleans(), min_size=len(keys), max_size=len(keys))),
            "gaps": draw(st.lists(st.integers(1, 3), min_size=len(keys), max_size=len(keys))), "outer": draw(st.booleans())}


def check_keys(case):
    keys = case["keys"]
    joined = XTokenHelper.format_token(list(keys))
    lib.check(isinstance(joined, str), "joined keys are %r" % (joined,))
    lib.equal(list(XTokenHelper.extract_tokens(joined)), keys, "keys split from %r" % joined)
    lib.equal(list(XTokenHelper().extract_tokens(XTokenHelper().format_token(tuple(keys)))), keys, "keys split again")
    # any text of the keys: quoted where needed, quoted elsewhere, more gaps
    text = ""
    for key, quote, gap in zip(keys, case["quotes"], case["gaps"]):
        text += ("'%s'" % key if quote or " " in key else key) + " " * gap
    text = ("  " if case["outer"] else "") + (text if case["outer"] else text.rstrip(" "))
    if all(ok(k) for k in keys):
        lib.equal(list(XTokenHelper.extract_tokens(text)), keys, "keys split from %r" % text)
    # written and read with a log
    writable = [k for k in keys if not re.search(r"[^\S ]", k)]
    if writable:
        log = XFactory.create_log()
        log.get_classifiers().append(XEventAttributeClassifier("c", list(writable)))
        read = files.read_text(files.write_text(log))[0].get_classifiers()
        lib.equal([list(c.get_defining_attribute_keys()) for c in read], [writable], "keys of the classifier read")
    return ["with spaces"] * any(" " in k for k in keys) + ["several keys"] * (len(keys) > 1)


def ok(key):
    return "'" not in key


SUBS = [
    Sub("collections", histories, check_history, lambda c: sum(o[0] == "add" for o in c["ops"]) > 1,
        "random additions to nested lists and containers, changes of returned lists, copies and documents; non-trivial: at "
        "least two additions", 3000),
    Sub("keys", key_lists, check_keys, lambda c: len(c["keys"]) > 1 or " " in c["keys"][0],
        "random key lists, joined, split, quoted at will, and in documents; non-trivial: several keys or inner spaces", 4000),
]
ASSUMPTIONS = ["keys have no apostrophes, are not empty and do not begin or end with white space"]
