"""Constants of the sources under test, as material for generators.

What appears in comparisons and look-ups of the code is worth trying as input.  Constants the
sources did not have when this was written (pbt/constants.json, made by tools/constants.py)
are tried more often: they show what somebody has started to treat specially.  This only
steers the search; no verdict depends on it.
"""
import ast
import collections
import functools
import json
import os

import harness

HERE = os.path.dirname(os.path.abspath(__file__))


def xml_legal(text):
    return all(c in "\t\n\r" or "\x20" <= c <= "\ud7ff" or "\ue000" <= c <= "\ufffd"
               or "\U00010000" <= c for c in text)


def constants(root):
    """{file: Counter of ["s", text] or ["n", number] as JSON}"""
    found = {}
    for folder, _, names in os.walk(os.path.join(root, "src", "opyenxes")):
        for name in sorted(names):
            if not name.endswith(".py"):
                continue
            path = os.path.join(folder, name)
            with open(path, encoding="utf-8-sig") as file:
                tree = ast.parse(file.read())
            counter = collections.Counter()
            for node in ast.walk(tree):
                if not isinstance(node, ast.Constant):
                    continue
                value = node.value
                if isinstance(value, bytes):
                    value = value.decode("latin-1")
                if isinstance(value, str) and 0 < len(value) <= 60 and xml_legal(value):
                    counter[json.dumps(["s", value])] += 1
                elif type(value) is int and abs(value) < 10**60 or type(value) is float and value == value and abs(value) < 1e300:
                    counter[json.dumps(["n", value])] += 1
            found[os.path.relpath(path, root)] = counter
    return found


@functools.lru_cache(None)
def _load():
    """(all texts, all numbers, new texts, new numbers)"""
    now = constants(harness.REPO)
    path = os.path.join(HERE, "constants.json")
    before = {}
    if os.path.exists(path):
        with open(path) as file:
            before = json.load(file)
    everything, fresh = set(), set()
    for name, counter in now.items():
        everything.update(counter)
        if before:
            fresh.update((counter - collections.Counter(before.get(name, {}))).keys())

    def split(found):
        values = [json.loads(item) for item in sorted(found)]
        return [v for kind, v in values if kind == "s"], [v for kind, v in values if kind == "n"]
    return split(everything) + split(fresh)


def texts():
    return [t for t in _load()[0] if len(t) <= 40]


def numbers():
    """All numbers, with their neighbours and opposites."""
    found = set()
    for number in _load()[1]:
        found.update([number, -number, number + 1, number - 1])
    return sorted(found)


def new_texts():
    return _load()[2]


def new_numbers():
    found = set()
    for number in _load()[3]:
        found.update([number, -number, number + 1, number - 1])
    return sorted(found)


def new_sizes(limit=1500):
    """Sizes just below, at and above new numbers."""
    found = set()
    for number in _load()[3]:
        for size in (number - 1, number, number + 1, number + 2):
            if size == int(size) and 2 <= size <= limit:
                found.add(int(size))
    return sorted(found)


def new_in(low, high):
    return sorted({int(n) for n in new_numbers() if low <= n <= high})
