"""C02: written XES is standard XES."""
from hypothesis import strategies as st

import files
import gen
import lib
import refxes
from harness import Sub


def check(case):
    spec, mode = case["log"], case["mode"]
    log = lib.make_log(spec)
    before = lib.snap_log(log)
    handle = files.write_mode(log, mode)
    lib.same(before, lib.snap_log(log), "log after writing")
    text = files.text_of(handle, mode)
    lib.check(text.startswith("<?xml"), "no XML declaration")
    lib.same(lib.unbind(lib.expected_log(spec, written=True)), refxes.read(text.encode("utf-8")), "independent reader")
    lib.equal(files.text_of(files.write_mode(log, mode), mode), text, "second writing of the same log")
    return gen.shape_labels(spec) + ["mode " + mode]


def subs():
    from checks import c01
    return [
        Sub("document", c01.cases, check, lambda c: gen.has_content(c["log"]),
            "random logs over all value types, nesting, headers and text; non-trivial: at least one attribute", 1300),
        Sub("values", c01.one_value, check, lambda c: True,
            "one attribute (with its children) of random type, key and value at a random place; all non-trivial", 4000),
        Sub("headers", c01.headers, check,
            lambda c: bool(c["log"]["cl"] or c["log"]["gt"] or c["log"]["ge"] or c["log"]["ext"]),
            "random extensions, globals and classifiers; non-trivial: at least one of them", 1000),
    ]


SUBS = subs()
ASSUMPTIONS = ["the reference reader pbt/refxes.py represents XES 1.0 and xs:dateTime/long/double/boolean correctly "
               "(integers of any size are allowed)", "same domain of logs as C01"]
