"""C01: XES write-read round trip."""
from hypothesis import strategies as st

import files
import gen
import lib
from harness import Sub


def without_extensions(text):
    lines = text.split("\n")
    rest = [line for line in lines if not line.strip().startswith("<extension ")]
    return rest, sorted(line for line in lines if line.strip().startswith("<extension "))


def check(case):
    spec, mode = case["log"], case["mode"]
    log = lib.make_log(spec)
    handle = files.write_mode(log, mode, suffix=case.get("suffix"))
    logs = files.read_mode(handle, mode)
    lib.equal(len(logs), 1, "number of logs read")
    lib.same(lib.expected_log(spec, written=True), lib.dump_log(logs[0]), "read log")
    again = files.write_mode(logs[0], mode, suffix=case.get("suffix"))
    first, second = files.text_of(handle, mode), files.text_of(again, mode)
    lib.equal(without_extensions(second), without_extensions(first), "second writing")
    return gen.shape_labels(spec) + ["mode " + mode]


@st.composite
def cases(draw):
    case = {"log": draw(gen.logs()), "mode": draw(st.sampled_from(files.MODES))}
    if case["mode"] == "gzip":
        case["suffix"] = draw(st.sampled_from(["xes.gz", "xez"]))
    return case


@st.composite
def one_value(draw):
    """A single attribute at a random place: many values of every type, cheaply."""
    attr = draw(gen.attributes(depth=1))
    place = draw(st.sampled_from(["log", "trace", "event", "gt", "ge"]))
    spec = {"attrs": [], "ext": [], "gt": [], "ge": [], "cl": [], "rep": 1,
            "traces": [{"attrs": [], "events": [{"attrs": []}]}]}
    target = {"log": spec["attrs"], "trace": spec["traces"][0]["attrs"],
              "event": spec["traces"][0]["events"][0]["attrs"], "gt": spec["gt"], "ge": spec["ge"]}[place]
    target.append(attr)
    return {"log": spec, "mode": "memory"}


@st.composite
def headers(draw):
    return {"log": dict(draw(gen.logs(depth=0, max_traces=1)), rep=1), "mode": "memory"}


SUBS = [
    Sub("roundtrip", cases, check, lambda c: gen.has_content(c["log"]),
        "random logs over all value types, nesting, headers and text; non-trivial: at least one attribute", 1100),
    Sub("values", one_value, check, lambda c: True,
        "one attribute (with its children) of random type, key and value at a random place; all non-trivial", 5000),
    Sub("headers", headers, check, lambda c: bool(c["log"]["cl"] or c["log"]["gt"] or c["log"]["ge"] or c["log"]["ext"]),
        "random extensions, globals and classifiers; non-trivial: at least one of them", 900),
]
ASSUMPTIONS = ["texts are legal XML 1.0 text", "map keys equal attribute keys",
               "classifier keys have no apostrophes and no outer or line-breaking white space",
               "offsets are whole minutes within 14 hours, timestamps are compared to the millisecond",
               "children of lists and containers are those added to the collection"]
