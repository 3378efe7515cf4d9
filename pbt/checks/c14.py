"""C14: log summaries equal a recount of the log."""
import collections

from hypothesis import strategies as st

import gen
import lib
from checks import c12
from harness import Sub
from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
from opyenxes.info.XLogInfo import XLogInfo
from opyenxes.info.XLogInfoFactory import XLogInfoFactory

STANDARD_KEYS = ["concept:name", "lifecycle:transition"]


def proper_times(attrs):
    """Event timestamps are dates."""
    return [dict(a, k="k" + a["k"]) if a["k"] == "time:timestamp" and a["t"] != "date" else a for a in attrs]


@st.composite
def summary_logs(draw):
    log = draw(gen.logs(depth=2, naive=False, header=False, max_traces=4))
    for trace in log["traces"]:
        if draw(st.integers(0, 5)) == 0:
            trace["events"] = []
        trace["events"] = [{"attrs": proper_times(e["attrs"])} for e in trace["events"]]
        for event in trace["events"]:
            if draw(st.integers(0, 3)) == 0 and not any(a["k"] == "time:timestamp" for a in event["attrs"]):
                event["attrs"].append({"t": "date", "k": "time:timestamp", "v": draw(gen.datetimes(allow_naive=False)), "a": []})
    for trace in log["traces"]:                 # the same event again and again
        if draw(st.integers(0, 9)) == 0:
            trace["events"] = [e for e in trace["events"] for _ in range(draw(st.sampled_from([2, 3])))]
            log["share"] = True
    if draw(st.booleans()):                     # events that happen at the same few times
        pool = draw(st.lists(gen.datetimes(allow_naive=False), min_size=1, max_size=3))
        chance = draw(st.integers(0, 2))
        for trace in log["traces"]:
            for event in trace["events"]:
                if draw(st.integers(0, 3)) > chance:
                    event["attrs"] = [a for a in event["attrs"] if a["k"] != "time:timestamp"]
                    event["attrs"].append({"t": "date", "k": "time:timestamp", "v": draw(st.sampled_from(pool)), "a": []})
    return log


@st.composite
def cases(draw):
    log = draw(summary_logs())
    present = sorted({a["k"] for t in log["traces"] for e in t["events"] for a in e["attrs"]})
    pool = tuple(present * 2 + ["concept:name", "org:resource", "lifecycle:transition", "a"])
    tree = c12.trees(pool, depth=1)
    return {"log": log, "default": draw(st.one_of(st.none(), tree)), "more": draw(st.lists(tree, max_size=3)),
            "in_map": draw(st.booleans()), "twice": draw(st.integers(0, 5)), "none": draw(st.booleans()),
            "requests": draw(st.lists(st.one_of(st.none(), tree), min_size=1, max_size=4))}


def recount(log):
    out = {"log": list(log.get_attributes().values()), "trace": [], "event": [], "meta": []}

    def nested(attribute):
        for child in attribute.get_attributes().values():
            out["meta"].append(child)
            nested(child)
    for trace in log:
        out["trace"].extend(trace.get_attributes().values())
        for event in trace:
            out["event"].extend(event.get_attributes().values())
    for level in ("log", "trace", "event"):
        for attribute in list(out[level]):
            nested(attribute)
    return out


def times_of(trace):
    return [e.get_attributes()["time:timestamp"].get_value() for e in trace if "time:timestamp" in e.get_attributes()]


def check_classes(classes, keys, identities, what):
    counts = collections.Counter(identities(keys))
    got = {c.get_id(): c.size() for c in classes.get_classes()}
    lib.same(dict(counts), got, what)
    lib.equal(len(classes), len(counts), what + ": number of classes")
    for index, identity in enumerate(sorted(counts)):
        lib.equal(classes.get_by_index(index).get_id(), identity, what + ": class with index %d" % index)


def check_info(info, log, classifiers, default_keys, identities):
    """:param classifiers: [(classifier, keys)] that must be covered besides the standard ones."""
    events = [e for t in log for e in t]
    lib.check(info.get_log() is log, "log of the summary")
    lib.equal(info.get_number_of_traces(), len(log), "number of traces")
    lib.equal(info.get_number_of_event(), len(events), "number of events")
    lib.check_bounds(info.get_log_time_boundaries(), times_of(events), "log")
    for number, trace in enumerate(log):
        if number < 12:
            lib.check_bounds(info.get_trace_time_boundaries(trace), times_of(trace), "trace %d" % number)
    check_classes(info.get_event_classes(), default_keys, identities, "default classes")
    check_classes(info.get_name_classes(), ["concept:name"], identities, "name classes")
    check_classes(info.get_resource_classes(), ["org:resource"], identities, "resource classes")
    check_classes(info.get_transition_classes(), ["lifecycle:transition"], identities, "transition classes")
    standard = [(XLogInfo.NAME_CLASSIFIER, ["concept:name"]), (XLogInfo.RESOURCE_CLASSIFIER, ["org:resource"]),
                (XLogInfo.LIFECYCLE_TRANSITION_CLASSIFIER, ["lifecycle:transition"])]
    for classifier, keys in classifiers + standard:
        classes = info.get_event_classes(classifier)
        lib.check(classes is not None, "no classes for the classifier %s" % classifier)
        lib.check(classes.get_classifier() == classifier, "classes of another classifier")
        check_classes(classes, keys, identities, "classes of %s" % classifier)
        if events:
            found = classes.get_class_of(events[0])
            lib.check(found is not None and found.get_id() == classifier.get_class_identity(events[0]), "class of the first event")
    covered = list(info.get_event_classifiers())
    for classifier, _ in classifiers + standard:
        lib.check(any(c == classifier for c in covered), "classifier %s is not covered" % classifier)
    for classifier in covered:
        lib.check(any(c == classifier for c, _ in classifiers + standard), "unexpected classifier %s" % classifier)
    lib.check(info.get_event_classes(XEventAttributeClassifier("no such classifier!", ["zz"])) is None, "classes of an unknown classifier")
    levels = recount(log)
    lib.check_attribute_info(info.get_log_attribute_info(), levels["log"], "log attributes", ordered=False)
    lib.check_attribute_info(info.get_trace_attribute_info(), levels["trace"], "trace attributes", ordered=False)
    lib.check_attribute_info(info.get_event_attribute_info(), levels["event"], "event attributes", ordered=False)
    lib.check_attribute_info(info.get_meta_attribute_info(), levels["meta"], "nested attributes", ordered=False)


def prepare(case):
    log = lib.make_log(case["log"], children_in_map=case["in_map"])
    specs = [[e["attrs"] for e in t["events"]] for t in lib.expand(case["log"])]
    if case["twice"] and len(log) >= case["twice"]:
        log.append(log[case["twice"] - 1])      # the same trace once more
        specs.append(specs[case["twice"] - 1])
    flat = [attrs for trace in specs for attrs in trace]
    cache = {}

    def identities(keys):
        key = tuple(keys)
        if key not in cache:
            cache[key] = [lib.identity(keys, attrs) for attrs in flat]
        return cache[key]
    return log, identities


def check_summary(case):
    log, identities = prepare(case)
    before = lib.snap_log(log)
    more = [c12.build(tree) for tree in case["more"]]
    requested = [(b[0], b[2]) for b in more]
    if case["default"] is None:
        default_keys = STANDARD_KEYS
        extra = [(XLogInfo.STANDARD_CLASSIFIER, STANDARD_KEYS)]
        info = XLogInfo.create(log, None, [b[0] for b in more]) if more or case["none"] else XLogInfo.create(log)
    else:
        built = c12.build(case["default"])
        default_keys = built[2]
        extra = [(built[0], built[2])]
        info = XLogInfo.create(log, built[0], [b[0] for b in more] if more or case["none"] else None)
    check_info(info, log, requested + extra, default_keys, identities)
    lib.same(before, lib.snap_log(log), "log after the summary")
    labels = ["default given" if case["default"] else "standard default"]
    events = [e for t in log for e in t]
    times = times_of(events)
    labels += ["more classifiers"] * bool(more) + ["with timestamps"] * bool(times) + ["empty trace"] * any(len(t) == 0 for t in log)
    labels += ["more than one boundary"] * (len(set(times)) > 1) + ["empty log"] * (len(log) == 0)
    return labels


def check_factory(case):
    log, identities = prepare(case)
    before = lib.snap_log(log)
    last = None
    labels = []
    for tree in case["requests"] + case["requests"][-1:] + case["requests"][:1]:
        if tree is None:
            classifier, keys = XLogInfo.STANDARD_CLASSIFIER, STANDARD_KEYS
            info = XLogInfoFactory.create_log_info(log)
        else:
            classifier, _, keys, _ = c12.build(tree)
            info = XLogInfoFactory.create_log_info(log, classifier)
        check_info(info, log, [(classifier, keys)], keys, identities)
        if last is not None and last[0] == classifier:
            lib.check(info is last[1], "the summary for the same classifier was made again")
            labels.append("same request again")
        elif last is not None:
            lib.check(info is not last[1], "the summary for another classifier was returned")
            labels.append("other request")
        last = (classifier, info)
        lib.check(log.get_info(classifier) is info, "cached summary")
    copy = log.clone()
    lib.check(XLogInfoFactory.create_log_info(copy, last[0]).get_log() is copy, "summary of a clone")
    lib.same(before, lib.snap_log(log), "log after the summaries")
    return sorted(set(labels))


SUBS = [
    Sub("summary", cases, check_summary, lambda c: any(t["events"] for t in c["log"]["traces"]),
        "random logs with empty and repeated traces, random classifiers, naive recount; non-trivial: log with events", 2400),
    Sub("factory", cases, check_factory, lambda c: any(t["events"] for t in c["log"]["traces"]),
        "sequences of summary requests with different classifiers on one log; non-trivial: log with events", 800),
]
ASSUMPTIONS = ["time:timestamp of an event is a date, with a time zone", "a log is not changed between requests for its summary",
               "nested attributes are those in the attribute maps of attributes"]
