"""C05: timestamp text conversion is exact."""
import datetime
import os
import time

from hypothesis import strategies as st

import gen
import lib
import refxes
from checks import c04
from harness import Sub
from opyenxes.model.XAttributeTimestamp import XAttributeTimestamp
from opyenxes.utils.XsDateTimeConversion import parse_date_time

ZONES = ["UTC", "EST5EDT", "Asia/Kolkata", "IST-5:30", "NZST-12NZDT", "Europe/Berlin", "<-03>3", "America/St_Johns"]
EPOCH = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)


def local_zone(name):
    os.environ["TZ"] = name
    time.tzset()


def parts_of(value):
    return lib.datetime_value(value)


@st.composite
def date_texts(draw):
    parts = draw(gen.datetimes(allow_naive=True))
    digits = draw(st.sampled_from([0, 1, 2, 3, 3, 3, 6, 4, 5, 7, 9, 12, 30]))
    fraction = "".join(draw(st.lists(st.sampled_from("0123456789"), min_size=digits, max_size=digits)))
    zone = parts[7]
    text = "%04d-%02d-%02dT%02d:%02d:%02d" % tuple(parts[:6]) + ("." + fraction if fraction else "")
    if zone == 0:
        text += draw(st.sampled_from(["Z", "+00:00", "-00:00"]))
    elif zone is not None:
        text += "%s%02d:%02d" % ("-" if zone < 0 else "+", abs(zone) // 60, abs(zone) % 60)
    return {"text": text, "tz": draw(st.sampled_from(ZONES))}


def check_read(case):
    local_zone(case["tz"])
    value = parse_date_time(case["text"])
    lib.check(value is not None, "%r was not read" % case["text"])
    lib.same(refxes.read_date(case["text"]), parts_of(value), repr(case["text"]))
    return ["fraction" if "." in case["text"] else "no fraction"]


@st.composite
def write_cases(draw):
    return {"value": draw(gen.datetimes(allow_naive=True)), "tz": draw(st.sampled_from(ZONES)),
            "via": draw(st.sampled_from(["new", "set", "clone"]))}


def attribute_of(case):
    value = lib.make_datetime(case["value"])
    if case["via"] == "new":
        return XAttributeTimestamp("t", value)
    attribute = XAttributeTimestamp("t", 0)
    attribute.set_value(value)
    return attribute.clone() if case["via"] == "clone" else attribute


def check_write(case):
    local_zone(case["tz"])
    attribute = attribute_of(case)
    text = str(attribute)
    value = case["value"]
    expected = value[:6] + [value[6] // 1000 * 1000, value[7] or 0]
    lib.same(expected, refxes.read_date(text), "text %r" % text)
    lib.check(len(text.split("T")[1].split(".")[1].rstrip("Z")[:3]) == 3, "no milliseconds in %r" % text)
    lib.same(expected, parts_of(parse_date_time(text)), "read back from %r" % text)
    if value[7] is not None:
        exact = (lib.make_datetime(value) - EPOCH) / datetime.timedelta(milliseconds=1)
        got = attribute.get_value_millis()
        lib.check(abs(got - exact) <= 0.1, "milliseconds of %r: %r, not %r" % (text, got, exact))
        if value[6] % 1000 == 0:
            lib.check(round(got) == exact, "milliseconds of %r: %r, not %r" % (text, got, exact))
    return ["via " + case["via"]] + (["no zone"] if value[7] is None else ["offset"] if value[7] else ["UTC"])


MILLIS = st.one_of(st.integers(-62135596800000 + 10**9, 253402300799000 - 10**9), st.integers(-2**33, 2**42), st.integers(-2000, 2000),
                   st.sampled_from([n for n in gen.thresholds() if -6 * 10**13 < n < 25 * 10**13]),
                   st.integers(-10**7, 10**7).map(lambda s: s * 1000),
                   # around the changes to and from daylight saving time
                   st.tuples(st.sampled_from([1301187600, 1319936400, 1300003200, 1320562800]), st.integers(-7200, 7200)).map(
                       lambda t: (t[0] + t[1]) * 1000 + 7))


@st.composite
def millis_cases(draw):
    return {"millis": draw(MILLIS), "tz": draw(st.sampled_from(ZONES)), "via": draw(st.sampled_from(["new", "set"]))}


def check_millis(case):
    local_zone(case["tz"])
    millis = case["millis"]
    if case["via"] == "new":
        attribute = XAttributeTimestamp("t", millis)
    else:
        attribute = XAttributeTimestamp("t", EPOCH)
        attribute.set_value_millis(millis)
    lib.check(abs(attribute.get_value_millis() - millis) < 0.1, "set %r, got %r" % (millis, attribute.get_value_millis()))
    read = refxes.read_date(str(attribute))
    instant = lib.make_datetime(read)
    # the text holds whole milliseconds, a float count may have lost a fraction of one
    exact = EPOCH + datetime.timedelta(milliseconds=millis)
    lib.check(abs(instant - exact) <= datetime.timedelta(milliseconds=1), "set %r, text %s" % (millis, attribute))
    if abs(millis) < 2**42:
        lib.equal(instant, exact, "instant of %s" % attribute)
    lib.check(instant.replace(microsecond=0) == exact.replace(microsecond=0) or millis % 1000 in (0, 999),
              "set %r, text %s" % (millis, attribute))
    return ["before 1970" if millis < 0 else "after 1970", "zone " + case["tz"]]


@st.composite
def odd_texts(draw):
    return draw(st.one_of(
        c04.bad_texts().map(lambda t: {"text": t, "bad": True}),
        gen.texts().map(lambda t: {"text": t, "bad": not any(c.isdigit() for c in t)}),
        st.text(st.sampled_from("0123456789-:T.Z+ "), max_size=30).map(lambda t: {"text": t, "bad": False}),
        st.text(max_size=20).map(lambda t: {"text": t, "bad": not any(c.isdigit() for c in t)})))


def check_odd(case):
    value = parse_date_time(case["text"])
    if case["bad"]:
        lib.check(value is None, "%r was read as %r" % (case["text"], value))
    elif value is not None:
        lib.check(isinstance(value, datetime.datetime) and value.utcoffset() is not None,
                  "%r was read as %r" % (case["text"], value))
    return ["accepted" if value is not None else "refused"]


SUBS = [
    Sub("read", date_texts, check_read, lambda c: True, "valid xs:dateTime texts under various local time zones; all non-trivial", 6000),
    Sub("write", write_cases, check_write, lambda c: True, "timestamps with any offset under various local time zones; all non-trivial", 6000),
    Sub("millis", millis_cases, check_millis, lambda c: True, "millisecond counts under various local time zones; all non-trivial", 5000),
    Sub("odd", odd_texts, check_odd, lambda c: bool(c["text"].strip()), "texts that are no dates or only look like ones; non-trivial: not blank", 4000),
]
ASSUMPTIONS = ["millisecond counts are compared within a tenth of a millisecond, as they are floating point",
               "counts of timestamps without zone are not claimed", "years 1 to 9999 in UTC"]
