"""C24: timers and texts of durations."""
import re
import time

from hypothesis import strategies as st

import gen
import lib
from harness import Sub
import opyenxes.utils.XTimer as timer_module
from opyenxes.utils.XTimer import XTimer

UNITS = [("days", 86400000), ("hours", 3600000), ("minutes", 60000), ("seconds", 1000), ("milliseconds", 1)]


class Clock:
    """Replaces the clocks of the time module; stands still except when told."""
    NAMES = ["time", "monotonic", "perf_counter", "process_time"]

    def __init__(self, start_ms):
        self.now = start_ms

    def __enter__(self):
        self.saved = []
        replaced = {}
        for name in self.NAMES:
            replaced[getattr(time, name)] = lambda: self.now / 1000
            replaced[getattr(time, name + "_ns")] = lambda: self.now * 1000000
        for module in (time, timer_module):
            for name, value in list(vars(module).items()):
                if callable(value) and getattr(value, "__hash__", None) and value in replaced:
                    self.saved.append((module, name, value))
                    setattr(module, name, replaced[value])
        return self

    def __exit__(self, *_):
        for module, name, value in self.saved:
            setattr(module, name, value)


def parse_text(text):
    """The text of a duration: [(unit, number)], largest unit first."""
    pattern = "".join(r"(?:(\S+) %s, )?" % unit for unit, _ in UNITS[:-1]) + r"(\S+) milliseconds"
    match = re.fullmatch(pattern, text)
    lib.check(match is not None, "not a duration: %r" % text)
    return [(unit, float(number) if re.search("[.e]", number) else int(number))
            for (unit, _), number in zip(UNITS, match.groups()) if number is not None]


def check_text(text, millis):
    parts = parse_text(text)
    sizes = dict(UNITS)
    names = [u for u, _ in UNITS]
    for unit, number in parts:
        lib.check(number >= 0, "negative %s in %r" % (unit, text))
        if unit != "milliseconds":
            lib.check(number == int(number), "%r has broken %s" % (text, unit))
        position = names.index(unit)
        if position:
            limit = UNITS[position - 1][1] / sizes[unit]
            lib.check(number <= limit, "%s of %r exceed the next unit" % (unit, text))
    total = sum(number * sizes[unit] for unit, number in parts)
    close = total == millis if isinstance(millis, int) else abs(total - millis) <= 1e-6 + 1e-9 * millis
    lib.check(close, "%r is %r ms instead of %r" % (text, total, millis))


DELTAS = st.one_of(st.sampled_from([1, 2, 999, 1000, 1001, 59999, 60000, 60001, 3599999, 3600000, 3600001, 86400000, 90061001]),
                   st.integers(1, 10**6), st.integers(1, 10**11))


@st.composite
def histories(draw):
    op = st.tuples(st.sampled_from(["start", "stop", "read", "read", "text", "other"]), DELTAS).map(list)
    return {"start": draw(st.one_of(st.sampled_from([1, 1262304000000, 86400000]), st.integers(1, 4 * 10**12))),
            "ops": draw(gen.several(op, 16))}


def check_history(case):
    labels = set()
    with Clock(case["start"]) as clock:
        timer = XTimer()
        started, stopped = clock.now, None
        others = []
        for op, delta in case["ops"]:
            clock.now += delta
            if op == "start":
                timer.start()
                started, stopped = clock.now, None
                labels.add("restarted")
                clock.now += 1
            elif op == "stop":
                timer.stop()
                labels.add("stopped" if stopped is None else "stopped again")
                stopped = clock.now
                clock.now += 1
            elif op == "other":
                others.append([XTimer(), clock.now])
                clock.now += 1
            wanted = (clock.now if stopped is None else stopped) - started
            got = timer.get_duration()
            lib.check(isinstance(got, (int, float)) and abs(got - wanted) < 0.1, "duration %r instead of %r" % (got, wanted))
            if op == "text":
                text = timer.get_duration_string()
                parts = parse_text(text)
                total = sum(number * dict(UNITS)[unit] for unit, number in parts)
                lib.check(abs(total - wanted) < 0.1, "%r is %r ms instead of %r" % (text, total, wanted))
                check_text(text, float(total))
            for other, since in others:
                lib.check(abs(other.get_duration() - (clock.now - since)) < 0.1, "duration of another timer")
    return sorted(labels)


@st.composite
def durations(draw):
    kind = draw(st.integers(0, 3))
    if kind == 0:
        return {"ms": draw(st.integers(0, 10**15))}
    if kind == 1:
        unit = draw(st.sampled_from(UNITS))[1]
        return {"ms": max(0, unit * draw(st.sampled_from([1, 2, 23, 24, 25, 59, 60, 61, 99, 100, 365, 999, 1000])) + draw(st.sampled_from([-1, 0, 1])))}
    if kind == 2:
        numbers = [draw(st.sampled_from([0, 1, last - 1, last])) for last in (400, 24, 60, 60, 1000)]
        return {"ms": sum(n * size for n, (_, size) in zip(numbers, UNITS))}
    return {"ms": draw(st.floats(0, 1e12))}


def check_duration(case):
    millis = case["ms"]
    for text in (XTimer.format_duration(millis), XTimer().format_duration(millis)):
        check_text(text, millis)
    return ["whole" if isinstance(millis, int) else "fraction"] + ["more than a day"] * (millis > 86400000)


SUBS = [
    Sub("timers", histories, check_history, lambda c: any(o[0] in ("start", "stop") for o in c["ops"]),
        "random start, stop and read operations under a clock of the check; non-trivial: the timer is started or stopped", 4000),
    Sub("durations", durations, check_duration, lambda c: c["ms"] > 1000,
        "texts of random durations against their parts; non-trivial: more than a second", 8000),
]
ASSUMPTIONS = ["the clock advances by at least a millisecond between two operations", "durations are not negative"]
