"""C38: finished work leaves nothing behind in memory."""
import gc
import os
import threading

from hypothesis import strategies as st

from checks import c36
from checks.c37 import vary
from harness import Sub

ROUNDS = 5


def alive():
    """How many new objects of the library's classes there are, by class."""
    gc.collect()
    count = {}
    for found in gc.get_objects():
        kind = type(found)
        if kind.__module__.startswith("opyenxes.") and not isinstance(found, type):
            count[kind.__name__] = count.get(kind.__name__, 0) + 1
    return count


def beside():
    """Other things a process has few of."""
    return {"threads": threading.active_count(), "open files": len(os.listdir("/proc/self/fd"))}


@st.composite
def cases(draw):
    return {"tasks": draw(st.lists(c36.tasks(st.sampled_from(sorted(set(c36.KINDS)))), min_size=1, max_size=4)),
            "shared": draw(st.sampled_from([True, True, False])), "varied": draw(st.sampled_from([True, True, False])),
            "damaged": draw(st.integers(0, 3)) == 0}


def work(case, tools, number):
    for task in case["tasks"]:
        c36.perform(vary(task, 10 + number) if case["varied"] else task, tools)
    if case["damaged"]:
        for form in ("xes", "mxml"):
            try:
                c36.c23.files.read_text("<log><trace><event/><WorkflowLog><Process id='p'>%d" % number, form, tools.get("parser " + form))
            except Exception:
                continue
            raise AssertionError("a damaged document was read")


def check(case):
    c36.warm()
    gc.freeze()         # objects of before are of no interest
    try:
        return rounds(case)
    finally:
        gc.unfreeze()


def rounds(case):
    tools = c36.Tools(case["shared"])
    counts, others = [], []
    for number in range(ROUNDS + 2):
        work(case, tools, number)
        counts.append(alive())
        others.append(beside())
    for name in counts[-1]:
        numbers = [count.get(name, 0) for count in counts]
        if all(a < b for a, b in zip(numbers[1:], numbers[2:])):
            raise AssertionError("objects of %s grow from round to round: %r" % (name, numbers))
    for name in others[-1]:
        numbers = [count[name] for count in others]
        if all(a < b for a, b in zip(numbers[1:], numbers[2:])):
            raise AssertionError("%s grow from round to round: %r" % (name, numbers))
    return sorted({task["do"] for task in case["tasks"]}) + (["damaged"] if case["damaged"] else [])


SUBS = [
    Sub("rounds", cases, check, lambda c: True,
        "one to four tasks (reading, writing, cloning, summarising, classifying, accessing, inserting, converting, extension definitions) done "
        "seven times, mostly with other contents each time; all non-trivial", 1200),
]
ASSUMPTIONS = ["memory that stays the same from round to round is no leak",
               "texts and numbers, which are no objects of the library, are not counted"]
