"""C30: log messages reach the listener that is installed."""
import contextlib
import io

from hypothesis import strategies as st

import gen
import lib
from harness import Sub
from opyenxes.log.XLogging import XLogging
from opyenxes.log.XStdoutLoggingListener import XStdOutLoggingListener

IMPORTANCE = XLogging.Importance
LEVELS = ["DEBUG", "INFO", "WARNING", "ERROR"]


class Listener:
    def __init__(self):
        self.heard = []

    def log(self, message, importance):
        self.heard.append([message, importance])


class Fickle:
    """A listener that installs another one while it listens."""
    def __init__(self):
        self.heard = []
        self.next = None

    def log(self, message, importance):
        self.heard.append([message, importance])
        if self.next:
            self.next()


class Standard(XStdOutLoggingListener):
    """A listener derived from the standard one."""
    def __init__(self):
        self.heard = []

    def log(self, message, importance):
        self.heard.append([message, importance])


@st.composite
def cases(draw):
    number = st.integers(0, 2)
    op = st.one_of(st.tuples(st.just("listen"), number, st.sampled_from([0, 1, 2, 3, 4, None])),
                   st.tuples(st.just("fickle"), number, st.sampled_from([0, 2, 4, None])),
                   st.tuples(st.just("new"), number),
                   st.tuples(st.just("log"), number, st.one_of(gen.texts(), st.sampled_from(LEVELS)), st.sampled_from([None, "none"] + LEVELS))).map(list)
    return {"ops": draw(gen.several(op, 24)), "repeat": draw(gen.counts([1] * 9 + [20], 300, 24))}


def check(case):
    fickle = Fickle()
    listeners = [Listener(), Listener(), Standard(), Standard(), fickle]
    successor = [None]
    expected = [[] for _ in listeners]
    logging = [XLogging() for _ in range(3)]
    current = ["standard"] * 3
    labels = set()
    for op in case["ops"] * case["repeat"] if case["repeat"] * len(case["ops"]) < 2000 else case["ops"]:
        number = op[1]
        if op[0] == "new":
            logging[number], current[number] = XLogging(), "standard"
        elif op[0] == "fickle":
            # the fickle listener, which is replaced when it hears something
            logging[number].set_listener(fickle)
            current[number] = 4
            successor[0] = op[2]
            labels.add("replaced while listening")
        elif op[0] == "listen":
            logging[number].set_listener(None if op[2] is None else listeners[op[2]])
            current[number] = op[2]
            labels.add("no listener" if op[2] is None else "listener")
        else:
            message, level = op[2], op[3]
            wanted = [message, "DEBUG" if level in (None, "none") else getattr(IMPORTANCE, level)]
            printed = io.StringIO()
            follower = current[number] if current[number] != 4 else successor[0]
            fickle.next = lambda where=logging[number], n=successor[0]: where.set_listener(None if n is None else listeners[n])
            with contextlib.redirect_stdout(printed):
                if level is None:
                    logging[number].log(message)
                elif level == "none":
                    logging[number].log(message, None)
                else:
                    logging[number].log(message, getattr(IMPORTANCE, level))
            if current[number] == "standard":
                labels.add("printed")
                lib.check(message in printed.getvalue() and str(wanted[1]) in printed.getvalue(), "%r is printed for %r" % (printed.getvalue(), wanted))
            else:
                lib.equal(printed.getvalue(), "", "printed without the standard listener")
                if current[number] is not None:
                    expected[current[number]].append(wanted)
                current[number] = follower
        lib.check([x.heard for x in listeners] == expected, "messages heard: %r instead of %r" % ([x.heard[-3:] for x in listeners], [x[-3:] for x in expected]))
    lib.equal(len({IMPORTANCE.DEBUG, IMPORTANCE.INFO, IMPORTANCE.WARNING, IMPORTANCE.ERROR}), 4, "number of levels")
    lib.equal([IMPORTANCE.DEBUG, IMPORTANCE.INFO, IMPORTANCE.WARNING, IMPORTANCE.ERROR], LEVELS, "levels")
    return sorted(labels)


SUBS = [
    Sub("messages", cases, check, lambda c: any(o[0] == "listen" for o in c["ops"]) and any(o[0] == "log" for o in c["ops"]),
        "random messages, listeners and logging objects; non-trivial: a listener is set and something is logged", 3000),
]
ASSUMPTIONS = ["how the standard listener lays out what it prints is free, as long as message and importance are in it"]
