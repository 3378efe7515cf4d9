"""Runs functions in threads that take turns as a given schedule says.

One thread runs at a time.  Threads are switched between lines (or instructions) of the
library's code, at points the schedule gives, so that a run depends on nothing but the schedule
and can be repeated and shrunk.  If the thread whose turn it is does not get any further (it
waits for a lock that another one holds, say), all are let go on freely.
"""
import os
import sys
import threading

import harness

KNOWN = {}


def of_library(frame):
    name = frame.f_code.co_filename
    if name not in KNOWN:
        KNOWN[name] = os.path.realpath(name).startswith(os.path.join(os.path.realpath(harness.REPO), "src") + os.sep)
    return KNOWN[name]


def traced(function, at_line, wanted=of_library):
    """Runs the function; at_line(frame) is called before each line of the frames that are wanted."""
    def local(frame, event, argument):
        if event == "line":
            at_line(frame)
        return local
    sys.settrace(lambda frame, event, argument: local if wanted(frame) else None)
    try:
        return function()
    finally:
        sys.settrace(None)


def lines_of(function):
    """The distinct lines of the library that the function runs, in order, and how often: [[place, number]]."""
    found = {}

    def at_line(frame):
        place = (frame.f_code, frame.f_lineno)
        found[place] = found.get(place, 0) + 1
    traced(function, at_line)
    return list(found.items())


def beside(function, place, number, other):
    """Runs the function, and all of the other one in another thread when the function is at the place for the
    number-th time; if that one waits for something, the function goes on meanwhile.
    :return: outcome of both, the second None if the place was not reached
    """
    left = [number]
    outcome = []
    threads = []

    def body():
        try:
            outcome.append(("result", other()))
        except BaseException as error:
            outcome.append(("error", error))

    def at_line(frame):
        if frame.f_lineno == place[1]:
            left[0] -= 1
            if left[0] == 0:
                threads.append(threading.Thread(target=body, daemon=True))
                threads[0].start()
                threads[0].join(PATIENCE)
    try:
        mine = ("result", traced(function, at_line, lambda frame: frame.f_code is place[0]))
    except BaseException as error:
        mine = ("error", error)
    if not threads:
        return mine, None
    threads[0].join(LIMIT)
    return mine, outcome[0] if outcome else ("error", TimeoutError("the thread does not end"))

PATIENCE = 0.5      # seconds without progress after which threads run freely
LIMIT = 150         # seconds after which threads that have not ended never will


class Schedule:
    def __init__(self, turns, fine=False):
        """:param turns: list of [steps, next]: after so many steps it is another thread's turn; repeated to the end"""
        self.turns = turns
        self.fine = fine
        self.free = False
        self.steps = 0
        self.switches = 0

    def run(self, functions):
        """:return: list of ("result", value) or ("error", exception), in the order of the functions"""
        self.outcome = [None] * len(functions)
        self.alive = list(range(len(functions)))
        self.turn = [threading.Semaphore(0) for _ in functions]
        self.position = -1
        self._advance()
        threads = [threading.Thread(target=self._body, args=(i, f), daemon=True) for i, f in enumerate(functions)]
        for thread in threads:
            thread.start()
        self.turn[0].release()
        for thread in threads:
            thread.join(LIMIT)
        return [o or ("error", TimeoutError("the thread does not end")) for o in self.outcome]

    def _advance(self):
        self.position = (self.position + 1) % len(self.turns)
        self.left = self.turns[self.position][0]

    def _body(self, number, function):
        self._wait(number)
        sys.settrace(self._tracer(number))
        try:
            self.outcome[number] = ("result", function())
        except BaseException as error:
            self.outcome[number] = ("error", error)
        finally:
            sys.settrace(None)
            self.alive.remove(number)
            if self.alive and not self.free:
                self.turn[self.alive[self.turns[self.position][1] % len(self.alive)]].release()

    def _tracer(self, number):
        def local(frame, event, argument):
            if event == ("opcode" if self.fine else "line") and not self.free:
                self.steps += 1
                self.left -= 1
                if self.left <= 0:
                    self._switch(number)
            return local

        def call(frame, event, argument):
            if not of_library(frame):
                return None
            if self.fine:
                frame.f_trace_opcodes = True
            return local
        return call

    def _switch(self, number):
        following = self.alive[self.turns[self.position][1] % len(self.alive)]
        self._advance()
        if following == number:
            return
        self.switches += 1
        self.turn[following].release()
        self._wait(number)

    def _wait(self, number):
        seen = None
        while not self.free and not self.turn[number].acquire(timeout=PATIENCE):
            if self.steps == seen:
                self.free = True
            seen = self.steps
