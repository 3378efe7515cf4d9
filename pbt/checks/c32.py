"""C32: damaged files are refused and failed writes are reported."""
import builtins
import gzip
import io
import os
import resource
import xml.parsers.expat as expat

from hypothesis import strategies as st

import files
import gen
import lib
from checks import c07
from harness import Scratch, Sub
from opyenxes.data_in.XUniversalParser import XUniversalParser

NAMES = ["log.%s", "log.%s", " log.%s ", "%s", "a#b?c&d.%s", "a%%20b.%s", "\u00e9\u4e2d.%s", "LOG.%s.", ".%s", "log.%s.tmp", "-.%s~", "a\tb.%s", "a:b.%s", "a\\b.%s"]
FORMS = ["xes", "xes", "xes.gz", "xes.gz", "xez", "mxml", "mxml.gz", "xml"]


@st.composite
def formed(draw):
    form = draw(st.sampled_from(FORMS))
    return form, draw(gen.logs(depth=2, max_traces=3, naive=False) if form.startswith("xe") else c07.logs())


@st.composite
def damage_cases(draw):
    form, log = draw(formed())
    return {"log": log, "form": form, "how": draw(st.sampled_from(["cut", "cut", "cut", "cut tag", "flip", "flip", "junk", "twice", "middle"])),
            "at": draw(st.one_of(st.integers(0, 40), st.integers(0, 10**6), st.integers(-200, -1))), "bit": draw(st.integers(0, 7)),
            "binary": draw(st.booleans()), "universal": draw(st.booleans()), "big": draw(st.sampled_from([1] * 9 + [25]))}


def kind_of(form):
    return "xes" if form.startswith("xe") else "mxml", form.endswith("gz") or form == "xez"


def dump(logs):
    return [[lib.dump_log(log), dict(log.get_features())] for log in logs]


def damaged(data, case):
    """(data, whether nothing may be read from it)"""
    how, size = case["how"], len(data)
    at = case["at"] % size
    if how == "cut":
        return data[:at]
    if how == "cut tag":
        found = [i for i in range(size) if data[i:i + 1] == b"<"]
        return data[:found[at % len(found)]] if found else data[:at]
    if how == "flip":
        return data[:at] + bytes([data[at] ^ (1 << case["bit"])]) + data[at + 1:]
    if how == "junk":
        return data + b"junk <log/>"
    if how == "twice":
        return data + data
    return data[:at] + data[min(size, at + 1 + case["bit"]):]


def complete(data, zipped):
    """The document in the data; None if there is none."""
    if not zipped:
        return data
    try:
        return gzip.decompress(data)
    except Exception:
        return None


def well_formed(data, text):
    parser = expat.ParserCreate()
    try:
        parser.Parse(data.decode("utf-8") if text else data, True)
        return True
    except (expat.ExpatError, LookupError, UnicodeDecodeError):
        return False


def read(path, kind, zipped, binary, parser):
    with open(path, "rb") if binary or zipped else open(path, encoding="utf-8") as file:
        return parser.parse(file)


def check_damage(case):
    kind, zipped = kind_of(case["form"])
    log = lib.make_log(dict(case["log"], rep=case["big"]))
    path = Scratch.file("log." + case["form"])
    files.write(log, path, kind, zipped)
    with open(path, "rb") as file:
        data = file.read()
    parser = (files.ZIPPED if zipped else files.PLAIN)[kind][1]()
    used = XUniversalParser if case["universal"] else parser
    expected = dump(read(path, kind, zipped, case["binary"], parser))
    bad = damaged(data, case)
    document = complete(bad, zipped)
    if document is None or not well_formed(document, not (zipped or case["binary"])):
        verdict = "refuse"
    elif document == complete(data, zipped) or document == data:
        verdict = "same"
    else:
        verdict = "free"        # another document, e.g. with a letter changed
    broken = os.path.join(os.path.dirname(path), "broken." + case["form"])
    with open(broken, "wb") as file:
        file.write(bad)
    try:
        found = dump(read(broken, kind, zipped, case["binary"], used))
    except Exception:
        found = None
    if verdict == "refuse":
        lib.check(found is None, "a damaged file (%s) was read" % case["how"])
    elif verdict == "same":
        lib.check(found is not None, "a file with the same content was refused")
        lib.same(expected, found, "file with the same content")
    with open(broken, "rb") as file:
        lib.check(file.read() == bad, "reading has changed the file")
    lib.same(expected, dump(read(path, kind, zipped, case["binary"], parser)), "the intact file after the damaged one")
    if case["universal"]:
        lib.same(expected, dump(read(path, kind, zipped, case["binary"], XUniversalParser)), "the intact file after the damaged one")
    return [case["form"], case["how"], verdict]


# ---- writing ------------------------------------------------------------------------------
@st.composite
def write_cases(draw):
    form, log = draw(formed())
    return {"log": log, "form": form, "at": draw(st.integers(0, 10**6)),
            "same": draw(st.booleans()), "name": draw(st.sampled_from(NAMES)), "times": draw(st.integers(1, 3)), "big": draw(st.sampled_from([1] * 5 + [20])),
            "error": draw(st.sampled_from(["OSError", "OSError", "OSError", "ValueError", "MemoryError"])), "once": draw(st.sampled_from([None, None, "any", "long", "long"]))}


class Full(io.StringIO):
    """A stream with little room."""
    def __init__(self, room, error):
        super().__init__()
        self.room, self.error = room, error

    def write(self, text):
        taken = super().write(text[:self.room])
        self.room -= taken
        if taken < len(text):
            raise self.error("no room")
        return taken


class Flaky:
    """Files opened in the block; one of the writes to them fails, later ones do not."""
    def __init__(self, at, error):
        self.at, self.error, self.calls = at, error, 0

    def __enter__(self):
        self.open = builtins.open
        builtins.open = self.opened
        return self

    def __exit__(self, *_):
        builtins.open = self.open

    def opened(self, *args, **options):
        file = self.open(*args, **options)
        if not isinstance(file, io.BufferedWriter):
            return file
        flaky = self

        class File(io.BufferedWriter):
            def write(self, data):
                flaky.calls += 1
                if flaky.calls - 1 == flaky.at:
                    raise flaky.error("a fault of the disk")
                return super().write(data)
        return File(file.detach())


def fails_once(serializer, log, path, case, error):
    """(whether there was a fault, what was raised)"""
    count = None
    for turn in range(2):
        failed = None
        with open(path, "w", encoding="utf-8") as file:
            with Flaky(-1 if count is None else case["at"] % count, error) as flaky:
                try:
                    serializer.serialize(log, file)
                except Exception as problem:
                    failed = problem
        if count is None:
            lib.check(failed is None, "writing fails without a fault: %r" % (failed,))
            if not flaky.calls:
                return False, None
            count = flaky.calls
            case = dict(case, at=case["at"] if case["once"] == "any" else count - 1 - (3 + [0, 0, 0, 0, 1, 2, 3, 5][case["at"] % 8]) % count)
    return flaky.calls > case["at"] % count, failed


def lengthened(spec):
    """With long texts, so that parts of the document are passed on before it is complete."""
    more = [{"t": "string", "k": "long %d" % n, "v": "some %d text " % n * 9000, "a": []} for n in range(9)]
    return dict(spec, traces=[dict(spec["traces"][0], attrs=spec["traces"][0]["attrs"] + more, events=spec["traces"][0]["events"] + [{"attrs": []}])] + spec["traces"][1:])


def check_write(case):
    kind, zipped = kind_of(case["form"])
    log = lib.make_log(dict(case["log"], rep=case["big"]))
    if case["once"] == "long" and zipped and case["log"]["traces"]:
        log = lib.make_log(dict(lengthened(case["log"]), rep=1))
    before = lib.snap_log(log)
    make = (files.ZIPPED if zipped else files.PLAIN)[kind][0]
    serializer = make()
    wanted = files.write_text(log, kind)
    error = {"OSError": OSError, "ValueError": ValueError, "MemoryError": MemoryError}[case["error"]]
    path = Scratch.file(case["name"] % case["form"])
    for _ in range(case["times"]):
        failed = None
        if zipped and case["once"]:
            fault, failed = fails_once(serializer, log, path, case, error)
            lib.check(not fault or isinstance(failed, error), "a fault of the disk is reported as %r" % (failed,))
        elif zipped:
            files.write(log, path, kind, zipped, make())
            size = os.path.getsize(path)
            room = case["at"] % max(1, size - 12)
            _, hard = limits = resource.getrlimit(resource.RLIMIT_FSIZE)
            file = open(path, "w", encoding="utf-8")
            resource.setrlimit(resource.RLIMIT_FSIZE, (room, hard))
            try:
                serializer.serialize(log, file)
            except Exception as problem:
                failed = problem
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, limits)
                file.close()
            lib.check(isinstance(failed, OSError), "writing to a full disk is reported as %r" % (failed,))
        else:
            stream = Full(case["at"] % len(wanted), error)
            try:
                serializer.serialize(log, stream)
            except BaseException as problem:
                failed = problem
            lib.check(isinstance(failed, error), "an error while writing is reported as %r" % (failed,))
        lib.same(before, lib.snap_log(log), "log after a failed write")
    again = serializer if case["same"] else make()
    files.write(log, path, kind, zipped, again)
    opener = gzip.open if zipped else open
    with opener(path, "rb") as file:
        lib.check(file.read().decode("utf-8") == wanted, "another document after a failed write")
    return [case["form"]]


# ---- reading from a source that fails -------------------------------------------------------
@st.composite
def read_cases(draw):
    form, log = draw(formed())
    return {"log": log, "form": form, "at": draw(st.integers(0, 10**6)), "text": draw(st.booleans()), "chunk": draw(st.sampled_from([1, 7, 64, 1000, 10**6])),
            "universal": draw(st.booleans()), "same": draw(st.booleans()), "long": draw(st.booleans()),
            "error": draw(st.sampled_from(["OSError", "OSError", "EOFError", "ValueError", "MemoryError", "StopIteration", "KeyError"]))}


ERRORS = {e.__name__: e for e in (OSError, EOFError, ValueError, MemoryError, StopIteration, KeyError)}


class Source:
    """One of the reads of a stream fails, later ones do not."""
    def __init__(self, at, error, chunk):
        self.at, self.error, self.chunk, self.calls = at, error, chunk, 0

    def failing(self, base):
        source = self

        class Stream(base):
            def read(self, size=-1):
                source.calls += 1
                if source.calls - 1 == source.at:
                    raise source.error("a fault of the source")
                return super().read(size if size is None or size < 0 else min(size, source.chunk))

            def read1(self, size=-1):
                return self.read(size)

            def readinto(self, buffer):
                data = self.read(len(buffer))
                buffer[:len(data)] = data
                return len(data)
        return Stream

    def opened(self, *args, **options):
        file = self.open(*args, **options)
        return self.failing(io.BufferedReader)(file.detach()) if isinstance(file, io.BufferedReader) else file

    def __enter__(self):
        self.open = builtins.open
        builtins.open = self.opened
        return self

    def __exit__(self, *_):
        builtins.open = self.open


def check_read(case):
    kind, zipped = kind_of(case["form"])
    spec = lengthened(case["log"]) if case["long"] and case["log"]["traces"] else case["log"]
    path = Scratch.file("log." + case["form"])
    files.write(lib.make_log(dict(spec, rep=1)), path, kind, zipped)
    parser = (files.ZIPPED if zipped else files.PLAIN)[kind][1]()
    used = XUniversalParser if case["universal"] and zipped else parser
    expected = dump(read(path, kind, zipped, True, parser))
    error = ERRORS[case["error"]]
    with open(path, "rb") as file:
        data = file.read()

    def attempt(at):
        """(how often the source was read, what was raised, the logs)"""
        source = Source(at, error, 10**9 if zipped else max(case["chunk"], len(data) // 200))
        try:
            if zipped:
                with open(path, "rb") as file, source:
                    return source, None, used.parse(file)
            stream = source.failing(io.StringIO)(data.decode("utf-8"), newline="") if case["text"] else source.failing(io.BytesIO)(data)
            return source, None, used.parse(stream)
        except Exception as problem:
            return source, problem, None
    source, problem, logs = attempt(-1)
    lib.check(problem is None, "reading fails without a fault: %r" % (problem,))
    lib.same(expected, dump(logs), "log read in small parts")
    if not source.calls:
        return [case["form"], "no fault"]
    at = case["at"] % source.calls
    source, problem, logs = attempt(at)
    if source.calls > at:
        lib.check(problem is not None, "a fault of the source is not reported")
        lib.check(used is XUniversalParser or isinstance(problem, error), "a fault of the source is reported as %r" % (problem,))
    again = parser if case["same"] else (files.ZIPPED if zipped else files.PLAIN)[kind][1]()
    lib.same(expected, dump(read(path, kind, zipped, True, again)), "log after a failed read")
    return [case["form"], case["error"]]


SUBS = [
    Sub("damage", damage_cases, check_damage, lambda c: c["log"]["traces"],
        "written files cut off, with changed bits, gaps or junk at random places; non-trivial: the log has traces", 2400),
    Sub("writes", write_cases, check_write, lambda c: c["log"]["traces"],
        "writes that fail after a random amount, or once at a random place; non-trivial: the log has traces", 1200),
    Sub("reads", read_cases, check_read, lambda c: c["log"]["traces"],
        "reads from streams of which one read, at a random place, fails; non-trivial: the log has traces", 1000),
]
ASSUMPTIONS = ["a changed document that is still well-formed XML (and correct gzip data) may be read as it is"]
