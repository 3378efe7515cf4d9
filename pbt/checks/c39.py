"""C39: results do not depend on the process a program runs in."""
import json
import os
import subprocess
import sys

from hypothesis import strategies as st

import harness
from checks import c04, c36
from harness import Scratch, Sub
from lib import same

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def modules():
    """The modules of the library, apart from the command line, which needs a package that is not installed."""
    root = os.path.join(harness.REPO, "src", "opyenxes")
    out = []
    for folder, _, names in os.walk(root):
        parts = ["opyenxes"] + [p for p in os.path.relpath(folder, root).split(os.sep) if p != "."]
        out.extend(".".join(parts + [name[:-3]]) for name in names
                   if name.endswith(".py") and name not in ("__init__.py", "__main__.py"))
    return sorted(name for name in out if name.split(".")[1] != "cli")


MODULES = modules()
ENVIRONMENT = {
    "TZ": ["UTC", "America/New_York", "<+0530>-5:30", "<-12>12", "nonsense", "CET-1CEST,M3.5.0,M10.5.0/3"],
    "LC_ALL": ["C", "POSIX", "C.UTF-8", "nonsense", "tr_TR.UTF-8"], "LANG": ["C", "de_DE"], "LANGUAGE": ["tr"],
    "PYTHONUTF8": ["0", "1"], "PYTHONCOERCECLOCALE": ["0"],
    "PYTHONIOENCODING": ["ascii", "latin-1", "cp1252", "utf-16", "utf-8"],
    "HOME": [None, "/nonexistent", "", "relative"], "USER": [None], "PATH": [None, ""], "TMPDIR": ["/nonexistent"],
    "COLUMNS": ["10"], "http_proxy": ["http://127.0.0.1:9"], "PYTHONINTMAXSTRDIGITS": ["5000"], "PYTHONMALLOC": ["debug"],
    "DEBUG": ["1"], "OPYENXES_HOME": ["/nonexistent"], "XES_HOME": ["/nonexistent"], "VERBOSE": ["1"], "CI": ["true"],
}
FLAGS = [["-O"], ["-OO"], ["-X", "dev"], ["-b"], ["-s"], ["-u"], ["-W", "always"], ["-X", "utf8"], ["-X", "importtime"]]
INSIDE = {
    "stdout": ["none", "memory", "ascii", "cp1252", "latin-1"], "stdin": [True], "decimal": [2, 5], "gc": [20, 0],
    "recursion": [600, 5000], "digits": [5000, 0], "socket": [0.001], "logging": ["DEBUG"], "namespaces": [True], "locale": ["C", "C.UTF-8"],
    "argv": [[], ["-h", "--version"], ["é"]], "random": [0], "switch": [0.000001], "limits": [20], "profile": [True], "umask": [0o77, 0],
    "thread": [True],
}


def chosen(options, most):
    """Some settings, each with one of its values."""
    return st.lists(st.sampled_from(sorted(options)), unique=True, max_size=most).flatmap(
        lambda names: st.tuples(*[st.sampled_from(options[name]).map(lambda value, name=name: [name, value]) for name in names]).map(list))


@st.composite
def odd(draw):
    """Conversions of texts that are no dates."""
    task = draw(c36.tasks(st.just("convert")))
    return dict(task, dates=task["dates"] + draw(st.lists(c04.bad_texts(), min_size=1, max_size=3)))


@st.composite
def tasks(draw):
    kinds = st.sampled_from(sorted(set(c36.KINDS) - {"extension"}) + ["read", "read", "write", "classes"])
    found = draw(st.lists(st.one_of(c36.tasks(kinds), c36.tasks(kinds), c36.tasks(kinds), odd(), read_odd()), min_size=3, max_size=8))
    if draw(st.booleans()):
        found.append(draw(c36.tasks(st.just("extension"))))     # the same address must not be defined twice in a process
    return found


@st.composite
def read_odd(draw):
    """Documents with a date that is none, which is left out."""
    task = draw(c36.tasks(st.just("read")))
    if task["source"]["src"].startswith("xes"):
        return dict(task, source=dict(task["source"], doc=draw(c04.cases())["doc"]))
    return task


@st.composite
def cases(draw):
    return {"env": draw(chosen(ENVIRONMENT, 5)), "hash": draw(st.integers(1, 4000000000)), "flags": draw(st.lists(st.sampled_from(FLAGS), max_size=2)),
            "inside": draw(chosen(INSIDE, 4)), "folder": draw(st.sampled_from(["scratch", "root", "removed"])), "tasks": draw(tasks()),
            "imports": draw(st.lists(st.sampled_from(MODULES), unique=True, max_size=4))}


def elsewhere(case):
    """What the tasks give in a process of their own."""
    job, result = Scratch.file("job.json"), Scratch.file("result.json")
    with open(job, "w") as out:
        json.dump({"repo": harness.REPO, "scratch": os.path.dirname(result), "imports": case["imports"], "inside": case["inside"],
                   "tasks": case["tasks"], "removed": Scratch.path if case["folder"] == "removed" else None}, out)
    env = {"HOME": Scratch.path, "PATH": os.environ["PATH"], "LC_ALL": "C.UTF-8", "PYTHONHASHSEED": str(case["hash"]),
           "PYTHONPYCACHEPREFIX": sys.pycache_prefix or Scratch.path, "PYTHONDONTWRITEBYTECODE": ""}
    for name, value in case["env"]:
        env[name] = value
    folder = {"root": "/"}.get(case["folder"], Scratch.path)
    done = subprocess.run([sys.executable] + [f for flag in case["flags"] for f in flag] + [os.path.join(HERE, "elsewhere.py"), job, result],
                          env={name: value for name, value in env.items() if value is not None}, cwd=folder,
                          stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=300)
    if not os.path.exists(result):
        raise AssertionError("the process ended with %d: %s" % (done.returncode, done.stderr.decode("utf-8", "replace")[-1500:]))
    with open(result) as file:
        return json.load(file)


def check(case):
    c36.warm()
    wanted = []
    for task in case["tasks"]:
        wanted.append(c36.alone(task))
    found = elsewhere(case)
    if isinstance(found, dict):
        raise AssertionError("elsewhere: " + found["broken"][-1500:])
    for task, expected, got in zip(case["tasks"], wanted, found):
        if "failed" in got:
            raise AssertionError("%s fails elsewhere: %s" % (task["do"], got["failed"][-1500:]))
        same(expected, got["result"], "%s elsewhere" % task["do"])
    return sorted({task["do"] for task in case["tasks"]}) + [name for name, _ in case["env"] + case["inside"]] + \
        [" ".join(flag) for flag in case["flags"]] + (["other imports first"] if case["imports"] else [])


SUBS = [
    Sub("elsewhere", cases, check, lambda c: bool(c["env"] or c["inside"] or c["flags"] or c["imports"]),
        "three to nine tasks of C36, done in a new process with its own hash seed, flags, environment, encodings, settings, working folder and order of "
        "imports, and compared with what they give here; non-trivial: something but the hash seed differs", 560),
]
ASSUMPTIONS = ["the process has the modules of Python's standard library, and memory and stack enough",
               "names of files can be written in UTF-8 (Python's SAX parser refuses others)"]
