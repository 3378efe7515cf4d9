"""C31: the folders of the library are where the platform keeps them."""
import os
import platform
import sys

from hypothesis import strategies as st

import gen
import lib
from harness import Scratch, Sub
from isolate import Isolation

PLATFORMS = ["linux", "linux", "linux2", "linux-armv7", "freebsd12", "freebsd7", "darwin", "win32", "cygwin", "sunos5", "aix7", "netbsd9", "wasi"]
SYSTEMS = {"linux": "Linux", "freebsd": "FreeBSD", "darwin": "Darwin", "win32": "Windows", "cygwin": "CYGWIN_NT-10.0", "sunos": "SunOS", "aix": "AIX"}
FILES = ["some file", ".hidden", "a.xesext", "b.XESEXT", "tmp", "x.tmp", "~", "ExtensionCache", "OpenXES", ".DS_Store", "Thumbs.db"]
HOMES = ["home", "a b", "\u00e9\u4e2d", "x/y/z", "it's", "dot.dir", "OpenXES", ".OpenXES", "windows", "win32", "Library", "-x", "%s", "{}", "new", "end ", " x", "end /y", "a /b"]


@st.composite
def cases(draw):
    op = st.tuples(st.sampled_from(["support", "cache", "cache", "file", "predicates", "new", "new home"]), st.integers(0, 20)).map(list)
    return {"platform": draw(st.sampled_from(PLATFORMS)), "homes": draw(st.lists(st.sampled_from(HOMES), min_size=1, max_size=3)),
            "file": draw(st.sampled_from(FILES)), "before": draw(st.sampled_from(["nothing", "nothing", "support", "cache", "content"])),
            "ops": draw(gen.several(op, 12))}


def parts_of(system):
    """Names of the support folder below the user's home."""
    if system.startswith("win32"):
        return ["OpenXES"]
    if system.startswith("darwin"):
        return ["Library", "Application Support", "OpenXES"]
    return [".OpenXES"]


def session(task):
    """In a process of its own, which takes itself for one on another platform."""
    for name in list(sys.modules):
        if name.split(".")[0] == "opyenxes":
            del sys.modules[name]
    sys.platform = task["platform"]
    system = next((s for p, s in SYSTEMS.items() if task["platform"].startswith(p)), "Other")
    platform.system = lambda: system
    from opyenxes.utils.XRuntimeUtils import XRuntimeUtils
    utils = XRuntimeUtils()
    out = []
    for op, home in task["ops"]:
        os.environ["HOME"] = home
        if op == "new":
            utils = XRuntimeUtils()
            out.append(None)
        elif op == "support":
            out.append(utils.get_support_folder())
        elif op in ("cache", "file"):
            out.append(utils.get_extension_cache_folder())
            if op == "file":
                with open(os.path.join(out[-1], task["file"]), "a") as file:
                    file.write("x")
        else:
            out.append([utils.determine_os(), bool(utils.is_running_windows()), bool(utils.is_running_mac_os_x()),
                        bool(utils.is_running_linux()), bool(utils.is_running_unix())])
    return out


def tree(folder):
    found = {}
    for place, folders, names in os.walk(folder):
        found[os.path.relpath(place, folder)] = None
        for name in names:
            with open(os.path.join(place, name)) as file:
                found[os.path.relpath(os.path.join(place, name), folder)] = file.read()
    return found


def check(case):
    Isolation.start(session)
    top = Scratch.file("top")
    os.mkdir(top)
    homes = []
    for number, name in enumerate(case["homes"]):
        homes.append(os.path.join(top, str(number), name))
        os.makedirs(homes[-1])
    system = case["platform"]
    windows = system.startswith("win32")
    sep = "\\" if windows else "/"
    if case["before"] != "nothing":
        folder = sep.join([homes[0]] + parts_of(system))
        if case["before"] != "support":
            folder += sep + "ExtensionCache"
        os.makedirs(folder)
        if case["before"] == "content":
            for name in FILES[1:]:
                with open(os.path.join(folder, name), "w") as file:
                    file.write("old")
            os.utime(os.path.join(folder, FILES[2]), (0, 0))
            os.mkdir(os.path.join(folder, "empty"))
    wanted = tree(top)
    ops, current = [], homes[0]
    for op, number in case["ops"]:
        if op == "new home":
            current = homes[number % len(homes)]
        else:
            ops.append([op, current])
    results = Isolation.run({"platform": system, "ops": ops, "file": case["file"]})
    for (op, home), result in zip(ops, results):
        support = [home] + parts_of(system)
        if op in ("support", "cache", "file"):
            path = support + (["ExtensionCache"] if op != "support" else [])
            lib.check(isinstance(result, str) and result.rstrip("/\\").replace("\\", "/") == "/".join(path).replace("\\", "/"), "%s folder of %s is %r" % (op, system, result))
            if op == "support":
                lib.check(result[-1] in "/\\", "the support folder %r does not end with a separator" % result)
            real = result.rstrip("/\\")
            lib.check(os.path.isdir(real), "%r does not exist" % real)
            for folder in {real, real[:-len("ExtensionCache")].rstrip("/\\") if op != "support" else real}:
                relative = os.path.relpath(folder, top)
                while relative:
                    wanted.setdefault(relative, None)
                    relative = os.path.dirname(relative)
            if op == "file":
                name = os.path.relpath(os.path.join(real, case["file"]), top)
                wanted[name] = wanted.get(name, "") + "x"
        elif op == "predicates":
            linux, mac, bsd = system.startswith("linux"), system.startswith("darwin"), system.startswith("freebsd")
            lib.equal(result, [system, windows, mac, linux, linux or mac or bsd], "what %s is" % system)
    lib.same(wanted, tree(top), "files and folders")
    return [system.rstrip("0123456789"), case["before"]] + sorted({o[0] for o in ops})


SUBS = [
    Sub("folders", cases, check, lambda c: any(o[0] in ("support", "cache", "file") for o in c["ops"]),
        "random platforms, homes and earlier content, each in a fresh process; non-trivial: a folder is asked for", 800),
]
ASSUMPTIONS = ["the name of the platform is what sys.platform says"]
