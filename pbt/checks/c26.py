"""C26: cached extension definitions are found again without their source."""
import os
import time
from urllib.parse import quote, urlparse

from hypothesis import strategies as st

import gen
import lib
from checks import c20
from harness import Scratch, Sub
from isolate import Isolation
from opyenxes.extension.XExtension import XExtension
from opyenxes.extension.XExtensionManager import XExtensionManager
from web import Server

DAY = 86400
NAMES = ["one.xesext", "two", "three.xml", "four.XESEXT", "five/", "six.xesext?v=1", "s\u00fc\u00df.xesext", "ei ght.xesext", "a.b.xesext", "a.c.xesext", "a.1", "a.2", "time.xesext"]
DAMAGE = {"garbage.xesext": b"\x00\xff garbage", "empty.xesext": b"", "truncated.xesext": b'<xesextension name="T" prefix="t" uri="http://e/t"><log><string key="a"',
          "readme.txt": b"not an extension", "other.xesext": b"<log/>", "binary.XESEXT": bytes(range(256)), "noattr.xesext": b"<xesextension/>",
          "orphan.xesext": b'<xesextension name="T"><string key="k"/></xesextension>', "aaa.xesext": b"<a><b></a>", "zzz.xesext": b"<zzz",
          "noext": b"x", "early.xesext": b'<string key="k"/>', ".hidden.xesext": b"", "badutf.xesext": b'<?xml version="1.0" encoding="utf-8"?><xesextension name="\xff\xff" prefix="p" uri="u"/>',
          "unknown.xesext": b'<?xml version="1.0" encoding="nonsense"?><xesextension name="n" prefix="p" uri="u"/>'}
PARTS = st.text(st.sampled_from("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~"), min_size=1, max_size=12).filter(
    lambda n: n.strip(".") and "temp" not in n)


@st.composite
def file_names(draw, count):
    """Last parts of URIs; they differ, even when written in small letters."""
    found = []
    words = gen.hinted()
    words = words.map(lambda t: "".join(c for c in t if c.isascii() and c.isalnum() or c in "-_.~")).filter(
        lambda n: n.strip(".") and "temp" not in n) if words is not None else None
    part = gen.weighted((1, st.sampled_from(NAMES)), (1, PARTS), (1, words), (1, PARTS.map(lambda n: n + ".xesext")))
    for name in draw(st.lists(part, min_size=count, max_size=count,
                              unique_by=lambda n: n.lower().split("?")[0].split(".xesext")[0].strip("/"))):
        found.append(name)
    return found


HOMES = ["home", "h\u00f6me", "a home", "home.d", "-h", "x/y/z"]


@st.composite
def cases(draw):
    count = draw(st.integers(1, 4))
    number = st.integers(0, count - 1)
    definition = c20.definitions(uris=st.just("placeholder"))
    op = st.one_of(st.tuples(st.just("cache"), number).map(list), st.tuples(st.just("cache"), number).map(list),
                   st.tuples(st.just("update"), number, definition).map(list),
                   st.tuples(st.just("gone"), number).map(list),
                   st.tuples(st.just("damage"), st.sampled_from(sorted(DAMAGE) + ["folder.xesext", "dangling.xesext", "subfolder"])).map(list),
                   st.tuples(st.just("age"), number, st.sampled_from([1, 20, 29, 31, 40, 400])).map(list),
                   st.tuples(st.just("session"), st.lists(number, max_size=2), st.integers(1, 2)).map(list))
    start = [["cache", n] for n in draw(st.permutations(range(count)))] if draw(st.booleans()) else []
    ops = start + draw(st.lists(op, max_size=8))
    if draw(st.booleans()):
        ops.append(["age", draw(number), draw(st.sampled_from([1, 29, 31, 400]))])
        ops.append(["session", [], 1])
    return {"home": draw(st.sampled_from(HOMES)), "names": draw(file_names(count)), "http": draw(st.lists(st.booleans(), min_size=count, max_size=count)),
            "definitions": [draw(definition) for _ in range(count)],
            "ops": ops + [["cache", draw(number)], ["session", [], 1]]}


def describe(extension):
    levels = {}
    for level, found in zip(c20.LEVELS, (extension.get_log_attributes(), extension.get_trace_attributes(),
                                         extension.get_event_attributes(), extension.get_meta_attributes())):
        levels[level] = sorted([a.get_key(), lib.TAG_OF[type(a)]] for a in found)
    return {"name": extension.get_name(), "prefix": extension.get_prefix(), "uri": extension.get_uri().geturl(), "levels": levels}


def session(task):
    """A new session: registers local extensions, loads the cache, and tells what it knows."""
    os.environ["HOME"] = task["home"]
    manager = XExtensionManager()
    known = {}
    for uri in task["local"]:
        known[uri] = XExtension("Local " + uri, "local", urlparse(uri))
        manager.register(known[uri])
    standard = [manager.get_by_index(i) for i in range(8)]
    for _ in range(task["loads"]):
        manager.load_extension_cache()
    found = []
    while manager.get_by_index(len(found)) is not None:
        extension = manager.get_by_index(len(found))
        for what, same in (("URI", manager.get_by_uri(extension.get_uri())),):
            if same is not extension:
                return {"problem": "extension %d is not found by its %s" % (len(found), what)}
        if manager.get_by_name(extension.get_name()) is None or manager.get_by_prefix(extension.get_prefix()) is None:
            return {"problem": "extension %d is not found by its name and prefix" % len(found)}
        if manager.get_index(extension) != len(found):
            return {"problem": "index of extension %d" % len(found)}
        found.append(extension)
    for position, extension in enumerate(standard):
        if found[position] is not extension:
            return {"problem": "standard extension %d was replaced" % position}
    for uri, extension in known.items():
        if manager.get_by_uri(urlparse(uri)) is not extension:
            return {"problem": "the known extension %s was replaced" % uri}
    return {"found": [describe(extension) for extension in found[8 + len(known):]]}


def check(case):
    Isolation.start(session)
    lib.extension("concept")
    home = Scratch.file(case["home"])
    os.makedirs(home)
    old_home = os.environ["HOME"]
    os.environ["HOME"] = home
    try:
        return run(case, home)
    finally:
        os.environ["HOME"] = old_home


def run(case, home):
    web = Server.start()
    folder = Scratch.file("sources")
    os.makedirs(folder)
    labels = set()
    uris, paths = [], []
    for name, over_http in zip(case["names"], case["http"]):
        path = "/" + quote(name, safe="/?=")
        if over_http or name.endswith("/") or "?" in name:
            uris.append(web + path)
            paths.append(path)
        else:
            uris.append("file://" + quote(folder) + path)
            paths.append(None)
    current = {}

    def publish(number, definition):
        definition = c20.enlarge(dict(definition, uri=uris[number]))
        data = c20.render(definition)
        if paths[number] is not None:
            Server.documents[paths[number]] = data
        else:
            with open(os.path.join(folder, case["names"][number]), "wb") as out:
                out.write(data)
        current[number] = definition
    for number, definition in enumerate(case["definitions"]):
        publish(number, definition)
    cached = {}     # number -> definition
    manager = XExtensionManager()
    cache_files = {}
    for op in case["ops"]:
        if op[0] == "cache":
            number = op[1]
            before = files_below(home)
            manager.cache_extension(urlparse(uris[number]))
            if number in current:
                cached[number] = [current[number], 0]
                new = [f for f in files_below(home) if f not in before]
                if new:
                    lib.equal(len(new), 1, "number of files for one extension")
                    cache_files[number] = new[0]
                lib.check(number in cache_files, "no file for the cached extension %s in the user's folder" % uris[number])
                labels.add("cached again" if not new else "cached")
            else:
                labels.add("source is gone")
                # what was cached before may be kept or lost, but nothing else changes
                if number in cached:
                    cached[number][1] = None
        elif op[0] == "update":
            publish(op[1], op[2])
        elif op[0] == "gone":
            number = op[1]
            if number in current:
                del current[number]
                if paths[number] is not None:
                    del Server.documents[paths[number]]
                else:
                    os.unlink(os.path.join(folder, case["names"][number]))
        elif op[0] == "damage":
            target = cache_folder(home, cache_files)
            if target is None:
                continue
            path = os.path.join(target, op[1])
            if os.path.lexists(path):
                continue
            if op[1] in DAMAGE:
                with open(path, "wb") as out:
                    out.write(DAMAGE[op[1]])
            elif op[1] == "dangling.xesext":
                os.symlink("/nonexistent/file", path)
            else:
                os.mkdir(path)
            labels.add("damaged files")
        elif op[0] == "age":
            number, days = op[1:]
            if number in cached and os.path.exists(cache_files[number]):
                moment = time.time() - days * DAY
                os.utime(cache_files[number], (moment, moment))
                if cached[number][1] is not None:
                    cached[number][1] = days
                labels.add("outdated" if days > 30 else "older")
        else:
            expected, optional = {}, {}
            local = [uris[n] for n in sorted(set(op[1]))]
            # sessions do not need the sources: they cannot be reached now
            saved, hidden = dict(Server.documents), folder + ".hidden"
            Server.documents.clear()
            Server.requests.clear()
            os.rename(folder, hidden)
            try:
                result = Isolation.run({"home": home, "local": local, "loads": op[2]})
            finally:
                os.rename(hidden, folder)
                Server.documents.update(saved)
            lib.equal(Server.requests, [], "requests while loading the cache")
            lib.check("problem" not in result, result.get("problem"))
            for number, (definition, days) in list(cached.items()):
                wanted = {"name": definition["name"], "prefix": definition["prefix"], "uri": definition["uri"], "levels": c20.declared(definition)}
                if days is None:
                    optional[uris[number]] = wanted
                elif days < 30:
                    expected[uris[number]] = wanted
                else:
                    del cached[number]      # discarded
                    if not os.path.exists(cache_files[number]):
                        del cache_files[number]
            for uri in local:
                expected.pop(uri, None)
            found = {e["uri"]: e for e in result["found"]}
            lib.equal(len(found), len(result["found"]), "number of URIs")
            for uri, wanted in expected.items():
                lib.check(uri in found, "the cached extension %s is not found" % uri)
                lib.same(wanted, found[uri], "extension from the cache")
            for uri in found:
                lib.check(uri in expected or uri in optional or uri not in uris, "unexpected extension %s" % uri)
            lib.check(all(uri in uris for uri in found), "extensions nobody has cached: %s" % sorted(set(found) - set(uris)))
            labels.add("session with %d cached" % len(expected))
            if local:
                labels.add("known before")
    return sorted(labels)


def files_below(folder):
    return [os.path.join(where, name) for where, _, names in os.walk(folder) for name in names]


def cache_folder(home, cache_files):
    if cache_files:
        return os.path.dirname(sorted(cache_files.items())[0][1])
    found = [where for where, folders, _ in os.walk(home) if os.path.basename(where) == "ExtensionCache"]
    return found[0] if found else None


SUBS = [
    Sub("histories", cases, check, lambda c: sum(o[0] == "cache" for o in c["ops"]) > 1 or any(o[0] in ("damage", "age") for o in c["ops"]),
        "random caching of definitions from files and a loopback web server in scratch homes, with damaged and outdated files, "
        "lost and changed sources, and later sessions in new processes that cannot reach the sources; non-trivial: several "
        "extensions are cached, or files are damaged or outdated", 1200),
]
ASSUMPTIONS = ["the last parts of the URIs differ", "files not older than 30 days are kept", "a cached extension whose source could not "
               "be read again may be kept or lost"]
