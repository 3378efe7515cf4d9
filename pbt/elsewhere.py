"""python3-vt pbt/elsewhere.py JOB RESULT: does the tasks of a job in a process with other surroundings.

A job is {"repo", "scratch", "imports", "inside", "tasks"}.  The environment and
the flags of this process are those the check has chosen.
"""
import importlib
import io
import json
import os
import sys
import threading
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))


def arrange(name, value):
    """Changes a setting an application may have changed."""
    if name == "stdout":
        if value == "none":
            sys.stdout = sys.stderr = sys.__stdout__ = None
        elif value == "memory":
            sys.stdout = io.StringIO()
        else:
            sys.stdout = io.TextIOWrapper(io.BytesIO(), encoding=value)
    elif name == "stdin":
        sys.stdin.close()
    elif name == "decimal":
        import decimal
        decimal.getcontext().prec = value
        decimal.getcontext().traps[decimal.Inexact] = True
    elif name == "gc":
        import gc
        gc.set_threshold(value)
    elif name == "recursion":
        sys.setrecursionlimit(value)
    elif name == "digits":
        sys.set_int_max_str_digits(value)
    elif name == "socket":
        import socket
        socket.setdefaulttimeout(value)
    elif name == "logging":
        import logging
        logging.basicConfig(level=value, stream=io.StringIO())
    elif name == "namespaces":
        import xml.etree.ElementTree as Et
        Et.register_namespace("app", "http://www.xes-standard.org/")
        Et.register_namespace("", "http://www.example.org/app")
    elif name == "locale":
        import locale
        locale.setlocale(locale.LC_ALL, value)
    elif name == "argv":
        sys.argv[:] = value
    elif name == "random":
        import random
        random.seed(value)
    elif name == "switch":
        sys.setswitchinterval(value)
    elif name == "limits":
        import resource
        resource.setrlimit(resource.RLIMIT_NOFILE, (value, value))
    elif name == "profile":
        sys.setprofile(lambda *args: None)
    elif name == "umask":
        os.umask(value)
    else:
        raise ValueError(name)


def leave(job, name):
    """Goes to a folder that does not exist any longer."""
    if job["removed"]:
        folder = os.path.join(job["removed"], name)
        os.mkdir(folder)
        os.chdir(folder)
        os.rmdir(folder)


def do(job):
    leave(job, "first")
    for name, value in job["inside"]:
        if name != "thread":
            arrange(name, value)
    for name in job["imports"]:
        importlib.import_module(name)
    if job["removed"]:
        os.chdir("/")       # where Hypothesis can be imported
    from checks import c36
    leave(job, "second")
    from harness import Scratch
    Scratch.path = job["scratch"]
    c36.warm()
    out = []
    for task in job["tasks"]:
        try:
            out.append({"result": c36.alone(task)})
        except Exception:
            out.append({"failed": traceback.format_exc()})
    return out


def main():
    with open(sys.argv[1]) as file:
        job = json.load(file)
    result = sys.argv[2]
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.join(job["repo"], "src"))
    sys.path.insert(0, HERE)
    found = []

    def work():
        try:
            found.append(do(job))
        except BaseException:
            found.append({"broken": traceback.format_exc()})
    if ["thread", True] in job["inside"]:
        thread = threading.Thread(target=work)
        thread.start()
        thread.join()
    else:
        work()
    with open(result, "w") as file:
        json.dump(found[0], file)


if __name__ == "__main__":
    main()
