"""What the library must leave alone: settings of the process, files, network."""
import decimal
import gc
import locale
import logging
import os
import random
import signal
import socket
import sys
import threading
import warnings
import xml.etree.ElementTree as Et


def state():
    """Settings of the process that belong to the application, as texts."""
    mask = os.umask(0o22)
    os.umask(mask)
    context = decimal.getcontext()
    out = {
        "folder": os.getcwd(), "environment": dict(os.environ), "path": list(sys.path), "umask": mask,
        "recursion limit": sys.getrecursionlimit(), "digits": sys.get_int_max_str_digits(), "switch interval": sys.getswitchinterval(),
        "locale": locale.setlocale(locale.LC_ALL), "random numbers": random.getstate(), "decimal context": [context.prec, context.rounding],
        "warnings": [repr(f) for f in warnings.filters], "threads": threading.active_count(), "socket timeout": socket.getdefaulttimeout(),
        "signals": [repr(signal.getsignal(s)) for s in sorted(signal.valid_signals())], "hooks": [id(sys.excepthook), id(sys.gettrace()), id(sys.getprofile()), id(sys.displayhook)],
        "streams": [id(sys.stdout), id(sys.stderr), id(sys.stdin)], "namespaces": dict(Et._namespace_map), "garbage collection": [gc.isenabled(), gc.get_threshold()],
        "logging": [len(logging.getLogger().handlers), logging.getLogger().level, logging.root.manager.disable], "working open": id(open), "working print": id(print),
    }
    return {name: repr(value) for name, value in out.items()}


def open_files():
    """The files this process has open; those that are only waiting for garbage collection do not count."""
    gc.collect()
    if not gc.get_freeze_count():
        gc.freeze()         # what there is by now is not looked at again
    out = []
    for name in os.listdir("/proc/self/fd"):
        try:
            out.append(os.readlink("/proc/self/fd/" + name))
        except OSError:
            pass
    return sorted(name for name in out if not name.endswith("/fd"))


WRITING = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
CHANGES = {"os.mkdir", "os.remove", "os.rename", "os.rmdir", "os.link", "os.symlink", "os.chmod", "os.chown", "os.truncate", "os.utime",
           "shutil.rmtree", "shutil.move", "shutil.copyfile", "shutil.copytree", "shutil.make_archive", "shutil.unpack_archive"}
OTHERS = {"os.system", "os.exec", "os.fork", "os.forkpty", "os.posix_spawn", "os.spawn", "os.kill", "os.killpg", "os.putenv", "os.unsetenv", "os.chdir",
          "subprocess.Popen", "pty.spawn", "urllib.Request", "signal.pthread_kill", "webbrowser.open", "ctypes.dlopen"}


class Watch:
    """Records what the library does to files and the network while it is active."""
    installed = active = False
    reads, writes, others = [], [], []

    @classmethod
    def hook(cls, event, arguments):
        if not cls.active:
            return
        if event == "open":
            path, _, flags = arguments
            if isinstance(path, int):
                return
            path = os.path.abspath(os.fsdecode(path))
            if isinstance(flags, int) and flags & WRITING:
                cls.writes.append(path)
            else:
                cls.reads.append(path)
        elif event in CHANGES:
            cls.writes.append(" ".join([event] + [os.fsdecode(a) for a in arguments if isinstance(a, (str, bytes))]))
        elif event in OTHERS or event.startswith("socket."):
            cls.others.append(event + " " + repr(arguments)[:200])

    @classmethod
    def start(cls):
        if not cls.installed:
            cls.installed = True
            sys.addaudithook(cls.hook)
        cls.reads, cls.writes, cls.others = [], [], []
        cls.active = True

    @classmethod
    def stop(cls):
        cls.active = False

    @classmethod
    def data_read(cls):
        """What has been read, apart from program code."""
        return [path for path in cls.reads if not path.endswith((".py", ".pyc", ".so", ".pth", ".py3-none-any"))]
