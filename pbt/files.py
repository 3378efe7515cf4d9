"""Writing and reading logs through the library's serializers and parsers."""
import gzip
import io

from harness import Scratch
from opyenxes.data_in.XesXmlGZIPParser import XesXmlGZIPParser
from opyenxes.data_in.XesXmlParser import XesXmlParser
from opyenxes.data_in.XMxmlGZIPParser import XMxmlGZIPParser
from opyenxes.data_in.XMxmlParser import XMxmlParser
from opyenxes.data_out.XesXmlGZIPSerializer import XesXmlGZIPSerializer
from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
from opyenxes.data_out.XMxmlGZIPSerializer import XMxmlGZIPSerializer
from opyenxes.data_out.XMxmlSerializer import XMxmlSerializer

PLAIN = {"xes": (XesXmlSerializer, XesXmlParser), "mxml": (XMxmlSerializer, XMxmlParser)}
ZIPPED = {"xes": (XesXmlGZIPSerializer, XesXmlGZIPParser), "mxml": (XMxmlGZIPSerializer, XMxmlGZIPParser)}

class Slow(io.BytesIO):
    """A stream that gives a few bytes at a time, as pipes and sockets may do."""
    def __init__(self, data, chunk, between=None):
        super().__init__(data)
        self.chunk = chunk
        self.between = between      # called before each read, with its number
        self.reads = 0

    def read(self, size=-1):
        if self.between:
            self.between(self.reads)
            self.reads += 1
        return super().read(size if size is None or size < 0 else min(size, self.chunk))


# how a document is passed on: memory, a text file, a file read as bytes, a compressed file
MODES = ["memory", "memory", "memory", "text", "bytes", "gzip", "gzip"]


def write(log, path, form="xes", zipped=False, serializer=None):
    serializer = serializer or (ZIPPED if zipped else PLAIN)[form][0]()
    with open(path, "w", encoding="utf-8") as out:
        serializer.serialize(log, out)


def read(path, form="xes", zipped=False, binary=False, parser=None):
    parser = parser or (ZIPPED if zipped else PLAIN)[form][1]()
    file = open(path, "rb") if binary else open(path, encoding="utf-8")
    with file:
        return parser.parse(file)


def write_text(log, form="xes", serializer=None):
    out = io.StringIO()
    (serializer or PLAIN[form][0]()).serialize(log, out)
    return out.getvalue()


def read_text(text, form="xes", parser=None):
    return (parser or PLAIN[form][1]()).parse(io.StringIO(text))


def write_mode(log, mode, form="xes", suffix=None, serializer=None):
    """:return: a handle for text_of() and read_mode()"""
    if mode == "memory":
        return write_text(log, form, None)
    path = Scratch.file("log." + (suffix or {"xes": ["xes", "xes.gz"], "mxml": ["mxml", "mxml.gz"]}[form][mode == "gzip"]))
    write(log, path, form, mode == "gzip")
    return path


def text_of(handle, mode):
    if mode == "memory":
        return handle
    opener = gzip.open if mode == "gzip" else open
    with opener(handle, "rb") as file:
        return file.read().decode("utf-8")


def read_mode(handle, mode, form="xes"):
    if mode == "memory":
        return read_text(handle, form)
    return read(handle, form, mode == "gzip", mode == "bytes")
