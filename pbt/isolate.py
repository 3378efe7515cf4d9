"""Runs single tasks, each in a process that has done nothing else before.

A helper process is forked from the shard before it touches the library beyond
importing it; it forks a child for every task.  Tasks and results are JSON.
"""
import _strptime            # noqa: what is imported here, children need not import again
import encodings.idna       # noqa
import encodings.iso8859_1  # noqa
import encodings.utf_16     # noqa
import gc
import json
import os
import struct
import traceback
import xml.dom.minidom      # noqa
import xml.etree.ElementTree  # noqa
import xml.sax.expatreader  # noqa

import harness


class Isolation:
    """The helper process of the running shard."""
    pid = None

    @classmethod
    def start(cls, function):
        """To be called before the first use of the library in this process."""
        if cls.pid == os.getpid():
            return
        request_read, request_write = os.pipe()
        result_read, result_write = os.pipe()
        if os.fork() == 0:
            os.close(request_write)
            os.close(result_read)
            try:
                cls._serve(function, request_read, result_write)
            finally:
                os._exit(0)
        os.close(request_read)
        os.close(result_write)
        cls.pid, cls.request, cls.result = os.getpid(), request_write, result_read

    @classmethod
    def _serve(cls, function, request, result):
        gc.freeze()
        while True:
            data = _receive(request)
            if data is None:
                return
            child = os.fork()
            if child == 0:
                try:
                    answer = {"result": function(json.loads(data))}
                except BaseException:
                    answer = {"failed": traceback.format_exc()}
                try:
                    _send(result, json.dumps(answer).encode())
                finally:
                    os._exit(0)
            os.waitpid(child, 0)

    @classmethod
    def run(cls, task):
        _send(cls.request, json.dumps(task).encode())
        data = _receive(cls.result)
        if data is None:
            raise RuntimeError("the helper process has ended")
        answer = json.loads(data)
        if "failed" in answer:
            raise RuntimeError("isolated task: " + answer["failed"])
        return answer["result"]


def _send(descriptor, data):
    data = struct.pack(">Q", len(data)) + data
    while data:
        data = data[os.write(descriptor, data):]


def _receive(descriptor):
    head = _exactly(descriptor, 8)
    return None if head is None else _exactly(descriptor, struct.unpack(">Q", head)[0])


def _exactly(descriptor, count):
    parts = []
    while count:
        part = os.read(descriptor, min(count, 1 << 20))
        if not part:
            return None
        parts.append(part)
        count -= len(part)
    return b"".join(parts)
