"""A process forked before any simpy call was made, which answers requests in fresh forks of itself."""
import json
import os
import random
import select
import signal
import struct as S
import sys
import time


def _read(fd, n, deadline=None):
    out = b""
    while len(out) < n:
        if deadline is not None:
            if not select.select([fd], [], [], max(0.0, deadline - time.time()))[0]:
                return None
        b = os.read(fd, n - len(out))
        if not b:
            return None
        out += b
    return out


def _write(fd, data):
    data = S.pack(">I", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


class Zygote:
    """handler(request) -> JSON-able answer, run in a process in which nothing has happened yet"""

    def __init__(self, handler, limit=20):
        self.limit = limit
        a, self.w = os.pipe()
        self.r, b = os.pipe()
        pid = os.fork()
        if pid:
            os.close(a)
            os.close(b)
            self.pid = pid
            return
        try:
            os.close(self.w)
            os.close(self.r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(0)
            self._serve(handler, a, b)
        finally:
            os._exit(0)

    def _serve(self, handler, a, b):
        while True:
            head = _read(a, 4)
            if head is None:
                return
            req = json.loads(_read(a, S.unpack(">I", head)[0]))
            pid = os.fork()
            if pid == 0:
                try:
                    signal.alarm(self.limit)
                    os.close(a)
                    random.seed(req["seed"])
                    _write(b, json.dumps({"ok": handler(req["data"])}).encode())
                except BaseException as ex:
                    _write(b, json.dumps({"failed": repr(ex)[:500]}).encode())
                os._exit(0)
            _, st = os.waitpid(pid, 0)
            if st:
                _write(b, json.dumps({"failed": "status %d" % st}).encode())

    def ask(self, data, seed):
        """-> answer, or None when the fresh process gave none"""
        _write(self.w, json.dumps({"data": data, "seed": seed}).encode())
        head = _read(self.r, 4)
        if head is None:
            return None
        return json.loads(_read(self.r, S.unpack(">I", head)[0])).get("ok")

    def close(self):
        os.close(self.w)
        os.close(self.r)
        os.waitpid(self.pid, 0)
