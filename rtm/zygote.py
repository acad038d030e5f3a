"""A process forked before any case ran: every request is answered by a child
of it, which has seen no other call of the library."""
from __future__ import annotations

import os
import pickle
import signal
import struct

_Z = None


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack('<Q', len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _recv(fd):
    def take(n):
        out = b''
        while len(out) < n:
            c = os.read(fd, n - len(out))
            if not c:
                raise EOFError
            out += c
        return out

    return pickle.loads(take(struct.unpack('<Q', take(8))[0]))


class Zygote:
    def __init__(self, fn):
        self.rid = 0
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.owner = os.getpid()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                os.close(w1)
                os.close(r2)
                self._loop(fn, r1, w2)
            except BaseException:  # noqa: BLE001
                code = 1
            finally:
                os._exit(code)
        os.close(r1)
        os.close(w2)
        self.w, self.r, self.pid = w1, r2, pid

    def _loop(self, fn, r, w):
        while True:
            try:
                rid, arg = _recv(r)
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    signal.signal(signal.SIGALRM, signal.SIG_DFL)
                    signal.alarm(100)
                    try:
                        out = ('ok', fn(arg))
                    except BaseException as ex:  # noqa: BLE001
                        import traceback
                        out = ('harness', traceback.format_exc()[-2000:])
                    _send(w, (rid, out))
                finally:
                    os._exit(0)
            _, st = os.waitpid(pid, 0)
            if st:
                _send(w, (rid, ('died', st)))

    def ask(self, arg):
        self.rid += 1
        _send(self.w, (self.rid, arg))
        while True:
            rid, out = _recv(self.r)
            if rid == self.rid:
                return out


def zygote(fn):
    """The zygote of this process (one per process, first call decides)."""
    global _Z
    if _Z is None or _Z.owner != os.getpid():
        _Z = Zygote(fn)
    return _Z
