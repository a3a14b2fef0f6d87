"""call a function in a process in which nothing has run yet

The first call forks a helper from the current process, before anything else of the check
has run in it; the helper forks one child for each call.
"""
import os
import pickle
import struct
import traceback


def _send(fd, data):
    data = struct.pack("<q", len(data)) + data
    while data:
        n = os.write(fd, data[:1 << 20])
        data = data[n:]


def _read(fd, n):
    out = b""
    while len(out) < n:
        b = os.read(fd, min(n - len(out), 1 << 20))
        if not b:
            raise EOFError
        out += b
    return out


def _recv(fd):
    n, = struct.unpack("<q", _read(fd, 8))
    return _read(fd, n)


class Fresh:
    def __init__(self, func):
        self.func = func
        self.pid = None

    def start(self):
        """to be called before anything that may keep a state is run"""
        if self.pid == os.getpid():
            return
        ar, aw = os.pipe()
        br, bw = os.pipe()
        if os.fork() == 0:
            try:
                os.close(aw)
                os.close(br)
                self._serve(ar, bw)
            finally:
                os._exit(0)
        os.close(ar)
        os.close(bw)
        self.r, self.w, self.pid = br, aw, os.getpid()

    def _serve(self, r, w):
        while True:
            try:
                data = _recv(r)
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    args = pickle.loads(data)
                    try:
                        out = ("ok", self.func(*args))
                    except BaseException:
                        out = ("error", traceback.format_exc())
                    _send(w, pickle.dumps(out))
                finally:
                    os._exit(0)
            _, st = os.waitpid(pid, 0)
            if st != 0:
                _send(w, pickle.dumps(("error", "the child ended with status %d" % st)))

    def __call__(self, *args):
        self.start()
        _send(self.w, pickle.dumps(args))
        kind, out = pickle.loads(_recv(self.r))
        if kind == "error":
            raise RuntimeError(out)
        return out
