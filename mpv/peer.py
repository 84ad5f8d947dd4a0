"""A second process with another build of the compiled extension."""
import importlib
import os
import pickle
import struct
import subprocess
import sys
import traceback

from . import build


def _send(f, obj):
    data = pickle.dumps(obj)
    f.write(struct.pack("<Q", len(data)))
    f.write(data)
    f.flush()


def _receive(f):
    head = f.read(8)
    if len(head) < 8:
        raise EOFError("peer died")
    return pickle.loads(f.read(struct.unpack("<Q", head)[0]))


class PeerDied(Exception):
    pass


class Peer:
    def __init__(self, variant, env=None):
        e = dict(os.environ)
        e.update(env or {})
        self.p = subprocess.Popen(
            [sys.executable, "-W", "ignore", "-m", "mpv.peer", variant],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, cwd=build.VERIF,
            env=e)

    def call(self, function, *args):
        """Calls a function ("module:name") in the other process."""
        try:
            _send(self.p.stdin, (function, args))
            ok, result = _receive(self.p.stdout)
        except (EOFError, BrokenPipeError):
            raise PeerDied("exit status %s" % self.p.wait())
        if not ok:
            raise RuntimeError("in peer: " + result)
        return result

    def close(self):
        try:
            self.p.stdin.close()
        except BrokenPipeError:
            pass
        return self.p.wait()


_peers = {}


def peer(variant, env=None):
    """Peer of this process, started on first use."""
    key = (os.getpid(), variant)
    if key not in _peers or _peers[key].p.poll() is not None:
        _peers[key] = Peer(variant, env)
    return _peers[key]


def main():
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    build.install(sys.argv[1])
    while True:
        try:
            function, args = _receive(sys.stdin.buffer)
        except EOFError:
            return
        module, name = function.split(":")
        try:
            import numpy as np
            with np.errstate(all="ignore"):
                result = getattr(importlib.import_module(module), name)(*args)
            _send(out, (True, result))
        except Exception:
            _send(out, (False, traceback.format_exc()[-2000:]))


if __name__ == "__main__":
    main()
