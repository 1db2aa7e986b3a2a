"""
Calls made in a process where nothing was ever called before.

A server process imports the world and waits; each request is run in a child forked from
it, so that every answer comes from a process without history, at the cost of a fork.
"""
import atexit
import base64
import json
import os
import pickle
import subprocess
import sys

from . import envinfo

_servers = {}
_cache = {}


class Server:
    def __init__(self, hashseed):
        self.p = subprocess.Popen(
            [envinfo.PYTHON, "-B", "-m", "pvsim", "serve"], env=envinfo.child_env(hashseed), cwd=str(envinfo.VERIF),
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
        )

    def ask(self, req):
        self.p.stdin.write(json.dumps(req) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("the fresh process server is gone")
        return pickle.loads(base64.b64decode(line))


def ask(req, hashseed="0"):
    """(outcome, picture) of a call in a fresh process."""
    key = (hashseed, json.dumps(req, sort_keys=True))
    if key not in _cache:
        if hashseed not in _servers:
            _servers[hashseed] = Server(hashseed)
        if len(_cache) > 2000:
            _cache.clear()
        _cache[key] = _servers[hashseed].ask(req)
    return _cache[key]


def stop():
    for s in _servers.values():
        s.p.kill()
    _servers.clear()


atexit.register(stop)


# ------------------------------------------------------------------ server side
def answer(req):
    from .bsim import _try
    from .fp import fp
    from .ops import Call
    from .recipes import realize

    pool = {k: realize(v) for k, v in req.get("pool", {}).items()}
    got, val = _try(Call(req["call"], pool).run)
    return got, (fp(val) if got == "ok" else str(val)[:300])


def serve():
    from . import ops  # noqa: F401 - the whole world

    for line in sys.stdin:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                data = pickle.dumps(answer(json.loads(line)))
            except BaseException as exc:  # noqa: BLE001
                data = pickle.dumps(("harness", repr(exc)))
            with os.fdopen(w, "wb") as f:
                f.write(data)
            os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, st = os.waitpid(pid, 0)
        if not data:
            data = pickle.dumps(("crash", f"status {st}"))
        sys.stdout.write(base64.b64encode(data).decode() + "\n")
        sys.stdout.flush()
