"""A simulator process of its own: runs descriptions under another hash seed of the interpreter.

Reads one JSON request per line, answers with one JSON line.
"""
import hashlib
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def outcome(text, n, f):
    """Everything a user can read back after a run, with the order of the columns."""
    import numpy as np
    from .docio import parse_text
    p = parse_text(text)
    dt = min(b.dt for b in p.bundles) * (f or 1.0)
    p.run((n + 0.5) * dt, dt if f else 0)
    out = {"columns": {}, "state": {}, "probes": {}}
    for b in p.bundles:
        out["columns"][b.name] = [[ln.name for ln in b.levels[k]] for k in sorted(b.levels)]
        out["state"][b.name] = digest(b.v, b.i)
    for name, pr in p.probes.items():
        out["probes"][name] = digest(np.array(pr.t, float), np.array(pr.val, float))
    return out


def digest(*arrays):
    import numpy as np
    h = hashlib.sha256()
    for a in arrays:
        a = np.ascontiguousarray(np.asarray(a, float)) + 0.0
        h.update(repr(a.shape).encode())
        h.update(a.tobytes())
    return h.hexdigest()


_pool = {}


def ask(hashseed, request):
    """Send a request to the process with this hash seed (started on first use)."""
    p = _pool.get(hashseed)
    if p is None or p.poll() is not None:
        p = subprocess.Popen([sys.executable, "-m", "dst.child"], cwd=ROOT, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             text=True, env={**os.environ, "PYTHONHASHSEED": str(hashseed)})
        _pool[hashseed] = p
    p.stdin.write(json.dumps(request) + "\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise RuntimeError("the child process ended")
    return json.loads(line)


def forget():
    """After a fork the children belong to the parent."""
    _pool.clear()


if hasattr(os, "register_at_fork"):
    os.register_at_fork(after_in_child=forget)


def serve():
    from . import main  # noqa: F401  (puts /repo's Python code on the path)
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for line in sys.stdin:
        q = json.loads(line)
        try:
            a = {"ok": outcome(q["text"], q["n"], q["f"])}
        except Exception as e:
            a = {"error": f"{type(e).__name__}: {e}"}
        try:
            out.write(json.dumps(a) + "\n")
            out.flush()
        except BrokenPipeError:         # nobody is waiting for the answer any more
            os._exit(0)


if __name__ == "__main__":
    serve()
