"""running code of the library with one of its file operations failing

A shared object (shim.c) stands between a Python process and the C
library. It counts the operations on files below one directory, and makes
one of them fail, happen in half, or end the process. One such process is
kept for each worker; it forks for every run.
"""

import atexit
import json
import os
import subprocess
import sys

from vlib.explore import REPO

VLIB = os.path.dirname(os.path.abspath(__file__))
MODES = ["none", "error", "full", "kill", "tear", "short", "bad"]
# operations, by kind, at which a mode can make a difference
AT = {"error": None, "full": "wWtdl", "kill": "wWtdlrumcC", "tear": "W",
      "short": "W", "bad": "oRD"}
_server = None
_shim = None
_lib = ""


def setup(tmproot):
    global _shim, _lib
    lib = os.path.join(tmproot, "html-lib", "javatools", "cheetah")
    _lib = lib if os.path.isdir(lib) else ""
    _shim = os.path.join(tmproot, "shim.so")
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", _shim,
                    os.path.join(VLIB, "shim.c"), "-ldl"], check=True)


def _start():
    global _server
    if _server is None or _server[0] != os.getpid() or \
            _server[1].poll() is not None:
        env = dict(os.environ, LD_PRELOAD=_shim, VERIF_TEMPLATES=_lib)
        p = subprocess.Popen(
            [sys.executable, os.path.join(VLIB, "faultserver.py"), REPO],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)
        _server = (os.getpid(), p)
        atexit.register(p.stdin.close)
    return _server[1]


def run(fn, args, below, mode="none", at=-1, out=None, cwd=None,
        tmp=None):
    """runs "module:function"(*args) with operation number `at` on the
    files below a directory failing in a way. A dict of end ("returned",
    "raised", "killed"), value, and of those not killed ops, the kinds of
    the operations, and failed, whether one was made to. Standard output
    goes to the file out, and its operations count if that is below the
    directory."""
    p = _start()
    p.stdin.write(json.dumps([fn, args, below, MODES.index(mode), at, out, cwd,
                             tmp or os.path.join(below, "tmp")])
                  .encode() + b"\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise RuntimeError("no answer from the fault server")
    return json.loads(line)


def points(ops, mode):
    kinds = AT[mode]
    return [i for i, c in enumerate(ops) if kinds is None or c in kinds]
