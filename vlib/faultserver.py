"""forks for every line of its input; see faults.py"""

import ctypes
import importlib
import io
import json
import os
import signal
import sys
import tempfile

repo = sys.argv[1]
sys.path.insert(0, repo)
os.environ.pop("LD_PRELOAD", None)
lib = ctypes.CDLL(None)
lib.vf_ops.restype = ctypes.c_char_p
import javatools.jarutil  # noqa
import javatools.distdiff  # noqa
import javatools.distinfo  # noqa
if os.environ.get("VERIF_TEMPLATES"):
    import javatools.cheetah
    javatools.cheetah.__path__.append(os.environ["VERIF_TEMPLATES"])
    from javatools.report import cheetah_template_map
    cheetah_template_map()


def child(fn, args, below, mode, at, out, cwd, tmp, fd):
    tempfile.tempdir = tmp
    null = os.open(os.devnull, os.O_RDWR)
    for i in (0, 1, 2):
        os.dup2(null, i)
    if out:
        null = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o666)
        os.dup2(null, 1)
    # every write is an operation, and what is written in part is continued,
    # which the interpreter does not do when its output is unbuffered
    sys.stdout = io.TextIOWrapper(
        io.BufferedWriter(io.FileIO(1, "w", closefd=False), 1),
        encoding="utf-8", write_through=True)
    if cwd:
        os.chdir(cwd)
    mod, name = fn.split(":")
    fn = getattr(importlib.import_module(mod), name)
    prefix = os.path.join(below, "")
    lib.vf_arm(prefix.encode(), mode, at)
    if out and out.startswith(prefix):
        lib.vf_track(1)
    try:
        end, value = "returned", fn(*args)
        # as the interpreter does, which fails if this fails
        sys.stdout.flush()
    except SystemExit as e:
        end, value = "returned", e.code
    except BaseException as e:
        end, value = "raised", "%s: %s" % (type(e).__name__, e)
    # whatever is cleaned up along with the locals of the failed frames
    sys.last_value = None
    lib.vf_disarm()
    if value is not None and not isinstance(value, (int, str)):
        value = ascii(value)
    os.write(fd, json.dumps(dict(
        end=end, value=value, ops=lib.vf_ops().decode(),
        failed=bool(lib.vf_failed()))).encode() + b"\n")
    os._exit(0)


def main():
    for line in iter(sys.stdin.buffer.readline, b""):
        job = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            signal.alarm(60)
            os.close(r)
            try:
                child(*(job + [w]))
            finally:
                os._exit(99)
        os.close(w)
        with os.fdopen(r, "rb") as fd:
            answer = fd.read()
        status = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        if status == 77 and not answer:
            answer = json.dumps(dict(end="killed", value=None)).encode() \
                + b"\n"
        elif status or not answer:
            answer = json.dumps(dict(end="lost", value=status)).encode() \
                + b"\n"
        sys.stdout.buffer.write(answer)
        sys.stdout.buffer.flush()


main()
