"""running a command of the library in this process"""

import contextlib
import io
import os
import sys


def run(fn, *args):
    """(exit status, standard output, standard error) of fn(*args), which
    returns a status or exits with one"""
    out = io.TextIOWrapper(io.BytesIO(), "utf-8", newline="",
                           write_through=True)
    err = io.TextIOWrapper(io.BytesIO(), "utf-8", newline="",
                           write_through=True)
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            rc = fn(*args)
        except SystemExit as e:
            rc = e.code
    res = []
    for s in (out, err):
        s.flush()
        res.append(s.buffer.getvalue())
    if rc is None:
        rc = 0
    elif rc is True or rc is False:
        rc = int(rc)
    elif not isinstance(rc, int):
        rc = 1
    return rc, res[0], res[1]
