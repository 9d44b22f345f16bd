"""compiled HTML templates for the checks that render HTML reports

The templates are part of the source as Cheetah files and only usable
once setup.py has compiled them; that happens here on a copy of the
working tree, below the check's scratch directory.
"""

import os
import shutil
import subprocess
import sys

from vlib.explore import REPO


def setup(tmproot):
    src = os.path.join(tmproot, "html-src")
    lib = os.path.join(tmproot, "html-lib")
    shutil.copytree(REPO, src, ignore=lambda d, ns: [
        n for n in ns if n in (".git", "build", "tests", "docs", "gh-pages",
                               "__pycache__", ".pytest_cache")])
    p = subprocess.run([sys.executable, "setup.py", "-q", "build",
                        "--build-lib", lib], cwd=src,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise RuntimeError("setup.py build: %s" % p.stdout[-2000:])
    shutil.rmtree(src)
    import javatools.cheetah
    javatools.cheetah.__path__.append(
        os.path.join(lib, "javatools", "cheetah"))
    from javatools.report import cheetah_template_map
    assert len(cheetah_template_map()) > 10
