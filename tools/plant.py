#!/usr/bin/env python3
"""
Development tool, no check uses it: plant the bugs listed in a Python file
(BUGS = [dict(id=, property=, edits=[(file, old, new)], demo=, needs=,
breaks=)]) in /repo one after another, confirm each (builds, stable tests
pass, demo fails with it and passes without), write /verif/seeded/<id>, and
say which of the named checks catch it.

    tools/plant.py FILE [ID...] [--checks C01,C02] [--force]
"""
import json
import os
import runpy
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = """#!/bin/bash
# run with cwd /repo after the build
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 HERE=$here
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 3
"""
PY = "/opt/venv/bin/python - <<'PYEND'\n"


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, **k)


def revert():
    sh("git", "-C", REPO, "checkout", "--", ".")


def build():
    script = open("/opt/vp/build.sh").read().replace("/repo", REPO)
    return sh("bash", "-c", script)


def stable():
    out = "/tmp/plant%i.json" % os.getpid()
    test = open("/opt/vp/test.sh").read().replace("/repo", REPO)
    sh("bash", "-c", test, "test.sh", out)
    got = json.load(open(out))
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base.get("stable") or base.get("tests") or base.get("passed")
    if isinstance(want, dict):
        want = [k for k, v in want.items() if v in (True, "passed", "pass")]
    ok = got.get("passed")
    if isinstance(ok, dict):
        ok = list(ok)
    return sorted(set(want) - set(ok))


def original(diff):
    """the lines the patch removes come from the base commit"""
    root = sh("git", "-C", REPO, "rev-list", "--max-parents=0",
              "HEAD").stdout.decode().strip()
    fn, ln, bad, n = None, 0, [], 0
    blame = {}
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            fn = line[6:]
            if fn not in blame:
                blame[fn] = [x.split()[0].lstrip("^") for x in sh(
                    "git", "-C", REPO, "blame", "-s", "-l", "HEAD",
                    "--", fn).stdout.decode().splitlines()]
        elif line.startswith("@@"):
            ln = int(line.split()[1][1:].split(",")[0])
        elif line.startswith("-") and not line.startswith("---"):
            n += 1
            if not root.startswith(blame[fn][ln - 1][:39]):
                bad.append("%s:%d %s" % (fn, ln, line))
            ln += 1
        elif line.startswith(" "):
            ln += 1
    if not n:
        bad.append("no original line changed")
    return bad


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    checks = None
    for a in sys.argv[1:]:
        if a.startswith("--checks="):
            checks = a[9:].split(",")
    bugs = runpy.run_path(args[0])["BUGS"]
    assert not sh("git", "-C", REPO, "status", "--short",
                  "-uno").stdout.strip(), "repo not clean"
    for b in bugs:
        if args[1:] and b["id"] not in args[1:]:
            continue
        d = os.path.join(VERIF, "seeded", b["id"])
        demo = b["demo"]
        try:
            for fn, old, new in b["edits"]:
                p = os.path.join(REPO, fn)
                s = open(p, encoding="utf-8", newline="").read()
                assert s.count(old) == 1, (b["id"], fn, s.count(old), old)
                open(p, "w", encoding="utf-8", newline="").write(
                    s.replace(old, new))
            diff = sh("git", "-C", REPO, "diff").stdout.decode()
            bad = original(diff)
            r = build()
            if r.returncode:
                print(b["id"], "BUILD FAILS", r.stdout.decode()[-500:])
                continue
            miss = stable()
            if miss:
                print(b["id"], "BREAKS TESTS", miss[:3])
                continue
            os.makedirs(d, exist_ok=True)
            with open(d + "/patch.diff", "w") as fd:
                fd.write(diff)
            with open(d + "/demo.sh", "w") as fd:
                if demo.lstrip().startswith("#!sh"):
                    fd.write(HEAD + demo.lstrip()[4:].lstrip("\n"))
                else:
                    fd.write(HEAD + PY + demo.strip("\n") + "\nPYEND\n")
            with open(d + "/meta.json", "w") as fd:
                json.dump(dict(property=b["property"], needs=b["needs"],
                               what_it_breaks=b["breaks"]), fd, indent=1)
                fd.write("\n")
            os.chmod(d + "/demo.sh", 0o755)
            r1 = sh("bash", d + "/demo.sh", cwd=REPO)
            caught = []
            for c in checks or b.get("checks") or [b["property"]]:
                if not os.path.exists("%s/checks/%s.py"
                                      % (VERIF, c.lower())):
                    caught.append("%s=NOCHECK" % c)
                    continue
                rc = sh("./check", c, cwd=VERIF)
                lines = [x for x in rc.stdout.decode().splitlines()
                         if "VIOLATION" in x]
                caught.append("%s=%s(%d)" % (
                    c, {1: "caught", 0: "MISSED"}.get(rc.returncode,
                                                      "??"), len(lines)))
                if rc.returncode not in (0, 1):
                    print(rc.stdout.decode()[-1500:])
        finally:
            revert()
        build()
        r0 = sh("bash", d + "/demo.sh", cwd=REPO)
        ok = r1.returncode and not r0.returncode and not bad
        print(b["id"], "OK" if ok else "DEMO/LINES BAD (with %d, without "
              "%d)" % (r1.returncode, r0.returncode), " ".join(caught),
              flush=True)
        for x in bad:
            print("   not original:", x)
        if not ok:
            print(r1.stdout.decode()[-600:], r0.stdout.decode()[-600:])


main()
