"""
Rewrite the tables at the end of DESIGN.md from known_findings.jsonl and
seeded/*/meta.json:  python3 tools/design.py
"""

import collections
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- generated by tools/design.py from here on -->\n"

# planted bugs which the check of their property did not catch when they
# were first planted, and what was changed
MISSED = {
    "interfaces-signed": "pools of up to 65534 constants with all references at the far end",
    "stream-short-read": "a class of 190 KB, cut around every 512 byte mark",
    "bridge-synthetic": "any access flags for bridge candidates",
    "requires-filtered-cache": "queries with patterns, then without",
    "squash-loses-ignored": "squashed trees and their ignored state",
    "verdict-cached": "a tree is checked again after its leaves changed",
    "chain-purpose": "chains with constraints on the intermediates",
    "lvtt-descriptor": "both local variable tables in one method",
    "nested-manifest": "manifests nested in distributions and archives",
    "dist-rar-shallow": "every archive extension",
    "sf-name-suffix": "aliases which end like others",
    "first-extra-cert": "chains of any length sent along",
    "sign-no-zip64": "archives of around 65536 entries",
    "create-no-zip64": "archives of around 65536 entries",
    "create-symlink-dir": "links to files and directories",
    "skip-all-metainf": "signed entries of every kind below META-INF",
}
MISSED.update(json.load(open(HERE + "/tools/missed.json"))
              if os.path.exists(HERE + "/tools/missed.json") else {})


def main():
    with open(HERE + "/DESIGN.md") as fd:
        text = fd.read().split(MARK)[0]

    fixed = collections.OrderedDict()
    with open(HERE + "/known_findings.jsonl") as fd:
        for line in fd:
            m = re.match(r"fixed: property=(C\d+) (\w+) (.*)", line)
            assert m, line
            prop, commit, what = m.groups()
            fixed.setdefault(commit, ([], what))[0].append(prop)

    out = [text, MARK, "\n## Findings\n\n"]
    out.append("%d genuine defects were found and repaired, each with one "
               "`fix:` commit in\n/repo; none is left unrepaired "
               "(`known_findings.jsonl` lists the same by property).\n\n"
               % len(fixed))
    out.append("| commit | checks | what failed |\n|---|---|---|\n")
    for commit, (props, what) in sorted(fixed.items(),
                                        key=lambda i: (i[1][0], i[0])):
        out.append("| %s | %s | %s |\n" % (commit, ", ".join(props),
                                           what.replace("|", "\\|")))

    out.append("\n## Planted bugs\n\n"
               "Each is caught by the quick tier of the check named. Where "
               "the first\nversion of the check missed it, the last column "
               "says what was added.\n\n"
               "| bug | caught by | needs | first missed; added |\n"
               "|---|---|---|---|\n")
    bugs = []
    for fn in glob.glob(HERE + "/seeded/*/meta.json"):
        with open(fn) as fd:
            meta = json.load(fd)
        name = os.path.basename(os.path.dirname(fn))
        bugs.append((meta["property"], name, meta["needs"]))
    for prop, name, needs in sorted(bugs):
        out.append("| %s | %s | %s | %s |\n" % (
            name, prop, needs.replace("|", "\\|"), MISSED.get(name, "")))

    with open(HERE + "/DESIGN.md", "w") as fd:
        fd.write("".join(out))


main()
