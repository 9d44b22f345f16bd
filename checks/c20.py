"""C20: reports show what the comparison found"""

import io
import json
import math
import os
import re
import xml.etree.ElementTree as ET
import zipfile
from urllib.parse import unquote, urlsplit

from vlib import cli
from vlib import edits
from vlib import html
from vlib import trees
from vlib.explore import Harness
from checks import c18

from javatools import unpack_class
from javatools import change as ch
from javatools import classdiff
from javatools import distdiff
from javatools import jardiff
from javatools import report
from javatools.opcodes import get_opname_by_code, has_const_arg

ASSUMPTIONS = [
    "what the comparison found is read from a comparison made without "
    "reports (what it has to find is decided by C12-C18)",
    "an HTML report shows all of the comparison's findings and marks those "
    "that are unchanged or ignored, also when the options hide them in the "
    "text and JSON reports",
    "characters that XML cannot represent (control characters) are outside "
    "the domain of the HTML report",
]


def setup(tmproot):
    html.setup(tmproot)


# -- the findings, from a comparison without reports

class N(object):
    """a node of the expected change tree"""

    def __init__(self, c, opts, reported=False):
        self.c = c
        self.name = type(c).__name__
        self.orig = None
        self.mro = [t.__name__ for t in type(c).__mro__]
        self.changed = bool(c.is_change())
        self.ignored = self.changed and bool(c.is_ignored(opts))
        self.label = c.label
        self.desc = c.get_description()
        self.entry = getattr(c, "entry", None)
        self.kids = None
        self.data = None
        if isinstance(c, ch.GenericChange):
            self.data = (c.pretty_ldata(), c.pretty_rdata())
        if isinstance(c, ch.SuperChange):
            self.kids = [N(k, opts, reported) for k in c.collect()]
        if reported and self.name in REPORTS and self.kids:
            self.orig, self.report = REPORTS[self.name]
            self.full = c
            self.name = "SquashedChange"
            self.mro = ["SquashedChange"]
            self.data = self.kids = None
        elif reported and self.name in RENAMED:
            self.name = RENAMED[self.name]

    def shown(self, opts):
        if self.changed:
            return opts.show_ignored or not self.ignored
        return opts.show_unchanged

    def walk(self):
        yield self
        for k in self.kids or ():
            for n in k.walk():
                yield n


REPORTS = {
    "JarClassChange": ("JarClassReport", "JavaClassReport"),
    "DistClassChange": ("DistClassReport", "JavaClassReport"),
    "DistJarChange": ("DistJarReport", "JarReport"),
}
RENAMED = {"JarContentsChange": "JarContentsReport",
           "JarChange": "JarReport", "DistChange": "DistReport",
           "JavaClassChange": "JavaClassReport"}


# -- text

def text(node, opts, depth=0):
    if not node.shown(opts):
        return []
    line = "  " * depth + node.desc
    if node.ignored:
        line += " [IGNORED]"
    line = "".join(c if ord(c) < 128 else ascii(c)[1:-1] for c in line)
    out = [line + "\n"]
    for k in node.kids or ():
        out += text(k, opts, depth + 1)
    return out


def same_text(ctx, got, node, opts, key):
    want = "".join(text(node, opts))
    if got != want:
        g, w = got.split("\n"), want.split("\n")
        i = next((i for i, (a, b) in enumerate(zip(g, w)) if a != b),
                 min(len(g), len(w)))
        ctx.fail(key, "line %d is %r, expected %r" % (
            i, g[i:i + 1], w[i:i + 1]))
    ctx.step(want.count("\n") + 1)


# -- JSON

def norm(v):
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, float):
        return v
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    return [norm(x) for x in v]


def nojson(name):
    raise ValueError("not JSON: %s" % name)


def same_json(ctx, raw, node, opts, key, indent=2):
    try:
        got = json.loads(raw, parse_constant=nojson)
    except ValueError as e:
        ctx.fail(key, "not JSON: %s in %r" % (e, raw[:200]))
    ctx.eq(sorted(got), ["report", "runtime_options"], key)
    for k in ("show_ignored", "show_unchanged", "silent", "json"):
        ctx.eq(got["runtime_options"].get(k, "absent"), getattr(opts, k),
               key, "runtime option " + k)
    json_node(ctx, got["report"], node, opts, key)
    lines = raw.splitlines()
    ctx.eq(len(lines[1]) - len(lines[1].lstrip()), indent, key, "indent")


def json_node(ctx, got, n, opts, key):
    ctx.check(isinstance(got, dict), key, "no object for " + n.name)
    where = "%s (%s)" % (n.name, n.desc)
    want = {"class": n.name, "is_change": n.changed, "label": n.label,
            "description": n.desc}
    if n.changed:
        want["is_ignored"] = n.ignored
    if n.orig:
        want["original_class"] = n.orig
    if "Addition" in n.mro:
        want["is_addition"] = True
    if "Removal" in n.mro:
        want["is_removal"] = True
    if n.entry:
        want["entry"] = n.entry
    if n.data:
        for k, v in zip(("old_data", "new_data"), n.data):
            if v is not None:
                want[k] = norm(v)
    for k in want:
        ctx.eq(got.get(k, "absent"), want[k], key + ":" + k, where)
    for k in ("is_addition", "is_removal", "old_data", "new_data",
              "original_class"):
        if k not in want:
            ctx.check(k not in got, key + ":" + k, "unfounded, " + where)
    if n.kids is None:
        ctx.check("children" not in got, key + ":children", where)
        return
    kids = [k for k in n.kids if k.shown(opts)]
    ctx.eq([k["class"] for k in got["children"]], [k.name for k in kids],
           key + ":children", where)
    for g, k in zip(got["children"], kids):
        json_node(ctx, g, k, opts, key)


# -- HTML: reading

def squeeze(s):
    return " ".join(s.split())


def local(e):
    return e.tag.rsplit("}", 1)[-1] if isinstance(e.tag, str) else ""


def classes(e):
    return e.get("class", "").split()


def is_node(e):
    return local(e) == "div" and "Change" in classes(e)


class H(object):
    """a change in an HTML report"""

    def __init__(self, e):
        self.cls = set(classes(e)) - {"Change"}
        self.own, self.tables, self.links, self.kids, self.cats = \
            [], [], [], [], []
        self.read(e)
        self.own = squeeze(" ".join(self.own))

    def read(self, e):
        if e.text:
            self.own.append(e.text)
        for k in e:
            if is_node(k):
                self.kids.append(H(k))
            elif local(k) == "table":
                self.tables.append(grid(k))
            elif local(k) == "div" and "change-category" in classes(k):
                h = H(k)
                self.cats.append((h.own, h.kids))
            else:
                if local(k) == "a":
                    self.links.append(k.get("href"))
                self.read(k)
            if k.tail:
                self.own.append(k.tail)


class BadTable(Exception):
    pass


def grid(table):
    """the cells below the header with spans resolved"""
    rows, pending = [], {}
    head = 0
    for e in table.iter():
        if local(e) != "tr":
            continue
        row, col = [], 0
        cells = [c for c in e if local(c) in ("td", "th")]
        if len(cells) != len(list(e)):
            raise BadTable("row holds something that is no cell")

        def fill(col):
            while pending.get(col, (0,))[0]:
                left, val = pending[col]
                pending[col] = (left - 1, val)
                row.append(val)
                col += 1
            return col
        for c in cells:
            col = fill(col)
            val = squeeze("".join(c.itertext()))
            for _ in range(int(c.get("colspan", 1))):
                row.append(val)
                pending[col] = (int(c.get("rowspan", 1)) - 1, val)
                col += 1
        fill(col)
        rows.append(row)
    for e in table:
        if local(e) == "thead":
            head = sum(local(x) == "tr" for x in e)
    if len({len(r) for r in rows}) > 1:
        raise BadTable("rows of different width: %r" % (rows,))
    if any(v[0] for v in pending.values()):
        raise BadTable("cell reaches below the last row: %r" % (rows,))
    return rows[head:]


# -- HTML: what is expected

def lr(label, l, r, changed, optional=None):
    """rows of a table with row headers"""
    if changed:
        return [[label, l], [label, r]]
    if optional is None or optional:
        return [[label, l]]
    return []


def sub(n, name):
    return next(k for k in n.kids if k.name == name)


def info_rows(n, prefix, spec):
    out = []
    for name, label, fmt, optional in spec:
        k = sub(n, prefix + name)
        l, r = k.data
        opt = None if not optional else bool(k.c.get_ldata())
        if fmt == "flags":
            l, r = ["0x%04x: %s" % (v, " ".join(p)) for v, p in
                    ((k.c.get_ldata(), l), (k.c.get_rdata(), r))]
        elif fmt == "version":
            l, r = ["Major: %i, Minor: %i" % v for v in
                    (k.c.get_ldata(), k.c.get_rdata())]
        elif fmt == "list":
            l, r = [", ".join(v) or "(None)" for v in (l, r)]
        elif fmt == "args":
            l, r = ["(%s)" % ", ".join(v) for v in (l, r)]
        elif fmt == "opt":
            l, r = [v or "(None)" for v in (l, r)]
        l, r = ["" if v is None else squeeze(str(v)) for v in (l, r)]
        out += lr(label, l, r, k.changed, opt)
    return out


CLASS_ROWS = [
    ("NameChange", "Class Name", "", False),
    ("AccessflagsChange", "Class Flags", "flags", False),
    ("SuperclassChange", "Extends", "", False),
    ("InterfacesChange", "Implements", "list", True),
    ("VersionChange", "Java Version", "version", False),
    ("PlatformChange", "Java Platform", "", False),
    ("SignatureChange", "Generics Signature", "opt", True),
    ("DeprecationChange", "Deprecated", "", True)]
FIELD_ROWS = [
    ("NameChange", "Field Name", "", False),
    ("TypeChange", "Field Type", "", False),
    ("AccessflagsChange", "Field Flags", "flags", False),
    ("SignatureChange", "Generics Signature", "opt", True),
    ("ConstvalueChange", "Const Value", "opt", True),
    ("DeprecationChange", "Deprecated", "", True)]
METHOD_ROWS = [
    ("NameChange", "Method Name", "", False),
    ("TypeChange", "Return Type", "", False),
    ("ParametersChange", "Argument Types", "args", False),
    ("AccessflagsChange", "Method Flags", "flags", False),
    ("SignatureChange", "Generics Signature", "opt", True),
    ("ExceptionsChange", "Exceptions", "args", True),
    ("AbstractChange", "Abstract", "", True),
    ("DeprecationChange", "Deprecated", "", True)]


def method_head(m):
    return "%s(%s):%s" % (m.get_name(), ", ".join(m.pretty_arg_types()),
                          m.pretty_type())


def method_rows(m):
    out = [["Method Name", m.get_name()], ["Return Type", m.pretty_type()],
           ["Argument Types", "(%s)" % ", ".join(m.pretty_arg_types())],
           ["Method Flags", "0x%04x: %s" % (
               m.access_flags, " ".join(m.pretty_access_flags()))]]
    if m.get_signature():
        out.append(["Generics Signature", m.get_signature()])
    if m.get_exceptions():
        out.append(["Exceptions", ", ".join(m.pretty_exceptions())])
    if not m.get_code():
        out.append(["Abstract", "True"])
    if m.is_deprecated():
        out.append(["Deprecated", "True"])
    return [[squeeze(c) for c in r] for r in out]


def pool(cp):
    return {i: (t, squeeze(str(v))) for i, t, v in cp.pretty_constants()}


def anno_rows(n):
    l, r = [[squeeze(a.pretty_annotation()) for a in d or ()]
            for d in (n.c.get_ldata(), n.c.get_rdata())]
    if not n.changed:
        return [[str(i), a] for i, a in enumerate(l)]
    k = max(len(l), len(r))
    return [[str(i), a, b] for i, (a, b) in enumerate(zip(
        l + [""] * (k - len(l)), r + [""] * (k - len(r))))]


def lines(code):
    """relative line -> absolute line, instructions in order"""
    out = {}
    if code:
        for a, rel, dis in code.iter_code_by_lines():
            out.setdefault(rel, (a, []))[1].extend(
                [str(o), get_opname_by_code(c),
                 "#%s" % x[0] if has_const_arg(c) else
                 ", ".join(map(str, x))] for o, c, x in dis)
    return out


def code_rows(n):
    lcode, rcode = n.c.ldata, n.c.rdata
    l, r = lines(lcode), lines(rcode)
    lb, rb = [c.code if c else b"" for c in (lcode, rcode)]
    out = []
    if not n.changed and lb == rb:
        for rel in l:
            a, dis = l[rel]
            out += [[str(rel), str(a)] + d for d in dis]
        return sorted(out)
    for rel in sorted(set(l) | set(r)):
        la, ld = l.get(rel, ("", []))
        ra, rd = r.get(rel, ("", []))
        for i in range(max(len(ld), len(rd))):
            row = [str(rel)]
            for a, d in ((la, ld), (ra, rd)):
                row += d[i] if i < len(d) else [""] * 3
            out.append(row)
        out[-1].append((la, ra))
    return out


def expect(ctx, h, n, key):
    """h is how n has to look"""
    where = "%s (%s)" % (n.name, n.desc)
    state = {"is_changed"} if n.changed else {"is_unchanged"}
    if n.ignored:
        state.add("is_ignored")
    want = state | {n.name} | ({n.orig} if n.orig else set())
    ctx.eq(sorted(h.cls), sorted(want), key + ":state", where)
    mro = n.mro
    kids, tables, own = n.kids or [], [], n.label
    links = []
    if n.orig:
        own = "%s [ details ]" % n.entry
        links = [n.entry + "/" + n.report + ".html"]
    elif n.name == "ClassInfoChange":
        kids = []
        tables = [info_rows(n, "Class", CLASS_ROWS)]
        own = n.label + " " + n.desc
    elif n.name == "ClassConstantPoolChange":
        own = n.label + " " + n.desc
        l, r = pool(n.c.get_ldata()), pool(n.c.get_rdata())
        if n.changed:
            tables = [[[str(i)] + list(l.get(i, ("", ""))) +
                       (list(r.get(i, ("", "")))
                        if l.get(i) != r.get(i) else ["", ""])
                       for i in range(1, max(len(n.c.get_ldata().consts),
                                             len(n.c.get_rdata().consts)))]]
        else:
            tables = [[[str(i)] + list(l[i]) for i in sorted(l)]]
    elif n.name in ("ClassFieldsChange", "ClassMethodsChange"):
        own = n.label + " " + n.desc
    elif "AnnotationsChange" in mro:
        kids = []
        tables = [anno_rows(n)]
    elif n.name == "FieldChange":
        own = n.c.get_ldata().get_name()
        tables = [info_rows(n, "Field", FIELD_ROWS)]
        kids = [k for k in kids if k.name.endswith("AnnotationsChange")]
    elif n.name == "MethodChange":
        own = method_head(n.c.get_ldata())
        tables = [info_rows(n, "Method", METHOD_ROWS)]
        kids = [k for k in kids if k.name.endswith("AnnotationsChange") or
                k.name == "MethodCodeChange"]
    elif n.name in ("MethodAdded", "MethodRemoved"):
        m = n.c.get_rdata() if n.name == "MethodAdded" else \
            n.c.get_ldata()
        own = method_head(m) + " Method " + n.name[6:]
        tables = [method_rows(m)]
    elif n.name == "MethodCodeChange":
        kids = []
        rows = code_rows(n)
        tables = [rows] if n.c.ldata or n.changed else []
        lone = [r.pop() for r in rows if isinstance(r[-1], tuple)]
    elif "ManifestChange" in mro:
        own = "The manifest has changed between Jars"
    elif "JarContentChange" in mro or "DistContentChange" in mro:
        own = n.entry
    ctx.eq(h.own, squeeze(own), key + ":text", where)
    got = h.tables
    if n.name == "MethodCodeChange" and tables:
        if not rows or len(rows[0]) == 7:
            # absolute lines: a column of its own on each side
            ctx.eq([[r[0]] + r[2:5] + r[6:] for r in got[0]], rows,
                   key + ":code", where)
            seen, i = [], 0
            groups = []
            for r in got[0]:
                if not groups or groups[-1][0] != r[0]:
                    groups.append((r[0], r[1], r[5]))
            ctx.eq([(x[1], x[2]) for x in groups],
                   [(str(a), str(b)) for a, b in lone], key + ":code",
                   "absolute lines, " + where)
        else:
            ctx.eq(sorted(got[0]), rows, key + ":code", where)
    elif n.name != "MethodCodeChange":
        ctx.eq(got, tables, key + ":table", where)
    ctx.eq([unquote(x) for x in h.links], links, key + ":link", where)
    ctx.eq(len(h.kids), len(kids), key + ":children", where)
    for a, b in zip(h.kids, kids):
        expect(ctx, a, b, key)
    ctx.step()


def cats(ctx, got, kids, key):
    """kids are shown below their category, sorted by entry"""
    want = {}
    for k in kids:
        want.setdefault(k.label, []).append(k)
    ctx.eq(sorted(c for c, _ in got), sorted(want), key + ":categories")
    for c, hs in got:
        ks = sorted(want[c], key=lambda k: k.entry)
        ctx.eq(len(hs), len(ks), key + ":children", c)
        for h, k in zip(hs, ks):
            expect(ctx, h, k, key)


def same_html(ctx, fn, node, title, crumbs, data, media, key):
    """the HTML report in file fn

    crumbs: [(file, entry)] of the reports this one is part of
    data: the directory with the default style sheets, if they are copied
    media: other style sheets and scripts, without extension
    """
    with io.open(fn, "rb") as f:
        raw = f.read()
    try:
        doc = ET.fromstring(raw)
    except ET.ParseError as e:
        i = e.position
        line = raw.split(b"\n")[i[0] - 1]
        ctx.fail(key + ":well-formed", "%s: %s: %r" % (
            os.path.basename(fn), e, line))
    here = os.path.dirname(os.path.abspath(fn))

    def target(href):
        ctx.check(not urlsplit(href).netloc and not urlsplit(href).scheme
                  and not urlsplit(href).query and
                  not urlsplit(href).fragment, key + ":link",
                  "%r is no plain relative link" % href)
        return os.path.normpath(os.path.join(here, unquote(href)))

    body = next(e for e in doc.iter() if local(e) == "body")
    for e in doc.iter():
        if local(e) in ("title", "h1"):
            ctx.eq(squeeze("".join(e.itertext())), squeeze(title),
                   key + ":title")
        if local(e) == "ul" and "breadcrumbs" in classes(e):
            items = [k for k in e if local(k) == "li"]
            ctx.eq(squeeze("".join(items[-1].itertext())), squeeze(title),
                   key + ":breadcrumbs")
            got = [(target(a.get("href")), squeeze("".join(a.itertext())))
                   for i in items for a in i if local(a) == "a"]
            ctx.eq(got, crumbs, key + ":breadcrumbs")
            ctx.eq(len(items), len(crumbs) + 1, key + ":breadcrumbs")
    sheets = [e.get("href") for e in doc.iter() if local(e) == "link"]
    scripts = [e.get("src") for e in doc.iter() if local(e) == "script" and
               not e.get("src").startswith("http://ajax.")]
    for got, ext in ((sheets, ".css"), (scripts, ".js")):
        want = [m + ext for m in media]
        if data:
            want.append(os.path.join(data, "report" + ext))
        # a file is found through the link, anything else is left alone
        got = [g if g in want else target(g) for g in got]
        ctx.eq(sorted(got), sorted(want), key + ":media")
    try:
        h = H(body)
    except BadTable as e:
        ctx.fail(key + ":table", str(e))
    if node.name == "DistReport":
        cats(ctx, h.cats, node.kids, key)
    elif node.name == "JarReport":
        kind, contents = node.kids
        ctx.eq(len(h.kids), 1, key + ":children", node.desc)
        expect(ctx, h.kids[0], kind, key)
        cats(ctx, h.cats, contents.kids, key)
    else:
        ctx.eq(len(h.kids), len(node.kids), key + ":children", node.desc)
        for a, b in zip(h.kids, node.kids):
            expect(ctx, a, b, key)
    for e in body.iter():
        if local(e) == "a":
            f = target(e.get("href"))
            ctx.check(os.path.isfile(f), key + ":link",
                      "%r leads to no file" % e.get("href"))


# -- running the commands

def options(module, args):
    return module.create_optparser().parse_args(list(args) + ["x", "y"])


EXT = {"txt": ".text", "text": ".text", "json": ".json", "htm": ".html",
       "html": ".html"}
ALL = ["txt", "json", "html"]


def quiet_diff(cls, l, r):
    d = cls(l, r)
    d.check()
    return d


class Run(object):
    """one comparison with reports, compared with one without"""

    def __init__(self, ctx, module, left, right, args=(), fmts=ALL,
                 root="out", media=None, stdout="text", extra=(), key="c20"):
        self.ctx, self.key, self.fmts = ctx, key, fmts
        self.root = os.path.normpath(os.path.join(ctx.tmpdir, root))
        self.media = os.path.normpath(os.path.join(ctx.tmpdir, media)) \
            if media else None
        argv = list(args)
        if fmts:
            argv += ["--report", ",".join(fmts), "--report-dir", root]
        if media:
            argv += ["--html-copy-data", media]
        self.opts = options(module, argv)
        self.extra = []
        for x in extra:
            argv += ["--html-stylesheet", x + ".css",
                     "--html-javascript=" + x + ".js"]
            if os.path.exists(os.path.join(ctx.tmpdir, x + ".css")):
                x = os.path.join(ctx.tmpdir, x)
            self.extra.append(x)
        self.files = set()
        name = {classdiff: "JavaClassReport", jardiff: "JarReport",
                distdiff: "DistReport"}[module]
        cls = {classdiff: classdiff.JavaClassChange,
               jardiff: jardiff.JarChange,
               distdiff: distdiff.DistChange}[module]
        if stdout == "json":
            argv.append("--json")
        elif stdout == "quiet":
            argv.append("-q")
        o = options(module, argv)
        ins = [os.path.join(ctx.tmpdir, x) for x in (left, right)]
        for d in (self.root, self.media):
            if d:
                trees.clear(d)
        old = os.getcwd()
        os.chdir(ctx.tmpdir)
        try:
            rc, out, err = cli.run(module.main, [module.__name__] + argv +
                                   ins)
        finally:
            os.chdir(old)
        a, b = ins
        if module is classdiff:
            a, b = [unpack_class(open(x, "rb").read()) for x in ins]
        top = quiet_diff(cls, a, b)
        node = N(top, self.opts, bool(fmts))
        ctx.eq(rc, int(node.changed and not node.ignored), key + ":exit")
        ctx.eq(err, b"", key + ":stderr")
        out = out.decode("utf-8")
        if stdout == "quiet":
            ctx.eq(out, "", key + ":stdout")
        elif stdout == "json":
            same_json(ctx, out, node, o, key + ":stdout:json")
        else:
            same_text(ctx, out, node, o, key + ":stdout:text")
        self.o = o
        if fmts:
            self.report(top, node, name, self.root, [])
        got = set()
        for d, _, fs in os.walk(self.root):
            got |= {os.path.relpath(os.path.join(d, f), self.root)
                    for f in fs}
        if media and {"htm", "html"} & set(fmts):
            sub = os.path.relpath(self.media, self.root)
            if not sub.startswith(".."):
                self.files |= {os.path.join(sub, "report.css"),
                               os.path.join(sub, "report.js")}
        ctx.eq(sorted(got), sorted(self.files), key + ":files")
        self.node = node
        ctx.outcome((rc, len(self.files)))

    def report(self, top, node, name, where, crumbs):
        ctx, key, o = self.ctx, self.key, self.o
        base = os.path.join(where, name)
        for f in sorted({EXT[f] for f in self.fmts if f in EXT}):
            fn = base + f
            self.files.add(os.path.relpath(fn, self.root))
            ctx.check(os.path.isfile(fn), key + ":files", "no " + fn)
            if f == ".html":
                title = name
                if name == "JavaClassReport":
                    title += " " + \
                        top.get_ldata().pretty_this().split(".")[-1]
                same_html(ctx, fn, node, title, crumbs, self.media,
                          self.extra, key + ":html")
            else:
                with io.open(fn, encoding="utf-8", newline="") as fd:
                    raw = fd.read()
                if f == ".json":
                    same_json(ctx, raw, node, o, key + ":json")
                else:
                    same_text(ctx, raw, node, o, key + ":text")
        for n in node.walk():
            if n.orig:
                inner = n.full.collect()[0]
                self.report(inner, N(inner, self.opts, True), n.report,
                            os.path.join(where, n.entry),
                            crumbs + [(base + ".html", name)])


VISIBLE = [[], ["--show-ignored"], ["--show-unchanged"],
           ["--show-ignored", "--show-unchanged"]]


# -- harnesses

IGNORES = [[], ["--ignore-pool"], ["--ignore=lines,version,added"],
           ["--ignore-deprecated", "--ignore-pool", "--ignore-lines"]]


def put(ctx, name, data):
    p = os.path.join(ctx.tmpdir, name)
    with open(p, "wb") as fd:
        fd.write(data)
    return name


def one_class(nedits, base, views):
    """class comparisons: every edit, each way round, all views"""
    names = [e for e in edits.NAMES
             if edits.apply(base(), [e]) is not None]

    def run(ctx):
        sel = []
        for i in range(nedits):
            rest = names[names.index(sel[-1]) + 1:] if sel else names
            e = ctx.choose("e%d" % i, [None] + rest)
            if e is None:
                break
            sel.append(e)
        b = edits.apply(base(), sel)
        if b is None:
            ctx.choose("n/a", [])
        x, y = edits.encode(base())[0], edits.encode(b)[0]
        if ctx.flag("swap"):
            x, y = y, x
        put(ctx, "l", x)
        put(ctx, "r", y)
        for i, args in enumerate(views):
            Run(ctx, classdiff, "l", "r", args, root="out%d" % i,
                stdout="json" if i % 2 else "text")
        ctx.state((tuple(sel), x))
    return run


def everywhere(text):
    """a class with text in every place that takes one"""
    const = text
    for c in ";[":
        text = text.replace(c, "")
    L = "Lx/%sY;" % text
    A = [("Lx/%sA;" % text, [(text, ("s", const)),
                             ("e", ("e", ("Lx/%sE;" % text, text))),
                             ("c", ("c", L))])]
    return dict(
        version=(52, 0), access=0x21, this="x/%sC" % text,
        super="x/%sB" % text, interfaces=["x/%sI" % text],
        fields=[dict(access=0x19, name="f", desc=L,
                     attrs=[("Signature", "TT%s;" % text),
                            ("RuntimeVisibleAnnotations", A)]),
                dict(access=0x19, name="K", desc="Ljava/lang/String;",
                     attrs=[("ConstantValue", ("s", const))]),
                dict(access=1, name="f" + text, desc="I")],
        methods=[dict(access=1, name="m", desc="(%s)%s" % (L, L),
                      attrs=[("Code", dict(
                          stack=1, locals=2,
                          code=[("ldc", (("s", const),)), ("areturn", ())])),
                          ("Exceptions", ["x/%sX" % text]),
                          ("Signature", "(T%s;)TU;" % text),
                          ("RuntimeInvisibleAnnotations", A)]),
                 dict(access=0x401, name="m" + text, desc="(%s)V" % L,
                      attrs=[("Exceptions", ["x/%sX" % text]),
                             ("Signature", "(T%s;)V" % text)])],
        attrs=[("Signature", "Lx/%s;" % text),
               ("RuntimeVisibleAnnotations", A),
               ("RuntimeInvisibleAnnotations", A)])


# what the right side of a method may look like
SIDES = ["same table", "reversed", "all one line", "none", "other code",
         "longer", "abstract", "moved"]


def coded(body, table):
    attrs = []
    if body is not None:
        code = dict(stack=1, locals=1, code=body)
        if table is not None:
            code["attrs"] = [("LineNumberTable", table)]
        attrs.append(("Code", code))
    return edits.encode(dict(
        version=(52, 0), access=0x21, this="C", super="B",
        methods=[dict(access=1 if attrs else 0x401, name="m", desc="()V",
                      attrs=attrs)]))[0]


def code_lines(ctx):
    """every table which gives lines to the instructions of a method,
    each against others"""
    body = [("iconst_0", ()), ("pop", ()), ("iconst_1", ()), ("pop", ()),
            ("return", ())]
    rows = [ctx.choose("line at %d" % i, [None, 10, 11, 8])
            for i in range(4)]
    if rows[0] is None:
        ctx.choose("n/a", [])       # starts with no line: C08
    table = [(i, l) for i, l in enumerate(rows) if l is not None]
    side = ctx.choose("right", SIDES)
    other, lines = list(body), table
    if side == "reversed":
        lines = list(zip([o for o, _l in table],
                         [l for _o, l in table][::-1]))
    elif side == "all one line":
        lines = [(0, 10)]
    elif side == "none":
        lines = None
    elif side == "other code":
        other[2] = ("iconst_2", ())
    elif side == "longer":
        other[2:2] = [("nop", ())]
    elif side == "abstract":
        other = lines = None
    elif side == "moved":
        lines = [(o, l + 5) for o, l in table]
    x, y = coded(body, table), coded(other, lines)
    if ctx.flag("swap"):
        x, y = y, x
    put(ctx, "l", x)
    put(ctx, "r", y)
    for i, args in enumerate(VISIBLE):
        Run(ctx, classdiff, "l", "r", args, root="out%d" % i)
    ctx.state((tuple(rows), side))


TEXTS = ["", "<", ">", "&", "\"", "'", "&lt;", "&amp;", "]]>", "<b>",
         "</td>", "<!--", "-->", "$x", "${x}", "#if", "\u00e9", "\u20ac",
         "\U0001f600", "\\u0041", "%s", "%41", "<%", "%>", "\u00a0", "a b",
         "*", "{0}"]


def chars(texts):
    def run(ctx):
        a = ctx.choose("left", texts, label=repr)
        b = ctx.choose("right", texts, label=repr)
        for n, t in (("l", a), ("r", b)):
            put(ctx, n, edits.encode(everywhere(t))[0])
        Run(ctx, classdiff, "l", "r",
            ["--show-unchanged"] if ctx.flag("all") else [])
        ctx.state((a, b))
    return run


# entries of archives and distributions

def cls(names=()):
    return edits.encode(edits.apply(edits.small(), list(names)))[0]


def jar(entries):
    out = io.BytesIO()
    with zipfile.ZipFile(out, "w") as z:
        for n, c in entries:
            z.writestr(zipfile.ZipInfo(n, (2020, 1, 1, 0, 0, 0)), c)
    return out.getvalue()


C = [cls(), cls(["flag-0x10"]), cls(["pool-unused"])]
MF = b"Manifest-Version: 1.0\r\nA: %d\r\n\r\nName: %s\r\nX: 1\r\n\r\n"
BAD = ["a b", "a&b", "a<b", "a>b", 'a"b', "a'b", "a%41b", "a#b", "a?b",
       "\u00e9", "a;b", "a:b", "$x", "a,b", "a\\b", "~", "+", "&amp;",
       "a=b", "[a]", "{a}", "..a", "a..", "http:"]
JARS = {
    "manifest": ("META-INF/MANIFEST.MF", [MF % (1, b"a"), MF % (2, b"a"),
                                          MF % (1, b"b")]),
    "sf": ("META-INF/K.SF", [b"Signature-Version: 1.0\r\nA: 1\r\n\r\n",
                             b"Signature-Version: 1.0\r\nA: 2\r\n\r\n"]),
    "block": ("META-INF/K.RSA", [b"1", b"2"]),
    "class": ("p/C.class", C),
    "class2": ("D.class", C),
    "content": ("r/x.txt", [b"1", b"2"]),
}


def pairs(vals, few):
    """(left, right): absent, added, removed, same, and each change"""
    out = [(None, None), (None, vals[0]), (vals[0], None),
           (vals[0], vals[0])]
    out += [(vals[0], v) for v in vals[1:]]
    return [out[0]] + out[4:] if few else out


def label(lr):
    a, b = lr
    return ("none", "added", "removed", "same", "changed")[
        (a is not None) * 2 + (b is not None) +
        (a is not None and b is not None and a != b)]


VIEWS = VISIBLE + [["--ignore-pool"], ["--ignore-manifest",
                                       "--show-ignored"],
                   ["--ignore-pool", "--show-ignored"],
                   ["--ignore-jar-signature", "--ignore-jar-entry=*.txt"]]


def write_jars(ctx, l, r):
    trees.write_zip(l, os.path.join(ctx.tmpdir, "l"))
    trees.write_zip(r, os.path.join(ctx.tmpdir, "r"))


def jars(kinds, few, views):
    def run(ctx):
        l, r = {}, {}
        for k in kinds:
            name, vals = JARS[k]
            a, b = ctx.choose(k, pairs(vals, k in few), label=label)
            if a is not None:
                l[name] = a
            if b is not None:
                r[name] = b
        write_jars(ctx, l, r)
        args = ctx.choose("view", views, label=" ".join)
        Run(ctx, jardiff, "l", "r", args, stdout=["text", "json"][
            len(args) % 2])
        ctx.state((sorted(l.items()), sorted(r.items())))
    return run


def names(ctx):
    """entry names that mean something in HTML, links or paths"""
    n = ctx.choose("name", BAD)
    how = ctx.choose("where", ["file", "dir", "both"])
    path = {"file": n + ".class", "dir": n + "/C.class",
            "both": n + "/" + n + ".class"}[how]
    kind = ctx.choose("kind", ["class in jar", "class in dist",
                               "class in jar in dist", "other in jar",
                               "other in dist"])
    if kind.startswith("other"):
        path = path[:-6]
    a, b = (C[0], C[1])
    ev = ctx.choose("event", ["changed", "added", "removed"])
    l = {} if ev == "added" else {path: a}
    r = {} if ev == "removed" else {path: b}
    l["same"] = r["same"] = b"1"
    if "in jar" in kind and "dist" not in kind:
        write_jars(ctx, l, r)
        Run(ctx, jardiff, "l", "r", media="out/m")
    else:
        if "jar" in kind:
            j = path[:-6] + ".jar"
            l, r = [{j: jar(sorted(x.items()))} for x in (l, r)]
        trees.write(l, os.path.join(ctx.tmpdir, "l"))
        trees.write(r, os.path.join(ctx.tmpdir, "r"))
        Run(ctx, distdiff, "l", "r", ["--processes=0"], media="out/m")
    ctx.state((path, kind, ev))


OUT = ["../x.class", "a/../../x.class", "../../x.class", "ABS",
       "./y.class", "a/./x.class", "a/../y.class", "a//x.class"]


def outside(ctx):
    """entries whose names lead out of the directory for the reports"""
    n = ctx.choose("name", OUT)
    more = ctx.flag("more")
    nested = ctx.flag("in dist")
    base = os.path.join(ctx.tmpdir, "scratch")
    trees.clear(base)
    os.makedirs(os.path.join(base, "deep", "er"))
    if n == "ABS":
        # an absolute name, below the scratch directory
        n = os.path.join(base, "abs", "x.class")
    l, r = {n: C[0], "same": b"1"}, {n: C[1], "same": b"1"}
    if more:
        l["x.class"], r["x.class"] = C[0], C[2]
    if nested:
        for side, x in (("l", l), ("r", r)):
            trees.write({"lib/x.jar": jar(sorted(x.items()))},
                        os.path.join(ctx.tmpdir, side))
        module, top = distdiff, "DistReport"
    else:
        write_jars(ctx, l, r)
        module, top = jardiff, "JarReport"
    rdir = os.path.join(base, "deep", "er", "out")
    rc, o, e = cli.run(module.main, [
        "x", "-q", "--report=html,txt", "--report-dir", rdir] +
        (["--processes=0"] if nested else []) +
        [os.path.join(ctx.tmpdir, x) for x in "lr"])
    ctx.eq((rc, o, e), (1, b"", b""), "c20:outside:run")
    found = trees.files(trees.read(base))
    out = sorted(f for f in found if not f.startswith("deep/er/out/"))
    ctx.eq(out, [], "c20:outside", "written for %r" % n)
    names = ["deep/er/out/%s.html" % top]
    seen = []
    for f in names:
        ctx.check(f in found, "c20:outside:link", "no %r" % f)
        seen.append(f)
        for e in ET.fromstring(found[f]).iter():
            if local(e) == "a" and e.text == "details":
                names.append(os.path.normpath(os.path.join(
                    os.path.dirname(f), unquote(e.get("href")))))
    # one report per changed class, on top of those of the archives
    ctx.eq(len(set(seen)), 1 + nested + len({
        os.path.normpath(x) for x in l if x != "same"}),
        "c20:outside:reports", repr(seen))
    ctx.state((n.replace(base, ""), more, nested))


DISTS = {
    "class": ("p/C.class", C), "class2": ("D.class", C),
    "jar": ("lib/x.jar", [
        jar([("x/C.class", C[0]), ("f", b"1")]),
        jar([("x/C.class", C[1]), ("f", b"1")]),
        jar([("x/C.class", C[2]), ("f", b"1"), ("g", b"1")]),
        jar([("f", b"2")])]),
    "text": ("t.txt", [b"a\n", b"b\n", b"a \n"]),
    "manifest": ("META-INF/MANIFEST.MF", [MF % (1, b"a"), MF % (2, b"a")]),
    "other": ("o.bin", [b"1", b"2"]),
}


def dists(kinds, few, views):
    def run(ctx):
        l, r = {}, {}
        for k in kinds:
            name, vals = DISTS[k]
            a, b = ctx.choose(k, pairs(vals, k in few), label=label)
            if a is not None:
                l[name] = a
            if b is not None:
                r[name] = b
        trees.write(l, os.path.join(ctx.tmpdir, "l"))
        trees.write(r, os.path.join(ctx.tmpdir, "r"))
        args = ctx.choose("view", views, label=" ".join)
        Run(ctx, distdiff, "l", "r", ["--processes=0"] + args,
            stdout=["text", "json"][len(args) % 2])
        ctx.state((sorted(l.items()), sorted(r.items())))
    return run


FORMATS = [[], ["txt"], ["text"], ["json"], ["html"], ["htm"],
           ["txt", "json"], ["json", "html"], ["html", "txt"],
           ["txt", "text"], ["text", "json", "htm"], ["txt", "html", "txt"]]


def config(ctx):
    """where the reports go"""
    what = ctx.choose("what", ["class", "jar", "dist"])
    fmts = ctx.choose("formats", FORMATS, label=",".join)
    root = ctx.choose("root", ["out", "./out/", "a/b/out", "abs", "out/../o",
                               "a b&c"])
    media = ctx.choose("media", [None, "m", "in", "deep/er/m", "abs-m"])
    stdout = ctx.choose("stdout", ["text", "json", "quiet"])
    if not fmts:
        media = None
    root = {"abs": os.path.join(ctx.tmpdir, "abs")}.get(root, root)
    if media == "in":
        media = os.path.join(root, "media")
    elif media == "abs-m":
        media = os.path.join(ctx.tmpdir, "m")
    args = []
    if what == "class":
        module = classdiff
        put(ctx, "l", C[0])
        put(ctx, "r", C[1])
    else:
        l, r = {"p/C.class": C[0]}, {"p/C.class": C[1]}
        if what == "jar":
            module = jardiff
            write_jars(ctx, l, r)
        else:
            module = distdiff
            args = ["--processes=0"]
            trees.write(dict(l, **{"x.jar": DISTS["jar"][1][0]}),
                        os.path.join(ctx.tmpdir, "l"))
            trees.write(dict(r, **{"x.jar": DISTS["jar"][1][1]}),
                        os.path.join(ctx.tmpdir, "r"))
    Run(ctx, module, "l", "r", args, fmts=fmts, root=root, media=media,
        stdout=stdout)
    ctx.state((what, fmts, root, media, stdout))


EXTRA = ["http://x/a?b=1&c=2", "https://x/\"", "file:///x", "/abs/x&y",
         "file", "sub/file", "a b%41", "missing", "../missing"]


def media(ctx):
    """style sheets and scripts"""
    n = ctx.choose("n", [1, 2])
    extra = [ctx.choose("x%d" % i, EXTRA) for i in range(n)]
    for x in ("file", "sub/file", "a b%41"):
        os.makedirs(os.path.join(ctx.tmpdir, "sub"), exist_ok=True)
        for e in (".css", ".js"):
            put(ctx, x + e, b"")
    write_jars(ctx, {"p/C.class": C[0]}, {"p/C.class": C[1]})
    Run(ctx, jardiff, "l", "r", fmts=["html"], extra=extra,
        media="m" if ctx.flag("copy") else None)
    ctx.state(tuple(extra))


def synthetic(specs):
    """made-up change trees in the text and JSON formats"""
    def run(ctx):
        spec = ctx.choose("tree", specs, label=repr)
        opts = c18.options(ctx.flag("ignore"), show_ignored=ctx.flag("si"),
                           show_unchanged=ctx.flag("su"), silent=False,
                           json=False, reports=[], output=None)
        indent = ctx.choose("indent", [2, 0, 1, 4])
        opts.json_indent = indent
        c = c18.build(spec, c18.Log())
        c.check()
        n = N(c, opts)
        out = io.StringIO()
        report.TextReportFormat(None, opts).run(c, None, out)
        same_text(ctx, out.getvalue(), n, opts, "c20:synthetic:text")
        out = io.StringIO()
        report.JSONReportFormat(None, opts).run(c, None, out)
        same_json(ctx, out.getvalue(), n, opts, "c20:synthetic:json",
                  indent)
        for fmt in (report.TextReportFormat, report.JSONReportFormat):
            want = io.StringIO()
            fmt(None, opts).run(c, None, want)
            opts.output = os.path.join(ctx.tmpdir, "o")
            filed = io.StringIO()
            fmt(None, opts).run(c, None, filed)
            rc, o, e = cli.run(report.quick_report, fmt, c, opts)
            with io.open(opts.output, newline="") as fd:
                ctx.eq((fd.read(), o), (filed.getvalue(), b""),
                       "c20:output")
            opts.output = None
            rc, o, e = cli.run(report.quick_report, fmt, c, opts)
            ctx.eq(o.decode("utf-8"), want.getvalue(), "c20:stdout")
        ctx.state(spec)
        ctx.outcome((n.changed, n.ignored))
    return run


def harnesses(tier):
    t = tier == "thorough"
    views = [v + i for v in VISIBLE for i in IGNORES]
    leaves = c18.KINDS
    specs = [s for s in c18.trees(leaves, 2, 1) if isinstance(s, tuple)]
    specs += [(a, b) for a in specs[:20] for b in specs[::7]]
    hs = [
        Harness("classes", one_class(1, edits.base, views), quota=4,
                describe="each edit, each way round, all views"),
        Harness("chars", chars(TEXTS if t else TEXTS[:12] + TEXTS[-12:]),
                quota=10, describe="texts that mean something in HTML, in "
                "all places, left and right"),
        Harness("code-lines", code_lines, quota=20,
                describe="lines of the instructions of a method, left and "
                "right"),
        Harness("jars", jars(["manifest", "sf", "block", "class", "class2",
                              "content"],
                             ["sf", "block", "class2"] +
                             ([] if t else ["content"]),
                             VIEWS if t else VIEWS[::2]), quota=30),
        Harness("names", names, quota=20),
        Harness("dists", dists(sorted(DISTS), ["class2", "other", "text"] +
                               ([] if t else ["manifest"]),
                               VIEWS if t else VIEWS[1::2]), quota=30),
        Harness("outside", outside, quota=4),
        Harness("media", media, quota=20),
        Harness("config", config, quota=30),
        Harness("synthetic", synthetic(specs), quota=200),
    ]
    if t:
        hs.append(Harness("small", one_class(2, edits.small, VISIBLE),
                          quota=10))
    return hs
