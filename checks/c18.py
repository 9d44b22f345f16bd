"""C18: change trees: verdict, ignoring, collecting, squashing"""

import argparse
import itertools

from vlib.explore import Harness

from javatools import change as ch

ASSUMPTIONS = [
    "a change is asked for its verdict after it was checked, as every "
    "caller in the library does",
]

# leaves: changed or not, ignored by the option or not, of every kind
KINDS = ["g0", "g0i", "g1", "g1i", "a", "ai", "r", "ri"]


class Opts(argparse.Namespace):
    pass


def options(ign, **kw):
    return Opts(ign=ign, **kw)


class Log(object):
    def __init__(self):
        self.collected = {}


class Leaf(ch.GenericChange):
    label = "Leaf"

    def __init__(self, l, r, ign=False):
        super(Leaf, self).__init__(l, r)
        self.ign = ign

    def is_ignored(self, options):
        return self.ign and options.ign


class Added(ch.Addition):
    label = "Leaf Added"
    ign = False

    def is_ignored(self, options):
        return self.ign and options.ign


class Removed(ch.Removal):
    label = "Leaf Removed"
    ign = False

    def is_ignored(self, options):
        return self.ign and options.ign


class Node(ch.SuperChange):
    label = "Node"

    def __init__(self, spec, log, path):
        super(Node, self).__init__(spec, spec)
        self.spec, self.log, self.path = spec, log, path

    def collect_impl(self):
        n = self.log.collected
        n[self.path] = n.get(self.path, 0) + 1
        for i, s in enumerate(self.spec):
            yield build(s, self.log, self.path + (i,))


class AddedNode(Node, ch.Addition):
    label = "Node Added"


class RemovedNode(Node, ch.Removal):
    label = "Node Removed"


def build(spec, log, path=()):
    if isinstance(spec, tuple):
        return Node(spec, log, path)
    if spec.startswith("N+"):
        return AddedNode((), log, path)
    if spec.startswith("N-"):
        return RemovedNode((), log, path)
    ign = spec.endswith("i")
    if spec[0] == "g":
        return Leaf("x", "y" if spec[1] == "1" else "x", ign)
    c = (Added if spec[0] == "a" else Removed)(None, "y")
    c.ign = ign
    c.entry = "entry"
    return c


# -- the reference

def changed(spec):
    if isinstance(spec, tuple):
        return any(changed(s) for s in spec)
    return spec not in ("g0", "g0i")


def ignored(spec, ign):
    if isinstance(spec, tuple):
        return changed(spec) and all(ignored(s, ign) for s in spec
                                     if changed(s))
    if spec[0] == "N":
        return False
    return spec.endswith("i") and ign


def label(spec):
    if isinstance(spec, tuple):
        return "Node"
    return {"g": "Leaf", "a": "Leaf Added", "r": "Leaf Removed",
            "N": "Node " + ("Added" if spec[1:2] == "+" else "Removed")
            }[spec[0]]


def descr(spec):
    if spec in ("g1", "g1i"):
        return "Leaf changed: x to y"
    return label(spec) + (" changed" if changed(spec) else " unchanged")


def kind(spec):
    if isinstance(spec, tuple):
        return None
    if spec[0] == "a" or spec[:2] == "N+":
        return "is_addition"
    if spec[0] == "r" or spec[:2] == "N-":
        return "is_removal"
    return None


def same(ctx, c, spec, opts, squashed=False):
    """c tells what spec says, now and when asked again"""
    for again in (0, 1):
        ctx.eq(c.is_change(), changed(spec), "verdict", "is_change() of %r"
               % (spec,))
        if ignored(spec, opts.ign) or changed(spec) or \
                isinstance(spec, tuple):
            ctx.eq(bool(c.is_ignored(opts)), ignored(spec, opts.ign),
                   "ignored", "is_ignored() of %r" % (spec,))
        ctx.eq(c.label, label(spec), "label", "label of %r" % (spec,))
        ctx.eq(c.get_description(), descr(spec), "description",
               "description of %r" % (spec,))
    ctx.eq((isinstance(c, ch.Addition), isinstance(c, ch.Removal)),
           (kind(spec) == "is_addition", kind(spec) == "is_removal"),
           "kind", "addition, removal for %r" % (spec,))
    if not squashed and isinstance(spec, tuple):
        subs = tuple(c.collect())
        ctx.eq(len(subs), len(spec), "children", "children of %r" % (spec,))
        ctx.check(all(a is b for a, b in zip(subs, c.collect())),
                  "children", "collect() gives other children when asked "
                  "again")
    ctx.step(8)


def simple(ctx, c, spec, opts, squashed=False):
    """the simplified form of c, with and without options"""
    for o in (None, opts):
        d = c.simplify(o)
        ctx.eq(d["is_change"], changed(spec), "simplify:verdict",
               "simplify() of %r" % (spec,))
        ctx.eq(d["label"], label(spec), "simplify:label", repr(spec))
        ctx.eq(d["description"], descr(spec), "simplify:description",
               repr(spec))
        ctx.eq(d["class"], type(c).__name__, "simplify:class", repr(spec))
        if o is None:
            ctx.check("is_ignored" not in d, "simplify:ignored",
                      "is_ignored without options")
        elif changed(spec) or isinstance(spec, tuple):
            ctx.eq(bool(d["is_ignored"]), ignored(spec, o.ign),
                   "simplify:ignored", repr(spec))
        for k in ("is_addition", "is_removal"):
            ctx.eq(d.get(k, False), kind(spec) == k, "simplify:kind",
                   "%s of %r" % (k, spec))
        if not isinstance(spec, tuple) and spec[0] in "ar":
            ctx.eq(d.get("entry"), "entry", "simplify:entry", repr(spec))
        if squashed:
            continue
        if spec in KINDS and spec[0] == "g":
            ctx.eq((d.get("old_data"), d.get("new_data")),
                   ("x", "y" if spec[1] == "1" else "x"),
                   "simplify:data", repr(spec))
        if isinstance(spec, tuple):
            want = []
            for s, k in zip(spec, c.collect()):
                if changed(s):
                    if o is None or o.show_ignored or \
                            not ignored(s, o.ign):
                        want.append(k)
                elif o is not None and o.show_unchanged:
                    want.append(k)
            got = d["children"]
            ctx.check(len(got) == len(want) and
                      all(a is b for a, b in zip(got, want)),
                      "simplify:children",
                      "children %r of %r, expected %r" % (
                          [x.get_description() for x in got], spec,
                          [x.get_description() for x in want]))
        ctx.step(8)


def trees(leaves, width, depth):
    """all trees whose leaves are at most depth below the root"""
    if not depth:
        return list(leaves)
    sub = trees(leaves, width, depth - 1)
    out = list(leaves)
    for w in range(width + 1):
        out += itertools.product(sub, repeat=w)
    return out


def walk(spec, c, path=()):
    yield spec, c, path
    if isinstance(spec, tuple):
        for i, (s, k) in enumerate(zip(spec, c.collect())):
            for x in walk(s, k, path + (i,)):
                yield x


def verdict_run(first, rest):
    def run(ctx):
        a = ctx.choose("first", first, label=repr)
        b = ctx.choose("rest", rest, label=repr)
        ctx.state((a, b))
        spec = (a,) + b
        opts = options(ctx.flag("ignore"), show_ignored=ctx.flag("show_i"),
                       show_unchanged=ctx.flag("show_u"))
        log = Log()
        c = build(spec, log)
        c.check()
        flip = options(not opts.ign)
        for s, k, p in walk(spec, c):
            # the answers are about the options given with the question
            for o in (opts, flip):
                if changed(s) or isinstance(s, tuple):
                    ctx.eq(bool(k.is_ignored(o)), ignored(s, o.ign),
                           "ignored", "is_ignored() of %r, asked with other "
                           "options" % (s,))
            same(ctx, k, s, opts)
            simple(ctx, k, s, opts)
            q = ch.squash(k, options=opts)
            same(ctx, q, s, opts, True)
            simple(ctx, q, s, opts, True)
            ctx.eq(q.simplify(opts)["original_class"], type(k).__name__,
                   "squash:class", repr(s))
            ctx.eq(q.entry, k.entry, "squash:entry", repr(s))
        ctx.check(all(n == 1 for n in log.collected.values()), "collect",
                  "children collected more than once: %r" % log.collected)
        # with less detail the verdict stays what it was
        c.squash_children(opts)
        same(ctx, c, spec, opts)
        simple(ctx, c, spec, opts)
        for s, k in zip(spec, c.collect()):
            same(ctx, k, s, opts, True)
        c.check()
        same(ctx, c, spec, opts)
        c.clear()
        ctx.eq((c.is_change(), tuple(c.collect()), c.get_ldata()),
               (False, (), None), "clear", "what is left after clear()")
        ctx.outcome((changed(spec), ignored(spec, opts.ign)))
    return run


OPS = ["check", "query", "simplify", "squash", "force", "shrink", "sub"]


def history_run(specs, depth):
    def run(ctx):
        spec = ctx.choose("tree", specs, label=repr)
        opts = options(ctx.flag("ignore"), show_ignored=False,
                       show_unchanged=False)
        log = Log()
        c = build(spec, log)
        if ctx.flag("collect first"):
            c.collect()
        c.check()
        same(ctx, c, spec, opts)
        forced, shrunk = 1, False
        for i in range(depth):
            op = ctx.choose("op", ["end"] + OPS)
            if op == "end":
                break
            elif op == "check":
                c.check()
            elif op == "simplify":
                simple(ctx, c, spec, opts)
            elif op == "squash":
                q = ch.squash(c, options=opts)
                same(ctx, q, spec, opts, True)
            elif op == "force":
                c.collect(force=True)
                c.check()
                forced += 1
                shrunk = False
            elif op == "shrink":
                c.squash_children(opts)
                shrunk = True
            elif op == "sub":
                for s, k in zip(spec, c.collect()):
                    k.check()
                    same(ctx, k, s, opts, shrunk)
            same(ctx, c, spec, opts)
            if not shrunk:
                for s, k in zip(spec, c.collect()):
                    same(ctx, k, s, opts)
            ctx.eq(log.collected.get(()), forced, "collect",
                   "times collected after %s" % op)
            ctx.state((spec, op, shrunk))
        ctx.outcome(spec)
    return run


class T1(Leaf):
    label = "one"


class T2(Leaf):
    label = "two"


class T3(T1):
    label = "three"


TYPES = [T1, T2, T3]


def types_run(ctx):
    """children by change_types: one of each, in order, with both sides"""
    n = ctx.choose("n", [0, 1, 2, 3, 4])
    ts = tuple(ctx.choose("t%d" % i, TYPES, label=lambda t: t.label)
               for i in range(n))
    differ = ctx.flag("differ")

    class Typed(ch.SuperChange):
        change_types = ts

        def fn_data(self, d):
            return d.upper()

    c = Typed("l", "r" if differ else "l")
    got = c.collect()
    ctx.eq([type(k) for k in got], list(ts), "types", "children")
    ctx.eq([(k.get_ldata(), k.get_rdata()) for k in got],
           [("L", "R" if differ else "L")] * n, "types", "data")
    c.check()
    ctx.eq(c.is_change(), differ and n > 0, "types", "verdict")
    ctx.state((ts, differ))


def group_run(size):
    """grouping by type"""
    def run(ctx):
        n = ctx.choose("n", list(range(size + 1)))
        objs = [ctx.choose("o%d" % i, TYPES, label=lambda t: t.label)(i, i)
                for i in range(n)]
        order = ctx.choose("order", [
            p for k in range(4) for p in itertools.permutations(TYPES, k)],
            label=lambda p: ",".join(t.label for t in p))
        got = list(ch.iterate_by_type(iter(objs), order))
        ctx.eq(sorted(o.ldata for o in got), list(range(n)), "group",
               "every object once")
        want = []
        for t in order:
            want += [o for o in objs if type(o) is t]
        ctx.eq([o.ldata for o in got[:len(want)]],
               [o.ldata for o in want], "group", "listed types in order")
        rest = got[len(want):]
        runs = [k for k, _ in itertools.groupby(type(o) for o in rest)]
        ctx.eq(len(runs), len(set(runs)), "group", "others grouped")
        for t in runs:
            ctx.eq([o.ldata for o in rest if type(o) is t],
                   [o.ldata for o in objs if type(o) is t], "group",
                   "order within a type")

        @ch.yield_sorted_by_type(*order)
        def gen(x, y=None):
            return iter(x)
        ctx.eq([o.ldata for o in gen(objs, y=1)], [o.ldata for o in got],
               "group", "yield_sorted_by_type")

        cut = ctx.choose("cut", list(range(n + 1)))
        for fun, key in ((ch.collect_by_type, type),
                         (ch.collect_by_typename,
                          lambda o: type(o).__name__)):
            want = {}
            for o in objs:
                want.setdefault(key(o), []).append(o)
            ctx.eq(fun(iter(objs)), want, "collect_by", fun.__name__)
            cache = fun(objs[:cut])
            ctx.check(fun(objs[cut:], cache) is cache, "collect_by",
                      "the given cache is used")
            ctx.eq(cache, want, "collect_by", "cached " + fun.__name__)
        ctx.state((tuple(type(o) for o in objs), order))
    return run


def harnesses(tier):
    deep = tier == "thorough"
    leaves = KINDS + ["N+", "N-"]
    one = trees(leaves, 2, 1)
    rest0 = [()] + [(k,) for k in one]
    hs = [
        Harness("types", types_run),
        Harness("group", group_run(5 if deep else 4), quota=2000),
        # root with up to two children, each a leaf or a node of leaves
        Harness("verdict", verdict_run(one, rest0), quota=2000),
    ]
    three = [()] + [p for w in (1, 2, 3)
                    for p in itertools.product(leaves, repeat=w)]
    hs.append(Harness("wide", verdict_run(leaves[:8], three[:400]
                                          if not deep else three),
                      quota=2000))
    small = [t for t in trees(["g0", "g1", "g1i", "a", "ri"], 2, 1)
             if isinstance(t, tuple)]
    nested = [((t,),) for t in ["g0", "g1", "g1i", "a", "ai"]] + \
        [((t,), u) for t in ["g1", "g1i", "ai"] for u in ["g1i", "g0", "r"]]
    hs.append(Harness("history", history_run(small + nested,
                                             5 if deep else 3), quota=2000))
    if deep:
        two = trees(["g0", "g1", "g1i"], 2, 2)
        hs.append(Harness("deep", verdict_run(
            two, [()] + [(k,) for k in trees(["g0", "g1", "g1i"], 1, 1)]),
            quota=2000))
    return hs
