"""
Stateless, exhaustive, deviation-bounded explorer.

A *harness* is a function run(ctx).  Every source of nondeterminism the
harness owns (operation to perform next, argument, environment answer,
scheduling decision, fault) is asked for through ctx.choose().  One call
of run() is one execution; the explorer enumerates *every* sequence of
choices the harness can make:

    execution with prefix p, afterwards always choice 0
    then, for every later choice point i and every alternative a > 0
    whose accumulated deviation cost stays within the bound: prefix
    p[:i] + [a]

Choices asked for with dev=True cost one deviation when they are not
option 0; choices asked for without it are free (always enumerated).

Executions are run in freshly forked children of a master that never
executes code under test, `quota` executions per child, so what one
child saw is a deterministic function of the prefixes it was given.
"""

import collections
import hashlib
import json
import mmap
import os
import pickle
import resource
import select
import signal
import struct
import sys
import time
import traceback


class Violation(Exception):
    """the property is broken in this execution"""

    def __init__(self, key, message, detail=None):
        Exception.__init__(self, message)
        self.key = key
        self.message = message
        self.detail = detail


class ExecTimeout(BaseException):
    pass


class Divergence(BaseException):
    """a replayed prefix met a different choice point: hard error"""
    pass


class Skip(BaseException):
    """this combination of choices denotes nothing; not counted"""
    pass


def digest(obj):
    if not isinstance(obj, (bytes, bytearray)):
        if not isinstance(obj, str):
            obj = repr(obj)
        obj = obj.encode("utf-8", "surrogatepass")
    return hashlib.blake2b(obj, digest_size=8).digest()


class Ctx(object):

    def __init__(self, harness, prefix, tmpdir=None):
        self.harness = harness
        self.prefix = prefix
        self.points = []      # (name, n, is_dev)
        self.choices = []
        self.labels = []
        self.states = set()
        self.transitions = 0
        self.outcome_ = None
        self.tmpdir = tmpdir
        self.notes = []

    def choose(self, name, options, dev=False, label=None):
        n = len(options)
        if n == 0:
            raise Skip()
        i = len(self.choices)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise Divergence("%s: choice %d of %d at point %d (%s)" %
                                 (self.harness.name, c, n, i, name))
        else:
            c = 0
        self.points.append((name, n, dev))
        self.choices.append(c)
        opt = options[c]
        if n > 1:
            if label is None:
                lab = repr(opt) if not callable(opt) else \
                    getattr(opt, "__name__", str(opt))
            else:
                lab = label(opt) if callable(label) else label[c]
            self.labels.append("%s=%s" % (name, lab[:160]))
        return opt

    def flag(self, name, dev=False):
        return self.choose(name, (False, True), dev=dev)

    def state(self, key):
        """a distinct state of model/implementation reached"""
        self.states.add(digest(key))

    def step(self, n=1):
        """an oracle-checked transition"""
        self.transitions += n

    def outcome(self, o):
        self.outcome_ = o

    def fail(self, key, message, detail=None):
        raise Violation(key, message, detail)

    def check(self, cond, key, message, detail=None):
        self.transitions += 1
        if not cond:
            if callable(message):
                message = message()
            raise Violation(key, message, detail)

    def eq(self, got, want, key, what=""):
        self.transitions += 1
        if got != want or type(got) is not type(want) and \
           isinstance(want, (bool, bytes, str)) and \
           not isinstance(got, type(want)):
            raise Violation(key, "%s: got %s, expected %s" %
                            (what or key, _short(got), _short(want)))


def _short(o, n=600):
    r = repr(o)
    return r if len(r) <= n else r[:n] + "...(%d)" % len(r)


class Harness(object):

    def __init__(self, name, run, bound=None, quota=200, timeout=30,
                 allowed=(), maxdepth=None, describe=None):
        self.name = name
        self.run = run
        self.bound = bound        # None: no deviation bound
        self.quota = quota
        self.timeout = timeout
        self.allowed = allowed
        self.describe = describe


class Result(object):

    def __init__(self):
        self.executions = 0
        self.skipped = 0
        self.transitions = 0
        self.states = set()
        self.outcomes = collections.Counter()
        self.samples = []
        self.violations = []    # dicts
        self.maxdepth = 0
        self.leftover = []
        self.errors = []

    def merge(self, o):
        self.executions += o.executions
        self.skipped += o.skipped
        self.transitions += o.transitions
        self.states |= o.states
        self.outcomes.update(o.outcomes)
        if len(self.samples) < 4:
            self.samples.extend(o.samples[:4 - len(self.samples)])
        self.violations.extend(o.violations)
        self.maxdepth = max(self.maxdepth, o.maxdepth)
        self.errors.extend(o.errors)


def _alarm(signum, frame):
    raise ExecTimeout()


def in_code_under_test(tb, repo):
    """the traceback passes through a file of the code under test"""
    for fr in traceback.extract_tb(tb):
        fn = fr.filename
        if "/javatools/" in fn or fn.startswith(repo):
            return True
    return False


def benign(ev):
    """an error of the sandbox or of the wiring, no statement about the
    behaviour of the code under test"""
    if isinstance(ev, (ImportError, SyntaxError)):
        return True
    if isinstance(ev, OSError) and ev.errno in (12, 23, 24, 28, 122):
        return True      # ENOMEM ENFILE EMFILE ENOSPC EDQUOT
    return isinstance(ev, AttributeError) and \
        str(ev).startswith("module '")


def run_one(harness, prefix, tmpdir=None, timeout=None):
    """one execution; returns (ctx, violation dict or None, skipped)"""

    ctx = Ctx(harness, prefix, tmpdir)
    vio = None
    skipped = False
    t = timeout or harness.timeout
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, t)
    try:
        try:
            harness.run(ctx)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Violation as v:
        vio = dict(key=v.key, message=v.message, detail=v.detail)
    except Skip:
        skipped = True
    except Divergence:
        raise
    except ExecTimeout:
        vio = dict(key="hang", message="execution did not finish in %d s"
                   % t, detail=None)
    except MemoryError:
        vio = dict(key="memory", message="memory exhausted", detail=None)
    except (Exception, SystemExit, KeyboardInterrupt) as e:
        et, ev, tb = sys.exc_info()
        text = "".join(traceback.format_exception(et, ev, tb)[-12:])
        if in_code_under_test(tb, REPO):
            last = [f for f in traceback.extract_tb(tb)
                    if "/javatools/" in f.filename]
            where = "%s" % (os.path.basename(last[-1].filename)
                            if last else "?")
            vio = dict(key="exception:%s:%s" % (et.__name__, where),
                       message="unexpected %s: %s" % (et.__name__, ev),
                       detail=text)
        elif benign(ev):
            raise
        else:
            # the harness is deterministic and does not raise on a tree
            # where the property holds: what the code under test handed it
            # has a shape no correct answer has
            vio = dict(key="unusable:%s" % et.__name__,
                       message="the oracle could not use what the code under "
                       "test produced: %s: %s" % (et.__name__, ev),
                       detail=text)
    if vio is not None:
        vio["harness"] = harness.name
        vio["choices"] = list(ctx.choices)
        vio["labels"] = list(ctx.labels)
    elif not skipped and len(ctx.choices) < len(ctx.prefix):
        raise Divergence("%s: prefix longer than execution" % harness.name)
    return ctx, vio, skipped


REPO = os.environ.get("VERIF_REPO", "/repo")


def explore_some(harness, prefixes, quota, progress=None, tmproot=None,
                 history=None):
    """explore subtrees of prefixes, at most quota executions"""

    res = Result()
    stack = list(reversed(prefixes))
    keys = collections.Counter()
    n = 0
    executed = []
    while stack and n < quota:
        prefix = stack.pop()
        if progress is not None:
            progress(prefix)
        ctx, vio, skipped = run_one(harness, prefix, tmproot)
        n += 1
        executed.append(list(prefix))
        if skipped:
            res.skipped += 1
        else:
            res.executions += 1
        res.transitions += ctx.transitions
        res.states |= ctx.states
        res.maxdepth = max(res.maxdepth, len(ctx.choices))
        if vio is not None:
            keys[vio["key"]] += 1
            if keys[vio["key"]] <= 3 and len(res.violations) < 40:
                vio["history"] = list(executed)
                res.violations.append(vio)
            res.outcomes["VIOLATION"] += 1
        elif not skipped:
            o = ctx.outcome_
            if o is not None:
                if len(res.outcomes) < 5000 or o in res.outcomes:
                    res.outcomes[o] += 1
            if len(res.samples) < 2:
                res.samples.append(dict(harness=harness.name,
                                        trace=ctx.labels[:40],
                                        outcome=None if o is None
                                        else str(o)[:200]))
        # children, simplest first (they are popped in order)
        cost = 0
        for (nm, k, dev), c in zip(ctx.points[:len(prefix)], ctx.choices):
            if dev and c:
                cost += 1
        kids = []
        for i in range(len(prefix), len(ctx.points)):
            nm, k, dev = ctx.points[i]
            if k < 2:
                continue
            if dev and harness.bound is not None and \
               cost + 1 > harness.bound:
                continue
            base = ctx.choices[:i]
            for a in range(1, k):
                kids.append(base + [a])
        stack.extend(reversed(kids))
    stack.reverse()
    res.leftover = stack
    return res


def _set_limits(mem):
    if mem:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class _Child(object):
    __slots__ = ("pid", "fd", "buf", "harness", "prefixes", "mm", "start",
                 "last", "lasttime")


class Explorer(object):

    def __init__(self, harnesses, jobs=None, deadline=None, mem=6 << 30,
                 tmproot=None, stop_after=25, verbose=False):
        self.harnesses = harnesses
        self.jobs = jobs or int(os.environ.get("VERIF_JOBS", "0")) or \
            min(8, os.cpu_count() or 1)
        self.deadline = deadline
        self.mem = mem
        self.tmproot = tmproot
        self.results = collections.OrderedDict(
            (h.name, Result()) for h in harnesses)
        self.capped = False
        self.stop_after = stop_after
        self.verbose = verbose
        self.quota_scale = 1

    def spawn(self, harness, prefixes, quota):
        r, w = os.pipe()
        mm = mmap.mmap(-1, 65536)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                devnull = os.open(os.devnull, os.O_RDWR)
                os.dup2(devnull, 0)
                os.dup2(devnull, 1)
                if not os.environ.get("VERIF_DEBUG"):
                    os.dup2(devnull, 2)
                _set_limits(self.mem)
                counter = [0]

                def progress(prefix):
                    counter[0] += 1
                    p = pickle.dumps(prefix)
                    if len(p) < 65000:
                        mm[0:12] = struct.pack(">QI", counter[0], len(p))
                        mm[12:12 + len(p)] = p

                tmp = None
                if self.tmproot:
                    tmp = os.path.join(self.tmproot, "w%d" % os.getpid())
                    os.mkdir(tmp)
                    os.chdir(tmp)
                try:
                    res = explore_some(harness, prefixes, quota, progress,
                                       tmp)
                except BaseException:
                    res = Result()
                    res.errors.append(traceback.format_exc())
                if tmp:
                    import shutil
                    os.chdir("/")
                    shutil.rmtree(tmp, ignore_errors=True)
                data = pickle.dumps(res, 4)
                off = 0
                while off < len(data):
                    off += os.write(w, data[off:off + 65536])
                code = 0
            except BaseException:
                code = 1
            finally:
                os._exit(code)
        os.close(w)
        c = _Child()
        c.pid, c.fd, c.buf = pid, r, []
        c.harness, c.prefixes, c.mm = harness, prefixes, mm
        c.start = c.lasttime = time.time()
        c.last = 0
        return c

    def explore(self):
        queue = collections.deque()
        for h in self.harnesses:
            queue.append((h, [[]], min(h.quota, 40)))
        running = {}
        nviol = 0
        while queue or running:
            now = time.time()
            if self.deadline and now > self.deadline and queue:
                self.capped = True
                queue.clear()
            if nviol >= self.stop_after and queue:
                self.capped = True
                queue.clear()
            while queue and len(running) < self.jobs:
                h, prefixes, quota = queue.popleft()
                c = self.spawn(h, prefixes, quota)
                running[c.fd] = c
            if not running:
                break
            ready, _, _ = select.select(list(running), [], [], 1.0)
            now = time.time()
            for fd in ready:
                c = running[fd]
                data = os.read(fd, 1 << 20)
                if data:
                    c.buf.append(data)
                    continue
                os.close(fd)
                del running[fd]
                _, status = os.waitpid(c.pid, 0)
                res = None
                if c.buf:
                    try:
                        res = pickle.loads(b"".join(c.buf))
                    except Exception:
                        res = None
                if res is None:
                    res = self._dead(c, status)
                R = self.results[c.harness.name]
                R.merge(res)
                nviol += len(res.violations)
                if res.leftover:
                    lo = res.leftover
                    # split the rest: more, smaller tasks while workers idle
                    k = max(1, min(len(lo), self.jobs * 2))
                    for i in range(k):
                        part = lo[i::k]
                        if part:
                            queue.append((c.harness, part, c.harness.quota))
                c.mm.close()
            for c in list(running.values()):
                cnt, = struct.unpack(">Q", c.mm[0:8])
                if cnt != c.last:
                    c.last = cnt
                    c.lasttime = now
                elif now - c.lasttime > c.harness.timeout * 2 + 20:
                    # stuck outside the reach of the alarm
                    try:
                        os.kill(c.pid, signal.SIGKILL)
                    except OSError:
                        pass
                    c.lasttime = now
        return self.results

    def _dead(self, c, status):
        """a child died without reporting: crash or unkillable hang"""
        res = Result()
        cnt, ln = struct.unpack(">QI", c.mm[0:12])
        prefix = pickle.loads(c.mm[12:12 + ln]) if ln else []
        sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else None
        res.violations.append(dict(
            key="crash" if sig != signal.SIGKILL else "hang",
            message="the process running this execution died (%s)" %
            ("signal %s" % sig if sig else "exit %s" % status),
            detail=None, harness=c.harness.name, choices=prefix, labels=[],
            history=[prefix]))
        return res


def rerun(harness, executions, tmproot=None, mem=6 << 30):
    """run executions in a fresh forked child; returns the violation of the
    last one, or None"""

    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            devnull = os.open(os.devnull, os.O_RDWR)
            os.dup2(devnull, 0)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            _set_limits(mem)
            tmp = None
            if tmproot:
                tmp = os.path.join(tmproot, "w%d" % os.getpid())
                os.mkdir(tmp)
                os.chdir(tmp)
            vio = None
            for p in executions:
                ctx, vio, _ = run_one(harness, p, tmp,
                                      timeout=harness.timeout * 2)
            data = pickle.dumps(vio)
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
            os._exit(0)
        except BaseException:
            try:
                os.write(w, pickle.dumps(
                    dict(key="divergence", message=traceback.format_exc(),
                         detail=None)))
            finally:
                os._exit(3)
    os.close(w)
    out = []
    limit = time.time() + harness.timeout * 3 + 60
    killed = False
    while True:
        rd, _, _ = select.select([r], [], [], 1.0)
        if rd:
            d = os.read(r, 1 << 20)
            if not d:
                break
            out.append(d)
        elif time.time() > limit and not killed:
            os.kill(pid, signal.SIGKILL)
            killed = True
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if tmproot:
        import shutil
        shutil.rmtree(os.path.join(tmproot, "w%d" % pid), ignore_errors=True)
    if out:
        try:
            return pickle.loads(b"".join(out))
        except Exception:
            pass
    return dict(key="hang" if killed else "crash",
                message="the process running this execution died (%s)"
                % status, detail=None, choices=list(executions[-1]),
                labels=[], harness=harness.name)
