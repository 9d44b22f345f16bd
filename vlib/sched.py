"""A cooperative scheduler in place of processes and queues

Code written against multiprocessing.Process and Queue runs under it in
one process: every actor (the caller, each started process) is a thread
of which exactly one runs at a time; which one goes on is a choice of
the explorer at every operation on a queue or a process.

What is modelled of the real primitives:
 - put() hands the object to a feeder, which pickles it and writes it to
   the pipe some time later; objects of one process arrive in order,
   those of different processes in any order
 - get() blocks until something arrived, and gives an unpickled copy
 - a started process has a copy of its arguments as they were at start()
   (queues are shared), and is over when its function returns or raises
   and its feeders are done
 - join() blocks until the process is over
Not modelled: pipes of limited size, killed processes.
"""

import copy
import pickle
import sys
import threading


class Stop(BaseException):
    """unwinds the actors of an abandoned execution"""


class Deadlock(Exception):
    pass


class Actor(object):
    def __init__(self, sched, name, fun):
        self.sched, self.name, self.fun = sched, name, fun
        self.go = threading.Semaphore(0)
        self.wait = None            # condition it waits for
        self.done = False
        self.error = None
        self.feeds = {}             # queue -> objects not yet in the pipe
        self.thread = threading.Thread(target=self.main)
        self.thread.daemon = True

    def main(self):
        self.go.acquire()
        try:
            if self.sched.stopping:
                raise Stop()
            self.result = self.fun()
        except Stop:
            pass
        except BaseException:
            self.error = sys.exc_info()
        self.done = True
        self.sched.back.release()

    def enabled(self):
        return not self.done and (self.wait is None or self.wait())

    def over(self):
        return self.done and not any(self.feeds.values())


class Scheduler(object):
    def __init__(self, ctx, delays=True, maxsteps=3000):
        self.ctx = ctx
        self.delays = delays
        self.back = threading.Semaphore(0)
        self.actors = []
        self.current = None
        self.stopping = False
        self.maxsteps = maxsteps
        self.trace = []
        self.choices = 0

    # -- called by actors

    def point(self, wait=None, free=False):
        """let others run; go on once wait() holds"""
        a = self.current
        if self.stopping:
            raise Stop()
        a.wait = wait
        a.ask = None
        self.back.release()
        a.go.acquire()
        if self.stopping:
            raise Stop()
        a.wait = None

    def decide(self, name, options):
        """a choice of the environment, made by the controlling thread"""
        a = self.current
        a.ask = (name, options)
        a.wait = None
        self.back.release()
        a.go.acquire()
        if self.stopping:
            raise Stop()
        return a.answer

    def spawn(self, name, fun):
        a = Actor(self, name, fun)
        self.actors.append(a)
        a.thread.start()
        return a

    # -- the controlling thread

    def run(self, fun):
        """the result of fun, run as the first actor, once every actor
        is over"""
        main = self.spawn("parent", fun)
        try:
            self.loop(main)
        except BaseException:
            self.stop()
            raise
        if main.error:
            raise main.error[1].with_traceback(main.error[2])
        for a in self.actors:
            if a.error:
                raise a.error[1].with_traceback(a.error[2])
        return main.result

    def moves(self):
        out = []
        for a in self.actors:
            if a.enabled():
                out.append(("run", a))
            for q, f in a.feeds.items():
                if f:
                    out.append(("feed", a, q))
        return out

    def loop(self, main):
        last = None
        steps = 0
        while True:
            moves = self.moves()
            if not moves:
                stuck = [a.name for a in self.actors if not a.done]
                if stuck:
                    raise Deadlock("%s wait(s) forever after %s" % (
                        ", ".join(stuck), " ".join(self.trace[-30:])))
                return
            steps += 1
            if steps > self.maxsteps:
                raise Deadlock("no end after %d steps" % steps)
            # the actor that ran last goes on unless another is chosen
            keep = [m for m in moves if m[0] == "run" and m[1] is last]
            rest = [m for m in moves if m not in keep]
            order = keep + rest
            if len(order) == 1:
                m = order[0]
            else:
                m = self.ctx.choose("next", order, dev=bool(keep),
                                    label=self.label)
            self.trace.append(self.label(m))
            self.ctx.step()
            if m[0] == "feed":
                self.feed(m[1], m[2])
                continue
            last = m[1]
            self.resume(last)

    def resume(self, a):
        while True:
            self.current = a
            a.ask = None
            a.go.release()
            self.back.acquire()
            if a.done or a.ask is None:
                return
            name, options = a.ask
            a.answer = self.ctx.choose(name, options, dev=True)

    @staticmethod
    def label(m):
        if m[0] == "feed":
            return "%s>%s" % (m[1].name, m[2].name)
        return m[1].name

    def feed(self, a, q):
        obj = a.feeds[q].pop(0)
        q.pipe.append(pickle.dumps(obj))

    def stop(self):
        self.stopping = True
        for a in self.actors:
            a.go.release()
        for a in self.actors:
            a.thread.join(5)

    # -- the primitives

    def primitives(sched):
        class Queue(object):
            count = 0

            def __init__(self, maxsize=0, **kw):
                self.pipe = []
                self.name = "q%d" % Queue.count
                Queue.count += 1

            def __deepcopy__(self, memo):
                return self

            def put(self, obj, block=True, timeout=None):
                a = sched.current
                sched.point()
                feed = a.feeds.setdefault(self, [])
                if feed or sched.delays and \
                        sched.decide("feed %s" % self.name,
                                     ["now", "later"]) == "later":
                    feed.append(obj)
                else:
                    self.pipe.append(pickle.dumps(obj))

            def put_nowait(self, obj):
                self.put(obj)

            def get(self, block=True, timeout=None):
                if block and timeout is None:
                    sched.point(lambda: bool(self.pipe))
                else:
                    sched.point()
                    if not self.pipe:
                        from queue import Empty
                        raise Empty()
                return pickle.loads(self.pipe.pop(0))

            def get_nowait(self):
                return self.get(False)

            def empty(self):
                sched.point()
                return not self.pipe

            def qsize(self):
                return len(self.pipe)

            def close(self):
                pass

            def join_thread(self):
                a = sched.current
                sched.point(lambda: not a.feeds.get(self))

            def cancel_join_thread(self):
                pass

        class Process(object):
            count = 0

            def __init__(self, group=None, target=None, name=None, args=(),
                         kwargs={}, daemon=None):
                Process.count += 1
                self.name = name or "w%d" % Process.count
                self.target, self.args, self.kwargs = target, args, kwargs
                self.daemon = daemon
                self.actor = None

            def start(self):
                memo = {}
                args = copy.deepcopy((self.args, dict(self.kwargs)), memo)
                self.actor = sched.spawn(
                    self.name, lambda: self.target(*args[0], **args[1]))
                sched.point()

            def join(self, timeout=None):
                sched.point(self.actor.over)

            def is_alive(self):
                return self.actor is not None and not self.actor.over()

            @property
            def exitcode(self):
                if self.actor is None or not self.actor.over():
                    return None
                return 1 if self.actor.error else 0

            @property
            def pid(self):
                return self.actor and id(self.actor)

        return Process, Queue
