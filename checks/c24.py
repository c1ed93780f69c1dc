"""C24 MPI work queue: symbolic submission / completion schedules against a
message-passing model of the communicator."""
import contextlib
import sys
import types

import numpy as np

from vf.harness import Harness
from vf.wcsstub import sub

import forcepho.dispatcher as D


class Deadlock(Exception):
    pass


class Status:
    def __init__(self):
        self.source = -1
        self.tag = -1

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


class World:
    """parent's view of n children; the schedule decides when children answer
    and in which order the library reports completions (MPI fixes neither)"""

    def __init__(self, I, n):
        self.I, self.n, self.k = I, n, 0
        self.sent = []            # (child, task, tag) in order
        self.work = {}            # child -> (task, tag) not yet collected
        self.reqs = []
        self.delivered = []

    # ---- communicator
    def Get_rank(self):
        return 0

    def Get_size(self):
        return self.n + 1

    def send(self, obj, dest, tag=0):
        I = self.I
        I.true(tag >= 0, "messages carry a valid tag")
        I.true(dest in range(1, self.n + 1), "messages go to a child")
        if obj is None:
            self.sent.append((dest, None, tag))
            return
        I.true(dest not in self.work, "a task is only sent to an idle child")
        self.sent.append((dest, obj, tag))
        self.work[dest] = (obj, tag)

    def isend(self, obj, dest, tag=0):
        self.send(obj, dest, tag)
        return Req(self, None, None)

    def irecv(self, buf=None, source=-1, tag=-1):
        r = Req(self, source, tag)
        self.reqs.append(r)
        return r

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        return Req(self, source, tag).wait(status)

    # ---- schedule
    def matches(self, r):
        c = [x for x, (t, g) in self.work.items() if (r.source in (-1, x)) and (r.tag in (-1, g))]
        return c[0] if c else None

    def take(self, r, status):
        c = [x for x, (t, g) in self.work.items() if (r.source in (-1, x)) and (r.tag in (-1, g))]
        self.k += 1
        c = c[0] if len(c) == 1 else self.I.choose("from%d" % self.k, c)
        task, tag = self.work.pop(c)
        if status is not None:
            status.source, status.tag = c, tag
        r.done = True
        self.delivered.append(task)
        return answer(task)

    def pick(self, reqs, least):
        """indices of the requests that complete now, in the order reported"""
        self.k += 1
        can = [i for i, r in enumerate(reqs) if self.matches(r) is not None]
        if least and not can:
            raise Deadlock("waiting for an answer that no child will send")
        out = []
        for i in can:
            if self.I.choose("fin%d_%d" % (self.k, i), [False, True]):
                out.append(i)
        if least and not out:
            out = [self.I.choose("one%d" % self.k, can)]
        if len(out) > 1 and self.I.choose("rev%d" % self.k, [False, True]):
            out = out[::-1]
        return out


def answer(task):
    return ("answer", task)


class Req:
    def __init__(self, w, source, tag):
        self.w, self.source, self.tag, self.done = w, source, tag, False

    def wait(self, status=None):
        if self.w.matches(self) is None:
            raise Deadlock("waiting for an answer that no child will send")
        return self.w.take(self, status)

    def test(self, status=None):
        if self.w.pick([self], 0):
            return True, self.w.take(self, status)
        return False, None


class Request:
    @staticmethod
    def _some(reqs, statuses, least):
        if not reqs:
            return None, None
        w = reqs[0].w
        idx = w.pick(reqs, least)
        res = [w.take(reqs[i], statuses[n] if statuses is not None else None) for n, i in enumerate(idx)]
        return list(idx), res

    @classmethod
    def testsome(cls, reqs, statuses=None):
        return cls._some(reqs, statuses, 0)

    @classmethod
    def waitsome(cls, reqs, statuses=None):
        return cls._some(reqs, statuses, 1)

    @classmethod
    def waitall(cls, reqs, statuses=None):
        out = []
        for n, r in enumerate(reqs):
            out.append(r.wait(statuses[n] if statuses is not None else None))
        return out

    @classmethod
    def testall(cls, reqs, statuses=None):
        raise NotImplementedError

    @classmethod
    def waitany(cls, reqs, status=None):
        w = reqs[0].w
        i = w.pick(reqs, 1)[0]
        return i, w.take(reqs[i], status)


@contextlib.contextmanager
def mpi():
    m = types.ModuleType("mpi4py.MPI")
    m.Status, m.Request, m.ANY_TAG, m.ANY_SOURCE = Status, Request, -1, -1
    pkg = types.ModuleType("mpi4py")
    pkg.MPI = m
    old = {k: sys.modules.get(k) for k in ("mpi4py", "mpi4py.MPI")}
    sys.modules.update({"mpi4py": pkg, "mpi4py.MPI": m})
    had = "MPI" in D.__dict__
    prev = D.__dict__.get("MPI")
    D.MPI = m
    try:
        yield m
    finally:
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
        if had:
            D.MPI = prev
        else:
            del D.MPI


def invariant(I, q, w):
    kids = set(range(1, w.n + 1))
    busy = [x[0] if isinstance(x, tuple) else x for x in q.busy]
    I.true(len(q.idle) == len(set(q.idle)) and len(busy) == len(set(busy)), "no child is listed twice")
    I.true(set(q.idle) | set(busy) == kids and not set(q.idle) & set(busy), "every child is either idle or busy")
    I.true(set(busy) == set(w.work), "busy children are those with a task that has not been collected")


def same_tasks(I, got, want, label):
    """multisets of task payloads (distinct symbolic values)"""
    I.true(len(got) == len(want), label)
    left = list(want)
    for g in got:
        I.true(isinstance(g, tuple) and g[0] == "answer", label)
        hit = [t for t in left if t is g[1]]
        I.true(len(hit) == 1, label)
        left = [t for t in left if t is not g[1]]


class Task:
    def __init__(self, v, name):
        self.v, self.name = v, name

    def __deepcopy__(self, memo):
        return self


def h_queue(I, n, steps, tags):
    w = World(I, n)
    with mpi():
        q = D.MPIQueue(w, n)
        invariant(I, q, w)
        if n:
            I.true(list(q.idle) == list(range(1, n + 1)), "all children start idle")
        ever, back = [], []
        for s in range(steps):
            ops = ["submit", "collect", "wait", "all"]
            op = I.choose("op%d" % s, ops)
            if op == "submit":
                t = Task(I.real("t%d" % s), s)
                idle = list(q.idle)
                nsent = len(w.sent)
                kw = {} if not tags else dict(tag=s + 5)
                try:
                    c = q.submit(t, **kw)
                except RuntimeError:
                    I.true(not idle, "submission is refused only when no child is idle")
                    I.true(len(w.sent) == nsent, "a refused task is not sent")
                else:
                    I.true(bool(idle), "a task without an idle child is refused")
                    I.true(len(w.sent) == nsent + 1 and w.sent[-1][1] is t, "the task is sent once")
                    I.true(c == w.sent[-1][0] and c == idle[0], "the task goes to the child at the top of the idle list")
                    I.true(not tags or w.sent[-1][2] == s + 5, "the task carries its tag")
                    ever.append(t)
            else:
                out = dict(w.work)
                nd = len(w.delivered)
                b = {"collect": False, "wait": True, "all": "all"}[op]
                try:
                    res = q.collect(blocking=b) if s % 2 or b is not False else q.collect()
                except RuntimeError:
                    I.true(op == "wait" and not out, "waiting is refused only without outstanding tasks")
                    res = []
                else:
                    I.true(not (op == "wait" and not out), "waiting without outstanding tasks is refused")
                    same_tasks(I, res, w.delivered[nd:], "collect returns each finished result once")
                    if op == "wait":
                        I.true(len(res) >= 1, "waiting returns at least one result")
                    if op == "all":
                        I.true(len(res) == len(out) and not w.work, "collecting all returns every outstanding result")
                back += list(res)
            invariant(I, q, w)
        # shut down: refused while work is outstanding, poisons every child once
        out = bool(w.work)
        nsent = len(w.sent)
        try:
            q.closeout()
        except RuntimeError:
            I.true(out, "closing is refused only while tasks are outstanding")
            I.true(len(w.sent) == nsent, "no child is stopped while tasks are outstanding")
            back += list(q.collect(blocking="all"))
            invariant(I, q, w)
            q.closeout()
        else:
            I.true(not out, "closing with outstanding tasks is refused")
        I.true(sorted(x[0] for x in w.sent[nsent:]) == list(range(1, n + 1)) and all(x[1] is None for x in w.sent[nsent:]),
               "every child is told to stop once")
        same_tasks(I, back, ever, "every submitted task is returned exactly once")
        x = I.real("probe")
        I.eq(x, x, "reached")


FN = ("MPIQueue.__init__", "MPIQueue.submit", "MPIQueue.collect", "MPIQueue.closeout")


def harnesses(tier):
    th = tier == "thorough"
    cs = [dict(n=1, steps=4, tags=False), dict(n=2, steps=4, tags=True), dict(n=2, steps=5, tags=True), dict(n=3, steps=4, tags=True)]
    cs += [dict(n=2, steps=4, tags=False), dict(n=12, steps=3, tags=True)]
    if th:
        cs += [dict(n=2, steps=6, tags=True), dict(n=3, steps=5, tags=True), dict(n=3, steps=6, tags=False)]
    return [Harness("queue", h_queue, cs, functions=FN, max_paths=40000 if th else 12000, time_budget=1500 if th else 250, validate=2,
                    bounds="1-3 (12 for 3 operations) children, 4-5 operations (6 thorough): every sequence of submissions and collections, every completion schedule and reporting order")]


ASSUMPTIONS = ["MPI modelled as reliable per-pair messages; completion times and reporting order are free; statuses are reported in the order of the completed requests (as mpi4py does)"]
