"""Two calls of the analysed program at the same time: one is stopped at a statement, the other runs, the first goes on."""
from __future__ import annotations

import sys
import threading

from .engine import Limit, PyExc
from .values import Ctl, Undecided


class Waits(BaseException):
    """A thread waits for a lock that nobody will give back."""


class Pair:
    """first(): runs in the calling host thread; other(): started at the watched statement. Interpreter state belongs to the running one."""

    def __init__(self, P, other):
        self.P, self.I = P, P.I
        self.other = other
        self.watch = None  # (file, line), or None: any statement
        self.nth = 1  # at which of them
        self.fired = False
        self.result = None
        self.turn = None
        self.waiting = False
        self.dead = False

    # ------------------------------------------------------- switching
    def state(self):
        I = self.I
        return I.depth, I.steps, I.fs, I.max_depth, I.rec_exc, Ctl.oracle, I.max_steps, I.thread, I.ids

    def restore(self, s):
        I = self.I
        I.depth, I.steps, I.fs, I.max_depth, I.rec_exc, Ctl.oracle, I.max_steps, I.thread, I.ids = s

    def swap_locals(self):
        I = self.I
        for e in I.locals:
            o, a, k, d = e
            new = d is None
            e[3], o.d = o.d, {} if new else d
            if new and o.cls.find("__init__") is not None:
                I.call(o.cls.find("__init__"), [o] + list(a), dict(k))

    def over(self, fr, key):
        """Called for every statement while a stop is wanted."""
        if self.I.steps > self.limit:
            raise Limit("step limit")
        if self.fired or self.watch is not None and key != self.watch:
            return
        self.nth -= 1
        if self.nth > 0:
            return
        self.fired = True
        mine = self.state()
        I = self.I
        I.depth, I.steps, I.max_steps, I.thread = 0, 0, self.limit, 1
        self.swap_locals()
        self.main = threading.Event()
        self.go = threading.Event()

        def body():
            try:
                self.result = ("v", self.other())
            except BaseException as e:
                self.result = ("e", e)
            self.done = True
            self.main.set()

        self.done = False
        t = self.t = threading.Thread(target=body)
        t.start()
        self.main.wait()
        self.theirs = self.state()
        self.restore(mine)
        self.swap_locals()
        I.max_steps = self.limit

    def wait_for_lock(self):
        """The running thread needs a lock the other one has."""
        if self.I.thread == 0 or self.dead:
            raise Waits()
        self.main.clear()
        self.main.set()
        self.go.wait()
        if self.dead:
            raise Waits()

    def finish(self):
        """The first one is through: the other one goes on."""
        if self.fired and not self.done:
            mine = self.state()
            self.restore(self.theirs)
            self.swap_locals()
            self.main.clear()
            self.go.set()
            self.main.wait()
            self.restore(mine)
            self.swap_locals()
        if self.fired:
            self.t.join()


class Count:
    """Statements of a call, and at which of them it writes what is shared."""

    def __init__(self, P, E):
        self.I, self.E = P.I, E
        self.n = 0
        self.at = []  # (number of the statement, location, (file, line))
        self.key = None

    def over(self, fr, key):
        if self.I.steps > self.limit:
            raise Limit("step limit")
        self.n += 1
        self.key = key

    def hook(self, kind, o, k):
        E = self.E
        if o is not None:
            e = E.shared.get(id(o))
            if e is None or e[0] is not o:
                return
            self.at.append((self.n, (e[1], str(k)), self.key))

    def run(self, call):
        I = self.I
        self.limit = I.max_steps
        I.pair, I.max_steps, I.writes = self, -1, self.hook
        try:
            call()
        finally:
            I.pair, I.max_steps, I.writes = None, self.limit, None
        return self.at


def run_pair(P, first, other, watch, nth=1):
    """-> (result of first, ("v"|"e", result of other) or None when the statement was not reached)"""
    I = P.I
    p = Pair(P, other)
    p.watch, p.nth = watch, nth
    p.limit = I.max_steps
    I.pair = p
    I.max_steps = -1
    try:
        r = first()
        p.finish()
    finally:
        I.pair = None
        I.max_steps = p.limit
        I.thread = 0
        if p.fired and not p.done:
            p.dead = True
            p.go.set()
    return r, p.result if p.fired else None
