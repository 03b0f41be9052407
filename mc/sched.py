"""Controlled scheduler: real Python threads, of which exactly one runs at any moment.

threading's low-level primitives (thread start, locks, thread-end sentinel) are replaced while an execution runs, so that
Thread, Event, Condition, Semaphore, Queue ... used by the code under test all become cooperative.  A scheduling point
stands before every executed source line (or bytecode) of the library and wherever the harness calls point().
"""
import _thread
import queue
import sys
import threading
import time

from mc.core import REPO, Mismatch

REAL_START, REAL_LOCK = _thread.start_new_thread, _thread.allocate_lock
SCHED = None


class Abort(BaseException):
    pass


class Divergence(Exception):
    """A recorded schedule cannot be replayed: an error of the checker, never a violation."""


class Actor:
    def __init__(self, n):
        self.n, self.sem, self.pred, self.timed, self.fired, self.done = n, REAL_LOCK(), None, False, False, False
        self.sem.acquire()
        self.sentinels = []

    def enabled(self):
        return not self.done and (self.pred is None or self.fired or self.pred())


class CoopLock:
    """threading.Lock under the scheduler."""

    def __init__(self):
        self._held = False

    def acquire(self, blocking=True, timeout=-1):
        s = SCHED
        if s is None or s.aborting or s.me() is None:
            if self._held and not blocking:
                return False
            self._held = True
            return True
        while self._held:
            if not blocking:
                return False
            if not s.block(lambda: not self._held, timeout is not None and timeout >= 0):
                return False
        self._held = True
        return True

    def release(self):
        if not self._held and SCHED is not None and not SCHED.aborting:
            raise RuntimeError("release unlocked lock")
        self._held = False

    def locked(self):
        return self._held

    def _at_fork_reinit(self):
        self._held = False

    acquire_lock, release_lock, locked_lock = acquire, release, locked

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class Scheduler:
    MAX_POINTS = 60000

    def __init__(self, prefix, opcodes=()):
        self.prefix, self.opcodes = prefix, opcodes
        self.actors, self.by_ident = [], {}
        self.trace, self.choices = [], []  # (number of enabled actors, running one still enabled), choice
        self.aborting, self.verdict = False, None
        self.points = 0
        self.timeouts = []
        self.back = REAL_LOCK()
        self.back.acquire()
        self.errors = []
        self.diverged = False

    def me(self):
        return self.by_ident.get(_thread.get_ident())

    # ---- choices
    def choose(self, n, running):
        k = len(self.choices)
        c = self.prefix[k] if k < len(self.prefix) else 0
        if c >= n:
            self.diverged = True
            raise Divergence(f"choice {c} of {n} at point {k}")
        self.trace.append((n, running))
        self.choices.append(c)
        return c

    def point(self):
        me = self.me()
        if me is None:
            return
        if self.aborting:
            raise Abort
        self.points += 1
        if self.points > self.MAX_POINTS:
            self.abort("no end after %d steps" % self.MAX_POINTS)
        others = [a for a in self.actors if a is not me and a.enabled()]
        if others:
            c = self.choose(len(others) + 1, True)
            if c:
                self.switch(me, others[c - 1])

    def block(self, pred, timed=False):
        """Wait until pred() holds. False if the wait timed out (only when nothing else can run)."""
        me = self.me()
        if self.aborting:
            raise Abort
        me.pred, me.timed, me.fired = pred, timed, False
        self.leave(me)
        ok = not me.fired
        me.pred, me.timed, me.fired = None, False, False
        return ok

    def leave(self, me):
        enabled = [a for a in self.actors if a.enabled()]
        if not enabled:
            waiting = [a for a in self.actors if not a.done and a.timed]
            if not waiting:
                if all(a.done for a in self.actors):
                    return
                self.abort("deadlock: " + ", ".join(f"actor {a.n} waits" for a in self.actors if not a.done))
                return
            waiting[0].fired = True
            self.timeouts.append(waiting[0].n)
            enabled = waiting[:1]
        c = self.choose(len(enabled), False) if len(enabled) > 1 else 0
        if enabled[c] is not me:
            self.switch(me, enabled[c])

    def switch(self, me, target):
        target.sem.release()
        if me.done:
            return
        me.sem.acquire()
        if self.aborting:
            raise Abort

    def abort(self, why):
        self.verdict = self.verdict or why
        self.aborting = True
        me = self.me()
        if me is not self.actors[0]:
            self.actors[0].sem.release()
            if not me.done:
                me.sem.acquire()
            else:
                return
        raise Abort

    # ---- actors
    def start_new_thread(self, fn, args, kwargs=None):
        if self.me() is None:
            return REAL_START(fn, args, kwargs or {})
        if self.aborting:
            raise Abort
        actor = Actor(len(self.actors))
        self.actors.append(actor)

        def body():
            actor.sem.acquire()
            self.by_ident[_thread.get_ident()] = actor
            try:
                if not self.aborting:
                    fn(*args, **(kwargs or {}))
            except BaseException:
                pass
            finally:
                sys.settrace(None)
                for lock in actor.sentinels:
                    lock._held = False
                actor.done = True
                try:
                    if self.aborting:
                        self.back.release()
                    else:
                        self.leave(actor)
                except Abort:
                    pass
                finally:
                    self.by_ident.pop(_thread.get_ident(), None)

        return REAL_START(body, ())

    def set_sentinel(self):
        me = self.me()
        if me is None:
            return _thread._set_sentinel()
        lock = CoopLock()
        me.sentinels.append(lock)
        return lock

    # ---- tracing
    def tracer(self, frame, event, arg):
        name = frame.f_code.co_filename
        if not name.startswith(REPO + "/estrade"):
            return None
        if name.endswith(self.opcodes or ("\0",)):
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self.local

    def local(self, frame, event, arg):
        if event in ("line", "opcode"):
            self.point()
        return self.local

    # ---- one execution
    def run(self, script):
        """Run script() as actor 0 in the calling thread, then every other actor to its end."""
        global SCHED
        root = Actor(0)
        self.actors.append(root)
        self.by_ident[_thread.get_ident()] = root
        saved = {n: getattr(threading, n) for n in ("Lock", "RLock", "_allocate_lock", "_CRLock", "_start_new_thread", "_set_sentinel", "excepthook")}
        simple, sleep, limbo = queue.SimpleQueue, time.sleep, dict(threading._limbo)
        threading.Lock = threading._allocate_lock = CoopLock
        threading._CRLock, threading.RLock = None, threading._PyRLock
        threading._start_new_thread, threading._set_sentinel = self.start_new_thread, self.set_sentinel
        threading.excepthook = lambda *a: None
        queue.SimpleQueue = queue._PySimpleQueue
        time.sleep = lambda s: self.point()
        SCHED = self
        error = None
        try:
            threading.settrace(self.tracer)
            sys.settrace(self.tracer)
            try:
                script()
                sys.settrace(None)
                self.block(lambda: all(a.done for a in self.actors[1:]))
            except Abort:
                pass
            finally:
                sys.settrace(None)
        except BaseException as e:
            error = e
            self.aborting = True
        finally:
            self.aborting = True
            for a in self.actors[1:]:
                if not a.done:
                    a.sem.release()
                    if not self.back.acquire(timeout=5):
                        break
            threading.settrace(None)
            for n, v in saved.items():
                setattr(threading, n, v)
            queue.SimpleQueue, time.sleep = simple, sleep
            SCHED = None
            for t in list(threading._limbo):
                if t not in limbo:
                    threading._limbo.pop(t, None)
        if self.diverged:
            raise Divergence("the recorded schedule does not fit the execution")
        if error is not None:
            raise error

    def spawn(self, fn):
        threading.Thread(target=fn).start()


def cost(trace, choices, metric):
    """Preemptions (or, metric 'delay', departures from the default choice) in each prefix."""
    out, n = [], 0
    for (k, running), c in zip(trace, choices):
        out.append(n)
        if c and (running or metric == "delay"):
            n += 1
    return out


def children(prefix, trace, choices, bound, metric):
    before = cost(trace, choices, metric)
    for i in range(len(prefix), len(trace)):
        n, running = trace[i]
        extra = 1 if (running or metric == "delay") else 0
        if before[i] + extra > bound:
            continue
        for alt in range(1, n):
            yield choices[:i] + [alt]
