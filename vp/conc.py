"""Threads under a symbolic schedule.

Each "thread" is a real Python thread running the real code; exactly one runs at
a time.  Before every bytecode of the code under test that can touch shared
state, a symbolic boolean decides whether the thread is preempted there, and at
every block or end a symbolic choice decides who goes on.  The solver explores
all schedules within the bound on preemptions.  Granularity: one bytecode, as in
CPython with the GIL.  Locks made by the code under test are replaced by model
locks that block in the scheduler.
"""

from __future__ import annotations

import _thread
import dis
import gc
import os
import sys
import threading
import types

from .engine import Control

REPO = os.environ.get("VP_REPO", "/repo")
PREFIX = os.path.abspath(REPO) + "/expression/"

# bytecodes which cannot touch anything another thread can see
LOCAL = {
    "NOP", "RESUME", "CACHE", "POP_TOP", "PUSH_NULL", "COPY", "SWAP", "EXTENDED_ARG", "LOAD_FAST", "STORE_FAST",
    "LOAD_FAST_CHECK", "LOAD_FAST_AND_CLEAR", "DELETE_FAST", "LOAD_CONST", "RETURN_CONST", "RETURN_VALUE",
    "POP_JUMP_IF_TRUE", "POP_JUMP_IF_FALSE", "POP_JUMP_IF_NONE", "POP_JUMP_IF_NOT_NONE", "JUMP_FORWARD",
    "JUMP_BACKWARD", "JUMP_BACKWARD_NO_INTERRUPT", "IS_OP", "UNARY_NOT", "BUILD_TUPLE", "BUILD_LIST", "BUILD_MAP",
    "MAKE_FUNCTION", "COPY_FREE_VARS", "MAKE_CELL", "LOAD_CLOSURE", "KW_NAMES", "LOAD_GLOBAL", "LOAD_BUILD_CLASS",
    "PUSH_EXC_INFO", "CHECK_EXC_MATCH", "POP_EXCEPT", "RERAISE", "RETURN_GENERATOR", "END_FOR", "END_SEND",
    "LOAD_ASSERTION_ERROR", "RAISE_VARARGS", "CALL_INTRINSIC_1", "FORMAT_VALUE", "BUILD_STRING", "GET_ITER",
}


class Killed(BaseException):
    """Ends a thread whose path was given up."""


class Deadlock(Exception):
    pass


_SCHED: "Scheduler | None" = None


class ModelLock:
    """Lock or RLock of the code under test."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        s = _SCHED
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking or timeout >= 0:
                return False
            if s is None or me not in s.by_ident:
                raise Deadlock("a lock is never released")
            s.block(lambda: self.owner is None)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner != _thread.get_ident() and self.reentrant:
            raise RuntimeError("cannot release un-acquired lock")
        if self.count == 0:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def wait_for(ready):
    """In a thread: wait until ready(); if nobody else can go on, that is a deadlock."""
    while not ready():
        s = _SCHED
        if s is None or _thread.get_ident() not in s.by_ident:
            raise Deadlock("waits for ever")
        s.block(ready)


class Patched:
    """Replaces lock constructors seen by the code under test."""

    def __enter__(self):
        self.saved = []
        table = {id(threading.Lock): lambda *a, **k: ModelLock(False),
                 id(threading.RLock): lambda *a, **k: ModelLock(True),
                 id(_thread.allocate_lock): lambda *a, **k: ModelLock(False)}
        for name, mod in list(sys.modules.items()):
            if name == "expression" or name.startswith("expression."):
                for k, v in list(vars(mod).items()):
                    if id(v) in table:
                        self.saved.append((mod, k, v))
                        setattr(mod, k, table[id(v)])
        for k in ("Lock", "RLock"):
            v = getattr(threading, k)
            self.saved.append((threading, k, v))
            setattr(threading, k, table[id(v)])
        return self

    def __exit__(self, *a):
        for mod, k, v in self.saved:
            setattr(mod, k, v)


_RealThread = threading.Thread
_alloc = _thread.allocate_lock


class Worker:
    def __init__(self, sched, i, fn):
        self.sched = sched
        self.i = i
        self.fn = fn
        self.gate = _alloc()
        self.gate.acquire()
        self.done = False
        self.waiting = None
        self.error = None
        self.started = False
        self.ident = None


_VISIBLE: dict = {}
_TOOL = 3
_MODULES = 0


def instrument():
    """Ask for an event before each bytecode of every function of the code under test."""
    global _MODULES
    if _MODULES == len(sys.modules):
        return
    _MODULES = len(sys.modules)
    mon = sys.monitoring
    if mon.get_tool(_TOOL) is None:
        mon.use_tool_id(_TOOL, "vp-schedule")
        mon.register_callback(_TOOL, mon.events.INSTRUCTION, on_instruction)
    todo = [f.__code__ for f in gc.get_objects()
            if type(f) is types.FunctionType and f.__code__.co_filename.startswith(PREFIX)]
    while todo:
        code = todo.pop()
        if code in _VISIBLE:
            continue
        _VISIBLE[code] = {i.offset for i in dis.get_instructions(code) if i.opname not in LOCAL}
        mon.set_local_events(_TOOL, code, mon.events.INSTRUCTION)
        todo += [c for c in code.co_consts if type(c) is types.CodeType]


def on_instruction(code, offset):
    s = _SCHED
    if s is not None and offset in _VISIBLE[code]:
        w = s.by_ident.get(_thread.get_ident())
        if w is not None and w.started:
            s.point(w)


class Scheduler:
    def __init__(self, ctx, preemptions):
        self.ctx = ctx
        self.left = preemptions
        self.workers: list[Worker] = []
        self.by_ident = {}
        self.main = _alloc()
        self.main.acquire()
        self.killed = False
        self.deadlock = False
        self.switches = 0

    # -- called in a worker
    def point(self, w):
        """A place where another thread may run."""
        if self.killed:
            raise Killed()
        if self.left <= 0:
            return
        others = [x for x in self.workers if x is not w and self.runnable(x)]
        if not others:
            return
        if bool(self.ctx.bool("preempt")):
            self.left -= 1
            self.hand_over(w, self.pick(others))

    def pick(self, others):
        if len(others) == 1:
            return others[0]
        return others[self.ctx.size("next", 0, len(others) - 1)]

    def runnable(self, x):
        return not x.done and (x.waiting is None or x.waiting())

    def hand_over(self, w, other):
        self.switches += 1
        other.gate.release()
        w.gate.acquire()
        if self.killed:
            raise Killed()

    def block(self, ready):
        w = self.by_ident[_thread.get_ident()]
        w.waiting = ready
        others = [x for x in self.workers if x is not w and self.runnable(x)]
        if not others:
            self.deadlock = True
            raise Killed()
        self.hand_over(w, self.pick(others))
        w.waiting = None

    def body(self, w):
        w.gate.acquire()
        w.ident = _thread.get_ident()
        self.by_ident[w.ident] = w
        try:
            if not self.killed:
                w.started = True
                try:
                    w.fn()
                finally:
                    w.started = False
        except Killed:
            pass
        except (Control, Exception) as e:  # noqa: BLE001
            w.error = e
        w.done = True
        if self.killed:
            self.wake_main()
            return
        try:
            others = [x for x in self.workers if self.runnable(x)]
            if w.error is None and not self.deadlock and others:
                self.pick(others).gate.release()
                return
            if w.error is None and not self.deadlock and not all(x.done for x in self.workers):
                self.deadlock = True
        except (Control, Exception) as e:  # noqa: BLE001
            w.error = e
        self.wake_main()

    def wake_main(self):
        try:
            self.main.release()
        except RuntimeError:
            pass

    # -- called in the main thread
    def run(self, fns):
        global _SCHED
        instrument()
        self.workers = [Worker(self, i, f) for i, f in enumerate(fns)]
        _SCHED = self
        threads = []
        try:
            for w in self.workers:
                threads.append(_thread.start_new_thread(self.body, (w,)))
            self.pick(self.workers).gate.release()
            self.main.acquire()
        except BaseException:
            self.kill()
            raise
        finally:
            _SCHED = None
        err = next((w.error for w in self.workers if w.error is not None), None)
        if not all(w.done for w in self.workers):
            self.kill()
        if err is not None:
            raise err
        if self.deadlock:
            raise Deadlock("deadlock")

    def kill(self):
        self.killed = True
        for w in self.workers:
            if not w.done:
                # each releases main when it is done; a thread that is running notices at its next point
                try:
                    w.gate.release()
                except RuntimeError:
                    pass
        for w in self.workers:
            n = 0
            while not w.done and n < 200:
                self.main.acquire(timeout=0.01)
                n += 1


def threads(ctx, preemptions, *fns):
    """Run the functions as threads, under a symbolic schedule; their exceptions propagate."""
    s = Scheduler(ctx, preemptions)
    s.run(list(fns))
    return s
