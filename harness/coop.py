"""Cooperative threads: one runs at a time, switches happen where a schedule
says so.  Replaces the locks of the threading module; to be imported before
the code under test.
"""
import _thread
import gc
import os
import random
import sys
import threading
import types

from harness.core import REPO

SRC = os.path.join(os.path.realpath(REPO), 'src', 'node') + os.sep
REAL = threading.RLock
CURRENT = {}            # thread ident -> controlled thread
SCHED = [None]


class Killed(BaseException):
    pass


class Stuck(Exception):
    """A thread did not come back to the scheduler."""


def current():
    return CURRENT[_thread.get_ident()]


class Gate(object):
    def __init__(self):
        self.l = _thread.allocate_lock()
        self.l.acquire()

    def open(self):
        self.l.release()

    def wait(self, timeout=-1):
        return self.l.acquire(True, timeout)


class Lock(object):
    """A lock, reentrant or not."""
    reentrant = False

    def __init__(self, *args, **kw):
        self.owner, self.count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        th = CURRENT.get(me)
        if th is not None:
            th.point()
        while True:
            if self.owner is None or (self.reentrant and self.owner == me):
                self.owner, self.count = me, self.count + 1
                return True
            if not blocking:
                return False
            if th is None:
                raise RuntimeError('lock is held by a controlled thread')
            if th.block(self, timeout >= 0) == 'timeout':
                return False

    __enter__ = acquire

    def release(self):
        me = _thread.get_ident()
        if self.count == 0 or (self.reentrant and self.owner != me):
            raise RuntimeError('cannot release un-acquired lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None
            if SCHED[0] is not None:
                SCHED[0].released(self)
        th = CURRENT.get(me)
        if th is not None:
            th.point()

    def __exit__(self, *args):
        self.release()

    def locked(self):
        return self.count > 0

    def _is_owned(self):
        return self.owner == _thread.get_ident()

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0


class RLock(Lock):
    reentrant = True


def install():
    threading.RLock = RLock
    threading.Lock = Lock


def instrument():
    """Every instruction of the code under test may switch the thread.

    Done with sys.monitoring: opcode events of sys.settrace crash python 3.12.3.
    """
    mon = sys.monitoring
    tool = mon.PROFILER_ID
    mon.use_tool_id(tool, 'coop')
    ident = _thread.get_ident

    def instruction(code, offset):
        th = CURRENT.get(ident())
        if th is not None:
            th.point()
    mon.register_callback(tool, mon.events.INSTRUCTION, instruction)
    done = set()

    def add(code):
        if id(code) in done or not os.path.realpath(code.co_filename).startswith(SRC):
            return
        done.add(id(code))
        mon.set_local_events(tool, code, mon.events.INSTRUCTION)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                add(c)
    for f in gc.get_objects():
        if isinstance(f, types.FunctionType):
            add(f.__code__)
    return len(done)


class Controlled(object):
    """A thread under the control of the scheduler."""

    def __init__(self, sched, name, fn):
        self.sched, self.name, self.fn = sched, name, fn
        self.gate = Gate()
        self.state = 'idle'         # idle ready blocked done
        self.on, self.timed, self.woken = None, False, None
        self.killed = False
        self.cmd = None
        self.error = None
        _thread.start_new_thread(self.main, ())

    def main(self):
        self.gate.wait()
        CURRENT[_thread.get_ident()] = self
        try:
            if not self.killed:
                self.fn(self)
        except Killed:
            pass
        except BaseException as e:
            self.error = e
        finally:
            CURRENT.pop(_thread.get_ident(), None)
            self.state = 'done'
            self.sched.gate.open()

    def give(self, state):
        self.state = state
        self.sched.gate.open()
        self.gate.wait()
        if self.killed:
            raise Killed()

    def point(self):
        """A possible switch."""
        if self.killed:
            raise Killed()
        s = self.sched
        s.steps += 1
        if s.steps in s.preempt:
            self.give('ready')

    def block(self, lock, timed):
        self.on, self.timed, self.woken = lock, timed, None
        self.give('blocked')
        self.on = None
        return self.woken

    def next(self):
        """The next command."""
        self.give('idle')
        return self.cmd


class Scheduler(object):
    def __init__(self):
        self.gate = Gate()
        self.threads = {}
        self.steps, self.preempt = 0, ()
        self.total = 0
        SCHED[0] = self

    def spawn(self, name, fn):
        self.threads[name] = t = Controlled(self, name, fn)
        self.resume(t)              # up to its first command
        return t

    def resume(self, t):
        t.state = 'running'
        t.gate.open()
        if not self.gate.wait(10):
            raise Stuck(t.name)

    def released(self, lock):
        for t in self.threads.values():
            if t.state == 'blocked' and t.on is lock:
                t.state = 'ready'

    def run(self, cmds, schedule):
        """cmds: {thread name: command}.  schedule: [order seed, switch points]

        Runs until every thread waits for a command or for a lock.
        """
        rnd = random.Random(schedule[0])
        self.steps, self.preempt = 0, frozenset(schedule[1])
        for name, c in cmds.items():
            self.threads[name].cmd = c
            self.threads[name].state = 'ready'
        last = None
        while True:
            ready = [t for t in self.threads.values() if t.state == 'ready']
            if not ready:
                timed = [t for t in self.threads.values() if t.state == 'blocked' and t.timed]
                if not timed:
                    break
                t = rnd.choice(timed)
                t.woken = 'timeout'
                ready = [t]
            others = [t for t in ready if t is not last] or ready
            last = others[rnd.randrange(len(others))]
            self.resume(last)
        self.total += self.steps

    def kill(self):
        for t in self.threads.values():
            if t.state != 'done':
                t.killed = True
                t.gate.open()
                self.gate.wait(5)
        SCHED[0] = None
