"""Guarded execution of the code under test (runs in worker processes)."""
import resource
import signal
import sys
import threading
import time


class Hang(BaseException):
    """The code under test did not come back in time."""


LIMIT = 8.0      # seconds, if it was busy
PATIENCE = 40.0  # seconds, if the machine is slow or it waits
START = [0.0, 0.0]
HANGS = [0]      # number of calls that did not come back
DEPTH = [0]      # calls within calls


def _alarm(signum, frame):
    busy, all = time.process_time() - START[0], time.monotonic() - START[1]
    if busy < LIMIT / 2 and all < PATIENCE:
        signal.setitimer(signal.ITIMER_REAL, 1.0)
        return
    raise Hang()


def setup(mem=6 << 30):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(1500)
    signal.signal(signal.SIGALRM, _alarm)


def call(fn, *args, **kw):
    """-> ('ok', result) or ('err', exception)"""
    main = threading.current_thread() is threading.main_thread()
    if main:
        DEPTH[0] += 1
        START[:] = [time.process_time(), time.monotonic()]
        signal.setitimer(signal.ITIMER_REAL, LIMIT)
    try:
        return 'ok', fn(*args, **kw)
    except Hang as e:
        HANGS[0] += 1
        return 'err', e
    except Exception as e:
        return 'err', e
    finally:
        if main:
            DEPTH[0] -= 1
            signal.setitimer(signal.ITIMER_REAL, LIMIT if DEPTH[0] else 0)


def errname(e):
    for cls, name in ((Hang, 'HANG'), (KeyError, 'KeyError'),
                      (ValueError, 'ValueError'),
                      (AttributeError, 'AttributeError'),
                      (NotImplementedError, 'NotImplementedError'),
                      (RecursionError, 'RecursionError'),
                      (RuntimeError, 'RuntimeError'),
                      (TypeError, 'TypeError')):
        if isinstance(e, cls):
            return name
    return type(e).__name__
