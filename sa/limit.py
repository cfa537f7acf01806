"""Time and memory limits of the analysis: what exceeds them is undecided, never a verdict."""
import contextlib
import resource
import signal
import time


class Slow(Exception):
    """one scenario took too long"""


class Over(BaseException):
    """the whole analysis of one subject took too long"""


END = None           # when the whole check has to be finished
SOFT = None          # after this, no further histories are compared in this subject


def budget(seconds):
    """of one subject, within what is left of the check"""
    global SOFT
    b = seconds if END is None else max(5, min(seconds, END - time.time()))
    SOFT = time.time() + 0.6 * b
    return b


def late():
    return SOFT is not None and time.time() > SOFT


_stack = []          # (clock, absolute end on it, exception class); one scenario is limited in processor time


def _arm():
    if _stack:
        if signal.getitimer(signal.ITIMER_REAL)[0] == 0:
            signal.setitimer(signal.ITIMER_REAL, 0.2, 0.2)
    else:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _fire(sig, frame):
    for clock, e, cls in _stack:           # outermost first
        if e <= clock():
            raise cls("time limit")


@contextlib.contextmanager
def limit(seconds, cls=Slow):
    try:
        signal.signal(signal.SIGALRM, _fire)
    except ValueError:              # not the main thread
        yield
        return
    clock = time.process_time if cls is Slow else time.time
    _stack.append((clock, clock() + seconds, cls))
    _arm()
    try:
        yield
    finally:
        _stack.pop()
        _arm()


def memory(gb):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (int(gb * 2 ** 30), resource.getrlimit(resource.RLIMIT_AS)[1]))
    except (ValueError, OSError):
        pass
