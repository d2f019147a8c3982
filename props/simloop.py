"""A single-threaded stand-in for the tornado IOLoop with a symbolic clock.

Semantics modelled (tornado 4.x): callbacks run in FIFO order; in each
iteration the callbacks present at its start run first, then the timeouts due
run in deadline order (ties in scheduling order).  Time only moves when the
harness moves it, so a callback or timeout may run arbitrarily late.
"""
import _thread
import functools
import os
import sys
import threading
import time

from tornado.ioloop import IOLoop


class Handle(object):
    def __init__(self, deadline, fn, seq):
        self.deadline = deadline
        self.fn = fn
        self.seq = seq


class SimLoop(object):
    def __init__(self, now=0):
        self.now = now
        self.callbacks = []
        self.timers = []
        self.errors = []
        self.seq = 0

    def time(self):
        return self.now

    def _is_ioloop(self):
        return True

    # --- scheduling interface -------------------------------------------
    def add_callback(self, fn, *a, **k):
        self.callbacks.append(functools.partial(fn, *a, **k))

    def add_callback_from_signal(self, fn, *a, **k):
        self.add_callback(fn, *a, **k)

    def spawn_callback(self, fn, *a, **k):
        self.add_callback(fn, *a, **k)

    def call_at(self, when, fn, *a, **k):
        self.seq += 1
        h = Handle(when, functools.partial(fn, *a, **k), self.seq)
        self.timers.append(h)
        return h

    def call_later(self, delay, fn, *a, **k):
        return self.call_at(self.now + delay, fn, *a, **k)

    def add_timeout(self, deadline, fn, *a, **k):
        if hasattr(deadline, 'total_seconds'):
            deadline = self.now + deadline.total_seconds()
        return self.call_at(deadline, fn, *a, **k)

    def remove_timeout(self, h):
        if h is None:
            raise TypeError('remove_timeout(None)')
        self.timers = [t for t in self.timers if t is not h]

    def add_future(self, future, fn):
        future.add_done_callback(
            lambda f: self.add_callback(fn, f))

    def handle_callback_exception(self, cb):
        pass

    def make_current(self):
        pass

    # --- running ----------------------------------------------------------
    def run_one(self, fn):
        try:
            r = fn()
        except Exception as e:
            self.errors.append(e)
            return
        if r is not None and hasattr(r, 'add_done_callback'):
            r.add_done_callback(self._failed_future)

    def _failed_future(self, f):
        e = f.exception()
        if e is not None:
            self.errors.append(e)

    def due(self):
        out = [h for h in self.timers if h.deadline <= self.now]
        # insertion sort by deadline, stable
        res = []
        for h in out:
            i = len(res)
            while i > 0 and h.deadline < res[i - 1].deadline:
                i -= 1
            res.insert(i, h)
        return res

    def iterate(self):
        cbs, self.callbacks = self.callbacks, []
        due = self.due()
        for cb in cbs:
            self.run_one(cb)
        for h in due:
            if h in self.timers:
                self.timers.remove(h)
                self.run_one(h.fn)
        return bool(cbs or due)

    def settle(self, limit=50):
        """Run until nothing is runnable at the current instant."""
        n = 0
        while self.iterate():
            n += 1
            if n > limit:
                raise RuntimeError('the loop does not settle')

    def run_callbacks(self):
        """Only the callbacks (timeouts are late)."""
        n = 0
        while self.callbacks:
            cb = self.callbacks.pop(0)
            self.run_one(cb)
            n += 1
            if n > 2000:
                raise RuntimeError('the loop does not settle')

    def next_deadline(self):
        best = None
        for h in self.timers:
            if best is None or h.deadline < best:
                best = h.deadline
        return best


# --------------------------------------------------------------------------
# Environment seen by the code under test: time, thread identity, IOLoop.

class _Env(object):
    clock = None        # function returning the simulated time, or None
    thread = None       # simulated thread identity, or None
    loop = None         # what IOLoop.current() returns, or None


ENV = _Env()
_real_time = time.time
_real_ident = _thread.get_ident
_real_current = IOLoop.current


def _time():
    return ENV.clock() if ENV.clock is not None else _real_time()


def _ident():
    return ENV.thread if ENV.thread is not None else _real_ident()


def _current(instance=True):
    return ENV.loop if ENV.loop is not None else _real_current(instance)


def install_env(loop, thread=1):
    """Make ``loop`` the world: its clock, its thread, IOLoop.current()."""
    time.time = _time
    _thread.get_ident = _ident
    threading.get_ident = _ident
    IOLoop.current = staticmethod(_current)
    ENV.loop = loop
    ENV.thread = thread
    ENV.clock = loop.time
    for name, mod in list(sys.modules.items()):
        if name.startswith('katcp') and mod is not None:
            if getattr(mod, 'get_thread_ident', None) is not None:
                mod.get_thread_ident = _ident
    return loop


class as_thread(object):
    """with as_thread(2): ... runs the block as another thread."""

    def __init__(self, ident):
        self.ident = ident

    def __enter__(self):
        self.old = ENV.thread
        ENV.thread = self.ident

    def __exit__(self, *a):
        ENV.thread = self.old


KATCP_DIR = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'katcp')


class Preempt(object):
    """Runs ``action`` at the k-th line executed in /repo/katcp.

    One context switch to another thread, which runs ``action`` to its end:
    the switch happens before the k-th (0-based) distinct line event.
    """

    def __init__(self, k, action, only=None, files=('',)):
        self.k = k
        self.files = tuple(files)  # and to files with these names
        self.action = action
        self.only = only          # restrict to these function names
        self.n = 0
        self.fired = False
        self.where = None

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self.trace)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)

    def trace(self, frame, event, arg):
        code = frame.f_code
        if not code.co_filename.startswith(KATCP_DIR):
            return None
        if not code.co_filename.endswith(self.files):
            return None
        if self.only is not None and code.co_name not in self.only:
            return None
        state = [None]

        def local(frame, event, arg):
            if event != 'line' or self.fired:
                return local
            if frame.f_lineno == state[0]:
                return local
            state[0] = frame.f_lineno
            if self.n == self.k:
                self.fired = True
                self.where = (code.co_name, frame.f_lineno)
                sys.settrace(None)
                self.action()
            self.n += 1
            return local
        return local
