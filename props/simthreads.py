"""Threads as coroutines (greenlets), with one switch at a chosen line.

``Threads`` runs tasks until they block, one at a time.  ``turns(a, b, k)``
runs ``a`` and switches to ``b`` before the k-th line of katcp code executed by
``a``; the rest runs in alternation until everybody is blocked or done.
Locks, events, joins and the ioloop of a thread block only the task that waits.
"""
import sys

import greenlet

from props.simloop import ENV, KATCP_DIR, SimLoop


class Task(object):
    def __init__(self, threads, fn, ident, loop=None):
        self.threads = threads
        self.fn = fn
        self.ident = ident
        self.loop = loop            # IOLoop.current() in this thread
        self.until = None
        self.result = None
        self.error = None
        self.done = False
        self.timed_out = False
        self.g = greenlet.greenlet(self.body)

    def body(self):
        try:
            self.result = self.fn()
        except Exception as e:
            self.error = e
        finally:
            self.done = True

    def runnable(self):
        return not self.done and (self.until is None or self.until())

    def resume(self, k=None, files=('',)):
        """Run until it blocks, ends, or is about to execute line k."""
        if not self.runnable():
            return
        th = self.threads
        before = th.current, ENV.thread, ENV.loop
        th.current = self
        ENV.thread = self.ident
        ENV.loop = self.loop
        self.lines = k
        self.files = tuple(files)
        if k is not None:
            sys.settrace(self.trace)
        try:
            self.g.parent = greenlet.getcurrent()
            self.g.switch()
        finally:
            if k is not None:
                sys.settrace(None)
            self.loop = ENV.loop
            th.current, ENV.thread, ENV.loop = before

    def trace(self, frame, event, arg):
        name = frame.f_code.co_filename
        if not name.startswith(KATCP_DIR) or not name.endswith(self.files):
            return None
        last = [None]

        def local(frame, event, arg):
            if event != 'line' or self.lines is None:
                return local
            if self.threads.current is not self or frame.f_lineno == last[0]:
                return local
            last[0] = frame.f_lineno
            if self.lines == 0:
                self.lines = None
                sys.settrace(None)
                self.threads.switched = (frame.f_code.co_name, frame.f_lineno)
                self.g.parent.switch()
                return local
            self.lines -= 1
            return local
        return local

    def block(self, until):
        while not until():
            self.until = until
            self.g.parent.switch()
        self.until = None


class Threads(object):
    def __init__(self, loop=None):
        self.tasks = []
        self.current = None
        self.switched = None
        self.n = 1
        self.loop = loop

    def task(self, fn, loop=None):
        self.n += 1
        t = Task(self, fn, self.n, loop)
        self.tasks.append(t)
        return t

    def run(self, limit=400):
        """Let everybody run until nobody can."""
        for n in range(limit):
            ready = [t for t in self.tasks if t.runnable()]
            self.tasks = [t for t in self.tasks if not t.done]
            if not ready:
                return
            ready[0].resume()
        raise RuntimeError('the threads do not settle')

    def turns(self, first, others, k, files=('',)):
        """``first``, interrupted before line k by ``others``, then all."""
        first.resume(k, files)
        for t in others():
            t.resume()

    def block(self, until):
        """Wait in the running task; False if the world stands still."""
        if self.current is None:
            raise RuntimeError('nothing to switch to')
        self.current.block(until)


class Lock(object):
    threads = None

    def __init__(self):
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        while self.owner is not None:
            self.threads.block(lambda: self.owner is None)
        self.owner = self.threads.current or self.threads
        return True

    def release(self):
        self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class RLock(Lock):
    depth = 0

    def acquire(self, blocking=True, timeout=-1):
        me = self.threads.current or self.threads
        if self.owner is not me:
            Lock.acquire(self)
        self.depth += 1
        return True

    def release(self):
        self.depth -= 1
        if not self.depth:
            self.owner = None


class Event(object):
    threads = None

    def __init__(self):
        self.flag = False

    def set(self):
        self.flag = True

    def clear(self):
        self.flag = False

    def is_set(self):
        return self.flag

    isSet = is_set

    def wait(self, timeout=None):
        th = self.threads
        if not self.flag:
            give_up = th.stuck_after(timeout)
            th.block(lambda: self.flag or give_up())
        return self.flag


class Thread(object):
    threads = None
    made = []

    def __init__(self, group=None, target=None, name=None, args=(),
                 kwargs=None, daemon=None):
        self.target = lambda: target(*args, **(kwargs or {}))
        self.daemon = bool(daemon)
        self.name = name or 'thread'
        self.task = None
        Thread.made.append(self)

    def setDaemon(self, v):
        self.daemon = v

    def start(self):
        if self.task is not None:
            raise RuntimeError('threads can only be started once')
        self.task = self.threads.task(self.target)

    def is_alive(self):
        return self.task is not None and not self.task.done

    def join(self, timeout=None):
        if self.task is None:
            raise RuntimeError('cannot join thread before it is started')
        if self.is_alive():
            give_up = self.threads.stuck_after(timeout)
            self.threads.block(lambda: not self.is_alive() or give_up())

    @property
    def ident(self):
        return self.task.ident if self.task else None


class Threading(object):
    """Stands in for the threading module."""

    def __init__(self, threads):
        self.Lock = type('Lock', (Lock,), {'threads': threads})
        self.RLock = type('RLock', (RLock,), {'threads': threads})
        self.Event = type('Event', (Event,), {'threads': threads})
        self.Thread = type('Thread', (Thread,), {'threads': threads})
        Thread.made = []

    def __getattr__(self, name):
        import threading
        return getattr(threading, name)


class OwnLoop(SimLoop):
    """An ioloop that a thread starts, stops and closes (as AsyncIOLoop)."""
    threads = None

    def __init__(self, now=1000):
        SimLoop.__init__(self, now)
        self.running_in = None
        self.starts = 0
        self.stopping = False
        self.closed = False
        self.refused = 0

    def add_callback(self, fn, *a, **k):
        if self.closed:
            self.refused += 1
            raise RuntimeError('IOLoop is closing')
        SimLoop.add_callback(self, fn, *a, **k)

    def call_at(self, when, fn, *a, **k):
        if self.closed:
            raise RuntimeError('Event loop is closed')
        return SimLoop.call_at(self, when, fn, *a, **k)

    def make_current(self):
        ENV.loop = self

    def start(self):
        if self.closed:
            raise RuntimeError('Event loop is closed')
        if self.running_in is not None:
            raise RuntimeError('This event loop is already running')
        self.running_in = ENV.thread
        self.starts += 1
        old = ENV.loop
        self.make_current()
        try:
            while True:
                if not self.stopping:
                    self.threads.block(lambda: self.callbacks or self.due())
                self.iterate()
                if self.stopping:
                    break
        finally:
            self.stopping = False
            self.running_in = None
            ENV.loop = old

    def stop(self):
        self.stopping = True

    def close(self, all_fds=False):
        if self.running_in is not None:
            raise RuntimeError('Cannot close a running event loop')
        self.closed = True
        self.callbacks = []
        self.timers = []
