"""Managed ioloops: their thread, start, stop and restart."""
import katcp.ioloop_manager as iom
from katcp.ioloop_manager import IOLoopManager
from props.simloop import ENV, install_env
from props.simthreads import OwnLoop, Thread, Threading, Threads
from symkat.harness import assume_note, harness
from tornado.concurrent import Future

FILES = ('ioloop_manager.py',)


class Log(object):
    def __init__(self):
        self.errors = []

    def error(self, msg, *a, **k):
        self.errors.append(msg)

    exception = critical = error

    def info(self, *a, **k):
        pass

    debug = warning = warn = info


class World(object):
    def __init__(self, ctx, managed=True):
        self.ctx = ctx
        self.th = Threads()
        self.th.stuck_after = self.stuck_after
        self.loops = []
        self.own = OwnLoop()
        self.own.threads = self.th
        install_env(self.own, 1)
        iom.threading = Threading(self.th)
        iom.get_thread_ident = lambda: ENV.thread
        iom.AsyncIOLoop = self.new_loop
        self.log = Log()
        self.m = IOLoopManager(managed_default=managed, logger=self.log)
        self.waiters = 0

    def new_loop(self, *a, **k):
        loop = OwnLoop()
        loop.threads = self.th
        self.loops.append(loop)
        return loop

    def stuck_after(self, timeout):
        """A predicate that becomes true when a wait with timeout is over.

        Time passes only when nobody else can run.
        """
        if timeout is None:
            return lambda: False
        me = self.th.current

        def over():
            if me.timed_out:
                return True
            return False
        me.timed_out = False
        me.timeout = True
        return over

    def settle(self):
        """Everybody runs; then waits with a timeout time out."""
        for i in range(20):
            self.th.run()
            late = [t for t in self.th.tasks
                    if not t.done and getattr(t, 'timeout', False)
                    and not t.timed_out]
            if not late:
                return
            late[0].timed_out = True
            late[0].timeout = False

    def user(self, fn):
        return self.th.task(fn, self.own)

    def current(self):
        """The loop that is used now."""
        loop = self.loops[-1] if self.loops else None
        return None if loop is None or loop.closed else loop

    def threads(self):
        return [t for t in Thread.made if t.is_alive()]


class Stop(object):
    """One stop() with its callback."""

    def __init__(self, w, kind):
        self.w = w
        self.kind = kind
        self.calls = []         # threads it was called in
        self.after = 0
        self.release = Future()
        self.future = None
        self.loop = None

    def callback(self):
        self.calls.append((ENV.thread, ENV.loop))
        if self.kind == 'fails':
            raise RuntimeError('stop callback failed')
        if self.kind == 'later':
            ENV.loop.add_callback(self.release.set_result, None)
            return self.release
        if self.kind == 'slow':
            return self.release
        if self.kind == 'more':
            ENV.loop.add_callback(self.scheduled)

    def scheduled(self):
        self.after += 1

    def __call__(self):
        self.loop = self.w.current()
        self.future = self.w.m.stop(
            callback=None if self.kind == 'none' else self.callback)
        return self.future


KINDS = ['none', 'ok', 'fails', 'later', 'more']

assume_note(
    'C44', 'threads are coroutines switched at line boundaries of '
    'katcp/ioloop_manager.py, one switch per path, and when they block; the '
    'ioloop follows asyncio (a stopped loop ends after the iteration, a closed '
    'one refuses callbacks)')


@harness('C44', 'a managed ioloop: start, then k operations out of start, '
         'stop (callback of five kinds), call and join, by a user thread, each '
         'before or after the ioloop thread ran on, or (one of them) '
         'interrupted by it at an arbitrary line, or interrupting it there; '
         'then stopped and started again',
         quick=[{'k': 2}], thorough=[{'k': 3}],
         covers=['refused', 'stopped twice', 'interrupted', 'again'])
def managed(ctx, k):
    w = World(ctx)
    m, th = w.m, w.th
    daemon = ctx.choice('daemon', [None, True, False]) if k < 3 else None
    if daemon is not None:
        m.setDaemon(daemon)
    stops, starts, probes = [], [], []
    race_at = ctx.choice('race', [-1] + list(range(k)))
    accepted = []

    def start():
        m.get_ioloop()
        m.start()

    def finish(task):
        """The operation is over (or waits for something)."""
        w.settle()
        ctx.check(task.done, 'it returns')

    t = w.user(start)
    t.resume()
    ctx.check(t.done and t.error is None, 'started')
    ctx.check(len(w.threads()) == 1, 'a thread is made')
    first = Thread.made[0]
    ctx.check(first.daemon == bool(daemon), 'daemonic if asked')
    for i in range(k):
        if ctx.choice('ran%d' % i, [False, True]):
            w.settle()
        op = ctx.choice('op%d' % i, ['start', 'stop', 'call', 'join'])
        alive = bool(w.threads())
        loop = w.current()
        if op == 'start':
            # (starting while it is just being stopped is up to the user)
            ctx.assume(race_at != i or not alive or not stops)
            task = w.user(start)
        elif op == 'stop':
            s = Stop(w, ctx.choice('kind%d' % i, KINDS))
            stops.append(s)
            task = w.user(s)
        elif op == 'call':
            called = []
            probes.append((loop, called))
            task = w.user(lambda: loop is None or loop.add_callback(
                lambda: called.append(ENV.thread)))
        else:
            task = w.user(lambda: m.join(5))
        if race_at == i:
            kk = int(ctx.int('line', 0, 24))
            if ctx.choice('who', ['op', 'loop']) == 'op':
                task.resume(kk, FILES)
                if th.switched:
                    ctx.cover('interrupted')
                    for x in Thread.made:
                        if x.task:
                            x.task.resume()
            else:
                own = [x.task for x in w.threads()]
                if own:
                    own[0].resume(kk, FILES)
                    if th.switched:
                        ctx.cover('interrupted')
                task.resume()
                finish(task)
            ctx.assume(th.switched is not None)
            finish(task)
        else:
            task.resume()
            if op == 'join' or not task.done:
                finish(task)
        if op == 'start':
            if task.error is None:
                accepted.append(task)
                if race_at != i:
                    ctx.check(not alive, 'a running one is not started again')
            else:
                ctx.check(type(task.error) is RuntimeError, 'refused')
                ctx.cover('refused')
                if race_at != i:
                    ctx.check(alive, 'can be started after stop()')
        elif op == 'join':
            ctx.check(task.error is None, 'join() does not fail')
        elif op == 'stop':
            ctx.check(task.error is None, 'stop() does not fail')
        ctx.check(len(w.threads()) <= 1, 'one thread at a time')
    # whatever happened, it can be stopped
    s = Stop(w, 'ok')
    stops.append(s)
    t = w.user(s)
    t.resume()
    finish(t)
    if len(stops) > 1:
        ctx.cover('stopped twice')
    t = w.user(lambda: m.join(5))
    t.resume()
    finish(t)
    ctx.check(t.error is None, 'joined')
    ctx.check(not w.threads(), 'the thread has ended')
    for s in stops:
        ctx.check(s.future is not None and s.future.done(),
                  'the future of stop() resolves')
        ctx.check(s.future.exception() is None, 'without an error')
        ctx.check(len(s.calls) <= 1, 'the callback is called once')
        for ident, loop in s.calls:
            ctx.check(loop in w.loops and any(
                x.ident == ident for x in Thread.made), 'in the ioloop')
    runs = [x for x in w.loops if x.starts]
    ctx.check(len(runs) == 1 + len(accepted) and len(Thread.made) >= len(runs),
              'a loop is run for every start')
    for x in runs:
        ctx.check(x.starts == 1 and x.closed and x.running_in is None,
                  'each is run once, stopped and closed')
        ctx.check(not x.errors, 'nothing fails in the ioloop')
    # of the stops made while a loop was running, the first is called
    for x in runs:
        mine = [s for s in stops if s.loop is x]
        if mine and mine[0].kind != 'none':
            ctx.check(len(mine[0].calls) == 1, 'the callback is called')
            if mine[0].kind == 'more':
                ctx.check(mine[0].after == 1,
                          'what the callback scheduled is run')
    ctx.check(not [e for e in w.log.errors if 'running tornado' in e],
              'no thread fails')
    # again
    n = len(w.loops)
    got = []

    def again():
        loop = m.get_ioloop()
        got.append(loop)
        return m.start(5)
    t = w.user(again)
    t.resume()
    finish(t)
    ctx.check(t.error is None and bool(t.result), 'it can be started again, '
              'and waits until the loop runs')
    ctx.check(not got[0].closed and got[0].starts == 1, 'with a new loop')
    ctx.check(len(w.threads()) == 1, 'in a thread')
    called = []
    got[0].add_callback(lambda: called.append(ENV.thread))
    w.settle()
    ctx.check(called == [w.threads()[0].ident], 'that runs callbacks')
    s = Stop(w, 'more')
    t = w.user(s)
    t.resume()
    finish(t)
    ctx.check(s.after == 1 and s.future.done() and not w.threads()
              and got[0].closed, 'and stops')
    ctx.cover('again')
    ctx.observe('n', (len(accepted), len(stops)))


@harness('C44', 'an ioloop that is not managed (given, current, or made so by '
         'set_ioloop), running or not: start, stop with each kind of callback, '
         'join, twice', quick=[{}], covers=['given', 'current'])
def unmanaged(ctx):
    how = ctx.choice('how', ['given', 'current', 'changed'])
    w = World(ctx, managed=how == 'changed')
    m = w.m
    ctx.check(m.managed == (how == 'changed'), 'managed as asked')
    other = w.new_loop()
    if how == 'given':
        m.set_ioloop(other)
        want = other
        ctx.cover('given')
    elif how == 'changed':
        m.set_ioloop(other, managed=False)
        want = other
    else:
        want = w.own
        ctx.cover('current')
    t = w.user(m.start)
    t.resume()
    if how == 'current':
        ctx.check(type(t.error) is RuntimeError, 'no loop yet')
    t = w.user(m.get_ioloop)
    t.resume()
    ctx.check(t.result is want and not m.managed, 'the loop to use')
    t = w.user(lambda: m.set_ioloop(w.new_loop()))
    t.resume()
    ctx.check(type(t.error) is RuntimeError and m.get_ioloop() is want,
              'it can be set once')
    running = ctx.choice('running', [False, True])
    runner = w.th.task(want.start, w.own)
    if running:
        w.settle()
    for i in range(2):
        t = w.user(lambda: m.start(ctx.choice('timeout%d' % i, [None, 5])))
        t.resume()
        w.settle()
        ctx.check(t.done and t.error is None, 'start() does nothing')
        s = Stop(w, ctx.choice('kind%d' % i, KINDS))
        t = w.user(s)
        t.resume()
        w.settle()
        ctx.check(t.done and t.error is None and s.future.done()
                  and s.future.exception() is None, 'stopped')
        ctx.check(s.kind == 'none' or len(s.calls) == 1, 'callback called')
        ctx.check(s.kind != 'more' or s.after == 1, 'what it scheduled is run')
        t = w.user(m.join)
        t.resume()
        ctx.check(t.done and t.error is None, 'nothing to join')
        ctx.check(want.running_in == runner.ident and not want.closed
                  and want.starts == 1, 'the loop is left alone')
    ctx.check(not Thread.made, 'no thread is made')
    ctx.check(not want.errors, 'nothing fails in the ioloop')
    ctx.observe('n', len(s.calls))
