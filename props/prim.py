"""Async waiting primitives of katcp.core; exponential backoff."""
import katcp.core as core
from katcp.core import (AsyncCallbackEvent, AsyncEvent, AsyncState,
                        future_timeout_manager, until_any, until_later,
                        until_some)
from props.simclient import BlockingFuture
from props.simloop import SimLoop, as_thread, install_env
from symkat.harness import assume_note, harness
from tornado.concurrent import Future
from tornado.gen import TimeoutError

LOOP, OTHER = 1, 2


class World(object):
    def __init__(self, ctx, now=1000):
        self.loop = SimLoop(now)
        install_env(self.loop, LOOP)
        self.idle = None
        BlockingFuture.world = self
        core.Future = BlockingFuture

    def advance(self, dt):
        self.loop.now = self.loop.now + dt
        self.loop.settle()

    def wait_for(self, future, timeout):
        with as_thread(LOOP):
            self.loop.settle()
            if not future.done() and self.idle is not None:
                self.idle()
                self.loop.settle()
            if not future.done() and timeout is not None:
                self.advance(timeout)


class Waiter(object):
    """A future and what it is expected to do."""

    def __init__(self, w, future, want, timeout):
        self.w = w
        self.f = future
        self.want = want            # states it waits for
        self.deadline = None if timeout is None else w.loop.now + timeout
        self.expect = None
        self.woken = 0
        future.add_done_callback(self.wake)

    def wake(self, f):
        self.woken += 1

    def reached(self, state):
        if self.expect is None and state in self.want:
            self.expect = 'result'

    def time(self):
        if (self.expect is None and self.deadline is not None
                and self.w.loop.now >= self.deadline):
            self.expect = 'timeout'

    def check(self, ctx):
        ctx.check(self.f.done() == (self.expect is not None),
                  'resolves exactly when its condition is met')
        if self.expect is None:
            return
        ctx.check(self.woken == 1, 'once')
        e = self.f.exception()
        if self.expect == 'timeout':
            ctx.check(isinstance(e, TimeoutError), 'times out')
            ctx.cover('timeout')
        else:
            ctx.check(e is None, 'without an error')
            ctx.cover('woken')


# ------------------------------------------------------------------ C28

@harness('C28', 'an AsyncState of three states; every sequence of `steps` of: '
         'wait for one state, two or any (with or without timeout), set any '
         'state, let a symbolic time pass; a woken waiter may set another '
         'state at once',
         quick=[{'steps': 4}], thorough=[{'steps': 5}],
         covers=['woken', 'timeout', 'reaction'])
def async_state(ctx, steps):
    w = World(ctx)
    st = AsyncState(('x', 'a', 'b'))
    ctx.check(st.state == 'x', 'the first state is the initial one')
    waiters = []
    react = ctx.choice('react', [None, 'b', 'again'])

    def reaction(f):
        # woken by the first waiter: changes the state once more
        if f.exception() is not None:
            return
        ctx.cover('reaction')
        if react == 'again':
            # ... and waits once more
            st.set_state('x')
            for wt in waiters:
                wt.reached('x')
            waiters.append(Waiter(w, st.until_state('a'), ('a',), None))
        else:
            st.set_state(react)

    for k in range(steps):
        op = ctx.choice('op%d' % k, ['wait', 'set', 'time'])
        if op == 'wait':
            want = ctx.choice('want%d' % k, [('a',), ('a', 'b'),
                                             ('b', 'x', 'a')])
            timeout = ctx.choice('timeout%d' % k, [None, 3])
            if len(want) == 1:
                f = st.until_state(want[0], timeout=timeout)
            else:
                f = st.until_state_in(*want, timeout=timeout)
            wt = Waiter(w, f, want, timeout)
            wt.reached(st.state)
            waiters.append(wt)
            if react and len(waiters) == 1:
                f.add_done_callback(reaction)
        elif op == 'set':
            s = ctx.choice('state%d' % k, ['a', 'b', 'x'])
            before = list(waiters)
            st.set_state(s)
            for wt in before:
                wt.reached(s)
            for wt in waiters:
                # a reaction may have moved the state on
                wt.reached(st.state)
        else:
            w.advance(ctx.int('dt%d' % k, 1, 4))
            for wt in waiters:
                wt.time()
        w.loop.settle()
        for wt in waiters:
            wt.reached(st.state)
            wt.check(ctx)
    try:
        st.set_state('other')
        ctx.check(False, 'invalid states are refused')
    except ValueError:
        pass


@harness('C28', 'an AsyncEvent or AsyncCallbackEvent (whose callback may '
         'raise); every sequence of `steps` of: wait with or without timeout, '
         'wait in another thread, set, clear, set and clear at once, time',
         quick=[{'steps': 4}], thorough=[{'steps': 5}],
         covers=['woken', 'timeout', 'thread', 'reaction'])
def async_event(ctx, steps):
    w = World(ctx)
    calls = []
    cb = ctx.choice('callback', [False, 'plain', 'raises', 'again'])
    again = cb == 'again'
    if again:
        # the first waiter, once woken, clears the event and waits anew
        cb = False

    def reaction(f):
        if f.exception() is None:
            ctx.cover('reaction')
            ev.clear()
            waiters.append(Waiter(w, ev.until_set(), (True,), None))

    def callback(v):
        calls.append((v, ev.is_set()))
        if cb == 'raises':
            raise RuntimeError('callback fails')
    ev = AsyncCallbackEvent(callback) if cb else AsyncEvent()
    waiters, want_calls = [], []
    flag = False
    for k in range(steps):
        op = ctx.choice('op%d' % k, ['wait', 'thread', 'set', 'clear',
                                     'pulse', 'time'])
        if op == 'wait':
            timeout = ctx.choice('timeout%d' % k, [None, 3])
            wt = Waiter(w, ev.until_set(timeout), (True,), timeout)
            wt.reached(flag)
            waiters.append(wt)
            if again and len(waiters) == 1:
                wt.f.add_done_callback(reaction)
                flag = ev.is_set()
        elif op == 'thread':
            late = ctx.choice('late%d' % k, [False, True])

            def idle():
                if late:
                    ev.set()
            w.idle = idle
            before = list(waiters)
            with as_thread(OTHER):
                r = ev.wait_with_ioloop(w.loop, 2)
            if late and not flag:
                flag = len(before) == len(waiters)
                want_calls.append((True, True))
                for wt in before:
                    wt.reached(True)
                ctx.check(r is True, 'wait_with_ioloop tells')
            else:
                ctx.check(r is flag, 'wait_with_ioloop tells')
            if not r:
                for wt in waiters:
                    wt.time()
            ctx.cover('thread')
        elif op in ('set', 'pulse'):
            before = list(waiters)
            ev.set()
            flag = len(before) == len(waiters)
            want_calls.append((True, True))
            for wt in before:
                wt.reached(True)
            if op == 'pulse':
                ev.clear()
                flag = False
                want_calls.append((False, False))
        elif op == 'clear':
            ev.clear()
            flag = False
            want_calls.append((False, False))
        else:
            w.advance(ctx.int('dt%d' % k, 1, 4))
            for wt in waiters:
                wt.time()
        w.loop.settle()
        ctx.check(ev.is_set() is flag and ev.isSet() is flag, 'is_set()')
        for wt in waiters:
            wt.check(ctx)
        if cb:
            ctx.check(calls == want_calls, 'the callback is told each change')


@harness('C28', 'until_any and until_some (k of 3, positional or keyword, '
         'with or without timeout) over three futures that resolve, fail or '
         'stay pending in every order, before or after the call, each with '
         'another waiter', quick=[{}],
         covers=['value', 'error', 'timeout', 'pending', 'some'])
def combine(ctx):
    w = World(ctx)
    fs = [Future() for i in range(3)]
    what = ctx.choice('what', ['any', 'some'])
    order = ctx.choice('order', [(0, 1, 2), (1, 0, 2), (2, 1, 0), (1,), (2, 0),
                                 ()])
    early = int(ctx.int('early', 0, 2))
    fails = ctx.choice('fails', [None, 0, 1])
    timeout = ctx.choice('timeout', [None, 5])
    least = (ctx.choice('least', [None, 1, 2]) if what == 'some' else 1)
    keyword = what == 'some' and ctx.choice('keyword', [False, True])

    def resolve(i):
        if i == fails:
            fs[i].set_exception(KeyError(i))
        else:
            fs[i].set_result('v%d' % i)
    for i in order[:early]:
        resolve(i)
    others = [until_any(*fs)] if what == 'any' else []
    if what == 'any':
        f = until_any(*fs, timeout=timeout)
    elif keyword:
        f = until_some(done_at_least=least, timeout=timeout, a=fs[0], b=fs[1],
                       c=fs[2])
    else:
        f = until_some(*fs, done_at_least=least, timeout=timeout)
    others += [until_any(*fs)] if what == 'any' else []
    w.loop.settle()
    for i in order[early:]:
        w.advance(1)
        resolve(i)
        w.loop.settle()
    w.advance(10)
    n = 3 if least is None else least
    done, late = list(order[:early]), list(order[early:])
    keys = 'abc' if keyword else (0, 1, 2)

    def value(i):
        return 'v%d' % i if what == 'any' else (keys[i], 'v%d' % i)
    if n < len(done):
        # more were resolved than needed: any n of them
        e = f.exception() if f.done() else None
        if e is not None:
            ctx.check(isinstance(e, KeyError) and fails in done, 'its error')
        else:
            got = f.result() if what == 'some' else [f.result()]
            ctx.check(f.done() and len(got) == n and
                      all(x in [value(i) for i in done if i != fails]
                          for x in got), 'values of resolved futures')
    elif fails in done + late[:n - len(done)]:
        ctx.check(f.done() and isinstance(f.exception(), KeyError),
                  'the error is passed on')
        ctx.cover('error')
    elif len(done) + len(late) < n:
        if timeout is None:
            ctx.check(not f.done(), 'keeps waiting')
            ctx.cover('pending')
        else:
            ctx.check(f.done() and isinstance(f.exception(), TimeoutError),
                      'times out')
            ctx.cover('timeout')
    else:
        need = done + late[:n - len(done)]
        ctx.check(f.done() and f.exception() is None, 'resolves')
        if what == 'any':
            ctx.check(f.result() == value(need[0]),
                      'the value of the first to resolve')
            ctx.cover('value')
        else:
            got = f.result()
            k = len(done)
            ctx.check(sorted(got[:k]) == sorted(value(i) for i in done)
                      and got[k:] == [value(i) for i in need[k:]],
                      'results in order of resolution')
            ctx.cover('some')
    for o in others:
        ctx.check(o.done() == bool(order), 'every waiter is woken')
        if o.done() and f.done() and early < 2 and timeout is None:
            ctx.check((o.exception() is None) == (f.exception() is None),
                      'with the same outcome')


@harness('C28', 'two or three operations taking symbolic times under one '
         'timeout of 1..9; delays 0..9 with until_later',
         quick=[{}], covers=['timeout', 'in time'])
def cumulative(ctx):
    w = World(ctx)
    timeout = ctx.int('timeout', 1, 9)
    t0 = w.loop.now
    mgr = future_timeout_manager(timeout)
    n = ctx.choice('n', [2, 3])
    for i in range(n):
        dt = ctx.int('dt%d' % i, 0, 9)
        op = until_later(dt)
        begin = w.loop.now
        f = mgr(op)
        w.loop.settle()
        ctx.check(op.done() == (dt <= 0), 'not before its time')
        # time moves in steps: to the deadline or to the end of the operation
        left = timeout - (w.loop.now - t0)
        ctx.check(mgr.remaining() == left, 'remaining()')
        if dt < left:
            w.advance(dt)
            ctx.check(f.done() and f.exception() is None, 'in time')
            ctx.cover('in time')
        elif dt > left:
            w.advance(left)
            ctx.check(f.done() and isinstance(f.exception(), TimeoutError),
                      'the total time is limited')
            ctx.cover('timeout')
            return
        else:
            ctx.assume(False)
        ctx.check(w.loop.now >= begin, 'time moved')


assume_note('C28', 'the tornado IOLoop is replaced by a model (FIFO callbacks, '
            'time moved by the harness); katcp.core and tornado futures and '
            'coroutines run for real')


# ------------------------------------------------------------------ C30

class Rnd(object):
    """random.random() is any number in [0, 1)."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0

    def random(self):
        self.n += 1
        return self.ctx.float('rnd%d' % self.n, 0, 1023.0 / 1024)

    def __getattr__(self, name):
        import random
        return getattr(random, name)


@harness('C30', 'initial delay 0, 0.5, 1 or 4, maximum 4 or 90, factor 2 or 3, '
         'randomicity 0, 0.5 or 1, every random number (multiples of 1/1024); '
         'every sequence of `steps` failures and successes, one of which may '
         'find an invalid parameter',
         quick=[{'steps': 4}], thorough=[{'steps': 7}],
         covers=['at the maximum', 'reset', 'invalid'])
def backoff(ctx, steps):
    import katcp.inspecting_client as ic
    ic.random = Rnd(ctx)
    first = ctx.choice('initial', [0.5, 0.0, 1.0, 4.0])
    top = ctx.choice('max', [90.0, 4.0])
    fac = ctx.choice('fac', [2.0, 3.0])
    r = ctx.choice('randomicity', [0.5, 0.0, 1.0])
    invalid = ctx.choice('invalid', [None, 1])
    b = ic.ExponentialRandomBackoff(first, top, fac, r)
    base = first
    for k in range(steps + 1):
        d = b.delay
        ctx.check(d <= base and d <= top, 'at most the base delay')
        ctx.check(d >= base * (1 - r) and d >= 0,
                  'random by the fraction asked for')
        if base == top:
            ctx.cover('at the maximum')
        if k == steps:
            break
        if ctx.choice('op%d' % k, ['failed', 'success']) == 'success':
            b.success()
            base = first
            ctx.cover('reset')
        elif invalid == k:
            b.exp_fac = 0.5
            b.failed()
            b.exp_fac = fac
            d2 = b.delay
            ctx.check(d2 == d, 'an invalid factor is not used')
            ctx.cover('invalid')
        else:
            b.failed()
            base = min(base * fac, top)


assume_note('C30', 'random.random() is modelled as any multiple of 1/1024 in '
            '[0, 1)')
