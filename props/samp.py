"""C09-C13: sensor sampling strategies (katcp.sampling) on a symbolic clock."""
from katcp import sampling
from katcp.core import Sensor
from katcp.sampling import SampleStrategy
from props.simloop import SimLoop
from symkat.harness import assume_note, harness

LOOP_THREAD, OTHER_THREAD = 1, 2


class World(object):
    """A sensor, a strategy and the informs it produced."""

    def __init__(self, ctx, strategy, params, stype='integer', preempt=False):
        self.ctx = ctx
        self.thread = LOOP_THREAD
        sampling.get_thread_ident = lambda: self.thread
        self.loop = SimLoop(ctx.int('t0', 0, 1000))
        world = self

        class WSensor(Sensor):
            """Another thread may set the sensor right after it was read."""
            armed = None

            def read(self):
                r = Sensor.read(self)
                act, world.sensor.armed = world.sensor.armed, None
                if act is not None:
                    act()
                return r

        mk = {'integer': Sensor.INTEGER, 'float': Sensor.FLOAT,
              'string': Sensor.STRING, 'timestamp': Sensor.TIMESTAMP}[stype]
        self.sensor = WSensor(mk, 'a.sensor', 'desc', '')
        self.sensor.set(0, Sensor.UNKNOWN, self.sensor.value())
        self.informs = []      # (time, reading)
        self.history = []      # readings set, in order
        self.strategy = SampleStrategy.get_strategy(
            strategy, self.on_inform, self.sensor, *params, ioloop=self.loop)

    def on_inform(self, sensor, reading):
        self.ctx.check(sensor is self.sensor, 'inform for the right sensor')
        self.informs.append((self.loop.now, reading))

    def set(self, ts, status, value):
        self.sensor.set(ts, status, value)
        self.history.append((ts, status, value))

    def set_from_thread(self, ts, status, value):
        self.thread = OTHER_THREAD
        try:
            self.set(ts, status, value)
        finally:
            self.thread = LOOP_THREAD

    def advance(self, d):
        self.loop.now = self.loop.now + d


def same(ctx, a, b, what):
    for x, y in zip(a, b):
        ctx.check(x == y, what)


STATUSES = [Sensor.NOMINAL, Sensor.WARN]


def draw_reading(ctx, i, stype, lo=-4, hi=4):
    st = ctx.choice('status%d' % i, STATUSES)
    if stype == 'float' or stype == 'timestamp':
        v = ctx.float('value%d' % i, lo, hi, 1)
    elif stype == 'string':
        v = ctx.text('value%d' % i, 1, hi=0x7f)
    else:
        v = ctx.int('value%d' % i, lo, hi)
    return ctx.int('ts%d' % i, 0, 2000), st, v


# ------------------------------------------------------------------ C09

@harness('C09', 'k sensor updates with symbolic time stamp, status (2 values) '
         'and value (|v| <= 4: integer, float halves, one-character string, '
         'timestamp), each from the loop or from another thread; differential '
         'threshold symbolic in 1..3 (or halves up to 3)',
         quick=[{'k': 3}], thorough=[{'k': 4}],
         covers=['auto', 'event', 'differential', 'sent', 'suppressed',
                 'thread'])
def immediate(ctx, k):
    kind = ctx.choice('kind', ['auto', 'event', 'differential'])
    if kind == 'differential':
        stype = ctx.choice('stype', ['integer', 'float', 'timestamp'])
        if stype == 'integer':
            thr = ctx.int('threshold', 1, 3)
        else:
            thr = ctx.float('threshold', 0.5, 3, 1)
        params = [thr]
    else:
        stype = ctx.choice('stype', ['integer', 'string'])
        params = []
    w = World(ctx, kind, params, stype)
    w.strategy.start()
    expect = []
    w.loop.settle()
    initial = w.sensor.read()
    expect.append(initial)
    last = initial
    from_thread = ctx.choice('threads', [False, True])
    for i in range(k):
        w.advance(ctx.int('d%d' % i, 0, 5))
        r = draw_reading(ctx, i, stype)
        if from_thread:
            w.set_from_thread(*r)
            ctx.check(len(w.informs) == len(expect),
                      'nothing is sent from a foreign thread')
            w.loop.settle()
            ctx.cover('thread')
        else:
            w.set(*r)
            if i == 0:
                w.loop.settle()
        if kind == 'auto':
            send = True
        elif kind == 'event':
            send = r[1] != last[1] or r[2] != last[2]
        else:
            d = r[2] - last[2]
            send = r[1] != last[1] or d > thr or -d > thr
        if send:
            expect.append(r)
            last = r
            ctx.cover('sent')
        else:
            ctx.cover('suppressed')
        ctx.check(len(w.informs) == len(expect), 'sent exactly when due')
        same(ctx, w.informs[-1][1], expect[-1], 'the reading that was set')
    w.loop.settle()
    w.advance(5)
    w.loop.settle()
    ctx.check(len(w.informs) == len(expect), 'nothing more is sent later')
    for (t, got), want in zip(w.informs, expect):
        same(ctx, got, want, 'updates are sent in order')
    ctx.observe('informs', [r for t, r in w.informs])
    ctx.check(not w.loop.errors, 'no error in the loop')
    ctx.cover(kind)


@harness('C09', 'another thread sets the sensor at any point of the '
         'subscription: before it starts, while the first reading is taken, '
         'or after; symbolic readings',
         quick=[{}], covers=['before', 'during', 'after'])
def subscribe_race(ctx):
    kind = ctx.choice('kind', ['auto', 'event', 'differential', 'event-rate'])
    params = {'auto': [], 'event': [], 'differential': [1],
              'event-rate': [0, 1e99]}[kind]
    w = World(ctx, kind, params)
    r = draw_reading(ctx, 0, 'integer')
    when = ctx.choice('when', ['before', 'during', 'after'])
    ctx.cover(when)
    if when == 'before':
        w.strategy.start()
        w.set_from_thread(*r)
    elif when == 'during':
        w.sensor.armed = lambda: w.set_from_thread(*r)
        w.strategy.start()
    else:
        w.strategy.start()
        w.loop.settle()
        w.set_from_thread(*r)
    w.loop.settle()
    w.loop.settle()
    ctx.check(not w.loop.errors, 'no error in the loop')
    ctx.check(len(w.informs) >= 1, 'a first update is sent')
    sent = w.informs[-1][1]
    ctx.check(sent[1] == r[1], 'the client has the latest status')
    d = sent[2] - r[2]
    if kind == 'differential':
        ctx.check(d <= 1 and d >= -1, 'within the threshold')
    else:
        ctx.check(d == 0, 'the client has the latest value')


@harness('C09', '"differential" (and "differential-rate" with updates further '
         'apart than its shortest period) on a float sensor whose value is NaN '
         'at any of the k updates and otherwise any half |v| <= 4, with status '
         'changes; threshold any half up to 3',
         quick=[{'k': 2}], thorough=[{'k': 4}],
         covers=['becomes NaN', 'a number again', 'stays NaN', 'suppressed'])
def not_a_number(ctx, k):
    kind = ctx.choice('kind', ['differential', 'differential-rate'])
    thr = ctx.float('threshold', 0.5, 3, 1)
    w = World(ctx, kind, [thr] if kind == 'differential' else [thr, 1, 1e99],
              'float')
    w.strategy.start()
    w.loop.settle()
    last = w.sensor.read()
    last_nan = False
    sent = 1
    for i in range(k):
        w.advance(2)
        ts, status, v = draw_reading(ctx, i, 'float')
        nan = ctx.choice('nan%d' % i, [False, True])
        if nan:
            v = float('nan')
        w.set(ts, status, v)
        w.loop.settle()
        if status != last[1]:
            send = True
        elif nan or last_nan:
            send = nan != last_nan
            ctx.cover('stays NaN' if not send else
                      'becomes NaN' if nan else 'a number again')
        else:
            d = v - last[2]
            send = d > thr or -d > thr
        if send:
            sent += 1
            last, last_nan = (ts, status, v), nan
        else:
            ctx.cover('suppressed')
        ctx.check(len(w.informs) == sent, 'sent exactly when due')
        got = w.informs[-1][1]
        ctx.check(got[0] == last[0] and got[1] == last[1], 'the reading')
        if last_nan:
            ctx.check(got[2] != got[2], 'NaN is reported')
        else:
            ctx.check(got[2] == last[2], 'the value is reported')


# ------------------------------------------------------------------ C10

def changed(kind, diff, a, b):
    """Does reading b differ reportably from the reading a last sent?"""
    if kind == 'event-rate':
        return a[1] != b[1] or a[2] != b[2]
    d = a[2] - b[2]
    return a[1] != b[1] or d > diff or -d > diff


@harness('C10', 'event-rate and differential-rate with symbolic integer '
         'periods 0 <= shortest <= longest <= 6 (or longest unlimited), '
         'difference 1..2; k steps, each a sensor update (symbolic reading) '
         'after a symbolic delay 0..4, timeouts possibly late, updates from '
         'the loop or another thread',
         quick=[{'k': 3, 'kinds': ['event-rate']},
                {'k': 2, 'kinds': ['differential-rate']}],
         thorough=[{'k': 3, 'kinds': ['differential-rate']},
                   {'k': 4, 'kinds': ['event-rate']}],
         covers=['event-rate', 'differential-rate', 'delayed', 'periodic'])
def rate_limited(ctx, k, kinds):
    kind = ctx.choice('kind', kinds)
    short = ctx.int('shortest', 0, 4)
    unlimited = ctx.choice('unlimited', [True, False])
    if unlimited:
        long_ = 1e99
    else:
        long_ = ctx.int('longest', 1, 6)
        ctx.assume(short <= long_)
    diff = None
    params = [short, long_]
    if kind == 'differential-rate':
        diff = ctx.int('difference', 1, 2)
        params = [diff] + params
    w = World(ctx, kind, params)
    w.strategy.start()
    w.loop.settle()
    ctx.check(len(w.informs) == 1, 'the first update is sent at once')
    same(ctx, w.informs[0][1], w.sensor.read(), 'first reading')
    st = Sensor.NOMINAL
    for i in range(k):
        w.advance(ctx.int('d%d' % i, 0, 4))
        how = ctx.choice('how%d' % i, ['late', 'on-time', 'thread'])
        if how != 'late':
            w.loop.settle()
        st = ctx.choice('status%d' % i, STATUSES) if i == 0 else st
        r = (ctx.int('ts%d' % i, 0, 2000), st, ctx.int('value%d' % i, -3, 3))
        n = len(w.informs)
        now = w.loop.now
        prev_t, prev = w.informs[-1]
        if how == 'thread':
            w.set_from_thread(*r)
            w.loop.settle()
        else:
            w.set(*r)
        if changed(kind, diff, prev, r) and now - prev_t >= short:
            ctx.check(len(w.informs) > n, 'a change is sent at once when '
                      'the shortest period has passed')
            ctx.check(w.informs[-1][0] == now, 'sent now')
        elif how != 'thread':
            ctx.check(len(w.informs) == n, 'nothing sent too early or '
                      'without a change')
    # let every deadline pass, one by one
    w.loop.settle()
    for j in range(2 * k + 2):
        nd = w.loop.next_deadline()
        if nd is None:
            break
        if not unlimited and len(w.informs) and j > 1:
            break
        w.advance(nd - w.loop.now)
        n = len(w.informs)
        w.loop.settle()
        if len(w.informs) > n:
            ctx.cover('periodic' if j else 'delayed')
        if j == 0 and not unlimited:
            w.loop.settle()
    # what the client knows now
    w.advance(short)
    w.loop.settle()
    cur = w.sensor.read()
    last_t, last = w.informs[-1]
    ctx.check(not changed(kind, diff, last, cur),
              'the final change reaches the client')
    if not unlimited:
        ctx.check(w.loop.now - last_t <= long_,
                  'never silent for longer than the longest period')
        n = len(w.informs)
        w.advance(long_)
        w.loop.settle()
        ctx.check(len(w.informs) > n, 'an update after the longest period')
    # spacing of updates
    for (ta, a), (tb, b) in zip(w.informs, w.informs[1:]):
        ctx.check(tb - ta >= short, 'updates are at least the shortest '
                  'period apart')
    # only readings the sensor had, in order
    pos = -1
    for t, r in w.informs[1:]:
        if pos == -1 and r is w.informs[0][1]:
            continue
        # the earliest one it can be: with concrete inputs (when replayed)
        # readings with equal values are not distinguished
        fits = [j for j, h in enumerate(w.history)
                if h[0] is r[0] and h[1] == r[1] and h[2] is r[2]]
        ctx.check(fits, 'only readings of the sensor')
        fits = [j for j in fits if j >= pos]
        ctx.check(fits, 'readings are sent in order')
        pos = fits[0]
    ctx.observe('n', len(w.informs))
    ctx.check(not w.loop.errors, 'no error in the loop')
    ctx.cover(kind)


@harness('C10', 'event-rate and differential-rate, an ioloop that is on time: '
         'k updates of symbolic value and status after symbolic delays 0..4 '
         '(at, before or after the timeouts of the same instant), then '
         'silence; every update sent is predicted, with its time',
         quick=[{'k': 2, 'kinds': ['event-rate', 'differential-rate']}],
         thorough=[{'k': 3, 'kinds': ['event-rate']},
                   {'k': 3, 'kinds': ['differential-rate']}],
         covers=['at once', 'delayed', 'periodic', 'changed back'])
def on_time(ctx, k, kinds):
    kind = ctx.choice('kind', kinds)
    short = ctx.int('shortest', 0, 4)
    unlimited = ctx.choice('unlimited', [True, False])
    long_ = 1e99
    if not unlimited:
        long_ = ctx.int('longest', 1, 6)
        ctx.assume(short <= long_)
    params = [short, long_]
    diff = None
    if kind == 'differential-rate':
        diff = ctx.int('difference', 1, 2)
        params = [diff] + params
    w = World(ctx, kind, params)
    w.sensor.set(0, Sensor.NOMINAL, 0)
    w.strategy.start()
    w.loop.settle()
    sent = [w.informs[0]]             # what should have been sent
    waiting = [False]

    def due():
        """Time and kind of the next update expected."""
        t, last = sent[-1]
        if waiting[0]:
            return t + short, 'delayed'
        return (None if unlimited else t + long_), 'periodic'

    def pass_time(to):
        """Serve every timeout up to (and at) the time ``to``."""
        for n in range(12):
            nd = w.loop.next_deadline()
            t, why = due()
            if nd is None or nd > to:
                ctx.check(t is None or t > to, 'an update is due')
                break
            w.loop.now = nd
            w.loop.settle()
            if t is not None and t == nd:
                ctx.cover(why)
                cur = w.sensor.read()
                if why == 'delayed' and not changed(kind, diff, sent[-1][1],
                                                    cur):
                    ctx.cover('changed back')
                waiting[0] = False
                sent.append((t, cur))
            agree()
        else:
            ctx.assume(False)         # more timeouts than looked at
        w.loop.now = to

    def agree():
        ctx.check(len(w.informs) == len(sent), 'an update is sent exactly '
                  'when it is due')
        t, r = w.informs[-1]
        ctx.check(t == sent[-1][0], 'at its time')
        same(ctx, r, sent[-1][1], 'the current reading')

    t0 = w.loop.now
    for i in range(k):
        d = ctx.int('d%d' % i, 0, 4)
        to = w.loop.now + d
        # the update may come just before or after the timeouts of its instant
        nd = w.loop.next_deadline()
        if nd is not None and nd == to and ctx.choice('first%d' % i,
                                                      [False, True]):
            w.loop.now = to
        else:
            pass_time(to)
        st = ctx.choice('status%d' % i, STATUSES) if i < 2 else Sensor.NOMINAL
        r = (ctx.int('ts%d' % i, 0, 2000), st, ctx.int('value%d' % i, -2, 2))
        w.set(*r)
        last_t, last = sent[-1]
        if changed(kind, diff, last, r):
            if to - last_t >= short:
                ctx.cover('at once')
                sent.append((to, r))
                waiting[0] = False
            else:
                waiting[0] = True
        agree()
        pass_time(to)
        agree()
    pass_time(w.loop.now + short)
    pass_time(w.loop.now + 2)
    agree()
    ctx.observe('n', len(sent))
    ctx.check(not w.loop.errors, 'no error in the loop')


# ------------------------------------------------------------------ C11

@harness('C11', 'period symbolic (1..5, or halves), k timeouts each served '
         'with a symbolic lateness 0..12, sensor updates in between',
         quick=[{'k': 4}], thorough=[{'k': 6}],
         covers=['on-time', 'late', 'float'])
def periodic(ctx, k):
    if ctx.choice('ptype', ['int', 'float']) == 'int':
        period = ctx.int('period', 1, 5)
    else:
        period = ctx.float('period', 0.5, 3, 1)
        ctx.cover('float')
    w = World(ctx, 'period', [period])
    t0 = w.loop.now
    w.strategy.start()
    ctx.check(not w.informs, 'nothing sent before the loop runs')
    w.loop.settle()
    ctx.check(len(w.informs) == 1, 'the first reading is sent at once')
    ctx.check(w.informs[0][0] == t0, 'at the start')
    on_time = True
    for i in range(k):
        n = len(w.informs)
        nd = w.loop.next_deadline()
        ctx.check(nd is not None and len(w.loop.timers) == 1,
                  'the next reading is scheduled')
        if on_time:
            ctx.check(nd == t0 + period * (i + 1), 'readings are taken at '
                      'multiples of the period from the start')
        ctx.check(nd <= w.loop.now + period, 'never further than a period off')
        ctx.check(nd >= w.loop.now, 'no burst to catch up')
        if ctx.choice('update%d' % i, [False, True]) if i < 2 else True:
            w.set(i, Sensor.NOMINAL, ctx.int('value%d' % i, -3, 3))
            w.loop.settle()
            ctx.check(len(w.informs) == n, 'updates are not sent by themselves')
        late = ctx.int('late%d' % i, 0, 12)
        # not one moment before
        w.loop.now = nd - 0.25
        w.loop.settle()
        ctx.check(len(w.informs) == n, 'nothing is sent early')
        w.loop.now = nd + late
        if late > 0:
            on_time = False
            ctx.cover('late')
        w.loop.settle()
        if late != period:
            # (two when the next one has become due exactly now)
            ctx.check(len(w.informs) == n + 1, 'exactly one reading per period')
        same(ctx, w.informs[-1][1], w.sensor.read(), 'the current reading')
        ctx.check(len(w.informs) <= n + 2, 'no burst')
    if on_time:
        ctx.cover('on-time')
    ctx.observe('n', len(w.informs))
    ctx.check(not w.loop.errors, 'no error in the loop')


# ------------------------------------------------------------------ C12

ALL = [('auto', []), ('event', []), ('differential', [1]), ('period', [2]),
       ('event-rate', [2, 5]), ('differential-rate', [1, 2, 5]), ('none', []),
       ('event-rate', [2, 1e99]), ('differential-rate', [1, 2, 1e99])]


@harness('C12', 'each strategy cancelled at any of the points: right after '
         'start, after a symbolic run of k updates and delays, with timeouts '
         'due or queued updates pending; then k more updates (loop or other '
         'thread) and delays', quick=[{'k': 2, 'which': [0, 1, 3, 4, 6]},
                                      {'k': 1, 'which': [2, 5, 8]},
                                      {'k': 1, 'which': [7]}],
         thorough=[{'k': 2, 'which': [2, 5]}, {'k': 3, 'which': [1, 3, 4]}],
         covers=[n for n, _ in ALL[:7]] + ['unstarted', 'started'])
def cancellation(ctx, k, which):
    kind, params = ctx.choice('kind', [ALL[i] for i in which])
    w = World(ctx, kind, params)
    w.strategy.start()
    ctx.cover(kind)
    run = ctx.choice('started', [False, True])
    ctx.cover('started' if run else 'unstarted')
    if run:
        w.loop.settle()
        for i in range(k):
            w.advance(ctx.int('d%d' % i, 0, 4))
            how = ctx.choice('how%d' % i, ['late', 'on-time', 'queued'])
            if how == 'queued':
                w.set_from_thread(*draw_reading(ctx, i, 'integer'))
                continue
            if how == 'on-time':
                w.loop.settle()
            w.set(*draw_reading(ctx, i, 'integer'))
    by = ctx.choice('cancelled_by', ['loop', 'thread'])
    n = len(w.informs)
    if by == 'thread':
        w.thread = OTHER_THREAD
    w.strategy.cancel()
    w.thread = LOOP_THREAD
    for i in range(k):
        w.advance(ctx.int('e%d' % i, 0, 8))
        if ctx.choice('after%d' % i, [False, True]):
            w.set(*draw_reading(ctx, 10 + i, 'integer'))
        else:
            w.set_from_thread(*draw_reading(ctx, 10 + i, 'integer'))
        w.loop.settle()
        ctx.check(not w.loop.timers, 'no timeout is left')
    w.advance(20)
    w.loop.settle()
    ctx.check(len(w.informs) == n, 'nothing is sent after cancelling')
    ctx.check(not w.loop.timers, 'no timeout is left')
    ctx.check(w.strategy not in getattr(w.sensor, '_observers', ()), 'detached')
    ctx.check(not w.loop.errors, 'no error in the loop')


@harness('C12', 'two strategies on one sensor, one of them cancelled, k '
         'updates with symbolic readings', quick=[{'k': 2}],
         thorough=[{'k': 3}], covers=['both'])
def independence(ctx, k):
    kind, params = ctx.choice('kind', ALL[:6])
    w = World(ctx, 'auto', [])
    w.strategy.start()
    other = SampleStrategy.get_strategy(kind, lambda s, r: None, w.sensor,
                                        *params, ioloop=w.loop)
    other.start()
    w.loop.settle()
    n = len(w.informs)
    for i in range(k):
        w.advance(ctx.int('d%d' % i, 0, 4))
        if i == 1:
            other.cancel()
        r = draw_reading(ctx, i, 'integer')
        w.set(*r)
        w.loop.settle()
        ctx.check(len(w.informs) == n + i + 1, 'the other goes on')
        same(ctx, w.informs[-1][1], r, 'reading')
    ctx.cover('both')


# ------------------------------------------------------------------ C13

@harness('C13', 'every strategy name with 0..3 parameters; integers |p| <= 5, '
         'float halves, or their wire texts; integer, float, timestamp and '
         'string sensors', quick=[{}],
         covers=['accepted', 'refused', 'unknown'])
def parameters(ctx):
    names = ['none', 'auto', 'event', 'differential', 'period', 'event-rate',
             'differential-rate', 'bogus']
    name = ctx.choice('name', names)
    as_bytes = ctx.choice('as_bytes', [False, True])
    stype = ctx.choice('stype', ['integer', 'float', 'timestamp', 'string'])
    nums = []
    np_ = ctx.choice('nparams', [0, 1, 2, 3])
    ptype = ctx.choice('ptype', ['int', 'float'])
    for i in range(np_):
        if ptype == 'int':
            nums.append(ctx.int('p%d' % i, -5, 5))
        else:
            nums.append(ctx.float('p%d' % i, -3, 3, 1))
    wire = ctx.choice('wire', [False, True])
    params = list(nums)
    if wire:
        params = [b'%d' % p if ptype == 'int' else b'%r' % p for p in nums]
    mk = {'integer': Sensor.INTEGER, 'float': Sensor.FLOAT,
          'string': Sensor.STRING, 'timestamp': Sensor.TIMESTAMP}[stype]
    sensor = Sensor(mk, 's', 'd', '')
    need = {'none': 0, 'auto': 0, 'event': 0, 'differential': 1, 'period': 1,
            'event-rate': 2, 'differential-rate': 3, 'bogus': 9}[name]
    ok = np_ == need
    if ok and name == 'differential':
        ok = stype != 'string' and nums[0] > 0
        if stype == 'integer' and ptype == 'float':
            if wire:
                ok = False
            else:
                ok = ok and nums[0] >= 1
    elif ok and name == 'period':
        ok = nums[0] > 0
    elif ok and name == 'event-rate':
        ok = 0 <= nums[0] and nums[0] <= nums[1]
    elif ok and name == 'differential-rate':
        ok = (stype in ('integer', 'float') and nums[0] > 0 and 0 <= nums[1]
              and nums[1] <= nums[2])
        if stype == 'integer' and ptype == 'float':
            if wire:
                ok = False
            else:
                ok = ok and nums[0] >= 1
    arg = name.encode('ascii') if as_bytes else name
    try:
        s = SampleStrategy.get_strategy(arg, lambda *a: None, sensor, *params,
                                        ioloop=SimLoop())
    except ValueError:
        ctx.check(not ok, 'valid parameters are accepted')
        ctx.cover('unknown' if name == 'bogus' else 'refused')
        return
    ctx.check(ok, 'invalid parameters are refused')
    got_name, got_params = s.get_sampling_formatted()
    ctx.check(got_name == name.encode('ascii'), 'strategy name reported')
    ctx.check(len(got_params) == np_, 'parameters reported')
    for g, p in zip(got_params, nums):
        if ptype == 'int':
            ctx.check(int(g) == p, 'parameter value reported')
        else:
            ctx.check(float(g) == p, 'parameter value reported')
    ctx.cover('accepted')


SPECIAL = ['nan', 'inf', '-inf', '', ' ', 'x', 'NaN', '-nan', '1e400',
           '0x10', '1 2', '\xff']


@harness('C13', 'as above, with one parameter that is no finite number (NaN, '
         'an infinity or another text) and the others symbolic; on integer, '
         'float, timestamp and string sensors',
         quick=[{}], covers=['accepted', 'refused'])
def special_parameters(ctx):
    name = ctx.choice('name', ['differential', 'period', 'event-rate',
                               'differential-rate'])
    stype = ctx.choice('stype', ['integer', 'float', 'timestamp', 'string'])
    need = {'differential': 1, 'period': 1, 'event-rate': 2,
            'differential-rate': 3}[name]
    at = ctx.choice('at', list(range(need)))
    text = ctx.choice('text', SPECIAL)
    params, values = [], []
    for i in range(need):
        if i == at:
            params.append(text.encode('latin-1'))
            try:
                values.append(float(text))
            except ValueError:
                values.append(None)
        else:
            v = ctx.int('p%d' % i, -2, 5)
            params.append(b'%d' % v)
            values.append(v)
    v = values[at]
    ok = v is not None and v == v
    if ok:
        # Now an infinity
        if name == 'differential':
            ok = stype in ('float', 'timestamp') and v > 0
        elif name == 'period':
            ok = v > 0
        else:
            short, long_ = values[-2:]
            ok = 0 <= short and short <= long_
            if name == 'differential-rate':
                ok = ok and values[0] > 0 and (
                    stype == 'float' or (stype == 'integer' and at > 0))
    mk = {'integer': Sensor.INTEGER, 'float': Sensor.FLOAT,
          'string': Sensor.STRING, 'timestamp': Sensor.TIMESTAMP}[stype]
    sensor = Sensor(mk, 's', 'd', '')
    try:
        s = SampleStrategy.get_strategy(name, lambda *a: None, sensor, *params,
                                        ioloop=SimLoop())
    except ValueError:
        ctx.check(not ok, 'valid parameters are accepted')
        ctx.cover('refused')
        return
    ctx.check(ok, 'invalid parameters are refused')
    ctx.check(s.get_sampling_formatted()[1] == params, 'parameters reported')
    ctx.cover('accepted')


assume_note('C09', 'IOLoop replaced by a FIFO/deadline model with a symbolic '
            'non-decreasing clock; thread switches at sensor reads and at '
            'loop iterations')
assume_note('C10', 'as C09; times and periods are whole numbers in the stated '
            'range')
assume_note('C11', 'as C09')
assume_note('C12', 'as C09')
