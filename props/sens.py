"""Sensor objects: readings, observers, formatting."""
from katcp.core import KatcpSyntaxError, KatcpTypeError, Sensor
from props.simloop import Preempt, SimLoop, as_thread, install_env
from symkat.harness import assume_note, harness


class Obs(object):
    def __init__(self):
        self.seen = []

    def update(self, sensor, reading):
        self.seen.append((sensor, reading))


STATUSES = [Sensor.UNKNOWN, Sensor.NOMINAL, Sensor.WARN, Sensor.ERROR,
            Sensor.FAILURE, Sensor.UNREACHABLE, Sensor.INACTIVE]
STATUS_TEXT = [b'unknown', b'nominal', b'warn', b'error', b'failure',
               b'unreachable', b'inactive']


def same(a, b):
    return a[0] == b[0] and a[1] == b[1] and a[2] == b[2]


@harness('C16', 'k operations on an integer or discrete sensor: set, '
         'set_value with a suitable or (discrete) unknown value, set_formatted with '
         'well or badly formed parts, attach, detach (two observers)',
         quick=[{'k': 3}], thorough=[{'k': 4}],
         covers=['accepted', 'refused', 'notified', 'detached'])
def updates(ctx, k):
    loop = install_env(SimLoop(500))
    kind = ctx.choice('kind', ['int', 'discrete'])
    if kind == 'int':
        s = Sensor.integer('x', 'd', 'u', [2, 9])
        cur = (500, Sensor.UNKNOWN, 2)
    else:
        s = Sensor.discrete('x', 'd', 'u', ['on', 'off'])
        cur = (500, Sensor.UNKNOWN, 'on')
    obs = [Obs(), Obs()]
    attached = [True, False]
    s.attach(obs[0])
    want = [[], []]
    ctx.check(same(s.read(), cur), 'initial reading')
    for i in range(k):
        op = ctx.choice('op%d' % i, [
            'set', 'set_value', 'formatted', 'bad-value', 'bad-status',
            'bad-time', 'attach', 'detach'] + (
                ['set_value-bad'] if kind == 'discrete' else []))
        st = (ctx.choice('status%d' % i, STATUSES[1:4])
              if op == 'formatted' else Sensor.ERROR)
        if op in ('attach', 'detach'):
            v = None
        elif kind == 'int':
            v = ctx.int('v%d' % i, 0, 9)
            text, badv, badtext = b'%d' % v, 'seven', b'1.5'
        else:
            v = ctx.choice('v%d' % i, ['on', 'off'])
            text, badv, badtext = v.encode(), 'maybe', b'maybe'
        t = 600 + i
        new = None
        if op == 'attach':
            j = ctx.choice('who%d' % i, [0, 1])
            s.attach(obs[j])
            attached[j] = True
            continue
        if op == 'detach':
            j = ctx.choice('who%d' % i, [0, 1])
            s.detach(obs[j])
            attached[j] = False
            ctx.cover('detached')
            continue
        loop.now = t
        try:
            if op == 'set':
                s.set(t, st, v)
            elif op == 'set_value':
                s.set_value(v, st)
            elif op == 'set_value-bad':
                s.set_value(badv, st)
            elif op == 'formatted':
                s.set_formatted(b'%d.0' % t, STATUS_TEXT[st], text)
            elif op == 'bad-value':
                s.set_formatted(b'%d.0' % t, STATUS_TEXT[st], badtext)
            elif op == 'bad-status':
                s.set_formatted(b'%d.0' % t, b'fine', text)
            else:
                s.set_formatted(b'now', STATUS_TEXT[st], text)
        except (ValueError, KeyError, TypeError):
            ctx.check(op in ('set_value-bad', 'bad-value', 'bad-status',
                             'bad-time'), 'suitable updates are accepted')
            ctx.cover('refused')
        else:
            ctx.check(op in ('set', 'set_value', 'formatted'),
                      'unsuitable updates are refused')
            cur = (t, st, v)
            for j in (0, 1):
                if attached[j]:
                    want[j].append(cur)
                    ctx.cover('notified')
            ctx.cover('accepted')
        ctx.check(same(s.read(), cur), 'the reading is the last one accepted')
        ctx.check(s.value() == cur[2] and s.status() == cur[1], 'all of it')
        for j in (0, 1):
            ctx.check(len(obs[j].seen) == len(want[j]),
                      'each observer attached is notified once per update')
            for (ss, r), x in zip(obs[j].seen, want[j]):
                ctx.check(ss is s and same(r, x), 'with the reading set')


def make(ctx, kind, name, vmax):
    if kind == 'integer':
        return Sensor.integer(name), ctx.int('v', -1000, 1000)
    if kind == 'float':
        return Sensor.float(name), ctx.int('v', -4000, 4000) / 8.0
    if kind == 'boolean':
        return Sensor.boolean(name), ctx.choice('v', [True, False])
    if kind == 'discrete':
        return (Sensor.discrete(name, params=['on', u'\xe9t\xe9', 'o n']),
                ctx.choice('v', ['on', u'\xe9t\xe9', 'o n']))
    if kind == 'lru':
        return Sensor.lru(name), ctx.choice('v', [Sensor.LRU_NOMINAL,
                                                  Sensor.LRU_ERROR])
    if kind == 'string':
        return Sensor.string(name), ctx.text('v', 1, 0, 0x10ffff)
    if kind == 'timestamp':
        return Sensor.timestamp(name), ctx.int('v', 0, vmax) / 8.0
    return Sensor.address(name), (ctx.choice('host', ['10.0.0.1', '::1', '']),
                                  ctx.int('port', 1, 65535))


KINDS = ['integer', 'float', 'boolean', 'discrete', 'lru', 'string',
         'timestamp', 'address']


@harness('C16', 'every type with a symbolic value, each status, timestamps up '
         'to tmax eighths of a second, KATCP 4 and 5: set_value, read_formatted, '
         'set_formatted of another sensor', quick=[{'tmax': 200}],
         thorough=[{'tmax': 2000}], covers=['roundtrip'])
def formatted(ctx, tmax):
    install_env(SimLoop(500))
    kind = ctx.choice('kind', KINDS)
    major = ctx.choice('major', [4, 5])
    a, v = make(ctx, kind, 'a', tmax)
    b = Sensor(Sensor.SENSOR_TYPE_LOOKUP[a.stype], 'b', params=a.params)
    ctx.check(a.stype == kind and Sensor.parse_type(kind) == Sensor.parse_type(
        b.stype), 'type names')
    if kind == 'boolean':
        st = ctx.choice('status', STATUSES)
        t = ctx.int('t', 0, tmax) / 8.0
    else:
        st, t = Sensor.WARN, 1234.125
    o = Obs()
    b.attach(o)
    a.set_value(v, st, t, major)
    raw = a.read_formatted(major)
    ctx.check(raw[1] == STATUS_TEXT[st], 'status text')
    for x in raw:
        ctx.check(isinstance(x, bytes), 'bytes')
    b.set_formatted(*raw, major=major)
    r = b.read()
    ctx.check(r[0] == t, 'the timestamp survives')
    ctx.check(r[1] == st, 'the status survives')
    if kind == 'lru' or kind == 'boolean':
        ctx.check(r[2] is v or r[2] == v, 'the value survives')
    else:
        ctx.check(r[2] == v, 'the value survives')
    ctx.check(len(o.seen) == 1, 'observers are notified')
    if kind != 'float':
        ctx.check(b.read_formatted(major) == raw, 'formatted alike')
    ctx.cover('roundtrip')


@harness('C16', 'integer sensors with symbolic limits and optional default; '
         'parameters formatted and parsed; discrete parameters',
         quick=[{}], covers=['limits', 'clamped', 'none'])
def parameters(ctx):
    install_env(SimLoop(500))
    kind = ctx.choice('kind', ['integer', 'float', 'discrete', 'none'])
    if kind == 'discrete':
        p = ['b', u'\xe9', '']
        s = Sensor.discrete('x', params=p)
        ctx.check(s.formatted_params == [b'b', u'\xe9'.encode('utf-8'), b''],
                  'formatted')
        ctx.check(Sensor.parse_params(Sensor.DISCRETE, s.formatted_params) == p,
                  'parsed')
        ctx.check(s.value() == 'b', 'the first is the default')
        return
    cls = Sensor.float if kind == 'float' else Sensor.integer
    if kind == 'none':
        s = cls('x')
        ctx.check(s.formatted_params == [] and s.value() == 0, 'no limits')
        ctx.cover('none')
        return
    lo, hi = ctx.int('lo', -30, 30), ctx.int('hi', -30, 30)
    ctx.assume(lo <= hi)
    if kind == 'float':
        lo, hi = lo / 2.0, hi / 2.0
    default = ctx.choice('default', [None, 1])
    s = cls('x', params=[lo, hi], default=default)
    code = Sensor.FLOAT if kind == 'float' else Sensor.INTEGER
    got = Sensor.parse_params(code, s.formatted_params)
    ctx.check(len(got) == 2 and got[0] == lo and got[1] == hi,
              'the limits survive')
    v = s.value()
    if default is not None:
        ctx.check(v == 1, 'the default given')
    else:
        ctx.check(v >= lo and v <= hi, 'the default is within the limits')
        if lo > 0 or hi < 0:
            ctx.cover('clamped')
    ctx.cover('limits')


@harness('C16', 'a reader (read, value/status, read_formatted) interrupted at '
         'one arbitrary line by a writer in another thread, or a writer (set, '
         'set_value, set_formatted) interrupted by a reader',
         quick=[{}], covers=['old', 'new', 'beyond'])
def threads(ctx):
    install_env(SimLoop(500))
    s = Sensor.integer('x')
    s.set(100, Sensor.WARN, 1)
    how = ctx.choice('write', ['set', 'set_value', 'formatted'])
    read = ctx.choice('read', ['read', 'formatted'])
    seen = []
    o = Obs()
    s.attach(o)

    def write():
        if how == 'set':
            s.set(200, Sensor.ERROR, 2)
        elif how == 'set_value':
            s.set_value(2, Sensor.ERROR, 200)
        else:
            s.set_formatted(b'200', b'error', b'2')

    def look():
        if read == 'read':
            t, st, v = s.read()
            seen.append((b'%d' % t, STATUS_TEXT[st], b'%d' % v))
        else:
            t, st, v = s.read_formatted()
            seen.append((t.split(b'.')[0], st, v))
    first, second = (write, look) if ctx.choice('who', [True, False]) else (
        look, write)
    p = Preempt(int(ctx.int('line', 0, 60)), lambda: run_other(second))
    with p:
        first()
    if not p.fired:
        second()
        ctx.cover('beyond')
    for r in seen:
        if r == (b'100', b'warn', b'1'):
            ctx.cover('old')
        else:
            ctx.check(r == (b'200', b'error', b'2'),
                      'a reading is never a mixture of two updates')
            ctx.cover('new')
    ctx.check(len(seen) == 1 and len(o.seen) == 1, 'both ran')
    ctx.check(same(o.seen[0][1], (200, Sensor.ERROR, 2)),
              'the observer gets the update')
    ctx.check(same(s.read(), (200, Sensor.ERROR, 2)), 'the final reading')


@harness('C16', 'a thread sets the sensor (in three ways) while, at an '
         'arbitrary line, another one sets it too', quick=[{}],
         covers=['between', 'after'])
def two_writers(ctx):
    install_env(SimLoop(500))
    s = Sensor.integer('x')
    obs = [Obs(), Obs()]
    for o in obs:
        s.attach(o)
    a, b = (200, Sensor.ERROR, 2), (300, Sensor.WARN, 3)

    def write(r, how):
        if how == 'set':
            s.set(*r)
        elif how == 'set_value':
            s.set_value(r[2], r[1], r[0])
        else:
            s.set_formatted(b'%d' % r[0], STATUS_TEXT[r[1]], b'%d' % r[2])
    how = ctx.choice('how', ['set', 'set_value', 'formatted'])
    p = Preempt(int(ctx.int('line', 0, 60)),
                lambda: run_other(lambda: write(b, 'set')))
    with p:
        write(a, how)
    if not p.fired:
        write(b, 'set')
        ctx.cover('after')
    else:
        ctx.cover('between')
    for o in obs:
        ctx.check(len(o.seen) == 2, 'told of each update once')
        ctx.check(any(same(r[1], a) for r in o.seen)
                  and any(same(r[1], b) for r in o.seen), 'with its reading')
    ctx.check(same(s.read(), a) or same(s.read(), b), 'a whole reading')
    ctx.check(same(s.read(), b) or p.fired, 'the final reading')


def run_other(fn):
    with as_thread(2):
        fn()


assume_note('C16', 'at most one thread switch, at a line boundary of katcp '
            'code; the interrupting thread runs its operation to the end')
