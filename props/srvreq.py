"""Device server: standard requests, protocol flags, logging, mass informs."""
import re

from katcp.core import (FailReply, Message, MessageParser, ProtocolFlags,
                        Sensor)
from katcp.kattypes import (Str, has_katcp_protocol_flags,
                            minimum_katcp_version, request,
                            request_timeout_hint, return_reply)
from props.simloop import Preempt, as_thread
from props.simserver import HANDLER, LOOP, OTHER, ServerWorld
from props.srv import BASE_CLIENT_NOTE, Dev, Life
from symkat.harness import assume_note, harness
from symkat.harness import prop as _prop


def ask(w, s, data):
    """Send a request, return (informs, reply, everything else)."""
    s.feed(data)
    w.settle()
    out = s.take()
    mine = [m for m in out if m.mid == b'1']
    rest = [m for m in out if m.mid != b'1']
    return mine[:-1], mine[-1], rest


def quiet(ctx, w):
    ctx.check(not w.loop.errors, 'no error escapes into the ioloop')


def name_of(arg):
    """The text of a name argument, or None if it is not UTF-8."""
    try:
        return arg.decode('utf-8')
    except UnicodeDecodeError:
        return None


# ------------------------------------------------------------------ C21

NAMES = ['b', 'a', 'a.b', 'ab', 'b-1', '/']


class Many(Life):
    vals = None

    def setup_sensors(self):
        super(Many, self).setup_sensors()
        self.remove = []
        self.add_sensor(Sensor.integer('b', 'B', 'm', [-5, 50]))
        self.add_sensor(Sensor.boolean('a', 'A sensor', ''))
        self.add_sensor(Sensor.discrete('a.b', 'dots', 'x', ['on', 'off']))
        self.add_sensor(Sensor.string('ab', '', ''))
        self.add_sensor(Sensor.integer('b-1', 'm one', 'u', None))
        self.add_sensor(Sensor.integer('/', 'slash', 'u', [0, 1]))
        self.extra_versions = {'z-role': ('zv', None), 'a-role': ('av', 'ab')}


class Many4(Many):
    PROTOCOL_INFO = ProtocolFlags(4, 0, set([ProtocolFlags.MULTI_CLIENT]))


LISTING = {
    'a': [b'A sensor', b'', b'boolean'],
    'a.b': [b'dots', b'x', b'discrete', b'on', b'off'],
    'a.sensor': [b'desc', b'', b'integer', b'0', b'5'],
    'ab': [b'', b'', b'string'],
    'b': [b'B', b'm', b'integer', b'-5', b'50'],
    'b-1': [b'm one', b'u', b'integer'],
    '/': [b'slash', b'u', b'integer', b'0', b'1']}

PATTERNS = [None, '/a/', '/^a$/', '//', '/', '/b|sensor/', r'/\./', '/x/',
            '/(/', '/[ab]$/', '/A/', '/^/', 'a.', '/a']


def matching(pattern, exact_names):
    """Reference: sorted names selected, None if an error must be reported."""
    if pattern is None:
        return sorted(exact_names)
    if pattern[:1] == '/' and pattern[-1:] == '/':
        try:
            r = re.compile(pattern[1:-1])
        except re.error:
            return None
        return sorted(n for n in exact_names if r.search(n))
    out = [n for n in exact_names if n == pattern]
    return out or None


def check_listing(ctx, w, s, req, want, arg, major):
    line = b'?sensor-' + req + b'[1]'
    if arg is not None:
        line += b' ' + bytes(Message.request('x', arg)).split(b' ', 1)[1]
    infs, rep, rest = ask(w, s, line + b'\n')
    name = 'sensor-' + req.decode()
    ctx.check(not rest, 'nothing else is sent')
    ctx.check(rep.mtype == Message.REPLY and rep.name == name, 'a reply')
    if want is None:
        ctx.check(rep.arguments[0] == b'fail', 'an error is reported')
        ctx.check(not infs, 'without informs')
        ctx.cover('fail')
        return
    ctx.check(rep.arguments == [b'ok', b'%d' % len(want)],
              'the number of informs')
    ctx.check(len(infs) == len(want), 'one inform per selected sensor')
    for m, n in zip(infs, want):
        ctx.check(m.mtype == Message.INFORM and m.name == name,
                  'informs of the request')
        if req == b'list':
            ctx.check(m.arguments == [n.encode()] + LISTING[n],
                      'name, description, units, type and parameters')
        else:
            ts, st, val = w.device.vals.get(
                n, (None, b'unknown', None))
            a = m.arguments
            ctx.check(len(a) == 5 and a[1] == b'1' and a[2] == n.encode()
                      and a[3] == st, 'count, name and status')
            if ts is not None:
                ctx.check(a[0] == (b'%d.000000' % ts if major > 4
                                   else b'%d' % (ts * 1000)), 'timestamp')
                ctx.check(a[4] == val, 'value')
    ctx.cover('some' if want else 'none')


def set_values(ctx, dev):
    n = ctx.int('value', -5, 50)
    t = ctx.int('t', 0, 2000)
    dev.get_sensor('b').set(t, Sensor.WARN, n)
    dev.get_sensor('a').set(7, Sensor.NOMINAL, True)
    dev.get_sensor('a.b').set(8, Sensor.ERROR, 'off')
    dev.get_sensor('ab').set(9, Sensor.FAILURE, 'x y')
    dev.vals = {'b': (t, b'warn', b'%d' % n), 'a': (7, b'nominal', b'1'),
                'a.b': (8, b'error', b'off'), 'ab': (9, b'failure', b'x y')}


@harness('C21', '?sensor-list and ?sensor-value on 7 sensors with a name of n '
         'arbitrary bytes (not of the form /.../ if n > 2); KATCP 4 and 5; '
         'symbolic value and timestamp of one sensor',
         quick=[{'n': 1}], thorough=[{'n': 2}], covers=['fail', 'some'])
def sensor_names(ctx, n):
    cls = ctx.choice('class', [Many, Many4])
    w = ServerWorld(ctx, cls)
    s = w.connect()
    s.take()
    set_values(ctx, w.device)
    arg = ctx.bytes('arg', n)
    text = name_of(arg)
    want = None if text is None else matching(text, list(LISTING))
    check_listing(ctx, w, s, ctx.choice('req', [b'list', b'value']), want,
                  arg, 5 if cls is Many else 4)
    quiet(ctx, w)


@harness('C21', '?sensor-list and ?sensor-value with no name or one of %d '
         'patterns; optionally after a sensor was removed, at run time or '
         'before the start' % len(PATTERNS),
         quick=[{}], covers=['fail', 'some', 'none', 'removed'])
def sensor_patterns(ctx):
    cls = ctx.choice('class', [Many, Many4])
    gone = ctx.choice('remove', [None, 'a', 'a.sensor'])
    early = gone and ctx.choice('early', [False, True])

    class Device(cls):
        def setup_sensors(self):
            super(Device, self).setup_sensors()
            if early:
                self.remove_sensor(gone)

    w = ServerWorld(ctx, Device, thread_safe=ctx.choice('ts', [False, True]))
    s = w.connect()
    s.take()
    w.device.vals = {}
    if not early:
        set_values(ctx, w.device)
    names = list(LISTING)
    if gone:
        if not early:
            w.device.remove_sensor(gone)
            w.settle()
        names.remove(gone)
        ctx.check(not w.device.has_sensor(gone), 'the sensor is gone')
        ctx.cover('removed')
    pattern = ctx.choice('pattern', PATTERNS)
    want = matching(pattern, names)
    check_listing(ctx, w, s, ctx.choice('req', [b'list', b'value']), want,
                  pattern, 5 if cls is Many else 4)
    quiet(ctx, w)


class Helpful(Dev):
    PROTOCOL_INFO = ProtocolFlags(5, 1, set([
        ProtocolFlags.MULTI_CLIENT, ProtocolFlags.MESSAGE_IDS,
        ProtocolFlags.REQUEST_TIMEOUT_HINTS]))

    @request_timeout_hint(25)
    def request_slow_one(self, req, msg):
        """ Slow. """
        return req.make_reply('ok')

    @request_timeout_hint(0.5)
    @request(Str())
    @return_reply(Str())
    def request_half(self, req, s):
        """Half."""
        return ('ok', s)


STD = ['client-list', 'halt', 'help', 'log-level', 'restart', 'sensor-list',
       'sensor-sampling', 'sensor-sampling-clear', 'sensor-value',
       'version-list', 'watchdog', 'request-timeout-hint']
HAVE = sorted(STD + ['a', 'end', 'slow-one', 'half'])


@harness('C21', '?help, ?request-timeout-hint with no argument, a known name '
         'or a name with n arbitrary bytes, ?version-list, ?watchdog',
         quick=[{'n': 1}], thorough=[{'n': 2}],
         covers=['all', 'one', 'unknown', 'hints', 'hint', 'versions'])
def introspection(ctx, n):
    w = ServerWorld(ctx, Helpful)
    s = w.connect()
    s.take()
    req = ctx.choice('req', ['help', 'request-timeout-hint', 'version-list',
                             'watchdog'])
    line = b'?' + req.encode() + b'[1]'
    if req == 'version-list':
        w.device.extra_versions = {'z': ('zv', None), 'y': ('yv', 'ys')}
        for again in (False, True):
            if not again:
                w.device.VERSION_INFO = ('dev', 1, 2)
            else:
                # the dictionary may be edited, and the device updated
                w.device.extra_versions['x'] = ('xv', 'xv')
                w.device.extra_versions['w'] = ('wv', '')
                del w.device.extra_versions['z']
                w.device.VERSION_INFO = ('other', 3, 4)
            infs, rep, rest = ask(w, s, line + b'\n')
            ctx.check([m.arguments[0] for m in infs[:3]] == [
                b'katcp-protocol', b'katcp-library', b'katcp-device'],
                'the standard roles')
            ctx.check(infs[0].arguments[1:] == [b'5.1-IMT'],
                      'protocol version')
            ctx.check(infs[2].arguments[1] ==
                      (b'other-3.4' if again else b'dev-1.2'),
                      'device version')
            ctx.check([m.arguments for m in infs[3:]] == (
                [[b'w', b'wv', b''], [b'x', b'xv', b'xv'],
                 [b'y', b'yv', b'ys']] if again else
                [[b'y', b'yv', b'ys'], [b'z', b'zv']]),
                'extra versions with their build states')
            ctx.check(rep.arguments == [b'ok', b'%d' % len(infs)],
                      'and their number')
            ctx.check(not rest, 'nothing else')
        ctx.cover('versions')
        return
    if req == 'watchdog':
        infs, rep, rest = ask(w, s, line + b'\n')
        ctx.check(not infs and not rest and rep.arguments == [b'ok'], 'alive')
        return
    how = ctx.choice('how', ['none', 'known', 'any'])
    hints = {'slow-one': b'25', 'half': b'0.5'}
    if how == 'none':
        infs, rep, rest = ask(w, s, line + b'\n')
        names = [m.arguments[0].decode() for m in infs]
        ctx.check(rep.arguments == [b'ok', b'%d' % len(infs)], 'count')
        if req == 'help':
            ctx.check(names == HAVE, 'every request, by name')
            ctx.check(infs[names.index('a')].arguments == [
                b'a', b'A request.'], 'with its documentation')
            ctx.cover('all')
        else:
            ctx.check(names == ['half', 'slow-one'], 'requests with hints')
            ctx.check([float(m.arguments[1]) for m in infs] == [0.5, 25.0],
                      'and the hints')
            ctx.cover('hints')
        return
    if how == 'known':
        name = ctx.choice('name', ['slow-one', 'half', 'watchdog'])
        arg = name.encode()
    else:
        arg = ctx.bytes('arg', n)
        name = name_of(arg)
    infs, rep, rest = ask(w, s, line + b' ' + bytes(
        Message.request('x', arg)).split(b' ', 1)[1] + b'\n')
    if name is None or name not in HAVE:
        ctx.check(not infs and rep.arguments[0] == b'fail', 'unknown')
        ctx.cover('unknown')
        return
    ctx.check(rep.arguments == [b'ok', b'1'] and len(infs) == 1, 'one inform')
    ctx.check(infs[0].arguments[0] == arg, 'for the request named')
    if req == 'help':
        ctx.cover('one')
    else:
        ctx.check(float(infs[0].arguments[1]) == float(hints.get(name, 0)),
                  'its hint, 0 if it has none')
        ctx.cover('hint')
    quiet(ctx, w)


# ------------------------------------------------------------------ C22

class Sampled(Life):
    PROTOCOL_INFO = ProtocolFlags(5, 1, set([
        ProtocolFlags.MULTI_CLIENT, ProtocolFlags.MESSAGE_IDS,
        ProtocolFlags.BULK_SET_SENSOR_SAMPLING]))

    def setup_sensors(self):
        super(Sampled, self).setup_sensors()
        self.add_sensor(Sensor.integer('x', '', '', [0, 100]))
        self.add_sensor(Sensor.boolean('y', '', ''))


class Sampled5(Sampled):
    PROTOCOL_INFO = ProtocolFlags(5, 0, set([
        ProtocolFlags.MULTI_CLIENT, ProtocolFlags.MESSAGE_IDS]))


class Sampled4(Sampled):
    PROTOCOL_INFO = ProtocolFlags(4, 0, set([ProtocolFlags.MULTI_CLIENT]))


# (names, strategy arguments, formatted reply or None if it must fail)
SET = [
    ('x', ['event'], ['event']),
    ('x', ['none'], ['none']),
    ('x', ['auto'], ['auto']),
    ('x', ['differential', '3'], ['differential', '3']),
    ('x', ['event-rate', '1', '10'], ['event-rate', '1', '10']),
    ('y', ['event'], ['event']),
    ('y', ['none'], ['none']),
    ('y', ['differential', '3'], None),
    ('x', ['bogus'], None),
    ('x', ['event', '1'], None),
    ('x', ['period'], None),
    ('x', ['period', '-1'], None),
    ('x', ['event-rate', '2', '1'], None),
    ('nosuch', ['event'], None),
    ('x,y', ['event'], ['event']),
    ('y,x', ['none'], ['none']),
    ('x,x', ['event'], ['event']),
    ('x,nosuch', ['event'], None),
    ('x,y', ['differential', '1'], None),
    ('x,y', [], None),
    ('nosuch', [], None),
    ('x', [], 'query'),
    ('y', [], 'query'),
    ('', None, 'clear'),
]


def request_line(name, args):
    return bytes(Message.request(name, *args, mid=1)) + b'\n'


@harness('C22', 'k requests (each one of %d settings, queries, bulk settings, '
         'clear) from one of two clients, KATCP 5.1 with bulk setting; after '
         'each, all sensors are queried by both clients; then both sensors '
         'change' % len(SET), quick=[{'k': 2}], thorough=[{'k': 3}],
         covers=['set', 'refused', 'bulk', 'cleared', 'sampled', 'silent'])
def sampling_requests(ctx, k):
    w = ServerWorld(ctx, Sampled)
    c = [w.connect(), w.connect()]
    for s in c:
        s.take()
    state = [{'x': ['none'], 'y': ['none']} for s in c]
    sensors = dict((n, w.device.get_sensor(n)) for n in 'xy')
    sensors['x'].set(1000, Sensor.NOMINAL, 10)
    sensors['y'].set(1000, Sensor.NOMINAL, False)
    for step in range(k):
        i = ctx.choice('client%d' % step, [0, 1]) if step == 0 else 0
        names, args, want = ctx.choice('set%d' % step, SET)
        if want == 'clear':
            infs, rep, rest = ask(w, c[i], b'?sensor-sampling-clear[1]\n')
            ctx.check(rep.arguments == [b'ok'] and not infs, 'cleared')
            state[i] = {'x': ['none'], 'y': ['none']}
            ctx.cover('cleared')
        else:
            infs, rep, rest = ask(w, c[i], request_line(
                'sensor-sampling', [names] + args))
            ctx.check(not infs, 'only a reply')
            ctx.check(rep.mtype == Message.REPLY
                      and rep.name == 'sensor-sampling', 'a reply')
            if want is None:
                ctx.check(rep.arguments[0] == b'fail', 'refused')
                ctx.check(not rest, 'no update is sent')
                ctx.cover('refused')
            elif want == 'query':
                ctx.check(rep.arguments == [b'ok', names.encode()] + [
                    a.encode() for a in state[i][names]], 'the strategy set')
                ctx.check(not rest, 'no update is sent')
            else:
                ns = rep.arguments[1].decode().split(',')
                ctx.check(rep.arguments[0] == b'ok'
                          and set(ns) == set(names.split(','))
                          and rep.arguments[2:] == [a.encode() for a in want],
                          'the strategy now in force')
                upd = sorted(m.arguments[2].decode() for m in rest)
                ctx.check(all(m.name == 'sensor-status'
                              and m.mtype == Message.INFORM for m in rest),
                          'sensor updates')
                if want == ['none']:
                    ctx.check(not upd, 'no update')
                else:
                    ctx.check(upd == sorted(set(names.split(','))),
                              'one initial update per sensor')
                for n in names.split(','):
                    state[i][n] = want
                ctx.cover('set')
                if ',' in names:
                    ctx.cover('bulk')
        ctx.check(not c[1 - i].out, 'other clients are not affected')
        for j in (0, 1):
            for n in 'xy':
                infs, rep, rest = ask(w, c[j], request_line(
                    'sensor-sampling', [n]))
                ctx.check(rep.arguments == [b'ok', n.encode()] + [
                    a.encode() for a in state[j][n]],
                    'the strategy reported is the one set')
    w.loop.now = w.loop.now + 2
    sensors['x'].set(1002, Sensor.NOMINAL, 20)
    sensors['y'].set(1002, Sensor.NOMINAL, True)
    w.settle()
    for j in (0, 1):
        out = c[j].take()
        for n in 'xy':
            mine = [m for m in out if m.arguments[2] == n.encode()]
            if state[j][n] == ['none']:
                ctx.check(not mine, 'no strategy, no update')
                ctx.cover('silent')
            else:
                ctx.check(len(mine) == 1, 'one update of the change')
                ctx.check(mine[0].arguments == [
                    b'1002.000000', b'1', n.encode(), b'nominal',
                    b'20' if n == 'x' else b'1'], 'of the new reading')
                ctx.cover('sampled')
        ctx.check(len(out) == sum(1 for n in 'xy'
                                  if state[j][n] != ['none']), 'no other')
    quiet(ctx, w)


@harness('C22', 'period set and queried: each number of milliseconds in the '
         'ranges in KATCP 4, seconds in steps of 1/8 in KATCP 5',
         quick=[{'ranges': [[1, 40], [3990, 4060], [60000, 60010]]}],
         thorough=[{'ranges': [[1, 9000]]}], covers=['v4', 'v5'])
def period_units(ctx, ranges):
    cls = ctx.choice('class', [Sampled4, Sampled5])
    w = ServerWorld(ctx, cls)
    s = w.connect()
    s.take()
    sensor = w.device.get_sensor('x')
    sensor.set(1000, Sensor.NOMINAL, 10)
    if cls is Sampled4:
        p = ctx.choice('ms', [
            i for lo, hi in ranges for i in range(lo, hi + 1)])
        arg = b'%d' % p
        period = p / 1000.0
        ctx.cover('v4')
    else:
        p = ctx.choice('eighths', list(range(1, 41)))
        period = p / 8.0
        arg = ('%r' % period).encode()
        ctx.cover('v5')
    infs, rep, rest = ask(w, s, b'?sensor-sampling[1] x period ' + arg + b'\n')
    ctx.check(rep.arguments[:3] == [b'ok', b'x', b'period']
              and float(rep.arguments[3]) == float(arg),
              'the period is reported as it was set')
    infs, rep, rest2 = ask(w, s, b'?sensor-sampling[1] x\n')
    ctx.check(rep.arguments[:3] == [b'ok', b'x', b'period']
              and float(rep.arguments[3]) == float(arg),
              'and when queried')
    s.take()
    # the time of the next update is the period away
    d = w.loop.next_deadline()
    ctx.check(abs(d - (w.loop.now + period)) < 1e-6, 'in the right unit')


VERSIONED = [
    (Sampled4, 'event', 'event', True), (Sampled4, 'event-rate', '1 2', False),
    (Sampled4, 'differential-rate', '1 1 2', False),
    (Sampled5, 'event-rate', '1 2', True),
    (Sampled5, 'differential-rate', '1 1 2', True),
    (Sampled5, 'auto', '', True)]


@harness('C22', 'strategies by protocol version; bulk setting without the '
         'flag', quick=[{}], covers=['ok', 'refused', 'nobulk'])
def versions(ctx):
    cls, strategy, params, ok = ctx.choice('case', VERSIONED)
    w = ServerWorld(ctx, cls)
    s = w.connect()
    s.take()
    args = [] if strategy == 'event' else params.split()
    infs, rep, rest = ask(w, s, request_line(
        'sensor-sampling', ['x', strategy] + args))
    if ok:
        ctx.check(rep.arguments[0] == b'ok', 'allowed')
        ctx.cover('ok')
    else:
        ctx.check(rep.arguments[0] == b'fail' and not rest, 'not allowed')
        ctx.cover('refused')
    infs, rep, rest = ask(w, s, request_line(
        'sensor-sampling', ['x,y', 'event']))
    ctx.check(rep.arguments[0] == b'fail' and not rest,
              'several sensors only where the flag is set')
    ctx.cover('nobulk')
    infs, rep, rest = ask(w, s, b'?sensor-sampling[1]\n')
    ctx.check(rep.arguments[0] == b'fail', 'a sensor is needed')


@harness('C22', 'k events among: sensor set from another thread, sensor '
         'removed, client gone, request from the client; strategy event, '
         'event-rate or period', quick=[{'k': 2}], thorough=[{'k': 3}],
         covers=['update', 'removed', 'gone'])
def sampled_sensor(ctx, k):
    w = ServerWorld(ctx, Sampled, thread_safe=True)
    s, t = w.connect(), w.connect()
    s.take(), t.take()
    sensor = w.device.get_sensor('x')
    sensor.set(1000, Sensor.NOMINAL, 10)
    strategy = ctx.choice('strategy', [['event'], ['event-rate', '1', '10'],
                                       ['period', '2']])
    for x in (s, t):
        ask(w, x, request_line('sensor-sampling', ['x'] + strategy))
    removed = gone = False
    last = 10
    for step in range(k):
        ev = ctx.choice('ev%d' % step, ['set', 'remove', 'eof', 'clear'])
        if ev == 'set':
            last = 20 + step
            with as_thread(OTHER):
                sensor.set(1000 + step, Sensor.WARN, last)
        elif ev == 'remove' and not removed:
            w.device.remove_sensor('x')
            removed = True
            ctx.cover('removed')
        elif ev == 'eof':
            s.close_remote()
            gone = True
            ctx.cover('gone')
        elif ev == 'clear' and not gone:
            s.feed(b'?sensor-sampling-clear[1]\n')
            gone = True
        if ctx.choice('rest%d' % step, [True, False]):
            w.settle()
    w.settle()
    s.take(), t.take()
    for i in range(6):
        w.loop.now = w.loop.now + 2
        w.settle()
    before = t.take()
    if not removed:
        if strategy[0] != 'event':
            ctx.check(before != [], 'periodic updates go on')
            ctx.check(before[-1].arguments[4] == b'%d' % last, 'the value')
        ctx.cover('update')
    with as_thread(OTHER):
        sensor.set(3000, Sensor.NOMINAL, 77)
    w.settle()
    for i in range(6):
        w.loop.now = w.loop.now + 2
        w.settle()
    out = t.take()
    if removed:
        ctx.check(not before and not out, 'no updates of a removed sensor')
        ctx.check(not w.loop.timers, 'no timer is left')
    else:
        ctx.check(out and out[-1].arguments[4] == b'77', 'updates go on')
    if gone:
        ctx.check(not s.take(), 'no updates for a client that left or cleared')
        if strategy[0] != 'event' and not removed:
            ctx.check(len(w.loop.timers) == 1, 'its timer is cancelled')
    ctx.check(w.foreign_writes == 0, 'only the ioloop thread writes')
    quiet(ctx, w)


# ------------------------------------------------------------------ C23

LEVELS = ['all', 'trace', 'debug', 'info', 'warn', 'error', 'fatal', 'off']


class FakeLogger(object):
    """logging.Logger as used by katcp; records levels set."""

    def __init__(self):
        self.level = None
        self.records = []

    def setLevel(self, level):
        if isinstance(level, bool) or not isinstance(level, int):
            raise TypeError('Level not an integer or a valid string: %r'
                            % (level,))
        self.level = level

    def log(self, level, msg, *args, **kw):
        if not isinstance(level, int):
            raise TypeError('level must be an integer')
        self.records.append((level, msg, args))

    def debug(self, *a, **k):
        pass
    info = warn = warning = error = critical = exception = debug


class Logging(Life):
    def __init__(self, host, port):
        self.fake = FakeLogger()
        super(Logging, self).__init__(host, port, logger=self.fake)


class Logging4(Logging):
    PROTOCOL_INFO = ProtocolFlags(4, 0, set([ProtocolFlags.MULTI_CLIENT]))


@harness('C23', '?log-level with no argument, each level or n arbitrary '
         'bytes, after another level was set; then a record at each level',
         quick=[{'n': 1}], thorough=[{'n': 3}],
         covers=['ok', 'bad', 'sent', 'held'])
def log_level(ctx, n):
    w = ServerWorld(ctx, ctx.choice('class', [Logging, Logging4]))
    s = w.connect()
    s.take()
    infs, rep, rest = ask(w, s, b'?log-level[1]\n')
    ctx.check(rep.arguments == [b'ok', b'warn'], 'initially warn')
    level = 'warn'
    first = ctx.choice('first', LEVELS)
    for arg in (first.encode(), ctx.choice(
            'second', [lv.encode() for lv in LEVELS] + [None])):
        if arg is None:
            arg = ctx.bytes('arg', n)
        infs, rep, rest = ask(w, s, b'?log-level[1] ' + bytes(
            Message.request('x', arg)).split(b' ', 1)[1] + b'\n')
        known = False
        for lv in LEVELS:
            if arg == lv.encode():
                known, level = True, lv
        if known:
            ctx.check(rep.arguments == [b'ok', level.encode()],
                      'the level is set and reported')
            ctx.cover('ok')
        else:
            ctx.check(rep.arguments[0] == b'fail', 'unknown levels are refused')
            ctx.cover('bad')
        infs, rep, rest = ask(w, s, b'?log-level[1]\n')
        ctx.check(rep.arguments == [b'ok', level.encode()],
                  'the level in force is reported')
    py = w.device.fake.level
    for i, name in enumerate(LEVELS[1:-1]):
        getattr(w.device.log, name)('text %s', 'x')
        out = s.take()
        if i + 1 >= LEVELS.index(level):
            ctx.check(len(out) == 1, 'records of the level or above are sent')
            m = out[0]
            ctx.check(m.mtype == Message.INFORM and m.name == 'log'
                      and m.mid is None, 'as log informs')
            ctx.check(m.arguments[0] == name.encode() and
                      m.arguments[2:] == [b'root', b'text x'],
                      'level, logger name and text')
            ctx.cover('sent')
        else:
            ctx.check(not out, 'records below the level are not sent')
            ctx.cover('held')
    # the python logger passes on the records sent, and at least those
    for i, (lv, msg, args) in enumerate(w.device.fake.records):
        if i + 1 >= LEVELS.index(level):
            ctx.check(lv >= py, 'the python logger is set to match')
    ctx.check(len(w.device.fake.records) == 6, 'all go to the python logger')
    quiet(ctx, w)


@harness('C23', 'log informs: level, timestamp (each number of milliseconds '
         'in the ranges, or 301 us more), name, arguments that fit the format or not; KATCP 4 '
         'and 5', quick=[{'ranges': [[0, 20], [1000, 1040]]}],
         thorough=[{'ranges': [[0, 3000]]}], covers=['v4', 'v5'])
def log_inform(ctx, ranges):
    cls = ctx.choice('class', [Logging, Logging4])
    w = ServerWorld(ctx, cls)
    s, t = w.connect(), w.connect()
    s.take(), t.take()
    ms = ctx.choice('ms', [i for lo, hi in ranges
                           for i in range(lo, hi + 1)])
    ts = ms / 1000.0 + ctx.choice('us', [0, 0.000301])
    name = ctx.choice('name', [None, 'a.logger'])
    msg, args, text = ctx.choice('text', [
        ('plain', (), b'plain'), ('%s-%d', ('x', 3), b'x-3'),
        ('100%%', (), b'100%'), ('%s %s', ('one',), None),
        ('none', ('extra',), None), ('', (), b'')])
    w.device.log.error(msg, *args, timestamp=ts, name=name)
    w.settle()
    for x in (s, t):
        out = x.take()
        ctx.check(len(out) == 1, 'every client receives the record')
        a = out[0].arguments
        ctx.check(a[0] == b'error' and a[2] == (name or 'root').encode(),
                  'level and name')
        if text is not None:
            ctx.check(a[3] == text, 'text')
        else:
            ctx.check(msg.encode() in a[3], 'at least the format')
        if cls is Logging:
            ctx.check(abs(float(a[1]) - ts) < 0.000002, 'time in seconds')
            ctx.cover('v5')
        else:
            ctx.check(a[1] == b'%d' % ms, 'time in milliseconds')
            ctx.cover('v4')
    quiet(ctx, w)


# ------------------------------------------------------------------ C34

@harness('C34', 'k informs to all clients or to one, from the ioloop thread '
         'or another thread (interrupted by the ioloop thread at one '
         'arbitrary line of katcp/server.py); one of three clients may fail '
         'to receive, be closed or leave', quick=[{'k': 2}],
         thorough=[{'k': 3}], covers=['thread', 'loop', 'failing',
                                      'beyond the last line'])
def mass_informs(ctx, k):
    w = ServerWorld(ctx, Life, thread_safe=True)
    c = [w.connect() for i in range(3)]
    for x in c:
        x.take()
    trouble = ctx.choice('trouble', [None, 'write', 'eof', 'closing'])
    if trouble == 'write':
        c[1].write_error = IOError(32, 'pipe')
    elif trouble == 'eof':
        c[1].close_remote()
    elif trouble == 'closing':
        w.device.conns[1].disconnect('bye')
    what = [ctx.choice('what%d' % i, ['mass', 'one', 'conn-mass'])
            for i in range(k)]
    thread = ctx.choice('thread', [True, False])
    futures = []

    def send():
        for i, kind in enumerate(what):
            m = Message.inform('note', 'i', i)
            if kind == 'mass':
                w.device.mass_inform(m)
            elif kind == 'one':
                futures.append(w.device.conns[0].inform(m))
            else:
                futures.append(w.device.conns[2].mass_inform(m))
    if thread:
        def switch():
            with as_thread(LOOP):
                w.settle()
        p = Preempt(int(ctx.int('line', 0, 120)), switch,
                    files=['/server.py'])
        with as_thread(OTHER):
            with p:
                send()
        if not p.fired:
            ctx.cover('beyond the last line')
        ctx.cover('thread')
    else:
        send()
        ctx.cover('loop')
    w.settle()
    ctx.check(w.foreign_writes == 0, 'only the ioloop thread writes')
    for i in (0, 2):
        got = [m.arguments for m in c[i].take()]
        want = [[b'i', b'%d' % j] for j, kind in enumerate(what)
                if kind != 'one' or i == 0]
        ctx.check(got == want, 'each client receives each inform once, in '
                  'the order sent')
        ctx.check(not c[i].is_closed, 'and stays connected')
    if trouble is not None:
        ctx.cover('failing')
    for f in futures:
        ctx.check(f.done() and f.exception() is None,
                  'the futures returned resolve')
    quiet(ctx, w)


# ------------------------------------------------------------------ C08

@harness('C08', 'version strings of n arbitrary bytes alone, n - 1 inside '
         'five templates', quick=[{'n': 3}], thorough=[{'n': 4}],
         covers=['match', 'none', 'refused'])
def parse_version(ctx, n):
    pre, post = ctx.choice('around', [(b'', b''), (b'5.1-', b''),
                                      (b'', b'.0'), (b'5.', b'-MI'),
                                      (b'4.0-', b''), (b'5.', b'-TB')])
    data = pre + ctx.bytes('data', n - (1 if pre + post else 0)) + post
    ref = reference_version(data)
    try:
        p = ProtocolFlags.parse_version(data)
    except ValueError:
        ctx.check(ref is not None and not acceptable(*ref),
                  'only unsupported combinations are refused')
        ctx.cover('refused')
        return
    if ref is None:
        ctx.check(p.major == 0 and p.minor == 0 and p.flags == set(),
                  'anything else has no version')
        ctx.cover('none')
        return
    ctx.check(acceptable(*ref), 'unsupported combinations are refused')
    major, minor, flags = ref
    ctx.check(p.major == major and p.minor == minor, 'version numbers')
    ctx.check(p.flags == flags, 'flags')
    ctx.check(p.multi_client == (b'M' in flags)
              and p.message_ids == (b'I' in flags)
              and p.request_timeout_hints == (b'T' in flags)
              and p.bulk_set_sensor_sampling == (b'B' in flags),
              'flag attributes')
    ctx.cover('match')


def digits(b):
    return len(b) > 0 and all(b[i:i + 1] >= b'0' and b[i:i + 1] <= b'9'
                              for i in range(len(b)))


def reference_version(data):
    """(major, minor, flags) of  N.N  or  N.N-flags,  else None."""
    if data[-1:] == b'\n':
        data = data[:-1]
    if b'\n' in data:
        return None
    head, dash, flags = data.partition(b'-')
    a, dot, b = head.partition(b'.')
    if not dot or not digits(a) or not digits(b):
        return None
    fl = []
    for i in range(len(flags)):
        fl.append(flags[i:i + 1])
    return int(a), int(b), set(fl)


def acceptable(major, minor, flags):
    if b'I' in flags and major < 5:
        return False
    if b'T' in flags or b'B' in flags:
        return major > 5 or (major == 5 and minor >= 1)
    return True


@harness('C08', 'versions 4..7, 0..max with any of the four flags and an '
         'unknown one: constructed, printed, parsed back, compared',
         quick=[{'max': 11}], thorough=[{'max': 1200}],
         covers=['ok', 'refused'])
def flags_roundtrip(ctx, max):
    major = ctx.int('major', 4, 7)
    minor = ctx.int('minor', 0, max)
    flags = set(f for f in (b'M', b'I', b'T', b'B', b'x')
                if ctx.choice('flag' + f.decode(), [False, True]))
    try:
        p = ProtocolFlags(major, minor, flags)
    except ValueError:
        ctx.check(not acceptable(major, minor, flags), 'refused')
        ctx.cover('refused')
        return
    ctx.check(acceptable(major, minor, flags), 'accepted')
    text = str(p)
    ctx.check(text == '%d.%d%s' % (major, minor, '-' + ''.join(
        sorted(f.decode() for f in flags)) if flags else ''), 'text')
    q = ProtocolFlags.parse_version(text.encode())
    ctx.check(p == q and q.flags == flags and q.major == major
              and q.minor == minor, 'parses back to the same flags')
    for f in (b'M', b'I', b'T', b'B', b'x', b'y'):
        ctx.check(q.supports(f) == (f in flags), 'supports')
    ctx.check(not (p == ProtocolFlags(major, minor + 1, flags)),
              'other versions differ')
    ctx.cover('ok')


@harness('C08', 'device of version 4.0 to 6.2 (symbolic minor) with symbolic '
         'flags and handlers requiring versions and flags: exactly the '
         'handlers whose requirements are met are offered',
         quick=[{}], covers=['with', 'without'])
def handler_filter(ctx):
    major = ctx.choice('major', [4, 5, 6])
    minor = ctx.int('minor', 0, 2)
    flags = set(f for f in (b'M', b'I', b'T', b'B')
                if ctx.choice('flag' + f.decode(), [False, True]))
    ctx.assume(acceptable(major, minor, flags))
    info = ProtocolFlags(major, minor, flags)

    class Device(Dev):
        SUPPORTED_PROTOCOL_MAJOR_VERSIONS = (4, 5, 6)
        PROTOCOL_INFO = info

        @minimum_katcp_version(5, 1)
        def request_new(self, req, msg):
            """New."""
            return req.make_reply('ok')

        @has_katcp_protocol_flags([b'B', b'T'])
        def request_flagged(self, req, msg):
            """Flagged."""
            return req.make_reply('ok')

        @minimum_katcp_version(6)
        @has_katcp_protocol_flags([b'M'])
        def inform_both(self, conn, msg):
            """Both."""
            self.seen = True

    w = ServerWorld(ctx, Device)
    s = w.connect()
    s.take()
    w.device.seen = False
    new = major > 5 or (major == 5 and minor >= 1)
    for name, have in [
            (b'new', new), (b'flagged', b'B' in flags and b'T' in flags),
            (b'a', True), (b'version-list', major >= 5),
            (b'request-timeout-hint', b'T' in flags)]:
        infs, rep, rest = ask(w, s, b'?' + name + b'[1]\n')
        ctx.check((rep.arguments[0] != b'invalid') == have,
                  'offered exactly if its requirements are met')
        infs, rep, rest = ask(w, s, b'?help[1] ' + name + b'\n')
        ctx.check((rep.arguments[0] == b'ok') == have, 'and so documented')
        ctx.cover('with' if have else 'without')
    s.feed(b'#both\n')
    w.settle()
    ctx.check(w.device.seen == (major >= 6 and b'M' in flags),
              'informs alike')


for pid in ('C08', 'C21', 'C22', 'C23', 'C34'):
    assume_note(pid, BASE_CLIENT_NOTE)
