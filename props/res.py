"""Resources: sensors, requests and strategies of devices, groups, waiting."""
import katcp
import katcp.inspecting_client as insp_mod
from katcp import resource_client as rc
from katcp.core import Message, ensure_native_str
from katcp.resource import escape_name, normalize_strategy_parameters
from props.insp import HINTS, NOHINTS, Device, FixedRandom, diff
from props.simclient import ClientWorld
from symkat.harness import assume_note, harness
from tornado.gen import TimeoutError

NOTE = ('tornado IOLoop, IOStream and TCPClient are models, and the devices '
        'are models which answer ?help, ?sensor-list, ?sensor-sampling and '
        '?sensor-value; katcp.resource_client, katcp.resource, '
        'katcp.inspecting_client, katcp.client and katcp.core run for real')


class RDevice(Device):
    """Also samples sensors, for the connection that asked."""

    def __init__(self):
        super(RDevice, self).__init__()
        self.values = {}       # name -> (timestamp, status, value)
        self.called = []       # other requests

    def answer_on(self, stream, msg):
        name, args, mid = msg.name, msg.arguments, msg.mid
        if name not in ('sensor-sampling', 'sensor-value'):
            if name in self.reqs and name != 'help':
                self.called.append((name, args))
                return [Message(Message.REPLY, name, ['ok', 'done'], mid=mid)]
            return self.answer(msg)
        sensor = ensure_native_str(args[0])
        if sensor not in self.sens:
            return [Message(Message.REPLY, name,
                            ['fail', 'Unknown sensor name.'], mid=mid)]
        t, status, v = self.values.get(sensor, (b'0', b'unknown', b'0'))
        if name == 'sensor-value':
            return [Message(Message.INFORM, name, [t, '1', sensor, status, v],
                            mid=mid),
                    Message(Message.REPLY, name, ['ok', '1'], mid=mid)]
        stream.strategies[sensor] = tuple(ensure_native_str(a)
                                          for a in args[1:])
        return [Message(Message.INFORM, 'sensor-status',
                        [t, '1', sensor, status, v]),
                Message(Message.REPLY, name, ['ok', sensor] + args[1:],
                        mid=mid)]


class World(ClientWorld):
    """A resource (or container) and its devices, by port."""

    def __init__(self, ctx, make, devices):
        insp_mod.random = FixedRandom
        self.devices = devices
        self.asked = []
        super(World, self).__init__(ctx, lambda *a: make(), start=False)
        self.res = self.client
        self.res.start()
        self.settle()

    def accept(self, settle=True):
        s = super(World, self).accept(False)
        s.strategies = {}
        if settle:
            self.settle()
        return s

    def accept_all(self):
        while self.pending:
            self.accept()

    def device(self, stream):
        return self.devices[stream.address[1]]

    def collect(self):
        for s in self.streams:
            for m in s.take():
                if m.mtype == Message.REQUEST:
                    self.asked.append((s, m))

    def send(self, stream, msgs):
        for m in msgs:
            stream.feed(bytes(m) + b'\n')

    def answer_one(self):
        self.collect()
        while self.asked:
            s, m = self.asked.pop(0)
            if s.is_closed:
                continue
            self.send(s, self.device(s).answer_on(s, m))
            self.settle()
            return m
        return None

    def cooperate(self, limit=40):
        self.accept_all()
        for i in range(limit):
            if self.answer_one() is None:
                return
        raise RuntimeError('the client keeps asking')

    def settle_all(self, synced, rounds=8):
        """Everything goes well, for as long as it takes to be synced."""
        for i in range(rounds):
            self.cooperate()
            if synced() and not self.pending:
                return True
            t = self.loop.next_deadline()
            if t is None:
                return False
            if t > self.loop.now:
                self.loop.now = t
            self.settle()
        return False

    def changed(self, port):
        for s in self.live():
            if s.address[1] == port:
                self.send(s, [Message.inform('interface-changed')])
        self.settle()

    def get(self, future):
        self.settle()
        self.cooperate()
        assert future.done(), 'no result'
        return future.result()


def spec(port, **kw):
    d = dict(name='dev-%d' % port, address=('127.0.0.1', port),
             controlled=True, preset_protocol_flags=NOHINTS)
    d.update(kw)
    return d


def sensor(text=b'a sensor'):
    return (text, b'm', b'integer', [])


# ------------------------------------------------------------------ C38

class Listener(object):
    def __init__(self):
        self.seen = []

    def __call__(self, s, reading):
        self.seen.append(reading.value)


@harness('C38', 'one resource with a device with a sensor that comes, goes '
         'and changes; every sequence of `steps` operations out of: setting a '
         'new strategy by resource or by sensor object, dropping it by '
         'resource, removing, adding or changing the sensor (announced), '
         'losing the connection; with the device answering at once or not '
         'before the next operation, or answering two requests',
         quick=[{'steps': 3, 'listen': True, 'starts': ['absent', 'set']},
                {'steps': 2, 'listen': True, 'starts': ['present']}],
         thorough=[{'steps': 3, 'listen': False,
                    'starts': ['unconnected', 'absent', 'present', 'set']},
                   {'steps': 4, 'listen': True,
                    'starts': ['unconnected', 'set']}],
         covers=['reconnected', 'dropped', 'preset', 'changed'])
def strategies(ctx, steps, listen, starts):
    d = RDevice()
    d.reqs['help'] = (b'help', None)
    d.sens['other'] = d.sens['last'] = sensor()
    start = ctx.choice('start', starts)
    name = 'a-b.c'
    if start != 'absent':
        d.sens[name] = sensor()
    w = World(ctx, lambda: rc.KATCPClientResource(spec(5000)), {5000: d})
    res = w.res

    def synced():
        return res.state == 'synced'

    if start != 'unconnected':
        ctx.check(w.settle_all(synced), 'the resource syncs')
    ctx.check(res.is_connected() == (start != 'unconnected'), 'connected')
    want = None            # the strategy last set
    known = False          # whether it is to be in force
    listener = None
    res.set_sampling_strategy('none-such', 'event')
    res.set_sampling_strategy('other', 'event')
    w.cooperate()
    if start == 'set':
        res.sensor[escape_name(name)].set_sampling_strategy('period 9')
        w.cooperate()
        want = ('period', 9)
        known = True
    if listen:
        listener = Listener()
        w.get(res.set_sensor_listener(name, listener))
    for k in range(steps):
        can = ['set']
        obj = dict.get(res.sensor, escape_name(name))
        if obj is not None:
            can += ['set obj']
        if known and want is not None:
            can += ['drop']
        can += (['remove', 'change'] if name in d.sens else ['add'])
        if w.live():
            can += ['lose']
        ev = ctx.choice('event%d' % k, can)
        if ev in ('set', 'set obj'):
            if ev == 'set' and obj is None:
                ctx.cover('preset')
            want = ('period', k + 1)
            known = True
            if ev == 'set':
                res.set_sampling_strategy(
                    escape_name(name) if k % 2 else name,
                    'period %d' % (k + 1))
            else:
                obj.set_sampling_strategy('period %d' % (k + 1))
        elif ev == 'drop':
            res.drop_sampling_strategy(name)
            known = False
            ctx.cover('dropped')
        elif ev == 'remove':
            del d.sens[name]
            w.changed(5000)
        elif ev == 'add':
            d.sens[name] = sensor()
            w.changed(5000)
        elif ev == 'change':
            d.sens[name] = sensor(b'version %d' % k)
            w.changed(5000)
            ctx.cover('changed')
        elif ev == 'lose':
            w.live()[0].close_remote()
            w.settle()
            ctx.cover('reconnected')
        how = ctx.choice('settle%d' % k, ['all', 'none', 'some'])
        if how == 'all':
            w.settle_all(synced)
        elif how == 'some':
            w.advance(1)
            w.accept_all()
            w.answer_one()
            w.answer_one()
    ctx.check(w.settle_all(synced), 'the resource syncs again')
    live = w.live()
    ctx.check(len(live) == 1, 'one connection')
    obj = dict.get(res.sensor, escape_name(name))
    ctx.check((obj is not None) == (name in d.sens),
              'the sensor exists exactly if it does on the device')
    if obj is not None and known:
        ctx.check(means(live[0].strategies.get(name, ()), want),
                  'the strategy set last is in force on the device')
        ctx.check(means(obj.sampling_strategy, want),
                  'the strategy set last is reported')
    ctx.check(live[0].strategies.get('other') == ('event',),
              'the strategy of another sensor is in force')
    if obj is not None and not known and want is None:
        ctx.check(name not in live[0].strategies,
                  'no strategy is set unasked')
    ctx.check(obj is None or means(obj.sampling_strategy,
                                   want if known else ('none',)),
              'a dropped strategy is forgotten')
    if not known or obj is None:
        # nothing is remembered for the next connection
        res.set_sampling_strategy('last', 'event')
        w.cooperate()
        if not known:
            d.sens.setdefault(name, sensor())
        live[0].close_remote()
        w.settle()
        ctx.check(w.settle_all(synced), 'the resource syncs once more')
        live = w.live()
        ctx.check(name not in live[0].strategies,
                  'a dropped strategy is not applied again')
        ctx.check(live[0].strategies.get('last') == ('event',),
                  'the strategy of a sensor set last is')
    if obj is not None:
        obj = dict.get(res.sensor, escape_name(name))
        v = ctx.int('value', 0, 9)
        w.send(live[0], [Message.inform('sensor-status', '7', '1', name,
                                        'nominal', v)])
        w.settle()
        ctx.check(obj.value == v and obj.reading.timestamp == 7
                  and obj.status == 'nominal', 'the sensor is updated')
        if listener is not None:
            ctx.check(listener.seen[-1:] == [v]
                      and len([x for x in listener.seen if x == v]) >= 1,
                      'the listener set is told of updates')


PARAMS = [
    ('auto', ('auto',), 'any'), (('none',), ('none',), 'any'),
    (['event'], ('event',), 'any'), ('period 2', ('period', 2), 'any'),
    (('period', 0.5), ('period', 0.5), 'any'),
    (('period', '1.5'), ('period', 1.5), 'any'),
    ('event-rate 0.5 10', ('event-rate', 0.5, 10), 'any'),
    (['event-rate', 1, 3600], ('event-rate', 1, 3600), 'any'),
    ('differential 2', ('differential', 2), 'number'),
    (('differential', 3), ('differential', 3), 'number'),
    (('differential', '4'), ('differential', 4), 'number'),
    ('differential 0.25', ('differential', 0.25), 'float'),
    (('differential-rate', 2, 1, 5.5), ('differential-rate', 2, 1, 5.5),
     'number')]


def means(params, want):
    return (len(params) == len(want) and params[0] == want[0]
            and all(float(p) == v for p, v in zip(params[1:], want[1:])))


@harness('C38', 'every strategy with parameters in several forms, set by '
         'resource or sensor object (also by set_strategy()), before or after '
         'the sensor exists, for an integer or float sensor of a device that '
         'decides like a server made with katcp', quick=[{}], thorough=[{}],
         covers=['accepted', 'refused'])
def accepted(ctx):
    from katcp.sampling import SampleStrategy

    class Judge(RDevice):
        """Accepts what SampleStrategy accepts."""
        def answer_on(self, stream, msg):
            if msg.name == 'sensor-sampling' and len(msg.arguments) > 1:
                name = ensure_native_str(msg.arguments[0])
                try:
                    SampleStrategy.get_strategy(
                        ensure_native_str(msg.arguments[1]),
                        lambda *a: None, self.objects[name],
                        *msg.arguments[2:], ioloop=None)
                except ValueError as e:
                    return [Message(Message.REPLY, msg.name,
                                    ['fail', str(e)], mid=msg.mid)]
            return super(Judge, self).answer_on(stream, msg)
    kind = ctx.choice('kind', [katcp.Sensor.INTEGER, katcp.Sensor.FLOAT])
    d = Judge()
    name = 'a-b.c'
    d.objects = {name: katcp.Sensor(kind, name, '', '')}
    d.reqs['help'] = (b'help', None)
    here = (b'a sensor', b'm', ensure_native_str(
        d.objects[name].type).encode('ascii'), [])
    how = ctx.choice('how', ['resource', 'sensor', 'set_strategy', 'before',
                             'all'])
    if how != 'before':
        d.sens[name] = here
    w = World(ctx, lambda: rc.KATCPClientResource(spec(5000)), {5000: d})
    res = w.res

    def synced():
        return res.state == 'synced'
    ctx.check(w.settle_all(synced), 'the resource syncs')
    given, want, fits = ctx.choice('params', PARAMS)
    obj = dict.get(res.sensor, escape_name(name))
    if how in ('resource', 'before'):
        w.get(res.set_sampling_strategy(name, given))
    elif how == 'all':
        got = w.get(res.set_sampling_strategies('a_b', given))
        ctx.check(list(got) == ['a_b_c'], 'the sensors are told')
    elif how == 'sensor':
        w.get(obj.set_sampling_strategy(given))
    else:
        if not isinstance(given, str):
            params = list(given[1:])
            given = given[0]
        else:
            given, _, params = given.partition(' ')
        if len(params) == 1 and ctx.choice('bare', [False, True]):
            params = params[0]
        w.get(obj.set_strategy(given, params))
    if how == 'before':
        d.sens[name] = here
        w.changed(5000)
        ctx.check(w.settle_all(synced), 'the resource syncs')
        obj = dict.get(res.sensor, escape_name(name))
    good = fits != 'float' or kind == katcp.Sensor.FLOAT
    live = w.live()[0]
    if good:
        ctx.cover('accepted')
        ctx.check(means(live.strategies.get(name, ()), want),
                  'the strategy set is in force on the device')
        ctx.check(means(obj.sampling_strategy, want),
                  'the strategy set is reported')
    else:
        ctx.cover('refused')
        ctx.check(name not in live.strategies, 'the device knows better')
    # and again
    live.close_remote()
    w.settle()
    ctx.check(w.settle_all(synced), 'the resource syncs again')
    if good:
        ctx.check(means(w.live()[0].strategies.get(name, ()), want),
                  'the strategy is in force after a reconnection')


assume_note('C38', NOTE)


# ------------------------------------------------------------------ C37

def allowed(dev, kw):
    norm = lambda key: set(escape_name(n) for n in kw.get(key, []))
    out = set()
    for n in dev.reqs:
        e = escape_name(n)
        if e in norm('always_excluded_requests'):
            continue
        if kw.get('controlled') or e in norm('always_allowed_requests'):
            out.add(e)
    return out


def pick(ctx, tag, dev, reqs, sens):
    dev.reqs.clear()
    dev.sens.clear()
    for n in reqs:
        if ctx.choice('%s_%s' % (tag, n), [True, False]):
            dev.reqs[n] = (tag.encode('ascii') + b' request', None)
    for n in sens:
        if ctx.choice('%s_%s' % (tag, n), [True, False]):
            dev.sens[n] = sensor(tag.encode('ascii') + b' sensor')


@harness('C37', 'a resource, controlled or not, with requests always allowed '
         'or excluded (spelt either way), with every pair of interfaces over '
         'three requests and two sensors; the second one announced or met '
         'after a lost connection',
         quick=[{'reqs': ['r-a', 'r-b2'], 'sens': ['s-a']}],
         thorough=[{'reqs': ['r-a', 'r-b2', 'c'], 'sens': ['s-a', 't']}],
         covers=['called'])
def exposure(ctx, reqs, sens):
    kw = {'controlled': ctx.choice('controlled', [True, False])}
    for key in ('always_allowed_requests', 'always_excluded_requests'):
        kw[key] = ctx.choice(key, [[], ['r-a'], ['r_a']])
    d = RDevice()
    pick(ctx, 'one', d, reqs, sens)
    w = World(ctx, lambda: rc.KATCPClientResource(spec(5000, **kw)),
              {5000: d})
    res = w.res

    def synced():
        return res.state == 'synced'

    def check(when):
        ctx.check(set(res.req) == allowed(d, kw),
                  'the requests allowed are there %s' % when)
        ctx.check(set(res.sensor) == set(escape_name(n) for n in d.sens),
                  'the sensors are there %s' % when)
        for n, v in d.sens.items():
            ctx.check(res.sensor[escape_name(n)].description
                      == ensure_native_str(v[0]),
                      'sensors are described as they are %s' % when)
        for e, obj in dict.items(res.req):
            ctx.check(obj.description
                      == ensure_native_str(d.reqs[obj.name][0])
                      and escape_name(obj.name) == e,
                      'requests are described as they are %s' % when)

    ctx.check(res.state == 'disconnected' and not res.is_connected(),
              'disconnected before the connection')
    waiter = res.until_synced()
    ctx.check(w.settle_all(synced) and waiter.done(), 'the resource syncs')
    check('at first')
    unsynced = res.until_not_synced()
    pick(ctx, 'two', d, reqs, sens)
    if ctx.choice('lost', [False, True]):
        w.live()[0].close_remote()
        w.settle()
        ctx.check(res.state == 'disconnected' and not res.is_connected(),
                  'disconnected after the connection is lost')
    else:
        w.changed(5000)
        ctx.check(res.state == 'syncing' and res.is_connected(),
                  'syncing when the device has changed')
    ctx.check(unsynced.done(), 'not synced')
    ctx.check(w.settle_all(synced), 'the resource syncs again')
    check('afterwards')
    for e, obj in dict.items(res.req):
        active = ctx.choice('active', [True, False])
        res.set_active(active)
        if not active:
            try:
                obj('x')
                ctx.check(False, 'requests of an inactive resource fail')
            except katcp.resource.KATCPResourceInactive:
                pass
        elif obj.name != 'help':
            arg = ctx.bytes('arg', 2)
            r = w.get(obj(arg, 7))
            ctx.check(d.called == [(obj.name, [arg, b'7'])],
                      'a request is sent as called')
            ctx.check(r.succeeded and r.reply.arguments == [b'ok', b'done'],
                      'a request gives the reply')
            ctx.cover('called')
        break
    res.stop()
    w.settle()
    w.advance(100)
    ctx.check(not w.live() and res.state == 'disconnected',
              'disconnected after stop()')


NAMES = ['dev-1', 'dev2']


def expect_all(devs, what):
    out = set()
    for n, d in zip(NAMES, devs):
        for k in getattr(d, what):
            e = escape_name(k)
            out.add(e if e.startswith('agg_')
                    else escape_name(n) + '_' + e)
    return out


@harness('C37', 'a container of two devices with a group of both (names spelt '
         'either way), one of which changes its interface, looking at '
         'requests, sensors and group requests in any order before and after',
         quick=[{'reqs': ['r-a', 'clear'], 'sens': ['agg_s']}],
         thorough=[{'reqs': ['r-a', 'clear'], 'sens': ['agg_s', 's-t']}],
         covers=['grouped', 'changed'])
def container(ctx, reqs, sens):
    devs = [RDevice(), RDevice()]
    devs[0].sens['s'] = sensor()
    devs[0].reqs['help'] = (b'help', None)
    pick(ctx, 'one', devs[1], reqs, sens)
    devs[1].sens['s'] = sensor()
    member = ctx.choice('member', ['dev-1', 'dev_1'])
    specs = dict((n, dict(address=('127.0.0.1', 5000 + i), controlled=True,
                          preset_protocol_flags=NOHINTS))
                 for i, n in enumerate(NAMES))
    conf = {'name': 'all', 'clients': specs,
            'groups': {'a-group': [member, 'dev2'], 'b': ['dev2'],
                       'c': ['dev2']}}
    w = World(ctx, lambda: rc.KATCPClientResourceContainer(conf),
              {5000: devs[0], 5001: devs[1]})
    res = w.res

    def synced():
        return all(c.state == 'synced' for c in dict.values(res.children))

    group = res.groups['a_group']

    def look(order):
        for what in order:
            if what == 'req':
                ctx.check(set(res.req) == expect_all(devs, 'reqs'),
                          'requests of the container are those of all')
            elif what == 'sensor':
                ctx.check(set(res.sensor) == expect_all(devs, 'sens'),
                          'sensors of the container are those of all')
                for k, obj in dict.items(res.sensor):
                    ctx.check(obj.name in devs[0].sens
                              or obj.name in devs[1].sens,
                              'sensor objects are current')
            else:
                ctx.check(set(group.req) == set(
                    escape_name(k) for d in devs for k in d.reqs),
                    'requests of the group are those of any member')
                for g in ('b', 'c'):
                    ctx.check(set(res.groups[g].req)
                              == set(escape_name(k) for k in devs[1].reqs),
                              'requests of a group of one are its own')

    orders = [('req', 'sensor', 'group'), ('sensor', 'group', 'req'),
              ('group', 'req', 'sensor'), ('sensor', 'req', 'group')]
    waiter = res.until_synced()
    ctx.check(w.settle_all(synced), 'all resources sync')
    w.settle()
    ctx.check(waiter.done() and waiter.exception() is None, 'all synced')
    if ctx.choice('look', [True, False]):
        look(orders[0])
    pick(ctx, 'two', devs[1], reqs, sens)
    devs[1].sens['s'] = sensor()
    which = ctx.choice('which', [0, 1])
    if which == 0:
        # names of the second device stay
        devs[0].reqs['new'] = (b'new', None)
        devs[0].sens['new'] = sensor()
    unsynced = res.until_not_synced()
    w.changed(5000)
    w.changed(5001)
    ctx.check(unsynced.done(), 'not synced when a child is not')
    ctx.check(w.settle_all(synced), 'all resources sync again')
    ctx.cover('changed')
    look(ctx.choice('order', orders))
    ctx.check(res.is_connected() and group.is_connected(), 'connected')
    for e in sorted(set(escape_name(n) for n in reqs)):
        if e not in group.req:
            continue
        ctx.cover('grouped')
        got = w.get(group.req[e](1))
        have = [e in set(escape_name(k) for k in d.reqs) for d in devs]
        ctx.check(set(got) == set(NAMES)
                  and [got[n] is not None for n in NAMES] == have,
                  'a group request is made where there is one')
        ctx.check(bool(got) == all(have) and got.succeeded == all(have),
                  'a group request succeeds if it does everywhere')
        for n, d, h in zip(NAMES, devs, have):
            ctx.check([escape_name(x) for x, a in d.called]
                      == ([e] if h else []), 'one request per member')
            del d.called[:]
    look(orders[1])
    # strategies by name of the container
    got = w.get(res.set_sampling_strategies('s$', 'event'))
    for s in w.live():
        for k in w.device(s).sens:
            if k.endswith('s'):
                ctx.check(s.strategies.get(k) == ('event',),
                          'strategies are set through the container')
    if ctx.choice('whole', [False, True]):
        got = w.get(group.set_sampling_strategies('^s$', 'period 2'))
        kind = 'all sensors that match'
        ctx.check(got == dict((n, {'s': 'period 2'}) for n in NAMES), kind)
    else:
        got = w.get(group.set_sampling_strategy('s', 'period 2'))
        kind = 'the sensor'
    ctx.check(sorted(got) == sorted(NAMES), 'a group tells of all members')
    ctx.check(all(means(s.strategies.get('s', ()), ('period', 2))
                  for s in w.live()),
              'strategies of %s are set through the group' % kind)
    res.stop()
    w.settle()
    w.advance(100)
    ctx.check(not w.live(), 'all disconnected after stop()')


@harness('C37', 'a container of one device to which another and a group are '
         'added before or after the first is synced; waiting for states of any '
         'and all children, with or without timeout; strategies and listeners '
         'by name through the container with two updates of symbolic value; '
         'stopping with one device connected or both', quick=[{}],
         thorough=[{}], covers=['any', 'all', 'late', 'told'])
def grown(ctx):
    devs = [RDevice(), RDevice()]
    devs[0].sens.update({'s': sensor(), 's.1': sensor(), 'sx1': sensor()})
    devs[1].sens.update({'s': sensor(), 'agg_x': sensor()})
    for i, d in enumerate(devs):
        d.reqs['help'] = (b'help', None)
        d.reqs['r%d' % i] = (b'r', None)
    first = dict(address=('127.0.0.1', 5000), controlled=True,
                 preset_protocol_flags=NOHINTS)
    conf = {'name': 'all', 'clients': {'dev-1': first},
            'groups': {'g': ['dev-1']}}
    w = World(ctx, lambda: rc.KATCPClientResourceContainer(conf),
              {5000: devs[0], 5001: devs[1]})
    res = w.res

    def synced():
        return all(c.state == 'synced' for c in dict.values(res.children))

    early = ctx.choice('early', [True, False])
    if not early:
        ctx.check(w.settle_all(synced), 'all resources sync')
        ctx.check(set(res.sensor) == {'dev_1_s', 'dev_1_s_1', 'dev_1_sx1'},
                  'sensors')
    spec2 = dict(address=('127.0.0.1', 5001), controlled=True,
                 preset_protocol_flags=NOHINTS, description='the second')
    child = res.add_child_resource_client('dev2', spec2)
    ctx.check(child is res.children['dev2'] and 'name' not in spec2,
              'the child is there')
    ctx.check(child.parent is res and child.parent_name == 'all'
              and child.name == 'dev2' and child.host == '127.0.0.1'
              and child.port == 5001 and child.description == 'the second'
              and child.address == ('127.0.0.1', 5001), 'as specified')
    before = res.groups['g']
    try:
        res.add_group('bad', ['dev-1', 'dev3'])
    except Exception:
        ctx.check('bad' not in res.groups, 'no group without its members')
    else:
        ctx.check(False, 'a group needs known members')
    res.add_group('late-one', ['dev-1', 'dev2'])
    group = res.groups['late_one']
    ctx.check(len(group) == 2 and list(group) == [res.children['dev_1'], child]
              and group[1] is child, 'the group has its members')
    ctx.check(len(res.groups['g']) == 1 and res.groups['g'] is before,
              'the other group stays')
    ctx.check(not child.synced and not res.is_connected(),
              'not connected before it is')
    timeout = ctx.choice('timeout', [None, 5])
    start = w.loop.now
    states = ['synced', 'disconnected']
    other = ctx.choice('state', states)
    any_f = res.until_any_child_in_state(other, timeout)
    all_f = res.until_all_children_in_state('synced', timeout)
    w.settle()
    # connect only the second, wait, then the rest
    alone = early and ctx.choice('alone', [True, False])
    if other == 'disconnected' or not early:
        ctx.check(any_f.done() and any_f.exception() is None,
                  'a child is in the state')
        ctx.cover('any')
    else:
        ctx.check(not any_f.done(), 'no child is in the state')
    ctx.check(not all_f.done(), 'not all are in the state')
    late = ctx.choice('late', [False, True])
    if late:
        w.advance(6)
        failed = timeout is not None
        for f, done in ((any_f, other == 'disconnected' or not early),
                        (all_f, False)):
            if done:
                continue
            ctx.check(f.done() == failed, 'ends at the timeout only')
            if failed:
                ctx.check(isinstance(f.exception(), TimeoutError), 'timed out')
        ctx.cover('late')
    ctx.check(w.settle_all(synced), 'all resources sync')
    w.settle()
    ctx.check(w.loop.now - start < 5 or late or timeout is None,
              'in time')
    if not (late and timeout is not None):
        ctx.check(all_f.done() and all_f.exception() is None,
                  'all are in the state')
        ctx.check(any_f.done() and any_f.exception() is None,
                  'one is in the state')
        ctx.cover('all')
    ctx.check(child.synced and res.is_connected() and group.is_connected(),
              'all synced')
    ctx.check(set(res.sensor) == {'dev_1_s', 'dev_1_s_1', 'dev_1_sx1',
                                  'dev2_s', 'agg_x'},
              'the sensors of all children')
    ctx.check(set(res.req) == {'dev_1_help', 'dev_1_r0', 'dev2_help',
                               'dev2_r1'}, 'the requests of all children')
    ctx.check(set(group.req) == {'help', 'r0', 'r1'},
              'the requests of any member')
    ctx.check(set(before.req) == {'help', 'r0'}, 'the other group follows')
    # strategies and listeners by the name of the container
    name, port, sname = ctx.choice('name', [
        ('dev2_s', 5001, 's'),
        ('agg_x', 5001, 'agg_x'), ('none', None, None),
        ('dev-1.s.1', 5000, 's.1'), ('dev_1_s.1', 5000, 's.1'),
        ('dev_1_s', 5000, 's'), ('dev_1_s.', None, None)])
    told = []

    def listener(sensor, reading):
        told.append((sensor, reading.value))

    got = w.get(res.set_sampling_strategy(name, 'event'))
    lgot = w.get(res.set_sensor_listener(name, listener))
    if port is None:
        ctx.check(got == {} and lgot == {}, 'nothing for an unknown sensor')
    else:
        owner = NAMES[port - 5000]
        pname = sname.replace('.', '_')
        ctx.check(got == {owner: {pname: 'event'}}
                  and lgot == {owner: {pname: listener}}, 'told what was set')
    for s in w.live():
        for n in devs[s.address[1] - 5000].sens:
            want = (('event',) if (s.address[1], n) == (port, sname) else ())
            ctx.check(s.strategies.get(n, ()) == want,
                      'only the named sensor is sampled')
    del told[:]
    for s in w.live():
        for n in sorted(devs[s.address[1] - 5000].sens):
            v = ctx.int('v_%d_%s' % (s.address[1], n), 0, 9)
            w.send(s, [Message.inform('sensor-status', b'1000', b'1', n,
                                      b'nominal', b'%d' % v)])
            if (s.address[1], n) == (port, sname):
                mine = v
    w.settle()
    if port is not None:
        ctx.check(len(told) == 1
                  and told[0][0] is res.sensor[rc.resource.escape_name(name)]
                  and told[0][1] == mine, 'the listener is told once')
        ctx.cover('told')
    else:
        ctx.check(not told, 'nobody is told')
    lose = ctx.choice('lose', [False, True])
    if lose:
        w.live()[0].close()
        w.settle()
        ctx.check(not res.is_connected(), 'not all are connected')
    stopped = res.until_stopped()
    ctx.check(set(stopped) == {'dev_1', 'dev2'}
              and not any(f.done() for f in stopped.values()),
              'nothing has stopped')
    res.stop()
    w.settle()
    w.advance(100)
    ctx.check(not w.live() and not w.pending, 'all disconnected after stop()')
    ctx.check(all(f.done() for f in stopped.values()), 'told of the stop')


@harness('C37', 'a request with or without a timeout hint, called on a '
         'resource, through its container or through a group, with or without '
         'a timeout; the device answers at a symbolic time or not at all',
         quick=[{}], thorough=[{}], covers=['answered', 'timeout'])
def timing(ctx):
    hint = ctx.choice('hint', [None, 12])
    d = RDevice()
    d.reqs['help'] = (b'help', None)
    d.reqs['r-a'] = (b'request', hint)
    how = ctx.choice('how', ['resource', 'container', 'group'])
    if how == 'resource':
        w = World(ctx, lambda: rc.KATCPClientResource(
            spec(5000, preset_protocol_flags=HINTS)), {5000: d})
        obj = lambda: w.res.req.r_a
        synced = lambda: w.res.state == 'synced'
    else:
        conf = {'name': 'all', 'clients': {'d-1': spec(
            5000, preset_protocol_flags=HINTS)}, 'groups': {'g': ['d_1']}}
        conf['clients']['d-1'].pop('name')
        w = World(ctx, lambda: rc.KATCPClientResourceContainer(conf),
                  {5000: d})
        obj = lambda: (w.res.req.d_1_r_a if how == 'container'
                       else w.res.groups['g'].req.r_a)
        synced = lambda: w.res.children['d_1'].state == 'synced'
    ctx.check(w.settle_all(synced), 'synced')
    timeout = ctx.choice('timeout', [None, 3, 20])
    kw = {} if timeout is None else {'timeout': timeout}
    if ctx.choice('mid', [False, True]):
        kw['mid'] = 77777
    f = obj()('x', **kw)
    w.settle()
    w.collect()
    sent = [m for _, m in w.asked if m.name == 'r-a']
    ctx.check(len(sent) == 1 and sent[0].arguments == [b'x']
              and ('mid' not in kw or sent[0].mid == b'77777'),
              'sent once, as called')
    limit = timeout or hint or 5
    t = ctx.int('answered after', 0, 25)
    ctx.assume(t != limit)
    t0 = w.loop.now
    on_time = t < limit
    if on_time:
        w.advance(t)
        ctx.check(not f.done(), 'no result before the answer')
        w.send(w.live()[0], [Message(Message.REPLY, 'r-a', ['ok', 'z'],
                                     mid=sent[0].mid)])
        w.settle()
        ctx.cover('answered')
    else:
        w.advance(limit - 0.125)
        ctx.check(not f.done(), 'not given up early')
        w.advance(0.125)
        ctx.cover('timeout')
    ctx.check(f.done() and f.exception() is None, 'it ends in time')
    r = f.result()
    if how == 'group':
        ctx.check(list(r) == ['d-1'] and bool(r) == bool(on_time),
                  'results by name')
        r = r['d-1']
    ctx.check(r.succeeded == bool(on_time)
              and r.reply.arguments[0] == (b'ok' if on_time else b'fail'),
              'the answer, if there is one in time')


assume_note('C37', NOTE)


# ------------------------------------------------------------------ C39

class Manager(object):
    """Sensor manager of sensors which are set by the harness."""

    def __init__(self, loop):
        self.time = loop.time
        self.resource_name = 'r'
        self.strategy = ('event',)

    def get_sampling_strategy(self, name):
        return self.strategy


class PlainResource(katcp.resource.KATCPResource):
    name = description = address = req = parent = None
    sensor = children = {}
    is_connected = list_sensors = None

    def __init__(self, name, loop):
        super(PlainResource, self).__init__()
        self.name = name
        self.dummy_unknown_requests = False
        self.manager = Manager(loop)
        self.sensor = {'a_b': katcp.resource.KATCPSensor(
            dict(name='a-b', description='', units='', params=None,
                 sensor_type=katcp.Sensor.INTEGER), self.manager)}


def outcome(f):
    if not f.done():
        return 'waiting'
    e = f.exception()
    if e is not None:
        return type(e).__name__
    return f.result()


@harness('C39', 'waiting for a symbolic value, or a condition on the reading, '
         'with or without timeout, on sensor and resource, while `steps` '
         'updates with symbolic values arrive after symbolic times, some '
         'before the loop gets to run',
         quick=[{'steps': 2}], thorough=[{'steps': 3}],
         covers=['at once', 'later', 'timeout'])
def waiting(ctx, steps):
    from props.simloop import SimLoop, install_env
    loop = SimLoop(1000)
    install_env(loop)
    r = PlainResource('r', loop)
    s = r.sensor['a_b']
    want = ctx.int('want', 0, 9)
    kind = ctx.choice('kind', ['value', 'condition'])
    cond = want if kind == 'value' else (
        lambda reading: reading.value is not None and reading.value >= want)

    def met(v):
        if kind == 'value':
            return v == want
        return v is not None and v >= want

    current = None
    if ctx.choice('set', [True, False]):
        current = ctx.int('v', 0, 9)
        s.set(1, katcp.Sensor.NOMINAL, current)
    timeout = ctx.choice('timeout', [None, 5, 0])
    how = ctx.choice('how', ['sensor', 'resource'])
    if how == 'sensor':
        f = s.wait(cond, timeout)
    else:
        f = r.wait('a-b', cond, timeout)
    start = loop.now
    ok, late = bool(met(current)), False
    if ok:
        ctx.cover('at once')
    if ctx.choice('run', [True, False]):
        loop.settle()
    for k in range(steps):
        dt = ctx.int('dt%d' % k, 0, 4)
        loop.now = loop.now + dt
        if ctx.choice('run%d' % k, [True, False]):
            loop.settle()
            if timeout is not None and not ok and loop.now >= start + timeout:
                late = True
        v = ctx.int('v%d' % k, 0, 9)
        s.set(loop.now, katcp.Sensor.NOMINAL, v)
        if met(v) and not ok and not late:
            if timeout is not None and loop.now >= start + timeout:
                return    # a tie between timeout and update
            ok = True
            ctx.cover('later')
    loop.settle()
    if ok and timeout and loop.now >= start + timeout:
        return    # the loop did not run before the timeout
    if ok:
        ctx.check(outcome(f) is True, 'waiting ends when the condition is met')
    elif timeout is None or loop.now < start + timeout:
        ctx.check(outcome(f) == 'waiting', 'waiting goes on until then')
    if timeout is not None:
        loop.now = start + 5
        loop.settle()
        if not ok:
            ctx.cover('timeout')
            ctx.check(outcome(f) == ('TimeoutError' if how == 'sensor'
                                     else False),
                      'waiting ends with the timeout')
    if ok or timeout is not None:
        ctx.check(not getattr(s, '_listeners', None), 'nothing is left behind')
    ctx.observe('errors', [repr(e) for e in loop.errors])
    ctx.check(not loop.errors, 'no unhandled errors')
    # results never change
    before = outcome(f)
    s.set(2, katcp.Sensor.NOMINAL, want)
    loop.settle()
    ctx.check(before == 'waiting' or outcome(f) == before,
              'the result is final')
    r.manager.strategy = ('none',)
    try:
        s.wait(1)
        ctx.check(False, 'waiting needs a strategy')
    except katcp.resource.KATCPSensorError:
        pass
    f = r.wait('none', 1)
    loop.settle()
    ctx.check(outcome(f) == 'KATCPSensorError',
              'waiting needs a sensor that is there')


INF = 1000
# timeout and grace period, initial timeout and wait after it in ticks
LIMITS = [(4, 1, 12, 4), (4, 3, 8, 8), (3, 0, 12, 0), (2, None, 8, 0),
          (None, 1, INF, 4), (None, 0, INF, 0)]


@harness('C39', 'a group of `n` clients whose sensors meet the condition at a '
         'symbolic time, or never; quorum absolute, fractional or all; '
         'several timeouts and grace periods, also none and zero (ties '
         'between these times excluded)',
         quick=[{'n': 2}], thorough=[{'n': 3}],
         covers=['quorum', 'grace', 'failed', 'for ever'])
def quorum(ctx, n):
    from props.simloop import SimLoop, install_env
    loop = SimLoop(1000)
    install_env(loop)
    clients = [PlainResource('c%d' % i, loop) for i in range(n)]
    group = rc.ClientGroup('g', clients)
    q, need = ctx.choice('quorum', [(None, n), (1, 1), (2, 2), (0.5, (n + 1)
                                                                // 2),
                                    (1.0, n), (0.2, 1)])
    when = []
    for i in range(n):
        # in quarters of a second: odd ones never tie with the limits
        t = ctx.int('t%d' % i, 0, 8)
        never = ctx.choice('never%d' % i, [False, True])
        when.append(None if never else t * 2 + 1)
    timeout, grace, limit, wait = ctx.choice('limits', LIMITS)
    f = group.wait('a-b', 1, timeout=timeout, quorum=q,
                   max_grace_period=grace)
    f.add_done_callback(lambda f: None)
    loop.settle()
    finished = None
    for tick in range(27):
        for c, t in zip(clients, when):
            if t is not None and t == tick:
                c.sensor['a_b'].set(loop.now, katcp.Sensor.NOMINAL, 1)
        loop.settle()
        if finished is None and f.done():
            finished = tick
        loop.now = loop.now + 0.25
        loop.settle()
        if finished is None and f.done():
            finished = tick + 1
    # the quorum, or the initial timeout, starts the grace period
    times = [INF if t is None else t for t in when]
    for i in range(n):
        for j in range(n - 1):
            if times[j] > times[j + 1]:
                times[j], times[j + 1] = times[j + 1], times[j]
    first = times[need - 1]
    first = limit if first > limit else first
    if first == INF:
        ctx.check(not f.done(), 'waiting without a timeout goes on')
        ctx.cover('for ever')
        return
    ctx.check(f.done() and f.exception() is None, 'waiting ends')
    result = f.result()
    end = first + wait
    got = 0
    for c, t in zip(clients, when):
        good = t is not None and t <= end
        if t == end and wait:
            return
        ctx.check((result[c.name] is True) == bool(good),
                  'the result tells which clients met the condition')
        got += 1 if good else 0
        if good and t > first:
            ctx.cover('grace')
    ctx.check(bool(result) == (got >= need),
              'the result is true exactly if the quorum was reached')
    ctx.cover('quorum' if got >= need else 'failed')
    last = first
    for t in when:
        if t is None or t > end:
            last = end
        elif t > last:
            last = t
    ctx.check(finished == last,
              'waiting ends when all are done or the grace period is over')
    ctx.check(timeout is None
              or not any(getattr(c.sensor['a_b'], '_listeners', None)
                         for c in clients),
              'nothing is left behind')


assume_note('C39', NOTE)
