"""Resources: listing and reading sensors, use from other threads, monitors."""
import re

import katcp
from katcp import resource_client as rc
from katcp.core import AsyncEvent, Message, ensure_native_str
from katcp.ioloop_manager import IOLoopThreadWrapper
from katcp.resource import (KATCPRequest, KATCPResource, KATCPSensor,
                            KATCPSensorError, SensorResultTuple, escape_name)
from props.insp import NOHINTS
from props.res import Manager, RDevice, World, expect_all, sensor, spec
from props.simclient import LOOP, OTHER
from props.simloop import ENV, Preempt, as_thread
from symkat.harness import assume_note, harness

NOTE = ('tornado IOLoop, IOStream and TCPClient are models, and the devices '
        'are models which answer ?help, ?sensor-list, ?sensor-sampling and '
        '?sensor-value; katcp.resource_client, katcp.resource, '
        'katcp.inspecting_client, katcp.ioloop_manager, katcp.client and '
        'katcp.core run for real')


def two_devices(ctx, sens, group=True):
    """A container of two synced devices, and the devices by port."""
    devs = {5000: RDevice(), 5001: RDevice()}
    for p in devs:
        devs[p].reqs['help'] = (b'help', None)
        devs[p].reqs['go'] = (b'go', None)
        for n in sens:
            devs[p].sens[n] = sensor()
            devs[p].values[n] = (b'1', b'nominal', b'1')
    specs = dict((n, dict(address=('127.0.0.1', 5000 + i), controlled=True,
                          preset_protocol_flags=NOHINTS))
                 for i, n in enumerate(['dev-1', 'dev2']))
    conf = {'name': 'all', 'clients': specs}
    if group:
        conf['groups'] = {'a-group': ['dev-1', 'dev2']}
    w = World(ctx, lambda: rc.KATCPClientResourceContainer(conf), devs)
    return w, devs


def all_synced(res):
    return lambda: all(c.state == 'synced'
                       for c in dict.values(res.children))


# ------------------------------------------------------------------ C40

@harness('C40', 'a resource, or a container of two, with sensors of several '
         'names, one of which has a strategy and another a status of three; '
         'symbolic values; listed with filters over names or python '
         'identifiers, by strategy, by one or two statuses, as tuples, and '
         'refreshed or not', quick=[{'filters': ['', 'a[-_]b$', '_c']}],
         thorough=[{'filters': ['', '^a', 'a-b', 'a[-_]b$', 'agg', '_c|^b',
                                'dev_?2']}],
         covers=['listed', 'none', 'refreshed'])
def listing(ctx, filters):
    names = ['a-b', 'a.c', 'agg_x', 'b']
    container = ctx.choice('container', [False, True])
    if container:
        w, devs = two_devices(ctx, names)
        res = w.res
        synced = all_synced(res)
    else:
        d = RDevice()
        for n in names:
            d.sens[n] = sensor()
            d.values[n] = (b'1', b'nominal', b'1')
        devs = {5000: d}
        w = World(ctx, lambda: rc.KATCPClientResource(spec(5000)), devs)
        res = w.res
        synced = lambda: res.state == 'synced'
    ctx.check(w.settle_all(synced), 'synced')
    status = ctx.choice('status', [b'nominal', b'warn', b'error'])
    value = ctx.int('value', 10, 99)
    for s in w.live():
        for n in names:
            w.send(s, [Message.inform('sensor-status', '1', '1', n,
                                      status if n == 'a.c' else b'nominal',
                                      value)])
        # what the device would answer now
        for n in names:
            w.device(s).values[n] = (b'2', w.device(s).values[n][1], b'5')
    w.get(dict.get(res.children, 'dev2', res)
          .set_sampling_strategy('a-b', 'auto'))
    for s in w.live():
        # setting the strategy got an update
        if 'a-b' in s.strategies:
            w.send(s, [Message.inform('sensor-status', '1', '1', 'a-b',
                                      b'nominal', value)])
    w.settle()
    flt = ctx.choice('filter', filters)
    ident = ctx.choice('ident', [True, False])
    strategy = ctx.choice('strategy', [False, True])
    want_status = ctx.choice('want status', ['', 'nominal', 'warn|error'])
    form = ctx.choice('form', ['plain', 'tuple', 'refresh'])
    got = w.get(res.list_sensors(
        filter=flt, strategy=strategy, status=want_status,
        use_python_identifiers=ident, tuple=form == 'tuple',
        refresh=form == 'refresh'))
    want = {}
    for port in devs:
        for n in names:
            dev = 'dev-1' if port == 5000 else 'dev2'
            pid, name = escape_name(n), n
            if container and not n.startswith('agg_'):
                pid = escape_name(dev) + '_' + pid
                name = dev + '.' + name
            if not re.search(flt, pid if ident else n):
                continue
            if strategy and not (n == 'a-b' and port == max(devs)):
                continue
            st = ensure_native_str(status) if n == 'a.c' else 'nominal'
            if form == 'refresh':
                st = 'nominal'
            if want_status and st not in want_status.split('|'):
                continue
            want[pid] = (n, name, dev, st)
    if form == 'tuple':
        names_got = [t[0] for t in got]
    else:
        names_got = [t.name for t in got]
    ctx.check(sorted(names_got) == sorted(v[1] for v in want.values()),
              'exactly the sensors asked for are listed')
    ctx.cover('listed' if got else 'none')
    for t in got:
        if form == 'tuple':
            pid = [k for k in want if want[k][1] == t[0]][0]
            n, name, dev, st = want[pid]
            ctx.check(len(t) == 8 and t[1] == value and t[2] == 1
                      and t[3] == 'integer' and t[4] == 'm' and t[6] == st,
                      'a tuple tells what is known of the sensor')
            ctx.check(t[7] == (('auto',) if n == 'a-b' and (
                not container or dev == 'dev2') else ('none',)),
                'a tuple tells the strategy')
            continue
        ctx.check(isinstance(t, SensorResultTuple)
                  and t.python_identifier in want, 'python identifiers')
        n, name, dev, st = want[t.python_identifier]
        ctx.check(t.name == name and t.object.name == n
                  and (not container or t.object.parent_name == dev
                       or n.startswith('agg_')),
                  'names and identifiers fit')
        ctx.check(dict.get(res.sensor, t.python_identifier) is t.object,
                  'the object is the one of that sensor')
        ctx.check(t.description == 'a sensor' and t.units == 'm'
                  and t.type == 'integer', 'sensors are described')
        if form == 'refresh':
            ctx.cover('refreshed')
            ctx.check(t.reading.value == 5 and t.reading.timestamp == 2,
                      'a refreshed list has fresh readings')
        else:
            ctx.check(t.reading.value == value and t.reading.timestamp == 1
                      and t.reading.status == st,
                      'the list has the last readings')
    ids = ([[k for k in want if want[k][1] == t[0]][0] for t in got]
           if form == 'tuple' else [t.python_identifier for t in got])
    ctx.check(ids == sorted(ids), 'in the order of the identifiers')


@harness('C40', 'reading, value or status of a sensor asked from its device, '
         'which answers with a symbolic value (with another update before or '
         'after), fails, is silent, loses the connection, or was not '
         'connected', quick=[{}], thorough=[{}],
         covers=['fresh', 'failed'])
def polling(ctx):
    d = RDevice()
    d.sens['a-b'] = sensor()
    w = World(ctx, lambda: rc.KATCPClientResource(spec(5000)), {5000: d})
    res = w.res
    ctx.check(w.settle_all(lambda: res.state == 'synced'), 'synced')
    obj = res.sensor['a_b']
    seen, rseen = [], []
    obj.register_listener(lambda *a: seen.append(a))
    obj.register_listener(lambda *a: rseen.append(a), reading=True)
    s = w.live()[0]
    old = ctx.int('old', 0, 9)
    w.send(s, [Message.inform('sensor-status', 1, '1', 'a-b', 'warn', old)])
    w.settle()
    ctx.check([x[1:] for x in seen] == [(1, 'warn', old)],
              'listeners are told')
    v = ctx.int('v', 0, 9)
    what = ctx.choice('what', ['reading', 'value', 'status'])
    server = ctx.choice('server', ['answer', 'update first', 'update after',
                                   'fail', 'silent', 'lost', 'down'])
    if server == 'down':
        s.close_remote()
        w.settle()
    f = {'reading': obj.get_reading, 'value': obj.get_value,
         'status': obj.get_status}[what]()
    w.settle()
    w.collect()
    asked = [m for _, m in w.asked if m.name == 'sensor-value']
    ctx.check(len(asked) == (0 if server == 'down' else 1)
              and all(m.arguments == [b'a-b'] for m in asked),
              'the device is asked once')
    mid = asked[0].mid if asked else None
    answer = [Message(Message.INFORM, 'sensor-value',
                      ['3', '1', 'a-b', 'error', v], mid=mid),
              Message(Message.REPLY, 'sensor-value', ['ok', '1'], mid=mid)]
    other = [Message.inform('sensor-status', 2, '1', 'a-b', 'nominal', 77)]
    t0 = w.loop.now
    if server == 'answer':
        w.send(s, answer)
    elif server == 'update first':
        w.send(s, other + answer)
    elif server == 'update after':
        ctx.check(not f.done(), 'no result before the answer')
        w.send(s, answer + other)
    elif server == 'fail':
        w.send(s, [Message(Message.REPLY, 'sensor-value', ['fail', 'no'],
                           mid=mid)])
    elif server == 'lost':
        s.close_remote()
    w.settle()
    if server == 'silent':
        ctx.check(not f.done(), 'no result without an answer')
        w.advance(60)
    ctx.check(f.done(), 'it ends')
    if server in ('fail', 'silent', 'lost', 'down'):
        ctx.cover('failed')
        ctx.check(isinstance(f.exception(), KATCPSensorError),
                  'failure is a KATCPSensorError')
        ctx.check(obj.value == old and obj.status == 'warn'
                  and len(seen) == 1, 'failure changes nothing')
        return
    ctx.cover('fresh')
    got = f.result()
    if server == 'update after':
        # either is fresh
        ok = {'reading': lambda: got in (obj.reading, rseen[-2][1]),
              'value': lambda: got == v or got == 77,
              'status': lambda: got in ('error', 'nominal')}[what]()
        ctx.check(ok, 'the result is fresh')
        want = [(1, 'warn', old), (3, 'error', v), (2, 'nominal', 77)]
    else:
        if what == 'reading':
            ctx.check(got.value == v and got.status == 'error'
                      and got.timestamp == 3
                      and got.received_timestamp == t0,
                      'the reading is the answer of the device')
            ctx.check(got.istatus == katcp.Sensor.ERROR,
                      'the status number fits')
        else:
            ctx.check(got == (v if what == 'value' else 'error'),
                      'the result is the answer of the device')
        want = [(1, 'warn', old), (3, 'error', v)]
        if server == 'update first':
            want.insert(1, (2, 'nominal', 77))
    ctx.check([x[1:] for x in seen] == want, 'listeners are told of each')
    ctx.check([(r.timestamp, r.status, r.value) for o, r in rseen] == want
              and all(o is obj for o, r in rseen),
              'listeners of readings are told of each')
    ctx.check(obj.value == want[-1][2] and obj.status == want[-1][1]
              and obj.reading is rseen[-1][1], 'the last one is kept')


class Bound(object):
    def __init__(self):
        self.seen = []

    def listener(self, *a):
        self.seen.append(a)


@harness('C40', 'a sensor object; every sequence of `steps` of: registering '
         'or unregistering a function, a bound method and one that raises '
         '(for readings or not, maybe again), clearing, updates with symbolic '
         'value', quick=[{'steps': 3}], thorough=[{'steps': 4}],
         covers=['told'])
def listeners(ctx, steps):
    from props.simloop import SimLoop, install_env
    loop = SimLoop(1000)
    install_env(loop)
    s = KATCPSensor(dict(name='a-b', description='', units='', params=None,
                         sensor_type=katcp.Sensor.INTEGER), Manager(loop))
    b = Bound()
    seen = {'f': [], 'm': b.seen, 'r': []}

    def function(*a):
        seen['f'].append(a)

    def raises(*a):
        seen['r'].append(a)
        raise RuntimeError('no')
    get = {'f': lambda: function, 'm': lambda: b.listener,
           'r': lambda: raises}
    on = {}
    want = dict((k, []) for k in seen)
    for k in range(steps):
        op = ctx.choice('op%d' % k, ['register', 'unregister', 'update',
                                     'clear'])
        if op == 'clear':
            s.clear_listeners()
            on = {}
        elif op != 'update':
            which = ctx.choice('which%d' % k, ['r', 'f', 'm'])
            if op == 'register':
                reading = ctx.choice('reading%d' % k, [False, True])
                s.register_listener(get[which](), reading=reading)
                on[which] = reading
            else:
                s.unregister_listener(get[which]())
                on.pop(which, None)
        for n in seen:
            ctx.check(s.is_listener(get[n]()) == (n in on), 'is_listener()')
        v = ctx.int('v%d' % k, 0, 9)
        loop.now = loop.now + 1
        st = ['nominal', 'warn', 'nominal', 'unknown'][k]
        if k % 2:
            s.set_formatted(b'%d' % k, st.encode('ascii'),
                            b'4' if v == 4 else b'2', 5)
            v = 4 if v == 4 else 2
        else:
            s.set(k, {'nominal': katcp.Sensor.NOMINAL,
                      'warn': katcp.Sensor.WARN,
                      'unknown': katcp.Sensor.UNKNOWN}[st], v)
        for n in on:
            want[n].append((on[n], loop.now, k, st, v))
            ctx.cover('told')
        ctx.check((s.reading.received_timestamp, s.reading.timestamp,
                   s.reading.status, s.reading.value, s.value, s.status)
                  == (loop.now, k, st, v, v, st), 'the update is kept')
    for n in seen:
        ctx.check(len(seen[n]) == len(want[n]), 'told once of each update')
        for a, (reading, t, ts, st, v) in zip(seen[n], want[n]):
            if reading:
                ctx.check(len(a) == 2 and a[0] is s
                          and (a[1].received_timestamp, a[1].timestamp,
                               a[1].status, a[1].value) == (t, ts, st, v),
                          'told of the reading')
            else:
                ctx.check(a == (t, ts, st, v), 'told of the update')


assume_note('C40', NOTE)


# ------------------------------------------------------------------ C41

@harness('C41', 'requests, sensors and group requests of a container looked '
         'at from another thread, while the ioloop thread handles the next '
         'messages of a device (which got or lost a request and a sensor) at '
         'any one line the caller executes in resource_client.py',
         quick=[{'last': 120, 'ports': [5000]}],
         thorough=[{'last': 120, 'ports': [5000, 5001]}],
         covers=['beyond the last line', 'preempted'])
def looking(ctx, last, ports):
    w, devs = two_devices(ctx, ['s'])
    res = w.res
    synced = all_synced(res)
    wr = IOLoopThreadWrapper(w.loop)
    wrapped = rc.ThreadSafeKATCPClientResourceWrapper(res, wr)
    ctx.check(w.settle_all(synced), 'synced')
    what = ctx.choice('what', ['req', 'sensor', 'group'])

    def look():
        if what == 'group':
            return set(wrapped.groups.a_group.req)
        return set(wrapped.req if what == 'req' else wrapped.sensor)

    def expected():
        ds = [devs[5000], devs[5001]]
        if what == 'group':
            return set(escape_name(k) for d in ds for k in d.reqs)
        return expect_all(ds, 'reqs' if what == 'req' else 'sens')
    before = expected()
    if ctx.choice('looked', [True, False]):
        with as_thread(OTHER):
            ctx.check(look() == before, 'the container shows what there is')
        # make it look again
        devs[5000].reqs['more'] = (b'more', None)
        devs[5000].sens['more'] = sensor()
        w.changed(5000)
        ctx.check(w.settle_all(synced), 'synced')
        before = expected()
    which = ctx.choice('device', ports)
    if ctx.choice('how', ['more', 'less']) == 'more':
        devs[which].reqs['new'] = (b'new', None)
        devs[which].sens['new'] = sensor()
    else:
        del devs[which].reqs['go']
        del devs[which].sens['s']

    def run_loop():
        with as_thread(LOOP):
            w.changed(which)
            w.settle_all(synced)
    p = Preempt(int(ctx.int('line', 0, last)), run_loop,
                files=['/resource_client.py'])
    with as_thread(OTHER):
        with p:
            got = look()
    ctx.cover('preempted' if p.fired else 'beyond the last line')
    if not p.fired:
        ctx.check(got == before, 'the container shows what there is')
        run_loop()
    with as_thread(OTHER):
        ctx.check(look() == expected(),
                  'the container shows what there is afterwards')


@harness('C41', 'a container, its resources, groups, sensors and requests '
         'used through the thread-safe wrapper from another thread; devices '
         'answer with symbolic values or not at all',
         quick=[{}], thorough=[{}], covers=['answered', 'timeout'])
def blocking(ctx):
    w, devs = two_devices(ctx, ['s'])
    res = w.res
    ctx.check(w.settle_all(all_synced(res)), 'synced')
    wr = IOLoopThreadWrapper(w.loop)
    w.settle()
    wrapped = rc.ThreadSafeKATCPClientResourceWrapper(res, wr)
    v = ctx.int('v', 0, 9)
    for d in devs.values():
        d.values['s'] = (b'2', b'warn', b'%d' % v)
    server = ctx.choice('server', ['answers', 'silent'])
    threads = []

    def idle(n=0):
        if server == 'silent':
            return False
        return w.answer_one() is not None
    w.idle = idle
    op = ctx.choice('op', ['request', 'child request', 'group request',
                           'sensor', 'child sensor', 'group member',
                           'strategy', 'state', 'list', 'mapping'])
    kw = {'timeout': 3} if server == 'silent' else {}
    t0 = w.loop.now
    result = error = None
    with as_thread(OTHER):
        try:
            if op == 'request':
                result = wrapped.req.dev_1_go(v, **kw)
            elif op == 'child request':
                result = wrapped.children.dev_1.req['go'](v, **kw)
            elif op == 'group request':
                result = wrapped.groups.a_group.req.go(v, **kw)
            elif op == 'sensor':
                result = wrapped.sensor.dev2_s.get_value()
            elif op == 'child sensor':
                result = wrapped.children['dev2'].sensor.s.get_value()
            elif op == 'group member':
                result = wrapped.groups.a_group[1].sensor.s.get_value()
            elif op == 'strategy':
                s = wrapped.children.dev_1.sensor.s
                ctx.check(s.sampling_strategy == ('none',), 'strategy')
                s.set_sampling_strategy('period 2')
                result = s.sampling_strategy
            elif op == 'state':
                wrapped.until_synced(timeout=3)
                result = (wrapped.is_connected(),
                          wrapped.children.dev_1.state,
                          wrapped.children.dev_1.parent.name,
                          wrapped.groups.a_group.is_connected())
            elif op == 'list':
                result = [t.name for t in wrapped.list_sensors('dev2')]
            else:
                for m, real in ((wrapped.req, res.req),
                                (wrapped.sensor, res.sensor),
                                (wrapped.sensors, res.sensor),
                                (wrapped.groups, res.groups),
                                (wrapped.children, res.children),
                                (wrapped.groups.a_group.req,
                                 res.groups.a_group.req)):
                    ctx.check(set(m) == set(real) and len(m) == len(real)
                              and all(k in m for k in real)
                              and 'nothing' not in m, 'the same names')
                    for k in m:
                        ctx.check(m[k].__subject__ is dict.get(real, k)
                                  and getattr(m, k).__subject__
                                  is dict.get(real, k), 'the same things')
                        ctx.check(isinstance(
                            m[k], rc.ThreadSafeMethodAttrWrapper),
                            'all of them wrapped')
                ctx.check([c.name for c in wrapped.groups.a_group]
                          == ['dev-1', 'dev2'], 'members of a group')
                # What a resource keeps in attributes of its own
                res.favourite = res.groups.a_group
                res.chief = res.children['dev2']
                for got, real in ((wrapped.favourite, res.favourite),
                                  (wrapped.chief, res.chief)):
                    ctx.check(isinstance(
                        got, rc.ThreadSafeMethodAttrWrapper)
                        and got.__subject__ is real, 'attributes wrapped')
                ctx.check([c.name for c in wrapped.favourite]
                          == ['dev-1', 'dev2']
                          and wrapped.chief.parent.__subject__ is res,
                          'what wrapped attributes lead to')
        except Exception as e:
            error = e
    offline = op in ('state', 'list', 'mapping')
    if offline:
        ctx.check(error is None, 'no error')
        if op == 'state':
            ctx.check(result == (True, 'synced', 'all', True), 'state')
        elif op == 'list':
            ctx.check(result == ['dev2.s'], 'list')
        return
    if server == 'silent':
        ctx.cover('timeout')
        if 'request' in op:
            ctx.check(error is not None or not result, 'no success')
            ctx.check(w.loop.now - t0 <= 3, 'within the timeout')
        elif op != 'strategy':
            ctx.check(isinstance(error, KATCPSensorError), 'failure')
        return
    ctx.cover('answered')
    ctx.check(error is None, 'no error')
    if 'request' in op:
        ctx.check(bool(result), 'success')
        called = [('go', [b'%d' % v])]
        ctx.check(devs[5000].called == called
                  and devs[5001].called == (called if op == 'group request'
                                            else []), 'called once')
    elif op == 'strategy':
        ctx.check(len(result) == 2 and result[0] == 'period'
                  and float(result[1]) == 2, 'the strategy is set')
        ctx.check([s for s in w.live() if s.address[1] == 5000][0]
                  .strategies['s'][0] == 'period', 'on the device')
    else:
        ctx.check(result == v, 'the value of the sensor')
        ctx.check(res.sensor.dev2_s.value == v, 'the sensor is updated')


assume_note('C41', NOTE)


# ------------------------------------------------------------------ C42

@harness('C42', 'a monitor of a resource, or of a container of two; every '
         'sequence of `steps` of: a device synchronises, changes, loses its '
         'connection, the monitor is told to end, with the ioloop run to rest '
         'or not in between', quick=[{'steps': 3}], thorough=[{'steps': 5}],
         covers=['synced', 'lost', 'ended'])
def monitor(ctx, steps):
    container = ctx.choice('container', [False, True])
    if container:
        w, devs = two_devices(ctx, ['s'])
        res = w.res
        synced = all_synced(res)
    else:
        devs = {5000: RDevice()}
        w = World(ctx, lambda: rc.KATCPClientResource(spec(5000)), devs)
        res = w.res
        synced = lambda: res.state == 'synced'
    told = []
    exit_event = AsyncEvent()
    given = ctx.choice('event given', [True, False])
    f = rc.monitor_resource_sync_state(res, told.append,
                                       exit_event if given else None)
    ctx.check(told == [False], 'told of the initial state')
    ended = None
    for k in range(steps):
        can = []
        if not synced():
            can += ['sync']
        if w.live():
            can += ['change', 'lose']
        if given and ended is None:
            can += ['end']
        ev = ctx.choice('event%d' % k, can or ['nothing'])
        if ev == 'sync':
            w.settle()
            ctx.check(w.settle_all(synced), 'synced')
            ctx.cover('synced')
        elif ev == 'change':
            for s in w.live()[:1]:
                w.send(s, [Message.inform('interface-changed')])
        elif ev == 'lose':
            w.live()[0].close_remote()
            ctx.cover('lost')
        elif ev == 'end':
            exit_event.set()
            ended = len(told)
            ctx.cover('ended')
        how = ctx.choice('settle%d' % k, ['all', 'one', 'none'])
        if how == 'all':
            w.settle()
            if ended is None:
                ctx.check(told[-1] == synced(), 'told of the current state')
        elif how == 'one':
            w.loop.iterate()
        ctx.check(told == [bool(i % 2) for i in range(len(told))],
                  'told of changes only')
    w.settle()
    if ended is None:
        ctx.check(told[-1] == synced(), 'told of the state in the end')
        ctx.check(not f.done(), 'still going on')
    else:
        ctx.check(f.done() and f.exception() is None, 'ended')
        w.settle_all(synced)
        ctx.check(len(told) == ended, 'told nothing after the end')


assume_note('C42', NOTE)
