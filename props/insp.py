"""The inspecting client: model of the device, resynchronisation, sensors."""
import katcp
import katcp.inspecting_client as insp_mod
from katcp.core import Message, ProtocolFlags, ensure_native_str
from katcp.inspecting_client import InspectingClientAsync, SyncError
from props.simclient import ClientWorld
from symkat.harness import assume_note, harness

NOTE = ('tornado IOLoop, IOStream and TCPClient are models, and the device '
        'is a model which answers ?help, ?sensor-list and '
        '?request-timeout-hint; katcp.inspecting_client, katcp.client and '
        'katcp.core run for real')

HINTS = ProtocolFlags(5, 1, [b'M', b'I', b'T'])
NOHINTS = ProtocolFlags(5, 0, [b'M', b'I'])
V4 = ProtocolFlags(4, 0, [])


class FixedRandom(object):
    """random.random() of the backoff: any fixed value is as good."""
    value = 0.5

    @classmethod
    def random(cls):
        return cls.value


class Device(object):
    """What the device is; ``answer`` gives the messages for a request."""

    def __init__(self):
        self.reqs = {}      # name -> (description, hint or None)
        self.sens = {}      # name -> (description, units, type, params)

    def answer(self, msg):
        name, args, mid = msg.name, msg.arguments, msg.mid
        only = ensure_native_str(args[0]) if args else None

        def reply(*a):
            return Message(Message.REPLY, name, list(a), mid=mid)

        def inform(*a):
            return Message(Message.INFORM, name, list(a), mid=mid)

        if name == 'help':
            if only is not None and only not in self.reqs:
                return [reply('fail', 'Unknown request method.')]
            informs = [inform(k, v[0]) for k, v in sorted(self.reqs.items())
                       if only in (None, k)]
        elif name == 'request-timeout-hint':
            if only is not None and only not in self.reqs:
                return [reply('fail', 'Unknown request method.')]
            informs = [inform(k, b'%.1f' % (v[1] or 0))
                       for k, v in sorted(self.reqs.items())
                       if (only is None and v[1]) or only == k]
        elif name == 'sensor-list':
            if only is not None and only not in self.sens:
                return [reply('fail', 'Unknown sensor name.')]
            informs = [inform(k, v[0], v[1], v[2], *v[3])
                       for k, v in sorted(self.sens.items())
                       if only in (None, k)]
        else:
            return [reply('invalid', 'Unknown request.')]
        return informs + [reply('ok', len(informs))]

    def copy(self):
        d = Device()
        d.reqs = dict(self.reqs)
        d.sens = dict(self.sens)
        return d


class World(ClientWorld):
    """An inspecting client and the device it talks to."""

    def __init__(self, ctx, device, flags=NOHINTS, cb=None, **kw):
        self.device = device
        self.auto = True
        self.asked = []           # requests not answered yet, (stream, msg)
        self.log = []             # requests answered
        self.states = []
        self.cb = cb
        self.model = Device()     # what the device last answered, see ask()
        insp_mod.random = FixedRandom
        super(World, self).__init__(ctx, InspectingClientAsync, flags=flags,
                                    start=False, **kw)
        self.ic = self.client
        self.ic.set_state_callback(self.on_state)
        self.started = self.ic.start()
        self.settle()

    def on_state(self, state, changes):
        self.states.append((state, changes))
        if self.cb is not None:
            return self.cb(state, changes)

    def collect(self):
        for s in self.streams:
            for m in s.take():
                if m.mtype == Message.REQUEST:
                    self.asked.append((s, m))

    def send(self, stream, msgs):
        for m in msgs:
            stream.feed(bytes(m) + b'\n')

    def answer_one(self, fail=None):
        """Answer the oldest unanswered request (that can still be)."""
        self.collect()
        while self.asked:
            s, m = self.asked.pop(0)
            if s.is_closed:
                continue
            self.log.append(m)
            if fail == 'fail':
                self.send(s, [Message(Message.REPLY, m.name,
                                      ['fail', 'Device is sulking.'],
                                      mid=m.mid)])
            elif fail == 'garbage':
                self.send(s, [Message(Message.INFORM, m.name, [], mid=m.mid),
                              Message(Message.REPLY, m.name, ['ok', '1'],
                                      mid=m.mid)])
            elif fail != 'silent':
                self.send(s, self.device.answer(m))
            self.settle()
            return m
        return None

    def cooperate(self, limit=30):
        for i in range(limit):
            if self.answer_one() is None:
                return
        raise RuntimeError('the client keeps asking')

    def inform(self, name, *args):
        for s in self.live():
            self.send(s, [Message.inform(name, *args)])
        self.settle()

    def get(self, future):
        """The result of a future which needs the device's cooperation."""
        self.settle()
        self.cooperate()
        assert future.done(), 'no result'
        return future.result()


def same_request(obj, name, want, flags):
    hint = want[1] if flags is HINTS else None
    return (obj is not None and obj.name == name
            and obj.description == ensure_native_str(want[0])
            and (obj.timeout_hint or None) == hint)


def same_sensor(obj, name, want):
    return (obj is not None and obj.name == name
            and obj.description == ensure_native_str(want[0])
            and obj.units == ensure_native_str(want[1])
            and obj.type == ensure_native_str(want[2])
            and [str(p) for p in obj.params]
            == [ensure_native_str(p) for p in want[3]])


def diff(old, new):
    """Names to be reported as added, as removed (both when changed)."""
    added, removed = set(), set()
    for k in new:
        if k not in old:
            added.add(k)
        elif old[k] != new[k]:
            added.add(k)
            removed.add(k)
    for k in old:
        if k not in new:
            removed.add(k)
    return added, removed


def reported(changes, key):
    c = None if changes is None else changes.get(key)
    return (set(), set()) if c is None else (set(c.added), set(c.removed))


def model_matches(ctx, w, device, flags, when):
    ctx.check(set(w.ic.requests) == set(device.reqs),
              'requests of the model are those of the device %s' % when)
    ctx.check(set(w.ic.sensors) == set(device.sens),
              'sensors of the model are those of the device %s' % when)
    for k, v in device.reqs.items():
        obj = w.get(w.ic.future_get_request(k))
        ctx.check(same_request(obj, k, v, flags),
                  'request object describes the request %s' % when)
    for k, v in device.sens.items():
        obj = w.get(w.ic.future_get_sensor(k))
        ctx.check(same_sensor(obj, k, v),
                  'sensor object describes the sensor %s' % when)


def pick_device(ctx, tag, reqs, sens, flags):
    d = Device()
    for n in reqs:
        if ctx.choice('%s_%s' % (tag, n), [True, False]):
            desc = b'd' + ctx.bytes('%s_%s_desc' % (tag, n), 1,
                                    alphabet=b'abc')
            hint = (ctx.choice('%s_%s_hint' % (tag, n), [None, 2.5])
                    if flags is HINTS else None)
            d.reqs[n] = (desc, hint)
    for n in sens:
        if ctx.choice('%s_%s' % (tag, n), [True, False]):
            units = ctx.bytes('%s_%s_units' % (tag, n), 1, alphabet=b'abc')
            kind = ctx.choice('%s_%s_kind' % (tag, n),
                              [(b'integer', []),
                               (b'discrete', [b'on', b'off'])])
            d.sens[n] = (b'desc', units) + kind
    return d


# ------------------------------------------------------------------ C29

@harness('C29', 'a device with the given requests and sensors, each absent or '
         'present with a symbolic description or units, in two versions; '
         'with and without timeout hints; objects fetched between or not; '
         'the inspection of the second version fails first in one of '
         '`fails` ways (error reply, malformed inform, no reply to the n-th '
         'request) or not at all',
         quick=[{'reqs': ['ra'], 'sens': ['sa'],
                 'fails': [None, ('fail', 1), ('garbage', 1)]},
                {'reqs': ['ra', 'rb'], 'sens': [],
                 'fails': [None]}],
         thorough=[{'reqs': ['ra', 'rb'], 'sens': [],
                    'fails': [None, ('fail', 1), ('silent', 1)]},
                   {'reqs': [], 'sens': ['sa', 'sb'],
                    'fails': [None]},
                   {'reqs': ['ra'], 'sens': ['sa'],
                    'fails': [None, ('fail', 0), ('fail', 1), ('fail', 2),
                              ('garbage', 1), ('silent', 1),
                              ('silent', 2)]}],
         covers=['changed', 'failed first'])
def inspection(ctx, reqs, sens, fails):
    flags = ctx.choice('flags', [NOHINTS, HINTS] if reqs else [NOHINTS])
    one = pick_device(ctx, 'one', reqs, sens, flags)
    w = World(ctx, one, flags=flags)
    early = [(w.ic.future_get_request, 'request', n) for n in reqs[:1]]
    early += [(w.ic.future_get_sensor, 'sensor', n) for n in sens[:1]]
    early = [(get(n), kind, n) for get, kind, n in early]
    w.accept()
    w.settle()
    ctx.check(not any(f.done() for f, kind, n in early),
              'looking up waits for the data to be there')
    w.cooperate()
    ctx.check(w.ic.synced, 'synced after the device answered everything')
    for f, kind, n in early:
        obj = w.get(f)
        have = one.reqs if kind == 'request' else one.sens
        if n not in have:
            ctx.check(obj is None, 'looked up early, a name not there')
        else:
            ctx.check(same_request(obj, n, have[n], flags)
                      if kind == 'request' else same_sensor(obj, n, have[n]),
                      'looked up early, a name there')
    data = [c for s, c in w.states if s.data_synced and not s.synced]
    ctx.check(len(data) == 1 and reported(data[0], 'requests')
              == diff({}, one.reqs) and reported(data[0], 'sensors')
              == diff({}, one.sens), 'the first inspection reports everything')
    if ctx.choice('look', [True, False]):
        model_matches(ctx, w, one, flags, 'at first')
    two = pick_device(ctx, 'two', reqs, sens, flags)
    w.device = two
    del w.states[:]
    w.inform('interface-changed')
    fail = ctx.choice('fail', fails)
    if fail is not None:
        for i in range(fail[1]):
            w.answer_one()
        if w.answer_one(fail[0]) is not None:
            ctx.cover('failed first')
            if fail[0] == 'silent':
                w.advance(InspectingClientAsync.sync_timeout + 1)
            if not w.ic.state.data_synced:
                ctx.check(set(w.ic.requests) == set(one.reqs)
                          and set(w.ic.sensors) == set(one.sens),
                          'a failed inspection leaves the model as it was')
        for i in range(4):
            if w.ic.synced:
                break
            w.advance(InspectingClientAsync.max_resync_timeout)
            while w.pending:
                w.accept()
            w.cooperate()
    w.cooperate()
    ctx.check(w.ic.synced, 'synced again')
    data = [c for s, c in w.states if s.data_synced and not s.synced]
    rwant, swant = diff(one.reqs, two.reqs), diff(one.sens, two.sens)
    if rwant[0] & rwant[1] or swant[0] & swant[1]:
        ctx.cover('changed')
    ctx.check(len(data) == 1, 'one inspection is reported')
    ctx.check(reported(data[0], 'requests') == rwant,
              'changes of requests are reported')
    ctx.check(reported(data[0], 'sensors') == swant,
              'changes of sensors are reported')
    model_matches(ctx, w, two, flags, 'afterwards')


@harness('C29', 'looking up one request or sensor by name, known or not to '
         'the client, existing or not (with a symbolic, changed or same, '
         'description) on the device, with and without timeout hints',
         quick=[{}], thorough=[{}], covers=['unknown', 'changed'])
def lookup(ctx):
    flags = ctx.choice('flags', [NOHINTS, HINTS])
    what = ctx.choice('what', ['request', 'sensor'])
    names = (['ra'], []) if what == 'request' else ([], ['sa'])
    name = 'ra' if what == 'request' else 'sa'
    one = pick_device(ctx, 'one', names[0], names[1], flags)
    one.reqs['other'] = (b'other request', None)
    one.sens['other'] = (b'other sensor', b'm', b'integer', [])
    w = World(ctx, one, flags=flags)
    w.accept()
    w.cooperate()
    get = (w.ic.future_get_request if what == 'request'
           else w.ic.future_get_sensor)
    look = ctx.choice('look', [True, False])
    if look:
        w.get(get(name))
        w.get(get('other'))
    w.log = []
    two = pick_device(ctx, 'two', names[0], names[1], flags)
    two.reqs['other'] = (b'changed by now', None)
    two.sens['other'] = (b'changed by now', b'm', b'integer', [])
    w.device = two
    how = ctx.choice('how', ['get', 'inspect', 'refused'])
    old = one.reqs if what == 'request' else one.sens
    new = two.reqs if what == 'request' else two.sens
    if how == 'get' and name in old:
        # no question is asked
        obj = w.get(get(name))
        ctx.check((same_request(obj, name, old[name], flags)
                   if what == 'request'
                   else same_sensor(obj, name, old[name])),
                  'a known name is looked up in the model')
        new = old
    elif how == 'refused':
        f = (w.ic.inspect_requests(name) if what == 'request'
             else w.ic.inspect_sensors(name))
        w.settle()
        w.answer_one('fail')
        ctx.check(f.done() and isinstance(f.exception(), SyncError),
                  'being refused an answer is no answer')
        obj = w.get(get(name, update=False))
        ctx.check((obj is not None) == (name in old),
                  'being refused an answer changes nothing')
        new = old
    elif how == 'get':
        obj = w.get(get(name))
        if name in new:
            ctx.check((same_request(obj, name, new[name], flags)
                       if what == 'request'
                       else same_sensor(obj, name, new[name])),
                      'a name unknown so far is asked from the device')
        else:
            ctx.cover('unknown')
            ctx.check(obj is None, 'a name unknown to the device gives None')
    else:
        f = (w.ic.inspect_requests(name) if what == 'request'
             else w.ic.inspect_sensors(name))
        changes = w.get(f)
        want = diff(dict((k, v) for k, v in old.items() if k == name),
                    dict((k, v) for k, v in new.items() if k == name))
        if want[0] & want[1]:
            ctx.cover('changed')
        got = ((set(), set()) if changes is None
               else (set(changes.added), set(changes.removed)))
        ctx.check(got == want, 'changes of the name are reported')
        obj = w.get(get(name, update=False))
        if name in new:
            ctx.check((same_request(obj, name, new[name], flags)
                       if what == 'request'
                       else same_sensor(obj, name, new[name])),
                      'the name is up to date after inspecting it')
        else:
            ctx.check(obj is None, 'a name gone is gone after inspecting it')
    ctx.check(set(w.ic.requests) == set(one.reqs if what == 'sensor'
                                        else new), 'names of requests')
    ctx.check(set(w.ic.sensors) == set(one.sens if what == 'request'
                                       else new), 'names of sensors')
    obj = w.get(get('other', update=False))
    ctx.check(obj is not None and obj.description.startswith('other '),
              'other names are left alone')
    ctx.check(all(m.arguments == [name.encode('ascii')] for m in w.log),
              'only the name is asked about')
    ctx.check(w.ic.synced, 'still synced')
    del w.states[:]
    w.inform('interface-changed')
    w.cooperate()
    ctx.check(w.ic.synced, 'synced again')
    data = [c for s, c in w.states if s.data_synced and not s.synced]
    ctx.check(len(data) == 1, 'one inspection is reported')
    ctx.check(reported(data[0], 'requests') == diff(one.reqs, two.reqs)
              and reported(data[0], 'sensors') == diff(one.sens, two.sens),
              'the next inspection reports what the lookup found, too')
    model_matches(ctx, w, two, flags, 'in the end')


assume_note('C29', NOTE)


# ------------------------------------------------------------------ C33

class Resync(object):
    """The device changes now and then; every change is announced."""

    def __init__(self, ctx, slow, flags=NOHINTS):
        self.ctx = ctx
        self.slow = slow
        self.blocked = []
        self.version = 0
        self.known = Device()      # rebuilt from the changes reported
        self.w = World(ctx, Device(), flags=flags, cb=self.cb)
        self.change(False)

    def cb(self, state, changes):
        for key, names in (('requests', self.known.reqs),
                           ('sensors', self.known.sens)):
            added, removed = reported(changes, key)
            for n in removed:
                names.pop(n, None)
            for n in added:
                names[n] = True
        self.ctx.check(not state.synced or state.data_synced,
                       'states are valid')
        if state.synced or state.data_synced:
            self.ctx.check(state.connected, 'data is synced when connected')
        if state.synced:
            self.ctx.check(not self.blocked, 'synced is only announced when '
                           'the user has handled the changes')
            self.ctx.check(self.w.ic.connected,
                           'synced is only announced while connected')
        if self.slow and not state.synced and state.data_synced:
            from tornado.concurrent import Future
            f = Future()
            self.blocked.append(f)
            return f

    def change(self, announce=True):
        self.version += 1
        v = self.version
        d = Device()
        d.reqs['help'] = (b'version %d' % v, None)
        d.reqs['r%d' % v] = (b'a request', None)
        d.sens['s'] = (b'description', b'm', b'integer', [])
        d.sens['s%d' % v] = (b'description %d' % v, b'm', b'integer', [])
        self.w.device = d
        if announce:
            self.w.inform('interface-changed')

    def release(self):
        fs, self.blocked = self.blocked, []
        for f in fs:
            f.set_result(None)
        self.w.settle()

    def consistent(self, when):
        w, ctx = self.w, self.ctx
        d = w.device
        ctx.check(set(w.ic.requests) == set(d.reqs)
                  and set(w.ic.sensors) == set(d.sens),
                  'synced means the model is the device %s' % when)
        ctx.check(w.get(w.ic.future_get_request('help', update=False))
                  .description == 'version %d' % self.version,
                  'synced means the model is up to date %s' % when)
        ctx.check(set(self.known.reqs) == set(d.reqs)
                  and set(self.known.sens) == set(d.sens),
                  'the reported changes add up to the model %s' % when)
        ctx.check(w.ic.state.connected and bool(w.live()),
                  'synced means connected %s' % when)

    def cooperate(self):
        """Everything goes well from now on."""
        w = self.w
        for i in range(12):
            self.release()
            while w.pending:
                w.accept()
            w.cooperate()
            if (w.ic.synced and not self.blocked and not w.asked
                    and not w.pending):
                return True
            if self.blocked or w.pending:
                continue
            t = w.loop.next_deadline()
            if t is None:
                return False
            if t > w.loop.now:
                w.loop.now = t
            w.settle()
        return False


@harness('C33', 'a device changing its interface (announced while connected); '
         'every sequence of `steps` events out of: device answers, refuses, '
         'or ignores the next request; it changes; the connection is lost '
         'and the device changes before it is accepted again; the slow state '
         'callback of the user completes; symbolic time passes.  Starting '
         'unsynced, synced or with the user '
         'callback running; then everything goes well',
         quick=[{'steps': 3}], thorough=[{'steps': 4}],
         covers=['synced', 'resynced', 'slow'])
def resync(ctx, steps):
    start = ctx.choice('start', ['fresh', 'synced', 'callback'])
    r = Resync(ctx, start == 'callback')
    w = r.w
    w.accept()
    if start == 'synced':
        ctx.check(r.cooperate(), 'the client syncs')
    elif start == 'callback':
        w.cooperate()
    waits = []
    for k in range(steps):
        ic = w.ic
        waits += [(f, test, ic.state, len(w.states)) for f, test in (
            (ic.until_synced(), lambda s: s.synced),
            (ic.until_not_synced(), lambda s: not s.synced),
            (ic.until_data_synced(), lambda s: s.data_synced),
            (ic.until_state(ic.state), lambda s, want=ic.state: s == want))]
        w.collect()
        live = bool(w.live())
        can = []
        if w.asked and live:
            can += ['answer', 'fail', 'silent']
        if live:
            can += ['change', 'drop']
        if r.blocked:
            can += ['callback']
            ctx.cover('slow')
        can += ['wait']
        ev = ctx.choice('event%d' % k, can)
        if ev == 'answer':
            w.answer_one()
        elif ev in ('fail', 'silent'):
            w.answer_one(ev)
        elif ev == 'change':
            r.change()
        elif ev == 'drop':
            w.live()[0].close_remote()
            w.settle()
            r.change(False)
            # the client tries again after its reconnect delay
            dt = ctx.int('down%d' % k, 0, 2)
            w.advance(dt)
            while w.pending:
                w.accept()
        elif ev == 'callback':
            r.release()
        elif ev == 'wait':
            dt = ctx.int('dt%d' % k, 1, 25)
            w.advance(dt)
            while w.pending:
                w.accept()
        for f, test, state, n in waits:
            ctx.check(f.done() == any(
                test(x) for x in [state] + [x for x, c in w.states[n:]]),
                'waiting for a state ends when there is one')
        if w.ic.synced:
            ctx.cover('synced')
            r.consistent('after event %d' % k)
    ctx.check(r.cooperate(), 'the client syncs again')
    r.consistent('in the end')
    ctx.cover('resynced')


@harness('C33', 'a device whose protocol is not known before it says so; every '
         'sequence of `steps` events out of: a connection is accepted or '
         'refused, the device says which protocol it speaks (5 with or without '
         'ids, or 4), or is silent, the connection is lost, symbolic time '
         'passes; then everything goes well', quick=[{'steps': 4}],
         thorough=[{'steps': 6}], covers=['synced', 'lost before', 'silent'])
def handshake(ctx, steps):
    r = Resync(ctx, False, flags=None)
    w = r.w
    proto = ctx.choice('protocol', [b'5.0-MI', b'5.0-M', b'4.0', b'5.1-MIT'])
    said = set()

    def say():
        for s in w.live():
            if s not in said:
                said.add(s)
                if proto == b'4.0':
                    s.feed(b'#build-state 1\n#version 1\n')
                else:
                    s.feed(b'#version-connect katcp-protocol ' + proto
                           + b'\n')
        w.settle()

    for k in range(steps):
        can = ['wait']
        if w.pending:
            can += ['accept', 'refuse']
        if w.live():
            can += ['lose']
            if w.live()[0] not in said:
                can += ['say']
        ev = ctx.choice('event%d' % k, can)
        if ev == 'accept':
            w.accept()
        elif ev == 'refuse':
            w.refuse()
        elif ev == 'say':
            say()
            w.cooperate()
        elif ev == 'lose':
            if w.live()[0] not in said:
                ctx.cover('lost before')
            w.live()[0].close_remote()
            w.settle()
        else:
            w.advance(ctx.int('dt%d' % k, 1, 9))
            if w.live() and w.live()[0] not in said:
                ctx.cover('silent')
        w.collect()
        ctx.check(not [s for s, m in w.asked if s not in said],
                  'nothing is asked before the protocol is known')
        ctx.check(w.ic.state.connected == bool(w.live()),
                  'the state tells whether there is a connection')
        ctx.check(w.ic.synced == (bool(w.live()) and w.live()[0] in said),
                  'synced when the device has answered')
        if w.ic.synced:
            ctx.cover('synced')
            r.consistent('after event %d' % k)
    for i in range(4):
        if w.pending:
            w.accept()
        say()
        if w.ic.synced or r.cooperate():
            break
    ctx.check(w.ic.synced, 'the client syncs')
    r.consistent('in the end')


@harness('C33', '`n` failing synchronisations (error reply), success, then a '
         'change of the device and failing ones again; the random factor is '
         'one of three; the retry is awaited',
         quick=[{'n': 3}], thorough=[{'n': 6}], covers=['retried', 'reset'])
def backoff(ctx, n):
    FixedRandom.value = ctx.choice('random', [0.0, 0.5, 0.999])
    r = Resync(ctx, False)
    w = r.w
    first, most = w.ic.initial_resync_timeout, w.ic.max_resync_timeout
    w.accept()
    for phase in range(2):
        k = ctx.choice('fails%d' % phase, list(range(n + 1)))
        bound = first
        for i in range(k):
            ctx.check(w.answer_one('fail') is not None,
                      'a synchronisation is tried')
            w.collect()
            ctx.check(not w.asked and not w.ic.synced,
                      'nothing is asked right after a failure')
            t0 = w.loop.now
            while not w.asked:
                t = w.loop.next_deadline()
                ctx.check(t is not None and t <= t0 + bound,
                          'the retry comes within the bound growing with '
                          'every failure in a row')
                if t > w.loop.now:
                    w.loop.now = t
                w.settle()
                w.collect()
            delay = w.loop.now - t0
            ctx.cover('retried')
            ctx.check(len(w.asked) == 1, 'one retry')
            # with the random factor being the same every time
            ctx.check(i == 0 or delay > before
                      or (bound == bound_before and delay == before),
                      'delays grow with every failure in a row')
            before, bound_before = delay, bound
            bound = min(bound * 3, most)
        ctx.check(r.cooperate(), 'the client syncs')
        r.consistent('after failures')
        if phase == 0:
            r.change()
            if k:
                ctx.cover('reset')


@harness('C33', 'the state callback of the user fails at one of its first `m` '
         'calls (raising, or through its future), while the device changes or '
         'the connection is lost at one of them', quick=[{'m': 8}],
         thorough=[{'m': 12}], covers=['failed', 'beyond', 'stopped'])
def failing_callback(ctx, m):
    r = Resync(ctx, False)
    w = r.w
    fails = ctx.choice('fails at', list(range(m)))
    how = ctx.choice('how', ['raises', 'future'])
    calls = []

    def cb(state, changes):
        calls.append(state)
        r.cb(state, changes)
        if len(calls) == fails + 1:
            ctx.cover('failed')
            if how == 'raises':
                raise RuntimeError('cannot')
            from tornado.concurrent import Future
            f = Future()
            f.set_exception(RuntimeError('cannot'))
            return f
    w.cb = cb
    for k in range(2):
        ev = ctx.choice('ev%d' % k, ['change', 'drop', 'restart', 'nothing'])
        while w.pending:
            w.accept()
        if k:
            ctx.check(r.cooperate(), 'the client syncs')
        if ev == 'change':
            r.change()
        elif ev == 'drop':
            for s in w.live():
                s.close_remote()
            w.settle()
            r.change(False)
        elif ev == 'restart':
            w.ic.stop()
            w.settle()
            w.advance(ctx.choice('pause%d' % k, [1, 90]))
            ctx.check(not w.live() and w.ic.until_stopped().done(),
                      'it can be stopped')
            ctx.check(not w.ic.synced, 'not synced after stop()')
            w.ic.start()
            w.settle()
            ctx.cover('stopped')
    ctx.check(r.cooperate(), 'the client syncs again')
    r.consistent('in the end')
    if len(calls) <= fails:
        ctx.cover('beyond')
        return
    w.advance(90)
    del w.log[:]
    r.change()
    ctx.check(r.cooperate(), 'the client syncs after a change')
    ctx.check([m.name for m in w.log].count('help') == 1,
              'by asking the device once')


@harness('C33', 'stop() at every point of `steps` events (answers, failures, '
         'changes, lost connection), then time passes (long or short) and it is started '
         'again', quick=[{'steps': 3}], thorough=[{'steps': 4}],
         covers=['stopped'])
def stopping(ctx, steps):
    r = Resync(ctx, False)
    w = r.w
    if ctx.choice('accept', [True, False]):
        w.accept()
    if ctx.choice('start', ['fresh', 'synced']) == 'synced':
        while w.pending:
            w.accept()
        r.cooperate()
    for k in range(steps):
        w.collect()
        live = bool(w.live())
        can = ['nothing']
        if w.asked and live:
            can += ['answer', 'fail']
        if live:
            can += ['change', 'drop']
        if w.pending:
            can += ['accept']
        ev = ctx.choice('event%d' % k, can)
        if ev == 'answer':
            w.answer_one()
        elif ev == 'fail':
            w.answer_one('fail')
        elif ev == 'change':
            r.change()
        elif ev == 'drop':
            w.live()[0].close_remote()
            w.settle()
        elif ev == 'accept':
            w.accept()
    w.ic.stop()
    w.settle()
    ctx.cover('stopped')
    pause = ctx.choice('pause', [[1, 20, 90, 1, 90], [1]])
    for dt in pause:
        w.advance(dt)
        while w.pending:
            w.accept()
    ctx.check(not w.live(), 'no connection is left after stop()')
    w.collect()
    ctx.check(not [m for s, m in w.asked if not s.is_closed],
              'nothing is asked after stop()')
    ctx.check(not w.ic.synced, 'not synced after stop()')
    ctx.check(not w.ic.state.connected or len(pause) == 1,
              'state says not connected after stop()')
    ctx.check(not w.ic.connected, 'not connected after stop()')
    ctx.check(w.ic.until_stopped().done(), 'until_stopped() resolves')
    again = w.ic.start()
    w.settle()
    ctx.check(r.cooperate() and again.done() and again.exception() is None,
              'it can be started again')
    r.consistent('after a restart')
    w.advance(90)
    del w.log[:]
    r.change()
    ctx.check(r.cooperate(), 'the client syncs after a change')
    ctx.check([m.name for m in w.log].count('help') == 1,
              'by asking the device once')


assume_note('C33', NOTE)


# ------------------------------------------------------------------ C36

class Observer(object):
    def __init__(self):
        self.seen = []

    def update(self, sensor, reading=None):
        self.seen.append(reading)


@harness('C36', 'a device with a sensor the client knows and one it does not '
         'know yet; every sequence of `steps` events out of: an update '
         'inform for the known, the unknown, or both sensors with symbolic '
         'value and timestamp, the device answers a question, one iteration '
         'of the loop; starting before or after the first sync; katcp 5, or '
         '4 (milliseconds, no message ids)',
         quick=[{'steps': 4, 'flags': 'v5'}, {'steps': 2, 'flags': 'v4'}],
         thorough=[{'steps': 5, 'flags': 'v5'}, {'steps': 3, 'flags': 'v4'}],
         covers=['several', 'unknown'])
def mirror(ctx, steps, flags):
    d = Device()
    d.sens['k'] = (b'known', b'm', b'integer', [])
    w = World(ctx, d, flags={'v5': NOHINTS, 'v4': V4}[flags])
    unit = 1 if flags == 'v5' else 1000
    made = {}

    def factory(**kw):
        s = katcp.Sensor(**kw)
        ctx.check(kw['name'] not in made, 'one object per sensor')
        s.observer = Observer()
        s.attach(s.observer)
        made[kw['name']] = s
        return s
    w.ic.sensor_factory = factory
    start = ctx.choice('start', ['fresh', 'synced', 'looked up'])
    w.accept()
    if start != 'fresh':
        w.cooperate()
        d.sens['u'] = (b'unknown', b'm', b'integer', [])
    if start == 'looked up':
        w.get(w.ic.future_get_sensor('k'))
        made['k'].observer.seen[:]
    last = {}
    count = {'k': 0, 'u': 0}
    for k in range(steps):
        w.collect()
        can = ['k', 'one iteration']
        if start != 'fresh':
            can += ['u', 'both']
        if w.asked:
            can += ['answer']
        ev = ctx.choice('event%d' % k, can)
        if ev in ('k', 'u', 'both'):
            names = ['k', 'u'] if ev == 'both' else [ev]
            args = [b'1%d' % k + ctx.bytes('time%d' % k, 1, b'0123456789'),
                    len(names)]
            if flags == 'v4':
                args[0] += b'000'
            for n in names:
                v = (b'%d' % (k + 1)
                     + ctx.bytes('value%d_%s' % (k, n), 1, b'0123456789'))
                args += [n, [b'nominal', b'error'][k % 2], v]
                last[n] = (args[0], args[-2], v)
                count[n] += 1
            w.send(w.live()[0], [Message.inform('sensor-status', *args)])
            w.loop.iterate()
        elif ev == 'answer':
            w.collect()
            s, m = w.asked.pop(0)
            w.send(s, w.device.answer(m))
            w.loop.iterate()
        else:
            w.loop.iterate()
    w.settle()
    w.cooperate()
    ctx.check(w.ic.synced, 'synced in the end')
    for n, (t, status, value) in last.items():
        ctx.check(n in made, 'an update makes the sensor object')
        if n == 'u':
            ctx.cover('unknown')
        obj = made[n]
        ctx.check(w.get(w.ic.future_get_sensor(n)) is obj,
                  'the object updated is the one users get')
        r = obj.read()
        ctx.check(r.value == int(value)
                  and katcp.Sensor.STATUSES[r.status]
                  == ensure_native_str(status)
                  and r.timestamp * unit == int(t),
                  'the sensor object shows the last update received')
        seen = [x.value // 10 for x in obj.observer.seen]
        ctx.check(len(seen) == count[n], 'every update is seen once')
        ctx.check(seen == sorted(seen), 'updates are seen in order')
        if count[n] > 1:
            ctx.cover('several')
    ctx.check(not w.loop.errors, 'no unhandled errors')


assume_note('C36', NOTE)


@harness('C36', 'a sensor update inform which is malformed in one of several '
         'ways (with a symbolic byte), before a good one for the same or '
         'another sensor; the user hooks the informs too',
         quick=[{}], thorough=[{}], covers=['bad'])
def malformed(ctx):
    d = Device()
    d.sens['k'] = (b'known', b'm', b'integer', [])
    d.sens['l'] = (b'known too', b'm', b'integer', [])
    w = World(ctx, d)
    w.accept()
    w.cooperate()
    ctx.check(w.ic.synced, 'synced')
    for n in 'kl':
        w.get(w.ic.future_get_sensor(n))
    handled, hooked = [], []

    class Recording(insp_mod._InformHookDeviceClient):
        def unhandled_inform(self, msg):
            handled.append(msg)
    w.ic.katcp_client.__class__ = Recording
    hook = hooked.append
    w.ic.katcp_client.hook_inform('sensor-status', hook)
    w.ic.katcp_client.hook_inform('sensor-status', hook)
    x = ctx.bytes('x', 1)
    bad = ctx.choice('bad', [
        [b'1', b'1', b'k', b'nominal', x], [b'1', b'1', b'k', x, b'1'],
        [b'1', b'1', x, b'nominal', b'1'], [b'1', x, b'k', b'nominal', b'1'],
        [x, b'1', b'k', b'nominal', b'1'], [x], [],
        [b'1', b'2', b'k', b'nominal', b'1', b'l', b'nominal'],
        [b'1', b'2', b'k', b'nominal', x, b'l', b'nominal', b'5'],
        [b'1', b'1', b'k', b'nominal', b'1', b'l', b'nominal', b'5']])
    s = w.live()[0]
    w.send(s, [Message.inform('sensor-status', *bad)])
    w.settle()
    w.cooperate()
    ctx.cover('bad')
    ctx.observe('handled', len(handled))
    ctx.observe('hooked', len(hooked))
    ctx.check(len(handled) == 1 and len(hooked) == 1,
              'a bad update keeps nobody else from seeing the inform')
    if bad[1:2] == [b'1'] and len(bad) == 8:
        for n in 'kl':
            ctx.check(w.get(w.ic.future_get_sensor(n)).read().timestamp != 1,
                      'an update of the wrong length changes nothing')
    if bad[1:2] == [b'2'] and len(bad) == 8:
        r = w.get(w.ic.future_get_sensor('l')).read()
        ctx.check(r.value == 5, 'a bad update does not spoil the next one')
    name = ctx.choice('name', ['k', 'l'])
    w.send(s, [Message.inform('sensor-status', '3', '1', name, 'warn', '7')])
    w.settle()
    w.cooperate()
    r = w.get(w.ic.future_get_sensor(name)).read()
    ctx.check(r.value == 7 and r.timestamp == 3
              and r.status == katcp.Sensor.WARN,
              'a bad update does not spoil later ones')
    ctx.check(len(handled) == 2 and len(hooked) == 2 and bool(w.live()),
              'informs go on being handled')
    ctx.check(w.ic.synced, 'still synced')


@harness('C36', 'a sensor which goes, comes back or changes (description, '
         'units or type), with the client synchronised in between; looked up '
         'or not before and after; updates with symbolic values before and '
         'after', quick=[{}], thorough=[{}], covers=['changed', 'gone'])
def replaced(ctx):
    d = Device()
    d.sens['k'] = (b'known', b'm', b'integer', [])
    d.sens['l'] = (b'another', b'm', b'integer', [])
    w = World(ctx, d)
    w.accept()
    w.cooperate()

    def update(tag, t):
        v = ctx.int('value_' + tag, 10, 99)
        w.send(w.live()[0], [Message.inform('sensor-status', t, '2', 'k',
                                            'nominal', v, 'l', 'warn', v)])
        w.settle()
        w.cooperate()
        return v

    if ctx.choice('look', [True, False]):
        w.get(w.ic.future_get_sensor('k'))
    last, when = None, 0
    if ctx.choice('before', [True, False]):
        last, when = update('before', 1), 1
    how = ctx.choice('how', ['description', 'units', 'type', 'gone'])
    if how == 'gone':
        del d.sens['k']
        w.inform('interface-changed')
        w.cooperate()
        ctx.check(w.get(w.ic.future_get_sensor('k')) is None,
                  'a sensor gone has no object')
        ctx.cover('gone')
        if ctx.choice('stray', [True, False]):
            last, when = update('stray', 2), 2
            ctx.check(w.get(w.ic.future_get_sensor('k')) is None,
                      'a stray update makes no sensor')
    d.sens['k'] = {'description': (b'changed', b'm', b'integer', []),
                   'units': (b'known', b's', b'integer', []),
                   'type': (b'known', b'm', b'float', []),
                   'gone': (b'known', b'm', b'integer', [])}[how]
    if how != 'gone':
        ctx.cover('changed')
    w.inform('interface-changed')
    w.cooperate()
    ctx.check(w.ic.synced, 'synced again')
    if ctx.choice('look again', [True, False]):
        obj = w.get(w.ic.future_get_sensor('k'))
        ctx.check(same_sensor(obj, 'k', d.sens['k']),
                  'the object looked up describes the sensor as it is')
    last, when = update('after', 3), 3
    obj = w.get(w.ic.future_get_sensor('k'))
    ctx.check(same_sensor(obj, 'k', d.sens['k']),
              'the object updated describes the sensor as it is')
    for n in 'kl':
        r = w.get(w.ic.future_get_sensor(n)).read()
        ctx.check(r.value == last and r.timestamp == when,
                  'the object users get shows the last update')
    ctx.check(not w.loop.errors, 'no unhandled errors')
