"""Clients: requests, replies, connections."""
import concurrent.futures

from katcp.client import (AsyncClient, CallbackClient, make_threadsafe,
                          make_threadsafe_blocking)
from katcp.ioloop_manager import (IOLoopThreadWrapper,
                                  ThreadSafeMethodAttrWrapper)
from katcp.core import (KatcpSyntaxError, KatcpVersionError, Message,
                        MessageParser, ProtocolFlags)
from props.simclient import IDS, LOOP, NOIDS, OTHER, ClientWorld
from props.srv import lines_of
from props.simloop import ENV, Preempt, as_thread
from tornado.concurrent import Future
from symkat.harness import assume_note, harness

NOTE = ('tornado IOLoop, IOStream and TCPClient are replaced by models (FIFO '
        'callbacks, recorded writes, time moved by the harness); katcp.client, '
        'katcp.core and tornado.gen run for real')


class Cli(AsyncClient):
    def __init__(self, *a, **k):
        self.notified = []
        self.others = []
        super(Cli, self).__init__(*a, **k)

    def notify_connected(self, connected):
        self.notified.append(connected)

    def unhandled_reply(self, msg):
        self.others.append(msg)

    def unhandled_inform(self, msg):
        self.others.append(msg)


class Req(object):
    """One request and what its callbacks saw."""

    def __init__(self, world, name, mid, timeout, use_mid=None, future=False):
        self.replies, self.informs = [], []
        self.name = name
        self.sent_at = world.loop.now
        self.deadline = None if timeout is None else world.loop.now + timeout
        self.want = None           # expected reply message, or 'fail'
        self.want_informs = []
        self.msg = Message.request(name, mid=mid)
        self.raised = None
        c = world.client
        try:
            if future:
                f = c.future_request(self.msg, timeout=timeout,
                                     use_mid=use_mid)
                f.add_done_callback(self.done)
            else:
                c.callback_request(self.msg, self.reply, self.inform,
                                   user_data=('u',), timeout=timeout,
                                   use_mid=use_mid)
        except KatcpVersionError as e:
            self.raised = e
        self.mid = self.msg.mid

    def reply(self, msg, u):
        self.replies.append(msg)

    def inform(self, msg, u):
        self.informs.append(msg)

    def done(self, f):
        if f.exception() is not None:
            self.raised = f.exception()
            return
        reply, informs = f.result()
        self.replies.append(reply)
        self.informs.extend(informs)


def is_failure(msg, req):
    return (msg.mtype == Message.REPLY and msg.name == req.name
            and len(msg.arguments) == 2 and msg.arguments[0] == b'fail'
            and not msg.reply_ok())


# ------------------------------------------------------------------ C24

EVENTS = ['reply', 'inform', 'stray mid', 'no mid', 'inform no mid', 'wait',
          'close', 'disconnect', 'stop']


@harness('C24', 'two or three requests of two names, with and without message '
         'ids, callback or future style; then every sequence of `steps` '
         'events out of: reply or inform to any request, reply with an '
         'unknown id, reply or inform without id, time passing (symbolic), '
         'connection lost, disconnect(), stop()',
         quick=[{'steps': 2}], thorough=[{'steps': 3}],
         covers=['replied', 'timed out', 'lost'])
def exactly_once(ctx, steps):
    flags = ctx.choice('flags', [IDS, NOIDS])
    ids = flags is IDS
    w = ClientWorld(ctx, Cli, flags=flags, timeout=None)
    s = w.accept()
    reqs = []
    names = ctx.choice('names', [('a', 'a'), ('a', 'b')])
    for i, name in enumerate(names):
        t = ctx.choice('timeout%d' % i, [None, 5])
        use_mid = (ctx.choice('use_mid%d' % i, [None, False])
                   if ids else None)
        reqs.append(Req(w, name, None, t, use_mid, future=i == 1))
    sent = s.take()
    ctx.check([(m.name, m.mid) for m in sent]
              == [(r.name, r.mid) for r in reqs], 'requests are sent')
    for r in reqs:
        ctx.check((r.mid is not None) == (ids and r.mid is not None),
                  'ids only where supported')
    alive = True
    outstanding = list(reqs)
    others = 0

    def settle(r, how):
        r.want = how
        outstanding.remove(r)

    def expire():
        for r in list(outstanding):
            if r.deadline is not None and w.loop.now >= r.deadline:
                settle(r, 'fail')
                ctx.cover('timed out')

    def match(mid, name):
        for r in outstanding:
            if mid is not None and r.mid == mid:
                return r
            if mid is None and r.mid is None and r.name == name:
                return r

    for k in range(steps):
        ev = ctx.choice('event%d' % k, EVENTS)
        if ev == 'wait':
            dt = ctx.int('dt%d' % k, 1, 7)
            w.advance(dt)
            expire()
        elif ev in ('close', 'disconnect', 'stop'):
            if not alive:
                ctx.assume(False)
            if ev == 'close':
                s.close_remote()
            elif ev == 'disconnect':
                w.client.disconnect()
            else:
                w.client.stop()
            w.settle()
            alive = False
            for r in list(outstanding):
                settle(r, 'fail')
                ctx.cover('lost')
        else:
            if not alive:
                ctx.assume(False)
            r = reqs[0]
            if ev in ('reply', 'inform'):
                r = ctx.choice('which%d' % k, reqs)
                mid = r.mid
            elif ev == 'stray mid':
                mid = b'77'
            else:
                mid = None
            mk = Message.inform if 'inform' in ev else Message.reply
            m = mk(r.name, 'ok', 'v%d' % k, mid=mid)
            s.feed(bytes(m) + b'\n')
            w.settle()
            to = match(mid, r.name)
            if to is None:
                others += 1
            elif 'inform' in ev:
                to.want_informs.append(m)
            else:
                settle(to, m)
                ctx.cover('replied')
        for r in reqs:
            if r.want is None:
                ctx.check(not r.replies, 'no early reply')
            else:
                ctx.check(len(r.replies) == 1, 'exactly one reply callback')
                if r.want == 'fail':
                    ctx.check(is_failure(r.replies[0], r), 'a fail reply')
                else:
                    ctx.check(r.replies[0] == r.want, 'its own reply')
                ctx.check(r.informs == r.want_informs,
                          'its own informs, in order, before the reply')
    ctx.check(len(w.client.others) == others,
              'unmatched messages go to the default handlers')
    # everything is reported in the end
    if alive:
        s.close_remote()
    w.settle()
    w.advance(100)
    for r in reqs:
        ctx.check(len(r.replies) == 1, 'every request is answered once')
    ctx.check(not w.loop.errors, 'no error escapes into the ioloop')


OWN = [None, False, b'1', b'2', 'again']


@harness('C24', 'a client of a server with ids, with `n` requests of the same '
         'name, each with the default id, without one, with an id the user '
         'chose among those the client would assign, or the same Message '
         'sent again; then every sequence of `steps` of: reply or inform with '
         'any of the ids 1 to 3 or without, time passing, connection lost',
         quick=[{'n': 3, 'steps': 1}, {'n': 2, 'steps': 2}],
         thorough=[{'n': 3, 'steps': 2}, {'n': 2, 'steps': 3}],
         covers=['replied', 'in use', 'not answered'])
def own_ids(ctx, n, steps):
    w = ClientWorld(ctx, Cli, flags=IDS, timeout=None)
    s = w.accept()
    reqs, pending = [], []
    for i in range(n):
        kind = ctx.choice('kind%d' % i, OWN)
        r = Req.__new__(Req)
        r.replies, r.informs, r.raised, r.name = [], [], None, 'a'
        r.want, r.want_informs = None, []
        if kind == 'again':
            ctx.assume(i > 0)
            r.msg = reqs[-1].msg
            ctx.assume(r.msg.mid is not None)
        else:
            r.msg = Message.request('a', mid=kind or None)
        given = r.msg.mid
        w.client.callback_request(
            r.msg, r.reply, r.inform, user_data=('u',), timeout=5,
            use_mid=False if kind is False else None)
        r.mid = r.msg.mid
        out = s.take()
        w.settle()
        if given is not None and given in [q.mid for q in pending]:
            ctx.check(not out, 'an id in use is not sent again')
            ctx.check(len(r.replies) == 1 and is_failure(r.replies[0], r),
                      'it fails at once')
            r.want = 'fail'
            ctx.cover('in use')
        else:
            ctx.check([(m.name, m.mid) for m in out] == [('a', r.mid)],
                      'requests are sent')
            ctx.check((r.mid is None) == (kind is False),
                      'with an id unless told not to')
            ctx.check(r.mid is None
                      or r.mid not in [q.mid for q in pending],
                      'which no other pending request has')
            ctx.check(given is None or r.mid == given, 'the given one')
            pending.append(r)
        reqs.append(r)
    others = 0
    for k in range(steps):
        ev = ctx.choice('event%d' % k, ['reply', 'inform', 'wait', 'close'])
        if ev == 'wait':
            w.advance(6)
        elif ev == 'close':
            s.close_remote()
            w.settle()
        if ev in ('wait', 'close'):
            for r in pending:
                r.want = 'fail'
            pending = []
            if ev == 'close':
                break
            continue
        mid = ctx.choice('mid%d' % k, [None, b'1', b'2', b'3'])
        m = (Message.inform if ev == 'inform' else Message.reply)(
            'a', 'ok', 'v%d' % k, mid=mid)
        s.feed(bytes(m) + b'\n')
        w.settle()
        to = [r for r in pending if r.mid == mid][:1]
        if not to:
            others += 1
            ctx.cover('not answered')
        elif ev == 'inform':
            to[0].want_informs.append(m)
        else:
            to[0].want = m
            pending.remove(to[0])
            ctx.cover('replied')
        ctx.check(len(w.client.others) == others,
                  'unmatched messages go to the default handlers')
    s.close_remote()
    w.settle()
    w.advance(100)
    for r in reqs:
        ctx.check(len(r.replies) == 1, 'every request is answered once')
        if r.want in (None, 'fail'):
            ctx.check(is_failure(r.replies[0], r), 'with a fail reply')
        else:
            ctx.check(r.replies[0] == r.want, 'its own reply')
        ctx.check(r.informs == r.want_informs, 'its own informs, in order')
    ctx.check(not w.loop.errors, 'no error escapes into the ioloop')


class Callback(Req):
    """A request whose reply callback does something awkward."""
    act = None

    def reply(self, msg, u):
        super(Callback, self).reply(msg, u)
        if self.act is not None:
            self.act()


@harness('C24', 'a request made while: connecting, refused, connected, the '
         'connection just dropped (close not yet noticed), writing fails, '
         'after disconnection, after stop; with a user id, forced id or '
         'default; to servers with and without ids; text or non-UTF-8 '
         'argument; then closing and time',
         quick=[{}], covers=['unsupported id', 'failed', 'waits'])
def cannot_send(ctx):
    flags = ctx.choice('flags', [IDS, NOIDS])
    state = ctx.choice('state', ['connecting', 'refused', 'connected',
                                 'dropped', 'write fails', 'disconnected',
                                 'stopped'])
    w = ClientWorld(ctx, Cli, flags=flags, timeout=None)
    if state == 'refused':
        w.refuse()
    elif state != 'connecting':
        s = w.accept()
    if state == 'dropped':
        s.close_remote()
    elif state == 'write fails':
        s.write_error = IOError(32, 'Broken pipe')
    elif state == 'disconnected':
        s.close_remote()
        w.settle()
    elif state == 'stopped':
        w.client.stop()
        w.settle()
    mid = ctx.choice('mid', [None, b'42'])
    use_mid = ctx.choice('use_mid', [None, True])
    timeout = ctx.choice('timeout', [None, 5])
    arg = ctx.choice('arg', [b'x', b'\xff'])
    future = ctx.choice('future', [False, True])

    r = Req.__new__(Req)
    r.replies, r.informs, r.raised, r.name = [], [], None, 'a'
    r.msg = Message.request('a', arg, mid=mid)
    if future:
        w.client.future_request(r.msg, timeout=timeout, use_mid=use_mid
                                ).add_done_callback(r.done)
    else:
        w.client.callback_request(
            r.msg, lambda m: r.reply(m, 'u'), lambda m: r.inform(m, 'u'),
            timeout=timeout, use_mid=use_mid)
    unsupported = flags is NOIDS and (mid or use_mid)
    if unsupported:
        ctx.check(not [m for st in w.streams for m in st.take()],
                  'nothing is sent if ids are not supported')
        ctx.cover('unsupported id')
    w.settle()
    if state != 'connected' or unsupported:
        ctx.check(len(r.replies) == 1, 'it fails at once')
        ctx.check(is_failure(r.replies[0], r), 'with a fail reply')
        ctx.cover('failed')
    elif not unsupported:
        ctx.check(not r.replies, 'it waits for its reply')
        ctx.cover('waits')
    for st in w.streams:
        st.close_remote()
    w.settle()
    w.advance(4)
    w.advance(100)
    ctx.check(len(r.replies) == 1, 'exactly one callback')
    ctx.check(is_failure(r.replies[0], r), 'a fail reply')
    ctx.check(r.raised is None, 'reported by a reply')
    ctx.check(not w.loop.errors, 'no error escapes into the ioloop')


BATCH = ['reply 0', 'reply 1', 'inform 0', 'close', 'stop', 'expire', 'again']


@harness('C24', 'three pending requests with ids; every sequence of `steps` '
         'of: reply, inform, connection lost, stop(), timeout expiring, a '
         'further request - all before the ioloop runs, or with it running '
         'for one iteration or to quiescence in between; the reply callback '
         'of the first request makes another request, raises, disconnects '
         'or stops',
         quick=[{'steps': 2}], thorough=[{'steps': 3}],
         covers=['replied', 'failed', 'nested'])
def races(ctx, steps):
    w = ClientWorld(ctx, Cli, flags=IDS, timeout=None)
    s = w.accept()
    c = w.client
    reqs = [Callback(w, 'a', None, 5), Req(w, 'a', None, 5, future=True),
            Req(w, 'a', None, None)]
    act = ctx.choice('act', ['request', 'raise', 'disconnect', 'stop'])
    runs = []

    def awkward():
        runs.append(1)
        if act == 'request':
            reqs.append(Req(w, 'a', None, 5))
            ctx.cover('nested')
        elif act == 'raise':
            raise RuntimeError('callback fails')
        elif act == 'disconnect':
            c.disconnect()
        else:
            c.stop()
    reqs[0].act = awkward
    replies = {}
    for k in range(steps):
        ev = ctx.choice('event%d' % k, BATCH)
        if ev in ('reply 0', 'reply 1', 'inform 0'):
            r = reqs[int(ev[-1])]
            mk = Message.inform if ev == 'inform 0' else Message.reply
            m = mk(r.name, 'ok', 'v%d' % k, mid=r.mid)
            replies.setdefault(r, []).append(m)
            if not s.is_closed:
                s.feed(bytes(m) + b'\n')
        elif ev == 'close':
            s.close_remote()
        elif ev == 'stop':
            c.stop()
        elif ev == 'expire':
            w.loop.now = w.loop.now + 6
        else:
            reqs.append(Req(w, 'b', None, 5))
        run = ctx.choice('run%d' % k, ['no', 'once', 'settle'])
        if run == 'once':
            w.loop.iterate()
        elif run == 'settle':
            w.settle()
    w.settle()
    s.close_remote()
    w.settle()
    w.advance(100)
    for r in list(reqs):
        ctx.check(len(r.replies) == 1, 'exactly one reply callback')
        got = r.replies[0]
        if got in replies.get(r, []):
            ctx.check(got.mtype == Message.REPLY, 'a reply')
            ctx.cover('replied')
        else:
            ctx.check(is_failure(got, r), 'a fail reply')
            ctx.cover('failed')
        ctx.check(all(m in replies.get(r, []) for m in r.informs),
                  'only its own informs')
    ctx.check(not w.loop.errors, 'no error escapes into the ioloop')


# ------------------------------------------------------------------ C25

@harness('C25', 'every sequence of `n` requests made with request(), '
         'send_request(), callback_request() or future_request(), with a user '
         'id, use_mid False, True or default, to a server with and without '
         'ids, or not known to have any; with a reconnection or a restart in between',
         quick=[{'n': 2}], thorough=[{'n': 3}],
         covers=['auto', 'user', 'refused', 'none'])
def message_ids(ctx, n):
    flags = ctx.choice('flags', [IDS, NOIDS, None])
    ids = flags is IDS
    w = ClientWorld(ctx, Cli, flags=flags, timeout=None)
    s = w.accept()
    c = w.client
    auto = []
    for k in range(n):
        how = ctx.choice('how%d' % k, ['request', 'send', 'callback',
                                       'future'])
        user = ctx.choice('mid%d' % k, [None, b'70%d' % k])
        use = (None if how == 'send' else
               ctx.choice('use%d' % k, [None, True, False]))
        msg = Message.request('a', mid=user)
        ret, err = None, None
        try:
            if how == 'request':
                ret = c.request(msg, use_mid=use)
            elif how == 'send':
                c.send_request(msg)
            elif how == 'callback':
                c.callback_request(msg, use_mid=use)
            else:
                c.future_request(msg, use_mid=use)
        except KatcpVersionError as e:
            err = e
        out = s.take()
        wants = user is not None or use is True or (
            use is None and ids and how != 'send')
        if wants and not ids:
            ctx.check(not out, 'no id is sent to a server without ids')
            ctx.check((err is not None) == (how in ('request', 'send')),
                      'which is reported')
            ctx.cover('refused')
            continue
        ctx.check(err is None and len(out) == 1, 'sent')
        got = out[0]
        if not wants:
            ctx.check(got.mid is None, 'no id was asked for')
            ctx.cover('none')
        elif user is not None:
            ctx.check(got.mid == user, 'the user\'s id is kept')
            ctx.cover('user')
        else:
            ctx.check(got.mid is not None and got.mid not in auto,
                      'a fresh id is assigned')
            ctx.check(got.mid == msg.mid, 'and known to the caller')
            auto.append(got.mid)
            ctx.cover('auto')
        if how == 'request' and wants:
            ctx.check(ret == got.mid, 'request() returns the id')
        then = ctx.choice('then%d' % k, ['nothing', 'reconnect', 'restart'])
        if then == 'nothing' or k == n - 1:
            continue
        if then == 'reconnect':
            s.close_remote()
            w.settle()
            w.advance(1)
        else:
            c.stop()
            w.settle()
            c.start()
            w.settle()
        s = w.accept()


@harness('C25', 'simple_request() of an inspecting client, and '
         'wrapped_request() of one as used by resources, with a user id, '
         'use_mid False, True or default and a timeout or none, to a server '
         'with and without ids, which replies (with a symbolic argument) or '
         'does not', quick=[{}], thorough=[{}], covers=['sent', 'timeout'])
def shortcuts(ctx):
    from katcp.inspecting_client import InspectingClientAsync
    from katcp.resource_client import ReplyWrappedInspectingClientAsync
    flags = ctx.choice('flags', [IDS, NOIDS])
    ids = flags is IDS
    wrapped = ctx.choice('wrapped', [False, True])
    w = ClientWorld(ctx, ReplyWrappedInspectingClientAsync if wrapped
                    else InspectingClientAsync, flags=flags)
    s = w.accept()
    s.take()
    kw = {}
    user = ctx.choice('mid', [None, '701'])
    if user is not None:
        kw['mid'] = user
    use = ctx.choice('use', [None, True, False])
    if use is not None:
        kw['use_mid'] = use
    timeout = ctx.choice('timeout', [None, 3])
    if timeout is not None:
        kw['timeout'] = timeout
    arg = ctx.bytes('arg', 1)
    t0 = w.loop.now
    c = w.client
    f = (c.wrapped_request if wrapped else c.simple_request)('a', arg, 7, **kw)
    w.settle()
    out = s.take()
    wants = user is not None or use is True or (use is None and ids)
    if wants and not ids:
        ctx.check(not out and f.done(), 'no id is sent to a server without '
                  'ids')
        return
    ctx.check(len(out) == 1 and out[0].name == 'a'
              and out[0].arguments == [arg, b'7'], 'sent as asked')
    ctx.cover('sent')
    mid = out[0].mid
    if user is not None:
        ctx.check(mid == b'701', 'the user\'s id is kept')
    else:
        ctx.check((mid is not None) == wants, 'an id if there is to be one')
    if ctx.choice('reply', [True, False]):
        inform = Message(Message.INFORM, 'a', [arg], mid=mid)
        reply = Message(Message.REPLY, 'a', ['ok', arg], mid=mid)
        s.feed(bytes(inform) + b'\n' + bytes(reply) + b'\n')
        w.settle()
        ctx.check(f.done(), 'answered')
        r, i = f.result()
        ctx.check(r == reply and len(i) == 1 and i[0] == inform,
                  'the answer of the server')
        if wrapped:
            ctx.check(bool(f.result()) and f.result().succeeded
                      and f.result().messages == [r] + i, 'wrapped')
    else:
        w.advance(2)
        ctx.check(not f.done(), 'waiting')
        if timeout is not None:
            ctx.cover('timeout')
            w.advance(2)
            ctx.check(f.done() and not f.result()[0].reply_ok(),
                      'no answer in time')
            ctx.check(not wrapped or not f.result().succeeded, 'a failure')


# ------------------------------------------------------------------ C26

SORTS = ['protocol', 'protocol', 'device', 'short', 'version', 'build-state']


@harness('C26', 'protocol preset or detected; every sequence of `n` informs '
         'out of #version-connect katcp-protocol with symbolic version digits '
         'and any flags, other and malformed #version-connect, #version and '
         '#build-state',
         quick=[{'n': 2}], thorough=[{'n': 3}],
         covers=['detected', 'inconsistent', 'preset', 'same', 'invalid'])
def detect(ctx, n):
    preset = ctx.choice('preset', [None, IDS, ProtocolFlags(4, 0, [])])
    w = ClientWorld(ctx, Cli, flags=preset)
    s = w.accept()
    c = w.client
    known = preset
    waiting = c.until_protocol()
    w.settle()
    alive = True
    versions = {}
    for k in range(n):
        sort = ctx.choice('sort%d' % k, SORTS[1:])
        new = None
        if sort == 'protocol':
            major = ctx.int('major%d' % k, 3, 6)
            minor = ctx.int('minor%d' % k, 0, 2)
            fl = ctx.choice('flags%d' % k, ['', 'M', 'MI', 'IT'])
            v = b'%d.%d' % (major, minor) + (
                b'-' + fl.encode('ascii') if fl else b'')
            m = Message.inform('version-connect', 'katcp-protocol', v)
            bad = ('I' in fl and major < 5) or (
                'T' in fl and (major < 5 or (major == 5 and minor < 1)))
            if bad:
                ctx.cover('invalid')
            else:
                new = ProtocolFlags(int(major), int(minor),
                                    [x.encode('ascii') for x in fl])
            versions['katcp-protocol'] = (v.decode('ascii'),)
        elif sort == 'device':
            m = Message.inform('version-connect', 'katcp-device', 'x-1.%d' % k,
                               'abc')
            versions['katcp-device'] = ('x-1.%d' % k, 'abc')
        elif sort == 'short':
            m = Message.inform('version-connect', 'katcp-protocol')
        else:
            m = Message.inform(sort, 'x-1.0')
            new = ProtocolFlags(4, 0, [])
        s.feed(bytes(m) + b'\n')
        w.settle()
        if new is not None:
            if known is None:
                known = new
                ctx.cover('detected')
            elif new == known:
                ctx.cover('same')
            elif preset is None:
                alive = False
                ctx.cover('inconsistent')
            else:
                ctx.cover('preset')
        ctx.check(alive == (not s.is_closed),
                  'disconnects exactly on an inconsistent version')
        ctx.check(waiting.done() == (known is not None),
                  'until_protocol resolves when the version is known')
        if not alive:
            break
        ctx.check(c.versions == versions, 'version informs are recorded')
        if known is None:
            ctx.check(c.protocol_flags is None, 'not known yet')
            continue
        ctx.check(c.protocol_flags == known, 'protocol of the server')
        msg = Message.request('a')
        c.request(msg)
        out = s.take()
        ctx.check(len(out) == 1 and
                  (out[0].mid is not None) == known.message_ids,
                  'ids are used exactly if the server has them')
        secs = 1.2345
        t = c.convert_seconds(secs)
        ctx.check(t == (secs if known.major >= 5 else 1234.5
                        if known.major == 4 else 1234),
                  'times in the units of the server')
    w.advance(10)
    ctx.check(bool(w.pending) == False, 'no reconnection in an endless loop')
    ctx.check(not w.loop.errors, 'no error escapes into the ioloop')


# ------------------------------------------------------------------ C27

class Life(Cli):
    """Records what happens, may raise."""
    raise_in = None
    raise_notify = None

    def __init__(self, *a, **k):
        self.got = []
        super(Life, self).__init__(*a, **k)

    def notify_connected(self, connected):
        super(Life, self).notify_connected(connected)
        if self.raise_notify == connected:
            self.raise_notify = None
            raise RuntimeError('notify fails')

    def inform_line(self, msg):
        """A line."""
        self.got.append(msg.arguments[0])
        if msg.arguments[0] == self.raise_in:
            raise RuntimeError('handler fails')


STEPS = ['accept', 'accept closed', 'accept fails', 'refuse', 'line', 'bad', 'close',
         'read error', 'disconnect', 'wait', 'stop']


@harness('C27', 'auto_reconnect on or off; every sequence of `steps` of: '
         'connect attempt succeeds, succeeds but is closed at once or cannot be '
         'configured, fails; a '
         'good line, a bad line, connection lost, read error, disconnect(), '
         'a symbolic time passing, stop(); notify_connected may raise; '
         'afterwards the pending connect attempt succeeds',
         quick=[{'steps': 4}], thorough=[{'steps': 5}],
         covers=['connected', 'reconnected', 'retry', 'stopped',
                 'stopped while connecting', 'finished'])
def lifecycle(ctx, steps):
    auto = ctx.choice('auto', [True, False])
    w = ClientWorld(ctx, Life, auto_reconnect=auto, flags=NOIDS)
    c = w.client
    c.raise_notify = ctx.choice('raise_notify', [None, True, False])
    delay = c.auto_reconnect_delay
    stream = None
    lines = []
    retry_at = None         # when the next attempt is due
    stopped = done = False
    ctx.check(len(w.pending) == 1, 'connects when started')

    def ended():
        """The connection or attempt is over."""
        return w.loop.now + delay if auto and not stopped else None

    for k in range(steps):
        ev = ctx.choice('ev%d' % k, STEPS)
        if ev in ('accept', 'accept closed', 'accept fails', 'refuse'):
            if not w.pending:
                ctx.assume(False)
            ctx.check(stream is None, 'one connection at a time')
            if ev == 'refuse':
                w.refuse()
                retry_at = ended()
            else:
                w.nodelay_error = (IOError(22, 'Invalid argument')
                                   if ev == 'accept fails' else None)
                s = w.accept(settle=False)
                if ev == 'accept closed':
                    s.close_remote()
                fails = c.raise_notify is True
                w.settle()
                if ev == 'accept' and not fails and not stopped:
                    ctx.check(c.is_connected(), 'connected')
                    ctx.cover('reconnected' if stream else 'connected')
                    stream = s
                    if len(w.streams) > 1:
                        ctx.cover('reconnected')
                else:
                    ctx.check(s.is_closed, 'not left open')
                    if stopped:
                        ctx.cover('stopped while connecting')
                    retry_at = ended()
            if retry_at is None and stream is None:
                done = True
        elif ev in ('line', 'bad', 'close', 'read error', 'disconnect'):
            if stream is None:
                ctx.assume(False)
            if ev == 'line':
                c.raise_in = ctx.choice('raise%d' % k, [None, b'%d' % k])
                stream.feed(b'#line %d\n#lin' % k)
                w.settle()
                stream.feed(b'e %d\r\n' % (k + 50))
                w.settle()
                lines += [b'%d' % k, b'%d' % (k + 50)]
            elif ev == 'bad':
                stream.feed(ctx.choice('bad%d' % k, [
                    b'no such type\n', b'\n', b'#\xff\n', b'#x \\z\n',
                    b'?line 1\n', b'!line ok\n', b'#other \xff\n']))
                w.settle()
                ctx.check(not stream.is_closed, 'bad lines are survived')
            else:
                if ev == 'close':
                    stream.close_remote()
                elif ev == 'disconnect':
                    c.disconnect()
                else:
                    stream.read_error = IOError(113, 'No route to host')
                    stream.feed(b'#line %d\n' % k)
                    lines.append(b'%d' % k)
                w.settle()
                ctx.check(stream.is_closed, 'closed')
                stream = None
                retry_at = ended()
                done = retry_at is None
        elif ev == 'wait':
            dt = ctx.int('dt%d' % k, 1, 4)
            half = dt * 0.25
            w.advance(half)
        else:
            if stopped or done:
                ctx.assume(False)
            c.stop()
            w.settle()
            stopped = True
            retry_at = None
            if stream is not None:
                ctx.check(stream.is_closed, 'stop() closes the connection')
                stream = None
                done = True
            ctx.cover('stopped')
        # retries happen exactly when due
        if retry_at is not None and w.loop.now >= retry_at:
            retry_at = None
            ctx.check(len(w.pending) == 1, 'it tries again')
            ctx.cover('retry')
        else:
            ctx.check(len(w.pending) <= 1, 'one attempt at a time')
            if retry_at is not None or done:
                ctx.check(not w.pending, 'no attempt before the delay')
        ctx.check(c.is_connected() == (stream is not None),
                  'is_connected() is right')
        ctx.check(c.got == lines, 'every good line is handled, in order')
        ctx.check(c.running() == (not stopped) or done, 'running()')
        note = c.notified
        ctx.check(all(note[i] == (i % 2 == 0) for i in range(len(note))),
                  'notified of connection and loss alternately')
        ctx.check((len(note) % 2 == 1) == (stream is not None),
                  'notified of the current state')
        ctx.check(len(w.live()) == (1 if stream is not None else 0),
                  'no other connection is open')
    # stopping ends everything
    if not done:
        f = c.until_stopped()
        if not stopped:
            c.stop()
            w.settle()
        if w.pending:
            w.accept()
        w.advance(10)
        ctx.check(f.done(), 'until_stopped resolves')
        ctx.cover('finished')
    w.advance(10)
    ctx.check(not w.live(), 'nothing stays open')
    ctx.check(not c.is_connected(), 'not connected')
    ctx.check(not w.pending, 'no attempts after the end')
    ctx.check(len(c.notified) % 2 == 0, 'the loss is notified')


class Lines(Cli):
    raise_for = ()

    def __init__(self, *a, **k):
        self.handled = []
        super(Lines, self).__init__(*a, **k)

    def handle_message(self, msg):
        self.handled.append(msg)
        if len(self.handled) in self.raise_for:
            raise RuntimeError('handler machinery failed')
        return super(Lines, self).handle_message(msg)


TEMPLATES = [(b'', b'\n'), (b'#a ', b'\n#b\n'), (b'!a[1', b'\r\n#a\n'),
             (b'!x ok\n#a \\', b'\n'), (b'#line', b'\r\n#a')]


@harness('C27', 'n arbitrary bytes in each of %d positions of a stream of lines '
         'from the server, delivered in two chunks cut anywhere; handling the '
         'first one may raise; a good inform follows, or the connection is '
         'lost' % len(TEMPLATES), quick=[{'n': 2}], thorough=[{'n': 3}],
         covers=['good', 'bad', 'raises', 'several', 'lost'])
def lines(ctx, n):
    w = ClientWorld(ctx, Lines, flags=NOIDS)
    c = w.client
    s = w.accept()
    pre, post = ctx.choice('template', TEMPLATES)
    data = pre + ctx.bytes('data', n) + post
    c.raise_for = ctx.choice('raise_for', [(), (1,)])
    cut = ctx.choice('cut', [0, len(pre), len(pre) + 1, len(data) - 1])
    s.feed(data[:cut])
    w.settle()
    s.feed(data[cut:])
    w.settle()
    lost = ctx.choice('lost', [False, True])
    if lost:
        # a line is only one when it has ended
        s.close_remote()
        w.settle()
        ctx.cover('lost')
    else:
        data += b'\n#line 77\n'
        s.feed(b'\n#line 77\n')
        w.settle()
        ctx.check(not s.is_closed and c.is_connected(),
                  'the connection survives')
    end = max(data.rfind(b'\n'), data.rfind(b'\r')) + 1
    expect, bad = [], 0
    for line in lines_of(data[:end]):
        try:
            expect.append(MessageParser().parse(line))
        except KatcpSyntaxError:
            bad += 1
    ctx.check(len(c.handled) == len(expect),
              'every well-formed line is handled once, no other')
    for got, want in zip(c.handled, expect):
        ctx.check(got == want, 'lines are handled in order, unchanged')
    if c.raise_for:
        ctx.cover('raises')
    ctx.check(not w.loop.errors, 'no error escapes into the ioloop')
    ctx.cover('bad' if bad else 'good')
    if len(expect) > 1:
        ctx.cover('several')


# ------------------------------------------------------------------ C35

class Threaded(CallbackClient, Cli):
    def notify_connected(self, connected):
        Cli.notify_connected(self, connected)


Timeout = concurrent.futures.TimeoutError


@harness('C35', 'a thread-safe client called from another thread: request(), '
         'send_message(), callback_request(), blocking_request(), '
         'disconnect(), with a symbolic timeout or none; the ioloop may be '
         'stuck; the server replies, replies late, loses the '
         'connection or never answers; the ioloop thread runs when the caller '
         'waits and additionally at any one line the caller executes in '
         'katcp/client.py', quick=[{'last': 60}], thorough=[{'last': 120}],
         covers=['beyond the last line', 'replied', 'failed', 'timed out',
                 'stuck'])
def other_thread(ctx, last):
    connected = ctx.choice('connected', [True, False])
    w = ClientWorld(ctx, Threaded, flags=IDS, timeout=5)
    c = w.client
    s = w.accept() if connected else None
    op = ctx.choice('op', ['request', 'send', 'callback', 'blocking',
                           'disconnect'])
    kw, t0 = {}, w.loop.now
    if op in ('request', 'send'):
        # the ioloop may be busy longer than the caller wants to wait
        w.stuck = ctx.choice('stuck', [False, True])
        timeout = ctx.int('timeout', 0, 9)
        if timeout:
            kw['timeout'] = timeout
        else:
            timeout = 5
    server = 'none'
    if op in ('callback', 'blocking') and connected:
        server = ctx.choice('server', ['reply', 'late', 'close', 'never'])
    msg = Message.request('a', 'x')
    reply, inform = [None], [None]

    def idle(n=0):
        """The server reacts to what it has received."""
        if connected and s.out and server not in ('never', 'none'):
            got = s.take()
            if server == 'close':
                s.close_remote()
                return True
            if server == 'late':
                w.loop.now = w.loop.now + 4
            inform[0] = Message.inform('a', 'i', mid=got[0].mid)
            reply[0] = Message.reply('a', 'ok', mid=got[0].mid)
            s.feed(bytes(inform[0]) + b'\n' + bytes(reply[0]) + b'\n')
            return True
        return False
    w.idle = idle
    seen = []

    def run_loop():
        if w.stuck:
            return
        with as_thread(LOOP):
            w.settle()
            if idle():
                w.settle()
    result = error = None
    p = Preempt(int(ctx.int('line', 0, last)), run_loop, files=['/client.py'])
    before = len(s.out) if connected else 0
    with as_thread(OTHER):
        with p:
            try:
                if op == 'request':
                    result = c.request(msg, **kw)
                elif op == 'send':
                    result = c.send_message(Message.inform('b'), **kw)
                elif op == 'callback':
                    result = c.callback_request(
                        msg, lambda m: seen.append((m, ENV.thread)),
                        lambda m: seen.append((m, ENV.thread)))
                elif op == 'blocking':
                    result = c.blocking_request(msg)
                else:
                    c.disconnect()
            except Exception as e:
                error = e
    waited = w.loop.now - t0
    if not p.fired:
        ctx.cover('beyond the last line')
    w.settle()
    if idle():
        w.settle()
    w.advance(6)
    ctx.check(w.foreign_writes == 0, 'only the ioloop thread writes')
    if op == 'disconnect':
        ctx.check(error is None, 'no error')
        if connected:
            ctx.check(s.is_closed, 'disconnected')
    elif op in ('request', 'send'):
        if w.stuck:
            ctx.check(isinstance(error, Timeout), 'times out')
            ctx.check(waited == timeout, 'after the timeout')
            ctx.check(not connected or len(s.out) == 1, 'sent once')
            ctx.cover('stuck')
        elif connected:
            ctx.check(error is None, 'no error')
            ctx.check(len(s.out) == 1, 'sent once')
            if op == 'request':
                ctx.check(result == msg.mid and result is not None,
                          'the id is returned')
        else:
            ctx.check(error is not None, 'the error reaches the caller')
    else:
        ctx.check(error is None, 'no error')
        if op == 'callback':
            ctx.check(all(t == LOOP for m, t in seen),
                      'callbacks run in the ioloop thread')
            got = [m for m, t in seen]
        else:
            got = list(result[1]) + [result[0]]
        if connected and server in ('reply', 'late'):
            ctx.check(got == [inform[0], reply[0]], 'informs, then the reply')
            ctx.cover('replied')
        else:
            ctx.check(len(got) == 1 and not got[0].reply_ok()
                      and got[0].mtype == Message.REPLY, 'a fail reply')
            ctx.cover('failed')
            if server == 'never':
                ctx.check(b'timed out' in got[0].arguments[1], 'in time')
                ctx.cover('timed out')
    ctx.check(not w.loop.errors, 'no error escapes into the ioloop')


class Decorated(Threaded):
    def __init__(self, *a, **k):
        super(Decorated, self).__init__(*a, **k)
        self.calls = []
        self.fut = Future()

    @make_threadsafe_blocking
    def value(self, *a, **k):
        self.calls.append((a, k, ENV.thread))
        return 42

    @make_threadsafe_blocking
    def fails(self, *a, **k):
        self.calls.append((a, k, ENV.thread))
        raise ValueError('fails')

    @make_threadsafe_blocking
    def later(self, *a, **k):
        self.calls.append((a, k, ENV.thread))
        return self.fut

    @make_threadsafe
    def plain(self, *a, **k):
        self.calls.append((a, k, ENV.thread))


@harness('C35', 'methods of a client decorated for use from other threads: '
         'returning, raising, returning a future that resolves, fails or does '
         'not within the timeout, or not waited for; the ioloop runs at any '
         'one line the caller executes in katcp/client.py; called from another '
         'thread or the ioloop',
         quick=[{'last': 15}], thorough=[{'last': 30}],
         covers=['beyond the last line', 'result', 'error', 'timeout',
                 'from the ioloop'])
def decorated(ctx, last):
    w = ClientWorld(ctx, Decorated, flags=IDS, timeout=5)
    c = w.client
    name = ctx.choice('method', ['value', 'fails', 'later', 'plain'])
    then = (ctx.choice('then', ['result', 'error', 'never'])
            if name == 'later' else 'none')
    kw = {}
    if name != 'plain' and ctx.choice('timeout', [True, False]):
        kw['timeout'] = 3

    def idle(n=0):
        if c.calls and not c.fut.done() and then in ('result', 'error'):
            if then == 'result':
                c.fut.set_result('r')
            else:
                c.fut.set_exception(KeyError('k'))
            return True
        return False
    w.idle = idle

    def run_loop():
        with as_thread(LOOP):
            w.settle()
            if idle():
                w.settle()
    loopside = ctx.choice('loopside', [False, True])
    result = error = None
    t0 = w.loop.now
    p = Preempt(-1 if loopside else int(ctx.int('line', 0, last)), run_loop,
                files=['/client.py'])
    with as_thread(LOOP if loopside else OTHER):
        with p:
            try:
                result = getattr(c, name)(1, b=2, **kw)
            except Exception as e:
                error = e
    waited = w.loop.now - t0
    if not p.fired and not loopside:
        ctx.cover('beyond the last line')
    w.settle()
    ctx.check([x[:2] for x in c.calls] == [((1,), {'b': 2})],
              'called once with the arguments')
    ctx.check(c.calls[0][2] == LOOP, 'in the ioloop thread')
    if name == 'plain':
        ctx.check(error is None and result is None, 'nothing is returned')
    elif name == 'value':
        ctx.check(error is None and result == 42, 'the result is returned')
        ctx.cover('result')
    elif name == 'fails':
        ctx.check(type(error) is ValueError, 'the exception is raised')
        ctx.cover('error')
    elif loopside:
        ctx.check(error is None and result is c.fut, 'called directly')
        ctx.cover('from the ioloop')
    elif then == 'result':
        ctx.check(error is None and result == 'r', 'the result of the future')
    elif then == 'error':
        ctx.check(type(error) is KeyError, 'the error of the future')
    else:
        ctx.check(isinstance(error, Timeout), 'a timeout error')
        ctx.check(waited == kw.get('timeout', 5), 'after the timeout')
        ctx.cover('timeout')
    ctx.check(not w.loop.errors, 'no error escapes into the ioloop')


class Subject(object):
    attr = 17

    def __init__(self):
        self.calls = []
        self.fut = Future()

    def value(self, *a, **k):
        """Doc."""
        self.calls.append((a, k, ENV.thread))
        return 42

    def fails(self, *a, **k):
        self.calls.append((a, k, ENV.thread))
        raise ValueError('fails')

    def later(self, *a, **k):
        self.calls.append((a, k, ENV.thread))
        return self.fut


@harness('C35', 'methods of an object wrapped for use from other threads: '
         'returning, raising, or returning a future that resolves, fails or '
         'does not within the timeout; the ioloop runs at any one line the '
         'caller executes in ioloop_manager.py',
         quick=[{'last': 50}], thorough=[{'last': 50}],
         covers=['beyond the last line', 'result', 'error', 'timeout',
                 'from the ioloop'])
def wrapper(ctx, last):
    w = ClientWorld(ctx, Cli, start=False)
    subject = Subject()
    wr = IOLoopThreadWrapper(w.loop)
    wrapped = ThreadSafeMethodAttrWrapper(subject, wr)
    w.settle()
    name = ctx.choice('method', ['value', 'fails', 'later'])
    then = (ctx.choice('then', ['result', 'error', 'never'])
            if name == 'later' else 'none')
    timeout = ctx.choice('timeout', [None, 3]) if then != 'never' else 3
    default = ctx.choice('default', [None, 2])
    wr.default_timeout = default

    def idle(n=0):
        if subject.calls and not subject.fut.done():
            if then == 'result':
                subject.fut.set_result('r')
                return True
            if then == 'error':
                subject.fut.set_exception(KeyError('k'))
                return True
        return False
    w.idle = idle
    loopside = ctx.choice('loopside', [False, True])
    if loopside:
        try:
            getattr(wrapped, name)()
            ok = False
        except RuntimeError:
            ok = True
        w.settle()
        ctx.check(ok and not subject.calls, 'refused instead of deadlocking')
        ctx.cover('from the ioloop')
        return

    def run_loop():
        with as_thread(LOOP):
            w.settle()
            if idle():
                w.settle()
    result = error = None
    t0 = w.loop.now
    p = Preempt(int(ctx.int('line', 0, last)), run_loop,
                files=['/ioloop_manager.py'])
    with as_thread(OTHER):
        ctx.check(wrapped.attr == 17, 'plain attributes are passed through')
        f = getattr(wrapped, name)
        with p:
            try:
                if timeout is None:
                    result = f(1, k=2)
                else:
                    result = f(1, k=2, timeout=timeout)
            except Exception as e:
                error = e
    if not p.fired:
        ctx.cover('beyond the last line')
    ctx.check(len(subject.calls) == 1, 'called once')
    a, k, thread = subject.calls[0]
    ctx.check(thread == LOOP, 'in the ioloop thread')
    k = dict(k)
    ctx.check(k.pop('timeout', timeout) == timeout and a == (1,)
              and k == {'k': 2}, 'with its arguments')
    if then == 'never':
        ctx.check(isinstance(error, Timeout), 'times out')
        ctx.check(w.loop.now - t0 == 3, 'after the timeout')
        ctx.cover('timeout')
    elif name == 'value' or then == 'result':
        ctx.check(error is None, 'no error')
        ctx.check(result == (42 if name == 'value' else 'r'), 'the result')
        ctx.cover('result')
    else:
        ctx.check(isinstance(error, ValueError if name == 'fails'
                             else KeyError), 'the error of the method')
        ctx.cover('error')


for pid in ('C24', 'C25', 'C26', 'C27', 'C35'):
    assume_note(pid, NOTE)
