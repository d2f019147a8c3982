"""Device server: reading, dispatching and replying to client messages."""
import concurrent.futures
import queue

from katcp import DeviceServer
from katcp.core import (AsyncReply, FailReply, KatcpSyntaxError, Message,
                        MessageParser, ProtocolFlags, Sensor)
from katcp.kattypes import Int, Str, concurrent_reply, request, return_reply
from props.simloop import Preempt, as_thread
from props.simserver import (FakeTCPServer, FakeThread, HANDLER, LOOP, OTHER,
                             ServerWorld)
from symkat.harness import assume_note, harness
from tornado.concurrent import Future
from tornado.gen import Return, coroutine, moment

BASE_CLIENT_NOTE = (
    'tornado IOLoop, IOStream and TCPServer are replaced by models with FIFO '
    'callbacks, arbitrary chunking of received bytes and recorded writes; '
    'katcp.server, katcp.core and tornado.gen run for real')


class Dev(DeviceServer):
    """Records what is dispatched; handlers behave as the harness says."""
    raise_for = ()

    def setup_sensors(self):
        self.handled = []
        self.add_sensor(Sensor.integer('a.sensor', 'desc', '', [0, 5]))

    def handle_message(self, client_conn, msg):
        self.handled.append(msg)
        if len(self.handled) in self.raise_for:
            raise RuntimeError('handler machinery failed')
        return super(Dev, self).handle_message(client_conn, msg)

    def request_a(self, req, msg):
        """A request."""
        return req.make_reply('ok')

    def request_end(self, req, msg):
        """Another request."""
        return req.make_reply('ok', 'end')


def lines_of(data):
    """Maximal runs of bytes other than CR and LF (reference splitter)."""
    out, cur = [], []
    for i in range(len(data)):
        c = data[i:i + 1]
        if c == b'\n' or c == b'\r':
            if cur:
                out.append(b''.join(cur))
            cur = []
        else:
            cur.append(c)
    return out


def kinds(msgs, name):
    return [m for m in msgs if m.name == name]


# ------------------------------------------------------------------ C04

TEMPLATES = [(b'', b'\n'), (b'?a', b'\n#b\n'), (b'?a ', b'c\n'),
             (b'?a[1', b'\r\n?a\n'), (b'!x ok\n?a \\', b'\n')]


@harness('C04', 'n arbitrary bytes in each of %d positions of a stream of '
         'lines, delivered in two chunks cut anywhere; processing of any one '
         'message may raise; a good request follows' % len(TEMPLATES),
         quick=[{'n': 2}], thorough=[{'n': 3}],
         covers=['good', 'bad', 'raises', 'several'])
def byte_stream(ctx, n):
    w = ServerWorld(ctx, Dev)
    s = w.connect()
    s.take()
    pre, post = ctx.choice('template', TEMPLATES)
    data = pre + ctx.bytes('data', n) + post
    w.device.raise_for = ctx.choice('raise_for', [(), (1,)])
    cut = ctx.choice('cut', [0, len(pre), len(pre) + 1, len(data) - 1])
    s.feed(data[:cut])
    w.settle()
    s.feed(data[cut:])
    w.settle()
    expect, bad = [], 0
    for line in lines_of(data):
        try:
            expect.append(MessageParser().parse(line))
        except KatcpSyntaxError:
            bad += 1
    ctx.check(len(w.device.handled) == len(expect),
              'every well-formed line is handled once, no other')
    for got, want in zip(w.device.handled, expect):
        ctx.check(got == want, 'lines are handled in order, unchanged')
    nlog = len(kinds(s.take(), 'log'))
    ctx.check(nlog == bad, 'a bad line is reported to the client')
    s.feed(b'?end[77]\n')
    w.settle()
    ctx.check(not s.is_closed, 'the connection survives')
    ctx.check(len(w.device.handled) == len(expect) + 1,
              'the next request is still handled')
    if not w.device.raise_for:
        out = s.take()
        ctx.check(len(out) == 1 and out[0] == Message.reply(
            'end', 'ok', 'end', mid=77), 'and answered')
    else:
        ctx.cover('raises')
    ctx.check(not w.loop.errors, 'no error escapes into the ioloop')
    ctx.cover('bad' if bad else 'good')
    if len(expect) > 1:
        ctx.cover('several')
    ctx.observe('n', (len(expect), bad))


@harness('C04', 'lines of up to 6 messages cut into chunks at up to three '
         'symbolic positions, interleaved over two connections',
         quick=[{'cuts': 2}], thorough=[{'cuts': 3}], covers=['two'])
def chunking(ctx, cuts):
    w = ServerWorld(ctx, Dev)
    s1, s2 = w.connect(), w.connect()
    s1.take(), s2.take()
    data = b'?a[1] x\n\r\n?a[2]\\\n?a[3] \\_\n?end[4]\n'
    other = b'?end[9]\n'
    pos = 0
    for i in range(cuts):
        p = ctx.int('cut%d' % i, 0, len(data))
        ctx.assume(p >= pos)
        p = int(p)
        s1.feed(data[pos:p])
        pos = p
        how = ctx.choice('settle%d' % i, ['no', 'once', 'yes'])
        if how == 'once':
            w.loop.iterate()
        elif how == 'yes':
            w.settle()
        if i == 0:
            s2.feed(other)
    s1.feed(data[pos:])
    w.settle()
    mids = [m.mid for m in s1.take() if m.mtype == Message.REPLY]
    ctx.check(mids == [b'1', b'3', b'4'], 'answered in order')
    ctx.check([m.mid for m in s2.take()] == [b'9'], 'the other connection too')
    ctx.cover('two')


@harness('C04', 'a read fails with an I/O error (connection then closed or '
         'not) after k messages', quick=[{}], covers=['closed', 'open'])
def read_error(ctx):
    w = ServerWorld(ctx, Dev)
    s = w.connect()
    k = ctx.int('k', 1, 3)
    k = int(k)
    for i in range(k - 1):
        s.feed(b'?a[%d]\n' % i)
        w.settle()
    closes = ctx.choice('closes', [True, False])
    s.read_error = IOError(113, 'No route to host')
    if closes:
        close = s.close

        class Err(IOError):
            pass
        rur = s.read_until_regex

        def failing(regex):
            if s.read_error is not None:
                e, s.read_error = s.read_error, None
                close()
                raise e
            return rur(regex)
        s.read_until_regex = failing
    s.feed(b'?a[%d]\n' % (k - 1))
    w.settle()
    ctx.check(len(w.device.handled) == k, 'no message is handled twice')
    if closes:
        ctx.check(s.is_closed, 'closed')
        ctx.cover('closed')
    else:
        s.feed(b'?a\n')
        w.settle()
        ctx.check(len(w.device.handled) == k + 1, 'reading goes on')
        ctx.cover('open')



# ------------------------------------------------------------------ C17

class Scripted(Dev):
    """?do, ?slow and ?conc run the harness's script."""
    script = None

    def request_do(self, req, msg):
        """Anything."""
        return self.script(req, msg)

    @concurrent_reply
    def request_conc(self, req, msg):
        """Anything, concurrently."""
        return self.script(req, msg)

    @request(Int(min=0, max=99), Str(default='x'))
    @return_reply(Int(), Str())
    def request_typed(self, req, i, s):
        """Decorated."""
        req.inform('i', i)
        return ('ok', i * 2, s)

    @request(Str())
    @return_reply(Str())
    @coroutine
    def request_later(self, req, s):
        """Decorated coroutine."""
        yield moment
        if s == 'bad':
            raise FailReply('bad s')
        raise Return(('ok', s))


class Weird(Exception):
    pass


OUTCOMES = ['reply', 'other-id', 'wrong-name', 'inform', 'none', 'tuple', 'bytes',
            'FailReply', 'FailReply-unicode', 'FailReply-empty', 'exception',
            'exception-unicode', 'KeyError', 'AsyncReply']


def outcome(kind, req, after):
    """What the handler does (or what its future resolves to)."""
    if kind == 'reply':
        return req.make_reply('ok', 'x y')
    if kind == 'other-id':
        return Message(Message.REPLY, req.msg.name, ['ok', 'x y'], mid=b'77')
    if kind == 'wrong-name':
        return Message.reply('other', 'ok')
    if kind == 'inform':
        return Message.inform(req.msg.name, 'ok')
    if kind == 'none':
        return None
    if kind == 'tuple':
        return ('ok',)
    if kind == 'bytes':
        return b'!do ok'
    if kind == 'FailReply':
        raise FailReply('no way')
    if kind == 'FailReply-unicode':
        raise FailReply(u'caf\xe9 \u20ac')
    if kind == 'FailReply-empty':
        raise FailReply()
    if kind == 'exception':
        raise Weird('a\nb\0 \\')
    if kind == 'exception-unicode':
        raise Weird(u'\u20ac')
    if kind == 'KeyError':
        raise KeyError('k')
    after(req)
    raise AsyncReply()


REASONS = {'FailReply': b'no way', 'FailReply-empty': b'',
           'FailReply-unicode': u'caf\xe9 \u20ac'.encode('utf-8')}


def check_outcome(ctx, m, kind, want_name, mid):
    ctx.check(m.mtype == Message.REPLY, 'it is a reply')
    ctx.check(m.name == want_name, 'the reply has the name of the request')
    ctx.check(m.mid == mid, 'the reply has the message id of the request')
    if kind in ('reply', 'other-id'):
        ctx.check(m.arguments == [b'ok', b'x y'], 'the reply returned')
    elif kind == 'AsyncReply':
        ctx.check(m.arguments == [b'ok', b'later'], 'the reply sent later')
    else:
        ctx.check(m.arguments[0] == b'fail', 'failures are reported')
        ctx.check(len(m.arguments) == 2, 'with a reason')
        if kind in REASONS:
            ctx.check(m.arguments[1] == REASONS[kind], 'the given reason')
        else:
            ctx.check(len(m.arguments[1]) > 0, 'with a description')


def resolve(f, kind, req, after):
    try:
        f.set_result(outcome(kind, req, after))
    except Exception as e:
        f.set_exception(e)


@harness('C17', 'one request; handler returns a reply, an unusable value, '
         'raises FailReply/AsyncReply/other exceptions, directly or through '
         'a future (tornado or concurrent.futures, resolved before or after '
         'the handler returns); message id absent or any number up to maxmid; one arbitrary argument byte; thread-safe connections or '
         'not; another client and a next request',
         quick=[{'maxmid': 99}], thorough=[{'maxmid': 2 ** 31 - 1}],
         covers=['fail', 'ok', 'async', 'conc'])
def one_reply(ctx, maxmid):
    w = ServerWorld(ctx, Scripted, thread_safe=ctx.choice('ts', [False, True]))
    s, other = w.connect(), w.connect()
    s.take(), other.take()
    kind = ctx.choice('kind', OUTCOMES)
    how = ctx.choice('how', ['direct', 'resolved', 'later', 'cf-resolved',
                             'cf-later'])
    name = ctx.choice('name', [b'do', b'conc'])
    ninf = ctx.choice('ninf', [0, 2])
    mid = None
    if ctx.choice('has_mid', [False, True]):
        mid = b'%d' % ctx.int('mid', 1, maxmid)
    arg = ctx.bytes('arg', 1)
    ctx.assume(arg not in (b' ', b'\t', b'\n', b'\r', b'\\', b'\0', b'\x1b'))
    todo, calls = [], []

    def after(req):
        w.loop.add_callback(lambda: req.reply('ok', 'later'))

    def script(req, msg):
        calls.append(msg)
        for i in range(ninf):
            req.inform('i', i)
        if how == 'direct':
            return outcome(kind, req, after)
        f = (concurrent.futures.Future() if how.startswith('cf') else Future())
        if how.endswith('resolved'):
            resolve(f, kind, req, after)
        else:
            todo.append(lambda: resolve(f, kind, req, after))
        return f

    w.device.script = script
    tag = b'' if mid is None else b'[' + mid + b']'
    s.feed(b'?' + name + tag + b' ' + arg + b'\n?end[5]\n')
    w.settle()
    for t in todo:
        ctx.check(len(s.out) == ninf + (name == b'conc'),
                  'nothing is sent before the handler is done')
        t()
        w.settle()
    ctx.check(len(calls) == 1, 'the handler runs once')
    ctx.check(calls[0].arguments == [arg], 'with the arguments received')
    out = s.take()
    ends = [m for m in out if m.mid == b'5' and m.name == 'end']
    rest = [m for m in out if not (m.mid == b'5' and m.name == 'end')]
    ctx.check(len(ends) == 1, 'the next request is answered too')
    ctx.check(len(rest) == ninf + 1, 'exactly one reply')
    for i in range(ninf):
        ctx.check(rest[i].mtype == Message.INFORM and rest[i].name == name.decode()
                  and rest[i].mid == mid
                  and rest[i].arguments == [b'i', b'%d' % i],
                  'informs precede the reply and carry its id')
    check_outcome(ctx, rest[ninf], kind, name.decode(), mid)
    ctx.check(not other.out, 'other clients receive nothing')
    ctx.check(not w.loop.errors, 'no error escapes into the ioloop')
    ctx.check(not s.is_closed, 'the connection stays open')
    ctx.cover('ok' if kind == 'reply' else 'fail')
    if kind == 'AsyncReply':
        ctx.cover('async')
    if name == b'conc':
        ctx.cover('conc')


@harness('C17', 'two requests (one may have no message id) answered later, in '
         'either order, by the ioloop thread or another one, through the '
         'request, the connection or the device (given either), with informs '
         'of the reply and asynchronous ones; messages may carry a foreign id '
         'or be used twice', quick=[{}], covers=['thread', 'shared'])
def deferred(ctx):
    thread = ctx.choice('thread', [False, True])
    w = ServerWorld(ctx, Scripted, thread_safe=True)
    dev = w.device
    s, other = w.connect(), w.connect()
    s.take(), other.take()
    reqs = []

    def script(req, msg):
        reqs.append(req)
        raise AsyncReply()

    dev.script = script
    first = ctx.choice('first', [b'', b'[31]'])
    s.feed(b'?do' + first + b' 0\n?do[42] 1\n')
    w.settle()
    ctx.check(len(reqs) == 2 and not s.out, 'nothing before it is answered')
    how = ctx.choice('how', ['request', 'with_message', 'connection',
                             'device', 'device-request'])
    inf = ctx.choice('inform', ['none', 'request', 'connection', 'device',
                                'device-request', 'async', 'async-device'])
    given = (ctx.choice('given', [None, b'7'])
             if how in ('connection', 'device') else b'7')
    shared = (ctx.choice('shared', [False, True])
              if how in ('connection', 'device', 'device-request') else False)
    order = (1, 0) if first else (0, 1)
    one = Message(Message.REPLY, 'do', ['ok', 'x'], mid=given)

    def answer(i):
        req = reqs[i]
        conn = req.client_connection
        m = Message(Message.INFORM, 'do', ['i', i], mid=given)
        if inf == 'request':
            req.inform('i', i)
        elif inf == 'connection':
            conn.reply_inform(m, req.msg)
        elif inf == 'device':
            dev.reply_inform(conn, m, req.msg)
        elif inf == 'device-request':
            dev.reply_inform(req, m, req.msg)
        elif inf == 'async':
            conn.inform(Message.inform('note', i))
        elif inf == 'async-device':
            dev.inform(ctx.choice('by%d' % i, [conn, req]),
                       Message.inform('note', i))
        m = one if shared else Message(Message.REPLY, 'do', ['ok', 'x'],
                                       mid=given)
        if how == 'request':
            req.reply('ok', 'x')
        elif how == 'with_message':
            m.mid = req.msg.mid
            req.reply_with_message(m)
        elif how == 'connection':
            conn.reply(m, req.msg)
        elif how == 'device':
            dev.reply(conn, m, req.msg)
        else:
            dev.reply(req, m, req.msg)

    for i in order:
        if thread:
            with as_thread(OTHER):
                answer(i)
        else:
            answer(i)
        w.settle()
    out = s.take()
    per = 1 if inf == 'none' else 2
    ctx.check(len(out) == 2 * per, 'exactly one reply each')
    for n, i in enumerate(order):
        mid = [first[1:3] or None, b'42'][i]
        part = out[n * per:(n + 1) * per]
        if inf.startswith('async'):
            ctx.check(part[0] == Message.inform('note', i)
                      and part[0].mid is None, 'the inform')
        elif inf != 'none':
            ctx.check(part[0].mtype == Message.INFORM and part[0].mid == mid
                      and part[0].name == 'do'
                      and part[0].arguments == [b'i', b'%d' % i],
                      'informs precede the reply and carry its id')
        m = part[-1]
        ctx.check(m.mtype == Message.REPLY and m.name == 'do' and m.mid == mid
                  and m.arguments == [b'ok', b'x'],
                  'the reply, with the message id of the request')
    ctx.check(not other.out, 'other clients receive nothing')
    ctx.check(w.foreign_writes == 0, 'only the ioloop thread writes')
    ctx.check(not w.loop.errors and not s.is_closed, 'no error')
    if thread:
        ctx.cover('thread')
    if shared:
        ctx.cover('shared')


@harness('C17', 'request name of 2 arbitrary bytes, arbitrary type character '
         'of the three; unknown names, informs and replies',
         quick=[{'n': 1}], thorough=[{'n': 2}],
         covers=['known', 'unknown', 'silent'])
def unknown(ctx, n):
    w = ServerWorld(ctx, Scripted, thread_safe=ctx.choice('ts', [False, True]))
    s = w.connect()
    s.take()
    typ = ctx.choice('type', [b'?', b'#', b'!'])
    name = b'd' + ctx.bytes('name', n)
    for i in range(len(name)):
        c = name[i:i + 1]
        ctx.assume((c >= b'a' and c <= b'z') or (c >= b'A' and c <= b'Z')
                   or (c >= b'0' and c <= b'9') or c == b'-')
    w.device.script = lambda req, msg: req.make_reply('ok', 'x y')
    mid = b'%d' % ctx.int('mid', 1, 9)
    s.feed(typ + name + b'[' + mid + b']\n')
    w.settle()
    out = s.take()
    if typ != b'?':
        ctx.check(not out, 'informs and replies are not answered')
        ctx.cover('silent')
        return
    ctx.check(len(out) == 1, 'exactly one reply')
    m = out[0]
    ctx.check(m.mtype == Message.REPLY and m.mid == mid and m.name == name.decode(),
              'with the name and id of the request')
    if name == b'do':
        ctx.check(m.arguments == [b'ok', b'x y'], 'handled')
        ctx.cover('known')
    else:
        ctx.check(m.arguments[0] == b'invalid', 'unknown requests are invalid')
        ctx.cover('unknown')


@harness('C17', 'requests to handlers decorated with request/return_reply: '
         '0 to 3 arguments, of which one is n arbitrary bytes',
         quick=[{'n': 2}], thorough=[{'n': 3}],
         covers=['ok', 'fail', 'later'])
def decorated(ctx, n):
    w = ServerWorld(ctx, Scripted)
    s = w.connect()
    s.take()
    arg = ctx.bytes('arg', n)
    name = ctx.choice('name', ['typed', 'later'])
    args = ctx.choice('args', [[], [arg], [arg, b'y'], [b'7', arg],
                               [b'7', arg, b'z'], [b'bad']])
    msg = Message.request(name, *args, mid=4)
    s.feed(bytes(msg) + b'\n')
    w.settle()
    out = s.take()
    infs = [m for m in out if m.mtype == Message.INFORM]
    reps = [m for m in out if m.mtype == Message.REPLY]
    ctx.check(len(reps) == 1, 'exactly one reply')
    ctx.check(out[-1].mtype == Message.REPLY, 'after the informs')
    m = reps[0]
    ctx.check(m.name == name and m.mid == b'4', 'name and id of the request')
    if name == 'typed':
        ok = 1 <= len(args) <= 2
        v = None
        if ok:
            try:
                v = int(args[0])
            except ValueError:
                ok = False
            else:
                ok = 0 <= v <= 99
        if ok and len(args) == 2:
            try:
                args[1].decode('utf-8')
            except UnicodeDecodeError:
                ok = False
        if ok:
            ctx.check(m.arguments == [b'ok', b'%d' % (2 * v),
                                      args[1] if len(args) > 1 else b'x'],
                      'the values returned')
            ctx.check(len(infs) == 1 and infs[0].mid == b'4', 'one inform')
    else:
        ok = len(args) == 1 and args[0] != b'bad'
        if ok:
            try:
                args[0].decode('utf-8')
            except UnicodeDecodeError:
                ok = False
        if ok:
            ctx.check(m.arguments == [b'ok', args[0]], 'the values returned')
            ctx.cover('later')
    if not ok:
        ctx.check(m.arguments[0] == b'fail' and len(m.arguments) == 2,
                  'failures are reported with a reason')
        ctx.check(not infs, 'the handler did not run')
    ctx.cover('ok' if ok else 'fail')
    ctx.check(not w.loop.errors, 'no error escapes into the ioloop')


@harness('C17', 'the same outcomes with a handler thread: 2 requests and one '
         'on another connection; the ioloop thread runs whenever the handler '
         'thread waits and additionally at one arbitrary line of katcp/server.py '
         'executed by the handler thread',
         quick=[{'full': False}], thorough=[{'full': True}],
         covers=['fail', 'ok', 'preempted', 'beyond the last line'])
def handler_thread(ctx, full):
    w = ServerWorld(ctx, Scripted, thread_safe=True, handler_thread=True)
    s, t = w.connect(), w.connect()
    s.take(), t.take()
    if full:
        kind = ctx.choice('kind', ['reply', 'none', 'FailReply-unicode',
                                   'exception', 'AsyncReply'])
        how = ctx.choice('how', ['direct', 'resolved', 'later'])
        arg = ctx.choice('arg', [b'x', b'\xff'])
    else:
        kind, how = ctx.choice('case', [
            ('reply', 'direct'), ('exception', 'direct'),
            ('AsyncReply', 'direct'), ('reply', 'later')])
        arg = b'\xff'
    todo = []

    def after(req):
        w.loop.add_callback(lambda: req.reply('ok', 'later'))

    def script(req, msg):
        if msg.mid != b'1':
            return req.make_reply('ok', 'x y')
        req.inform('i', 0)
        if how == 'direct':
            return outcome(kind, req, after)
        f = Future()
        if how == 'resolved':
            resolve(f, kind, req, after)
        else:
            todo.append(lambda: resolve(f, kind, req, after))
        return f
    w.device.script = script

    def idle():
        # nothing else to do: the handler's operation completes
        if todo:
            todo.pop()()
            w.settle()
        else:
            out.extend(s.take())
            got.extend(t.take())
            FakeThread.started[0].target.__self__.stop(timeout=None)
    w.idle = idle
    out, got = [], []
    s.feed(b'?do[1] ' + arg + b'\n?do[2]\n')
    t.feed(b'?do[3]\n')
    k = int(ctx.int('k', 0, 350))
    w.run_handler_thread(k)
    w.settle()
    ctx.check(not s.take() and not t.take(),
              'all are answered without the thread being stopped')
    ctx.check([m.mid for m in out] == [b'1', b'1', b'2'],
              'one reply to each request, in order')
    ctx.check(out[0].mtype == Message.INFORM, 'informs precede the reply')
    check_outcome(ctx, out[1], kind, 'do', b'1')
    check_outcome(ctx, out[2], 'reply', 'do', b'2')
    ctx.check(len(got) == 1, 'one reply on the other connection')
    check_outcome(ctx, got[0], 'reply', 'do', b'3')
    ctx.check(w.foreign_writes == 0, 'only the ioloop thread writes')
    ctx.check(not w.loop.errors, 'no error escapes into the ioloop')
    ctx.cover('ok' if kind == 'reply' else 'fail')
    ctx.cover('preempted')


# ------------------------------------------------------------------ C19

class Handled(Exception):
    pass


class Unprintable(object):
    def __str__(self):
        raise Handled()


@harness('C19', 'sequences of k operations on a request connection (inform, '
         'reply, reply_with_message with a matching or foreign message, '
         'make_reply, inform or reply with an argument that cannot be sent), '
         'with one byte of each argument arbitrary; then the '
         'handler returns, fails or the request was answered already',
         quick=[{'k': 3}], thorough=[{'k': 4}],
         covers=['refused', 'replied', 'open'])
def request_connection(ctx, k):
    w = ServerWorld(ctx, Scripted, thread_safe=ctx.choice('ts', [False, True]))
    s = w.connect()
    s.take()
    expect = []
    state = {'replied': False}
    fails = []

    def bad(text):
        # inside a handler: record, so that the server does not swallow it
        fails.append(text)

    def script(req, msg):
        for i in range(k):
            op = ctx.choice('op%d' % i, ['inform', 'reply', 'with', 'foreign',
                                         'make', 'bad inform', 'bad reply'])
            if op[:3] == 'bad':
                try:
                    (req.inform if op == 'bad inform' else req.reply)(
                        'ok', Unprintable())
                    bad('what cannot be sent is refused')
                except Handled:
                    if state['replied']:
                        bad('nothing can be sent after the reply')
                except RuntimeError:
                    if not state['replied']:
                        bad('refused although not answered yet')
                continue
            a = ctx.bytes('a%d' % i, 1)
            if op == 'make':
                m = req.make_reply('ok', a)
                if not (m.mtype == Message.REPLY and m.name == 'do'
                        and m.mid == b'12' and m.arguments == [b'ok', a]):
                    bad('make_reply builds the reply')
                continue
            before = len(s.out)
            try:
                if op == 'inform':
                    req.inform('x', a)
                elif op == 'reply':
                    req.reply('ok', a)
                elif op == 'with':
                    req.reply_with_message(Message.reply('do', 'ok', a))
                else:
                    req.reply_with_message(Message.reply('other', 'ok', a))
            except RuntimeError:
                if not state['replied']:
                    bad('refused although not answered yet')
                if len(s.out) != before:
                    bad('a refused operation sends nothing')
                ctx.cover('refused')
                continue
            except AssertionError:
                if op != 'foreign' or len(s.out) != before:
                    bad('only a foreign reply is an error')
                raise AsyncReply()
            if op == 'foreign':
                bad('a reply to another request is refused')
            if state['replied']:
                bad('nothing can be sent after the reply')
            if op == 'inform':
                expect.append((Message.INFORM, [b'x', a]))
            else:
                expect.append((Message.REPLY, [b'ok', a]))
                state['replied'] = True
        if state['replied']:
            raise AsyncReply()
        expect.append((Message.REPLY, [b'ok']))
        ctx.cover('open')
        return req.make_reply('ok')

    w.device.script = script
    s.feed(b'?do[12]\n')
    w.settle()
    ctx.check(not fails, fails[0] if fails else '')
    out = s.take()
    ctx.check(len(out) == len(expect), 'everything accepted is sent, no more')
    for m, (t, args) in zip(out, expect):
        ctx.check(m.mtype == t and m.name == 'do' and m.mid == b'12'
                  and m.arguments == args,
                  'sent in order with the name and id of the request')
    if state['replied']:
        ctx.cover('replied')


@harness('C19', 'informs and replies with k arguments, each None, int, bool, '
         'text or bytes with an arbitrary byte', quick=[{'k': 1}],
         thorough=[{'k': 2}], covers=['sent'])
def arguments(ctx, k):
    w = ServerWorld(ctx, Scripted)
    s = w.connect()
    s.take()
    args, want = [], []
    for i in range(k):
        t = ctx.choice('t%d' % i, ['none', 'int', 'bool', 'text', 'bytes'])
        if t == 'none':
            a, b = None, b'None'
        elif t == 'int':
            a = ctx.int('i%d' % i, -1000, 1000)
            b = b'%d' % a
        elif t == 'bool':
            a = ctx.choice('b%d' % i, [True, False])
            b = b'1' if a else b'0'
        elif t == 'text':
            a = ctx.text('u%d' % i, 1, 0, 0x10ffff)
            b = a.encode('utf-8')
        else:
            a = b = ctx.bytes('y%d' % i, 2)
        args.append(a)
        want.append(b)
    how = ctx.choice('how', ['inform', 'reply', 'return'])

    def script(req, msg):
        if how == 'inform':
            req.inform(*args)
            return req.make_reply('ok')
        if how == 'reply':
            req.reply(*args)
            raise AsyncReply()
        return req.make_reply(*args)
    w.device.script = script
    s.feed(b'?do[3]\n')
    w.settle()
    m = s.take()[0]
    ctx.check(m.arguments == want and m.mid == b'3', 'arguments as given')
    ctx.cover('sent')


# ------------------------------------------------------------------ C18

@harness('C18', 'k requests on one connection and one on another, each '
         'answered at once, through a future resolved later, concurrently '
         '(concurrent_reply) or through AsyncReply; futures resolved in any '
         'order; requests arrive together or one by one',
         quick=[{'k': 2}], thorough=[{'k': 3}],
         covers=['blocked', 'overtakes'])
def serialised(ctx, k):
    w = ServerWorld(ctx, Scripted, thread_safe=ctx.choice('ts', [False, True]))
    s, t = w.connect(), w.connect()
    s.take(), t.take()
    started, pending = [], {}
    kinds_ = [ctx.choice('kind%d' % i, ['sync', 'slow', 'conc', 'async'])
              for i in range(k)]

    def script(req, msg):
        i = int(msg.mid)
        started.append(i)
        kind = kinds_[i] if i < k else 'sync'
        if kind == 'sync':
            return req.make_reply('ok')
        if kind == 'async':
            pending[i] = lambda: req.reply('ok')
            raise AsyncReply()
        f = Future()
        pending[i] = lambda: f.set_result(req.make_reply('ok'))
        return f
    w.device.script = script
    together = ctx.choice('together', [True, False])
    lines = [b'?' + (b'conc' if kd == 'conc' else b'do') + b'[%d]\n' % i
             for i, kd in enumerate(kinds_)]
    if together:
        s.feed(b''.join(lines))
    else:
        for line in lines:
            s.feed(line)
            w.loop.iterate()
    t.feed(b'?do[%d]\n' % (k + 1))
    w.settle()
    got_t = t.take()
    ctx.check(len(got_t) == 1, 'other connections are served meanwhile')
    # reference: requests start in order; a slow one holds back those after it
    done, replied = set(), []

    def reachable():
        out = []
        for i in range(k):
            out.append(i)
            if kinds_[i] == 'slow' and i not in done:
                break
        return out
    while True:
        mine = [i for i in started if i <= k]
        ctx.check([i for i in mine if i < k] == reachable(),
                  'the next request starts when the one before it is '
                  'answered, and not before')
        out = s.take()
        ids = [int(m.mid) for m in out]
        new = [i for i in reachable() if i not in replied
               and (kinds_[i] == 'sync' or i in done)]
        ctx.check(len(ids) == len(new) and set(ids) == set(new),
                  'exactly the finished requests are answered')
        if kinds_.count('sync') + kinds_.count('slow') == k:
            ctx.check(ids == sorted(ids), 'in order')
        if replied and ids and min(ids) < max(replied):
            ctx.cover('overtakes')
        replied.extend(ids)
        waiting = [i for i in reachable() if i in pending and i not in done]
        if len(reachable()) < k:
            ctx.cover('blocked')
        if not waiting:
            break
        i = ctx.choice('resolve%d' % len(done), waiting)
        pending[i]()
        done.add(i)
        w.settle()
    ctx.check(sorted(replied) == list(range(k)), 'all are answered')



# ------------------------------------------------------------------ C20

class Life(Dev):
    VERSION_INFO = ('dev', 1, 2)
    BUILD_INFO = ('dev', 1, 2, 'rc3')
    on_disconnect = 'ok'
    on_connect = 'ok'

    def setup_sensors(self):
        super(Life, self).setup_sensors()
        self.conns, self.gone = [], []
        self.reasons = []

    def on_client_connect(self, conn):
        self.conns.append(conn)
        f = super(Life, self).on_client_connect(conn)
        if self.on_connect == 'raises':
            raise RuntimeError('cannot')
        if self.on_connect == 'slow':
            self.greeted = Future()
            return self.greeted
        return f

    def on_client_disconnect(self, conn, msg, valid):
        self.gone.append(conn)
        self.reasons.append(msg)
        f = super(Life, self).on_client_disconnect(conn, msg, valid)
        if self.on_disconnect == 'raises':
            raise RuntimeError('cannot')
        if self.on_disconnect == 'never':
            return Future()
        return f


class Life4(Life):
    PROTOCOL_INFO = ProtocolFlags(4, 0, set([ProtocolFlags.MULTI_CLIENT]))


def watch(sensor):
    """The observers attached to the sensor, from now on."""
    attached = []
    attach, detach = sensor.attach, sensor.detach

    def on_attach(observer):
        attach(observer)
        if not any(x is observer for x in attached):
            attached.append(observer)

    def on_detach(observer):
        detach(observer)
        attached[:] = [x for x in attached if x is not observer]
    sensor.attach, sensor.detach = on_attach, on_detach
    return attached


EVENTS = ['request', 'sample', 'update', 'eof', 'error', 'write-error',
          'disconnect', 'stop']


@harness('C20', 'two connections (KATCP 4 or 5; thread-safe or not; '
         'on_client_disconnect succeeds (the client reading at once or late), '
         'raises or never finishes), then k '
         'events: request, sampling request, sensor update, end of file, '
         'connection error, failing write, disconnection by the server, '
         'server stop; the ioloop runs to rest, for one iteration or not at '
         'all between events; then 3 s pass',
         quick=[{'k': 2}], thorough=[{'k': 3}],
         covers=['closed', 'told', 'open', 'stopped'])
def lifecycle(ctx, k):
    cls = ctx.choice('class', [Life, Life4])
    w = ServerWorld(ctx, cls, thread_safe=ctx.choice('ts', [False, True]))
    dev = w.device
    dev.on_disconnect = ctx.choice('on_disconnect',
                                   ['ok', 'slow', 'raises', 'never'])
    sensor = dev.get_sensor('a.sensor')
    attached = watch(sensor)
    s = [w.connect(), w.connect()]
    log = [[], []]
    for i in (0, 1):
        out = s[i].take()
        if cls is Life:
            ctx.check([m.name for m in out] == ['version-connect'] * 3,
                      'the version informs come first')
            ctx.check([m.arguments[:2] for m in out] == [
                [b'katcp-protocol', b'5.0-IM'],
                [b'katcp-library', out[1].arguments[1]],
                [b'katcp-device', b'dev-1.2']], 'for each role')
            ctx.check(out[2].arguments[2] == b'dev-1.2rc3', 'build state')
            ctx.check(out[1].arguments[1].startswith(b'katcp-python-'),
                      'library version')
        else:
            ctx.check([(m.name, m.arguments) for m in out] == [
                ('version', [b'dev-1.2']), ('build-state', [b'dev-1.2rc3'])],
                'version and build state')
        ctx.check(all(m.mtype == Message.INFORM and m.mid is None
                      for m in out), 'as informs')
    if dev.on_disconnect == 'slow':
        # the first client reads what it is sent half a second late
        s[0].hold = True
    at_stop = []
    sampled = [False, False]
    why = [None, None]        # how each connection ended
    told = [False, False]     # closed by the server: the client is informed
    quiet = [True, True]
    stopped = False
    for step in range(k):
        ev = ctx.choice('ev%d' % step, EVENTS)
        if ev == 'stop':
            if stopped:
                continue
            stopped = True
            dev.stop(timeout=None).add_done_callback(
                lambda f: at_stop.append([c.is_closed for c in s]))
            for i in (0, 1):
                if why[i] is None:
                    why[i], told[i] = 'stop', True
            ctx.cover('stopped')
        elif ev == 'update':
            sensor.set_value(step % 5)
        else:
            i = ctx.choice('conn%d' % step, [0, 1])
            c = s[i]
            if ev == 'request':
                c.feed(b'?end[%d]\n' % step) if not c.is_closed else None
            elif ev == 'sample':
                if not c.is_closed:
                    sampled[i] = True
                    c.feed(b'?sensor-sampling a.sensor event\n')
            elif ev == 'eof':
                if why[i] is None:
                    why[i] = 'eof'
                elif not c.is_closed:
                    told[i] = None      # either way
                c.close_remote()
            elif ev == 'error':
                if why[i] is None:
                    why[i] = 'error'
                elif not c.is_closed:
                    told[i] = None
                c.close_remote(IOError(104, 'reset'))
            elif ev == 'write-error':
                if why[i] is None and not c.is_closed:
                    c.write_error = IOError(32, 'pipe')
                    why[i] = 'write-error'
                    dev.mass_inform(Message.inform('all', str(step)))
            elif ev == 'disconnect':
                if why[i] is None and not c.is_closed:
                    why[i], told[i] = 'disconnect', True
                    dev.conns[i].disconnect('go away')
        rest = ctx.choice('rest%d' % step, ['settle', 'once', 'no'])
        if rest == 'settle':
            w.settle()
        elif rest == 'once':
            w.loop.iterate()
    w.settle()
    for dt in (0.5, 0.5, 2):
        w.loop.now = w.loop.now + dt
        w.settle()
        s[0].hold = False
        if not s[0].is_closed:
            s[0].flush()
            w.settle()
    # a last round of traffic
    for i in (0, 1):
        log[i] = s[i].take()
    sensor.set_value(3)
    dev.mass_inform(Message.inform('last'))
    w.settle()
    for i in (0, 1):
        after = s[i].take()
        n = sum(1 for c in dev.gone if c is dev.conns[i])
        if why[i] is None:
            ctx.check(not s[i].is_closed, 'unaffected clients stay connected')
            ctx.check(n == 0, 'on_client_disconnect is not called for them')
            ctx.check([m.name for m in after][-1:] == ['last'],
                      'and still receive informs')
            ctx.check('disconnect' not in [m.name for m in log[i]],
                      'and are not told to disconnect')
            ctx.cover('open')
        else:
            ctx.check(n == 1, 'on_client_disconnect is called exactly once')
            ctx.check(s[i].is_closed, 'the connection is closed')
            ctx.check(not after, 'nothing is sent afterwards')
            d = [m for m in log[i] if m.name == 'disconnect']
            if told[i] is True and dev.on_disconnect != 'raises':
                ctx.check(len(d) == 1, 'the client is told why')
                ctx.check(d[0].arguments == [
                    b'go away' if why[i] == 'disconnect'
                    else b'Device server shutting down.'], 'with the reason')
                ctx.cover('told')
            elif told[i] is False:
                ctx.check(not d, 'a lost client cannot be told')
            if d:
                ctx.check(log[i][-1] is d[0], 'as the last message')
            ctx.cover('closed')
    ctx.check(not w.loop.errors, 'no error escapes into the ioloop')
    ctx.check(len(attached) == sum(1 for i in (0, 1)
                                   if sampled[i] and why[i] is None),
              'the strategies of those who left are gone')
    if stopped:
        ctx.check(at_stop == [[True, True]], 'stopped when all are closed')
    if not stopped:
        c = w.connect()
        c.take()
        c.feed(b'?client-list\n')
        w.settle()
        out = c.take()
        want = ['10.0.0.%d:4000' % (i + 1) for i in (0, 1) if why[i] is None]
        want.append('10.0.0.3:4000')
        ctx.check(sorted(m.arguments[0].decode() for m in out[:-1]) == want,
                  'exactly the connected clients are listed')
        ctx.check(out[-1].arguments == [b'ok', b'%d' % len(want)], 'and counted')
    else:
        ctx.check(w.tcp.stopped, 'no longer listening')
        ctx.check(not dev.running(), 'not running')


@harness('C20', 'on_client_connect of one client fails; others connect before '
         'and after', quick=[{}], covers=['done'])
def connect_failure(ctx):
    w = ServerWorld(ctx, Life, thread_safe=ctx.choice('ts', [False, True]))
    a = w.connect()
    w.device.on_connect = 'raises'
    b = w.connect()
    w.device.on_connect = 'ok'
    c = w.connect()
    for x in (a, c):
        x.take()
        x.feed(b'?end[3]\n')
    w.settle()
    ctx.check(b.is_closed, 'the connection is closed')
    out = b.take()
    ctx.check(out[-1].mtype == Message.INFORM and out[-1].name == 'log',
              'after the error is reported')
    for x in (a, c):
        ctx.check(len(x.take()) == 1, 'the others are served')
    n = sum(1 for g in w.device.gone if g is w.device.conns[1])
    ctx.check(n <= 1, 'at most one call')
    ctx.cover('done')


@harness('C20', 'on_client_connect of one client takes time, and then succeeds '
         'or fails; k events before or after that: request, mass inform, end '
         'of file, disconnection by the server, server stop', quick=[{'k': 2}],
         thorough=[{'k': 3}],
         covers=['served', 'failed', 'gone before', 'gone after', 'open'])
def greeting(ctx, k):
    w = ServerWorld(ctx, Life, thread_safe=ctx.choice('ts', [False, True]))
    dev = w.device
    a = w.connect()
    dev.on_connect = 'slow'
    b = w.connect()
    dev.on_connect = 'ok'
    conn = dev.conns[1]
    a.take()
    b.take()
    fails = ctx.choice('fails', [False, True])
    when = ctx.choice('when', list(range(k + 1)))
    asked = 0
    informs = 0
    gone = None
    stopped = False

    def greet():
        if fails:
            dev.greeted.set_exception(RuntimeError('cannot'))
        else:
            dev.greeted.set_result(None)
        w.settle()
        if fails and gone is None:
            ctx.check(b.is_closed, 'a client that cannot be greeted is dropped')
            ctx.cover('failed')
    for step in range(k):
        if step == when:
            greet()
        open_ = gone is None and not (fails and step >= when)
        ev = ctx.choice('ev%d' % step,
                        ['request', 'mass', 'eof', 'disconnect', 'stop'])
        if ev == 'request':
            if not b.is_closed:
                b.feed(b'?end[%d]\n' % (step + 1))
                asked += 1
        elif ev == 'mass':
            dev.mass_inform(Message.inform('all', str(step)))
            informs += open_
        elif ev == 'eof':
            b.close_remote()
        elif ev == 'disconnect':
            if open_:
                conn.disconnect('go away')
        elif not stopped:
            stopped = True
            dev.stop(timeout=None)
        w.settle()
        if ev in ('eof', 'disconnect', 'stop') and open_:
            gone = step
            ctx.check(b.is_closed, 'the connection is closed')
            ctx.check(sum(1 for g in dev.gone if g is conn) == 1,
                      'and on_client_disconnect called')
            ctx.cover('gone before' if step < when else 'gone after')
    if when == k:
        greet()
    out = b.take()
    n = sum(1 for g in dev.gone if g is conn)
    replies = [m for m in out if m.mtype == Message.REPLY]
    ctx.check(len([m for m in out if m.name == 'all']) == informs,
              'a connected client receives the informs')
    if gone is not None:
        ctx.check(n == 1, 'on_client_disconnect is called exactly once')
        if gone < when:
            ctx.check(not replies, 'no request is handled before the greeting')
    elif fails:
        ctx.check(n <= 1, 'at most one call')
        ctx.check(not replies, 'nothing is handled')
    else:
        ctx.check(n == 0, 'on_client_disconnect is not called')
        ctx.check(len(replies) == asked, 'each request is answered')
        ctx.cover('served' if asked else 'open')
        ctx.check(not b.is_closed, 'the client stays connected')
    if not stopped:
        a.take()
        a.feed(b'?client-list\n')
        w.settle()
        ctx.check(len([m for m in a.take() if m.mtype == Message.INFORM]) ==
                  (2 if gone is None and not fails else 1),
                  'the others are served; connected clients are listed')
    ctx.check(not w.loop.errors, 'no error escapes into the ioloop')


@harness('C20', '?client-list in the handler thread; at one arbitrary line of '
         'katcp/server.py the ioloop thread accepts a client, loses one, or '
         'both', quick=[{}],
         covers=['listed', 'beyond the last line'])
def listing(ctx):
    w = ServerWorld(ctx, Life, thread_safe=True, handler_thread=True)
    s = [w.connect() for i in range(3)]
    for c in s:
        c.take()
    what = ctx.choice('what', ['join', 'leave', 'both'])
    always = ['10.0.0.1:4000', '10.0.0.2:4000']
    maybe = ['10.0.0.3:4000']

    def change():
        with as_thread(LOOP):
            if what in ('join', 'both'):
                w.connect()
            if what in ('leave', 'both'):
                s[2].close_remote()
            w.settle()
    if what in ('join', 'both'):
        maybe.append('10.0.0.4:4000')
    if what == 'join':
        always.append(maybe.pop(0))

    def idle():
        FakeThread.started[0].target.__self__.stop(timeout=None)
    w.idle = idle
    s[0].feed(b'?client-list[1]\n')
    p = Preempt(int(ctx.int('k', 0, 180)), change, files=['/server.py'])
    with as_thread(HANDLER):
        with p:
            FakeThread.started[0].target()
    w.settle()
    if not p.fired:
        ctx.cover('beyond the last line')
    ctx.check(not w.loop.errors, 'no error escapes into the ioloop')
    out = [m for m in s[0].take() if m.mid is not None]
    ctx.check([m.name for m in out[-1:]] == ['client-list']
              and out[-1].mtype == Message.REPLY
              and all(m.mtype == Message.INFORM for m in out[:-1]),
              'informs and one reply')
    names = [m.arguments[0].decode() for m in out[:-1]]
    ctx.check(len(set(names)) == len(names)
              and set(always) <= set(names) <= set(always + maybe),
              'exactly the connected clients are listed')
    ctx.check(out[-1].arguments == [b'ok', b'%d' % len(names)], 'and counted')
    ctx.cover('listed')


# ------------------------------------------------------------------ C43

class Limit(object):
    """The handler thread has nothing to do: only stopping it is left."""

    def __init__(self, thread, todo=()):
        self.thread, self.todo, self.n = thread, list(todo), 0

    def __call__(self):
        if self.todo:
            self.todo.pop(0)()
            return
        self.n += 1
        if self.n > 3:
            raise AssertionError('the handler thread does not stop')
        self.thread.target.__self__.stop(timeout=None)


def serve(w, mode, todo=(), preempt=None):
    """Everything runs until nothing is left to do; returns whether the
    handler thread had to be stopped from outside."""
    if mode != 'handler':
        w.settle()
        for f in todo:
            f()
            w.settle()
        return True
    thread = FakeThread.started[-1]
    w.idle = Limit(thread, todo)

    def switch():
        with as_thread(LOOP):
            w.loop.settle()
    with as_thread(HANDLER):
        if preempt is None:
            thread.target()
        else:
            with Preempt(preempt, switch, files=['/server.py']) as p:
                thread.target()
            if not p.fired:
                w.ctx.cover('beyond the last line')
    thread.alive = False
    w.settle()
    return w.idle.n > 0


@harness('C43', '?halt or ?restart (with a queue registered or not) from one of '
         'two clients, alone or between other requests; client connections '
         'not thread-safe, thread-safe, or with a handler thread, interrupted '
         'by the ioloop thread at one of the first `lines` lines of '
         'katcp/server.py it executes; the other client is idle, waits for a '
         'reply, reads late, samples a sensor or is lost; then the device is '
         'stopped and started again',
         quick=[{'lines': 120}], thorough=[{'lines': 300}],
         covers=['halt', 'restart', 'refused', 'again'])
def requested(ctx, lines):
    mode = ctx.choice('mode', ['direct', 'safe', 'handler'])
    w = ServerWorld(ctx, Life, thread_safe=mode != 'direct',
                    handler_thread=mode == 'handler')
    dev = w.device
    q = queue.Queue()
    what = ctx.choice('what', ['halt', 'restart', 'no queue'])
    if what == 'restart':
        dev.set_restart_queue(q)
    s, t = w.connect(), w.connect()
    s.take(), t.take()
    other = ctx.choice('other', ['idle', 'request', 'late', 'samples', 'lost']
                       if mode != 'handler' or lines > 200
                       else ['request', 'lost'])
    attached = watch(dev.get_sensor('a.sensor'))
    name = what if what == 'halt' else 'restart'
    data = ctx.choice('data', [b'?%s[1]\n', b'?a[0]\n?%s[1]\n?a[2]\n'])
    if other == 'request':
        t.feed(b'?a[3]\n?end[4]\n')
    elif other == 'late':
        t.hold = True
    elif other == 'samples':
        t.feed(b'?sensor-sampling[5] a.sensor event\n')
    s.feed(data % name.encode('ascii'))
    if other == 'lost':
        t.close_remote()
    at_rest = []
    seen = []

    def look():
        at_rest.append((s.is_closed, t.is_closed, dev.running()))
    stopped_outside = serve(
        w, mode, [look] if mode == 'handler' else [],
        int(ctx.int('k', 0, lines)) if mode == 'handler' else None)
    look()
    for dt in (0.5, 0.5, 2):
        w.loop.now = w.loop.now + dt
        w.settle()
        t.hold = False
        if not t.is_closed:
            t.flush()
            w.settle()
    out, tout = s.take(), t.take()
    ctx.check(not w.loop.errors, 'no error escapes into the ioloop')
    reply = [m for m in out if m.mid == b'1']
    ctx.check(len(reply) == 1 and reply[0].mtype == Message.REPLY
              and reply[0].name == name, 'one reply')
    if what == 'no queue':
        ctx.check(reply[0].arguments[0] == b'fail', 'refused without a queue')
        ctx.cover('refused')
    else:
        ctx.check(reply[0].arguments == [b'ok'], 'answered with ok')
    ids = [m.mid for m in out if m.mid is not None]
    ctx.check(ids == sorted(ids) and len(set(ids)) == len(ids),
              'requests are answered in order')
    if b'a[0]' in data:
        ctx.check(ids[0] == b'0', 'earlier requests are answered')
    if other == 'request':
        tids = [m.mid for m in tout if m.mid is not None]
        ctx.check(tids in ([b'3', b'4'], [b'3'], [])
                  and (tids == [b'3', b'4'] or what == 'halt'),
                  'other clients are served until then')
    if what == 'halt':
        ctx.cover('halt')
        ctx.check(not stopped_outside or mode != 'handler',
                  'the handler thread ends')
        ctx.check(out[-1].name == 'disconnect', 'then disconnected')
        if other != 'lost':
            ctx.check(tout and tout[-1].name == 'disconnect'
                      and len(kinds(tout, 'disconnect')) == 1,
                      'all clients are told')
    else:
        ctx.cover('restart')
        ctx.check(not kinds(out + tout, 'disconnect'), 'nobody is disconnected')
        ctx.check(at_rest[0] == (False, other == 'lost', True)
                  and (mode == 'handler' or dev.running()), 'still running')
        ctx.check(b'a[2]' not in data or b'2' in ids,
                  'later requests are answered')
        got = []
        while not q.empty():
            got.append(q.get_nowait())
        ctx.check(got == ([dev] if what == 'restart' else []),
                  'handed to the queue once')
        with as_thread(OTHER):
            dev.stop(timeout=None)
        w.settle()
        for i in range(3):
            w.loop.now = w.loop.now + 1
            w.settle()
        for c in (s, t):
            ctx.check([m.name for m in c.take()]
                      == ([] if c is t and other == 'lost'
                          else ['disconnect']), 'disconnected by stop()')
    ctx.check(s.is_closed and t.is_closed, 'all connections are closed')
    ctx.check(sorted(dev.conns.index(c) for c in dev.gone) == [0, 1],
              'on_client_disconnect is called once for each')
    ctx.check(w.tcp.stopped and not dev.running(), 'not running any more')
    ctx.check(not attached, 'no strategy is left')
    # it can be started again
    with as_thread(OTHER):
        dev.start()
    w.settle()
    w.tcp = FakeTCPServer.instances[-1]
    ctx.check(dev.running() and not w.tcp.stopped, 'running again')
    c = w.connect()
    ctx.check([m.name for m in c.take()] == ['version-connect'] * 3,
              'a new client is greeted')
    c.feed(b'?end[7]\n?client-list[8]\n')
    serve(w, mode)
    out = c.take()
    ctx.check([(m.mid, m.arguments) for m in out]
              == [(b'7', [b'ok', b'end']), (b'8', [b'10.0.0.3:4000']),
                  (b'8', [b'ok', b'1'])], 'and served')
    ctx.check(not s.take() and not t.take(), 'the others hear nothing')
    ctx.cover('again')


for pid in ('C04', 'C17', 'C18', 'C19', 'C20', 'C43'):
    assume_note(pid, BASE_CLIENT_NOTE)
