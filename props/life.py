"""Devices and clients with an ioloop thread of their own."""
import katcp.client as client_mod
import katcp.core as core_mod
import katcp.ioloop_manager as iom
import katcp.server as server_mod
import tornado.tcpclient
import tornado.tcpserver
from katcp import BlockingClient, DeviceServer, Sensor
from katcp.core import KatcpClientDisconnected, Message
from props.mgr import World as ManagerWorld
from props.simclient import ClientStream, FakeTCPClient
from props.simloop import ENV
from props.simserver import FakeSocketModule, FakeStream, FakeTCPServer
from props.simthreads import Thread, Threading
from symkat.harness import assume_note, harness
from tornado.concurrent import Future

FILES = ('server.py', 'client.py', 'ioloop_manager.py')

assume_note(
    'C45', 'threads are coroutines switched at line boundaries of '
    'katcp/server.py, katcp/client.py and katcp/ioloop_manager.py, one switch '
    'per path, and when they block; sockets, streams and the ioloop are '
    'models; starting while a stop is in progress is up to the user')


class ThreadFuture(Future):
    """concurrent.futures.Future: result() blocks the thread that asks."""
    world = None

    def set_running_or_notify_cancel(self):
        return True

    def result(self, timeout=None):
        if not self.done():
            give_up = self.world.stuck_after(timeout)
            self.world.th.block(lambda: self.done() or give_up())
            if not self.done():
                raise client_mod.TimeoutError()
        return super(ThreadFuture, self).result()


class World(ManagerWorld):
    def __init__(self, ctx):
        super(World, self).__init__(ctx)
        self.foreign_writes = 0
        self.loop = self.own
        threading = Threading(self.th)
        server_mod.threading = client_mod.threading = threading
        iom.threading = threading
        server_mod.socket = FakeSocketModule()
        tornado.tcpserver.TCPServer = FakeTCPServer
        del FakeTCPServer.instances[:]
        ThreadFuture.world = self
        server_mod.Future = client_mod.Future = iom.Future = ThreadFuture

    def do(self, fn):
        """By a user thread, with everybody running on; its task."""
        t = self.user(fn)
        t.resume()
        self.settle()
        return t

    def race(self, ctx, fn, limit, others):
        """fn in a user thread, interrupted, or interrupting, at a line."""
        kk = int(ctx.int('line', 0, limit))
        task = self.user(fn)
        self.th.switched = None
        if ctx.choice('who', ['op', 'loop']) == 'op':
            task.resume(kk, FILES)
            if self.th.switched:
                for t in others():
                    t.resume()
            task.resume()
        else:
            own = others()
            if own:
                own[0].resume(kk, FILES)
            task.resume()
        ctx.assume(self.th.switched is not None)
        ctx.cover('interrupted')
        self.settle()
        return task

    def alive(self):
        return [x.task for x in self.threads()]


class Stream(FakeStream):
    def __init__(self, world, loop):
        super(Stream, self).__init__(world)
        self.loop = loop

    def write(self, data):
        if ENV.thread != self.loop.running_in:
            self.world.foreign_writes += 1
        thread, ENV.thread = ENV.thread, 1
        try:
            return super(Stream, self).write(data)
        finally:
            ENV.thread = thread


class Device(DeviceServer):
    VERSION_INFO = ('life', 1, 0)
    BUILD_INFO = ('life', 0, 1, '')
    joined = left = 0

    def setup_sensors(self):
        self.add_sensor(Sensor.boolean('b', 'b'))

    def on_client_connect(self, conn):
        self.joined += 1
        return super(Device, self).on_client_connect(conn)

    def on_client_disconnect(self, conn, msg, valid):
        self.left += 1
        return super(Device, self).on_client_disconnect(conn, msg, valid)


OPTIONS = [(True, True), (True, False), (False, False)]


@harness('C45', 'a device with each concurrency option: start, then k '
         'operations out of start, stop, join, a client that connects and '
         'asks, sync_with_ioloop and wait_running by a user thread, or fewer, '
         'the last one interrupted by, or interrupting, the ioloop thread (or handler '
         'thread) at an arbitrary line; then stopped and started again',
         quick=[{'k': 2}], thorough=[{'k': 3}],
         covers=['refused', 'served', 'interrupted', 'stopped', 'again'])
def device(ctx, k):
    w = World(ctx)
    safe, handler = ctx.choice('options', OPTIONS)
    dev = Device('127.0.0.1', 5000)
    dev.set_concurrency_options(thread_safe=safe, handler_thread=handler)
    streams = []
    n_threads = 2 if handler else 1

    def serve():
        """A client connects now, and asks."""
        tcp = FakeTCPServer.instances[-1]
        loop = w.loops[-1]
        s = Stream(w, loop)
        streams.append(s)
        if not tcp.sockets or tcp.stopped or loop.closed:
            s.is_closed = True
            return s
        loop.add_callback(lambda: tcp.handle_stream(s, ('10.0.0.1', 4000)))
        s.feed(b'?watchdog[%d]\n' % len(streams))
        return s

    def served(s):
        msgs = s.take()
        ok = Message.reply('watchdog', 'ok', mid=b'%d' % len(streams))
        ctx.check(len([m for m in msgs if m == ok]) == 1, 'a client is served')
        ctx.check(msgs[0].name == 'version-connect', 'and greeted')
        ctx.cover('served')

    def start():
        dev.start(ctx.choice('timeout', [None, 5]) if not w.loops else 5)

    t = w.do(start)
    ctx.check(t.done and t.error is None, 'started')
    ctx.check(dev.running() and len(w.threads()) == n_threads, 'it runs')
    race_at = ctx.choice('race', [-1] + list(range(k - 1)))
    stopped = False
    futures = []
    for i in range(k if race_at < 0 else race_at + 1):
        op = ctx.choice('op%d' % i, ['start', 'stop', 'join', 'connect',
                                     'sync', 'wait'])
        ran = []
        s = None
        if op == 'start':
            ctx.assume(race_at != i or not stopped)
            fn = start
        elif op == 'stop':
            def fn():
                futures.append(dev.stop())
        elif op == 'join':
            fn = lambda: dev.join(5)
        elif op == 'connect':
            ctx.assume(not stopped)
            s = serve()
            fn = lambda: None
        elif op == 'sync':
            ctx.assume(not stopped)

            def fn():
                loop = dev.ioloop
                loop.add_callback(lambda: ran.append(1))
                dev.sync_with_ioloop(5)
                ran.append(2)
        else:
            fn = lambda: dev.wait_running(5)
        ctx.assume(race_at != i or op not in ('connect', 'wait'))
        if race_at == i:
            if ctx.choice('busy', [False, True]) and not stopped:
                # the threads of the device have something to do
                serve()
            t = w.race(ctx, fn, 70, w.alive)
        else:
            t = w.do(fn)
        ctx.check(t.done, 'it returns')
        if op == 'start' and not stopped:
            ctx.check(type(t.error) is RuntimeError,
                      'a running device is not started')
            ctx.cover('refused')
        else:
            ctx.check(t.error is None, 'it does not fail')
        if op == 'start':
            stopped = False
        elif op == 'stop':
            stopped = True
            ctx.cover('stopped')
            ctx.check(futures[-1].done()
                      and futures[-1].exception() is None,
                      'the future of stop() resolves')
        elif op == 'wait':
            ctx.check(bool(t.result) == (not stopped), 'tells if it runs')
        elif op == 'sync':
            ctx.check(ran == [1, 2], 'waits for what was scheduled before')
        elif op == 'connect':
            served(s)
        ctx.check(dev.running() == (not stopped), 'runs until stopped')
        if stopped:
            ctx.check(not w.threads(), 'the threads have ended')
            ctx.check(all(s.is_closed for s in streams), 'all disconnected')
            ctx.check(FakeTCPServer.instances[-1].stopped, 'not listening')
        else:
            ctx.check(len(w.threads()) == n_threads, 'its threads live')
            ctx.check(not FakeTCPServer.instances[-1].stopped, 'listening')
            if op != 'connect':
                served_s = serve()
                w.settle()
                served(served_s)
    if not stopped:
        def fn():
            futures.append(dev.stop())
            dev.join(5)
        t = w.do(fn)
        ctx.check(t.done and t.error is None and not dev.running(), 'stopped')
    ctx.check(not w.threads() and all(x.closed for x in w.loops if x.starts),
              'every thread has ended')
    ctx.check(all(f.done() for f in futures), 'all futures resolve')
    for s in streams:
        last = s.take()
        ctx.check(s.is_closed and last and last[-1].name == 'disconnect',
                  'disconnected, told so last')
    ctx.check(dev.joined == dev.left, 'every client has left')
    for x in w.loops:
        ctx.check(not x.errors and x.starts <= 1, 'nothing fails in the loop')
    ctx.check(w.foreign_writes == 0, 'only the ioloop thread writes')
    # again
    t = w.do(start)
    ctx.check(t.done and t.error is None and dev.running(), 'starts again')
    s = serve()
    w.settle()
    served(s)
    t = w.do(lambda: (dev.stop(), dev.join(5)))
    ctx.check(t.done and t.error is None and not dev.running()
              and not w.threads() and s.is_closed, 'and stops')
    ctx.cover('again')


class LiveStream(ClientStream):
    """Of a device that answers."""

    def __init__(self, world, loop):
        super(LiveStream, self).__init__(world)
        self.loop = loop

    def write(self, data):
        if ENV.thread != self.loop.running_in:
            self.world.foreign_writes += 1
        thread, ENV.thread = ENV.thread, 1
        try:
            f = super(LiveStream, self).write(data)
        finally:
            ENV.thread = thread
        for m in self.take():
            self.loop.add_callback(self.feed, bytes(Message.reply_to_request(
                m, 'ok')) + b'\n')
        return f


class ClientWorld(World):
    """Where time passes for whoever waits."""

    def __init__(self, ctx):
        super(ClientWorld, self).__init__(ctx)
        self.pending = []
        self.streams = []
        self.up = []
        core_mod.Future = ThreadFuture
        tornado.tcpclient.TCPClient = lambda *a, **k: FakeTCPClient(self)

    def stuck_after(self, timeout):
        me = self.th.current
        me.deadline = None if timeout is None else self.own.now + timeout
        return lambda: (me.deadline is not None
                        and self.own.now >= me.deadline)

    def settle(self):
        """Everybody runs, and time passes until no user waits."""
        self.th.run()
        for i in range(80):
            users = [t for t in self.th.tasks
                     if not t.done and t.loop is self.own]
            if not users:
                return
            if not self.tick(users):
                return

    def tick(self, tasks=(), horizon=None):
        """Time passes until something happens."""
        when = [] if horizon is None else [horizon]
        when += [t.deadline for t in tasks
                 if getattr(t, 'deadline', None) is not None]
        for x in self.loops:
            t = x.next_deadline()
            if x.running_in is not None and t is not None:
                when.append(t)
        if not when:
            return False
        self.sleep(max(0, min(when) - self.own.now))
        return True

    def sleep(self, dt):
        end = self.own.now + dt
        for x in self.loops + [self.own]:
            x.now = end
        self.th.run()

    def pause(self, dt):
        end = self.own.now + dt
        for i in range(80):
            self.th.run()
            if not self.tick(horizon=end) or self.own.now >= end:
                break

    def new_loop(self, *a, **k):
        x = super(ClientWorld, self).new_loop()
        x.now = self.own.now
        return x

    def accept(self):
        """The device accepts the connection, and greets."""
        if not self.pending:
            return None
        t, f = self.pending.pop(0)
        s = LiveStream(self, self.loops[-1])
        self.streams.append(s)

        def go():
            f.set_result(s)
            s.feed(b'#version-connect katcp-protocol 5.0-MI\n')
        self.loops[-1].add_callback(go)
        return s


@harness('C45', 'a client with an ioloop of its own, thread-safe calls or '
         'not: start, then k operations out of start, stop, join, a request, '
         'a device that accepts or hangs up and the four waits, by a user '
         'thread, the last one interrupted by, or interrupting, the ioloop thread at an '
         'arbitrary line; then stopped and started again',
         quick=[{'k': 2}], thorough=[{'k': 3}],
         covers=['refused', 'answered', 'interrupted', 'stopped', 'again'])
def client(ctx, k):
    w = ClientWorld(ctx)
    told = []

    class Client(BlockingClient):
        def notify_connected(self, connected):
            told.append((connected, ENV.thread == w.loops[-1].running_in))

    cl = Client('127.0.0.1', 5000)
    safe = ctx.choice('safe', [False, True])
    if safe:
        cl.enable_thread_safety()

    def start():
        cl.start(5 if safe or w.loops else None)

    t = w.do(cl.stop)
    ctx.check(t.done and type(t.error) is RuntimeError, 'not started yet')
    t = w.do(start)
    ctx.check(t.done and t.error is None, 'started')
    ctx.check(cl.running() and len(w.threads()) == 1, 'it runs')
    race_at = ctx.choice('race', [-1] + list(range(k)))
    stopped = False
    connected = protocol = False

    def request():
        msg = Message.request('ping')
        if safe and ctx.choice('how%d' % i, ['ask', 'blind']) == 'blind':
            try:
                cl.send_message(msg)
                ctx.check(was or connected or racing, 'connected')
            except KatcpClientDisconnected:
                ctx.check(not connected or racing, 'not connected')
            return None
        return cl.blocking_request(msg, timeout=3)[0]

    waits = {'wait_running': lambda: not stopped,
             'wait_connected': lambda: connected,
             'wait_disconnected': lambda: not connected,
             'wait_protocol': lambda: protocol}
    for i in range(k if race_at < 0 else race_at + 1):
        ops = ['start', 'stop', 'join', 'request', 'accept',
               'hangup'] + sorted(waits)
        racing = race_at == i
        if stopped:
            ops = ops[:3]
        elif k == 2 and racing:
            ops = ops[:4] + ['wait_connected', 'wait_disconnected']
        elif k == 2 and race_at > i:
            ops = ['stop', 'accept']
        op = ctx.choice('op%d' % i, ops)
        was = connected
        if op == 'start':
            ctx.assume(not racing or not stopped)
            fn = start
        elif op == 'stop':
            fn = lambda: cl.stop(5)
        elif op == 'join':
            fn = lambda: cl.join(2)
        elif op == 'request':
            fn = request
        elif op == 'accept':
            ctx.assume(not connected)
            fn = lambda: None
            w.tick()
            ctx.check(w.accept() is not None, 'it connects')
        elif op == 'hangup':
            ctx.assume(connected)
            fn = lambda: None
            w.loops[-1].add_callback(w.streams[-1].close_remote)
        else:
            fn = lambda: getattr(cl, op)(2)
        if racing:
            ctx.assume(op not in ('accept', 'hangup'))
            other = ctx.choice('other', ['accept', 'hangup', 'idle'])
            if not stopped:
                if other == 'accept':
                    ctx.assume(not connected)
                    w.accept()
                elif other == 'hangup':
                    ctx.assume(connected)
                    w.loops[-1].add_callback(w.streams[-1].close_remote)
            t = w.race(ctx, fn, 90, w.alive)
            if not stopped and other != 'idle':
                connected = other == 'accept'
                protocol = protocol or connected
        else:
            t = w.do(fn)
            if op == 'accept':
                connected = protocol = True
            elif op == 'hangup':
                connected = False
        ctx.check(t.done, 'it returns')
        if op == 'start' and not stopped:
            ctx.check(type(t.error) is RuntimeError,
                      'a running client is not started')
            ctx.cover('refused')
        else:
            ctx.check(t.error is None, 'it does not fail')
        if op == 'start' and stopped:
            stopped = connected = protocol = False
        elif op == 'stop':
            stopped = True
            connected = False
            w.pause(6)      # its stop() does not wait
            ctx.cover('stopped')
        elif op == 'request' and t.result is not None:
            if was == connected:
                ctx.check(t.result.reply_ok() == connected, 'answered')
            ctx.cover('answered')
        elif op in waits and not racing:
            ctx.check(bool(t.result) == waits[op](), 'tells the state')
        elif op in waits and waits[op]():
            ctx.check(bool(t.result), 'tells the state that came')
        ctx.check(cl.running() == (not stopped), 'runs until stopped')
        ctx.check(cl.is_connected() == connected, 'knows if it is connected')
        if stopped:
            ctx.check(not w.threads(), 'the thread has ended')
            ctx.check(all(s.is_closed for s in w.streams), 'disconnected')
        else:
            ctx.check(len(w.threads()) == 1, 'its thread lives')
    if not stopped:
        t = w.do(lambda: (cl.stop(5), cl.join(5)))
        ctx.check(t.done and t.error is None and not cl.running(), 'stopped')
    ctx.check(not w.threads() and all(x.closed for x in w.loops if x.starts),
              'every thread has ended')
    ctx.check(all(s.is_closed for s in w.streams), 'all connections closed')
    # a connection made while it stops may not be taken
    n = len(w.streams) - (1 if race_at >= 0 else 0)
    ctx.check(n <= len(told) / 2 <= len(w.streams)
              and [a for a, b in told] == [True, False] * (len(told) // 2)
              and all(b for a, b in told), 'notified in the ioloop thread')
    for x in w.loops:
        ctx.check(not x.errors and x.starts <= 1, 'nothing fails in the loop')
    ctx.check(w.foreign_writes == 0, 'only the ioloop thread writes')
    # again
    del w.pending[:]
    t = w.do(start)
    ctx.check(t.done and t.error is None and cl.running(), 'starts again')
    w.accept()
    t = w.do(lambda: cl.wait_connected(5))
    ctx.check(t.done and t.error is None and t.result, 'connects again')
    t = w.do(lambda: cl.blocking_request(Message.request('ping'), timeout=3))
    ctx.check(t.error is None and t.result[0].reply_ok(), 'is answered')
    t = w.do(lambda: (cl.stop(5), cl.join(5)))
    ctx.check(t.done and t.error is None and not cl.running()
              and not w.threads() and w.streams[-1].is_closed, 'and stops')
    ctx.cover('again')
