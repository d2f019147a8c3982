"""A client on a simulated ioloop with a simulated TCP connector."""
import katcp.client as client_mod
import katcp.ioloop_manager as manager_mod
import tornado.tcpclient
from katcp.core import ProtocolFlags
from props.simloop import SimLoop, as_thread, install_env
from props.simserver import FakeSock, FakeStream
from tornado.concurrent import Future

LOOP, OTHER = 1, 2


class ClientStream(FakeStream):
    def __init__(self, world):
        super(ClientStream, self).__init__(world)
        self.socket = FakeSock()
        self.nodelay_error = None

    def set_nodelay(self, v):
        if self.nodelay_error is not None:
            raise self.nodelay_error

    def _maybe_close_callback(self):
        if self.is_closed:
            self.socket = None
        super(ClientStream, self)._maybe_close_callback()


class FakeTCPClient(object):
    def __init__(self, world):
        self.world = world

    def connect(self, host, port, *a, **k):
        f = Future()
        f.address = (host, port)
        self.world.pending.append((self.world.loop.time(), f))
        return f


class BlockingFuture(object):
    """concurrent.futures.Future: waiting lets the ioloop thread run."""
    world = None

    def __init__(self):
        self._f = Future()

    def set_result(self, r):
        self._f.set_result(r)

    def set_exception(self, e):
        self._f.set_exception(e)

    def add_done_callback(self, cb):
        self._f.add_done_callback(lambda f: cb(self))

    def exception(self):
        return self._f.exception()

    def done(self):
        return self._f.done()

    def result(self, timeout=None):
        self.world.wait_for(self, timeout)
        if not self._f.done():
            raise client_mod.TimeoutError()
        return self._f.result()


class ClientWorld(object):
    """A started client; ``accept``/``refuse`` answer its connect attempts."""

    def __init__(self, ctx, client_cls, flags=None, now=1000, start=True,
                 thread_safe=False, **kw):
        self.ctx = ctx
        self.loop = SimLoop(now)
        self.foreign_writes = 0
        self.pending = []
        self.streams = []
        self.idle = None
        self.stuck = False      # the ioloop does not get to run
        self.nodelay_error = None
        install_env(self.loop, LOOP)
        world = self
        BlockingFuture.world = self
        client_mod.Future = manager_mod.Future = BlockingFuture
        tornado.tcpclient.TCPClient = lambda *a, **k: FakeTCPClient(world)
        self.client = client_cls('127.0.0.1', 5000, **kw)
        if flags is not None:
            self.client.preset_protocol_flags(flags)
        if thread_safe:
            self.client.enable_thread_safety()
        self.client.set_ioloop(self.loop)
        if start:
            self.client.start()
            self.loop.settle()

    def accept(self, settle=True):
        t, f = self.pending.pop(0)
        s = ClientStream(self)
        s.address = f.address
        s.nodelay_error = self.nodelay_error
        self.streams.append(s)
        f.set_result(s)
        if settle:
            self.settle()
        return s

    def refuse(self):
        t, f = self.pending.pop(0)
        f.set_exception(IOError(111, 'Connection refused'))
        self.settle()

    def settle(self):
        self.loop.settle()

    def advance(self, dt):
        self.loop.now = self.loop.now + dt
        self.settle()

    def live(self):
        return [s for s in self.streams if not s.is_closed]

    def wait_for(self, future, timeout):
        """Another thread waits for ``future``; the loop thread runs."""
        end = None if timeout is None else self.loop.now + timeout
        if self.stuck:
            if end is None:
                raise AssertionError('waits for ever')
            self.loop.now = end
            return
        with as_thread(LOOP):
            self.settle()
            n = 0
            while not future.done():
                n += 1
                if self.idle is not None and self.idle(n):
                    self.settle()
                    continue
                # time passes: the next timeout, if within our own
                t = self.loop.next_deadline()
                if t is None or (end is not None and t > end) or n > 20:
                    if end is not None:
                        self.loop.now = end
                    break
                self.loop.now = t
                self.settle()


IDS = ProtocolFlags(5, 0, [b'M', b'I'])
NOIDS = ProtocolFlags(5, 0, [b'M'])
