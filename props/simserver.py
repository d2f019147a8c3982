"""A DeviceServer on a simulated ioloop with simulated connections."""
import re

import katcp.server as server_mod
import tornado.tcpserver
from katcp.core import Message, MessageParser
from props.simloop import ENV, Preempt, SimLoop, as_thread, install_env
from tornado.concurrent import Future
from tornado.iostream import StreamClosedError

LOOP, OTHER, HANDLER = 1, 2, 3


class FakeStream(object):
    """tornado.iostream.IOStream as far as katcp uses it.

    Bytes arrive with ``feed`` in any chunks; ``close_remote`` is the peer
    closing; writes are recorded in ``out`` and complete at once unless
    ``hold`` is set: then they wait in the write buffer until ``flush``.
    """

    def __init__(self, world):
        self.world = world
        self.loop = world.loop
        self.buf = b''
        self.is_closed = False
        self.error = None
        self.out = []
        self.pending = []
        self.hold = False
        self.write_error = None
        self.read_error = None
        self.read = None
        self.close_cb = None
        self.close_cb_runs = 0
        self.written_after_close = 0

    # --- used by katcp ----------------------------------------------------
    def set_close_callback(self, cb):
        self.close_cb = cb
        self._maybe_close_callback()

    def set_nodelay(self, v):
        pass

    def closed(self):
        return self.is_closed

    def writing(self):
        return bool(self.pending)

    def fileno(self):
        return 7

    def read_until_regex(self, regex):
        if self.read is not None:
            raise AssertionError('Already reading')
        f = Future()
        if self.read_error is not None:
            e, self.read_error = self.read_error, None
            raise e
        self.read = (regex, f)
        if not self._try_read() and self.is_closed:
            self.read = None
            raise StreamClosedError(real_error=self.error)
        return f

    def write(self, data):
        if ENV.thread != LOOP:
            self.world.foreign_writes += 1
        if self.is_closed:
            self.written_after_close += 1
            raise StreamClosedError(real_error=self.error)
        if self.write_error is not None:
            e, self.write_error = self.write_error, None
            raise e
        f = Future()
        f.add_done_callback(lambda f: f.exception())
        if self.hold or self.pending:
            # in the write buffer: lost if the stream is closed before flush()
            self.pending.append((f, data))
        else:
            self.out.append(data)
            f.set_result(None)
        return f

    def close(self, exc_info=False):
        if self.is_closed:
            return
        self.is_closed = True
        if exc_info:
            import sys
            e = sys.exc_info()[1] if exc_info is True else exc_info[1]
            if isinstance(e, Exception):
                self.error = e
        self._maybe_close_callback()

    def _maybe_close_callback(self):
        # tornado: pending futures fail, then the close callback is scheduled
        if not self.is_closed:
            return
        fs, self.pending = [f for f, data in self.pending], []
        if self.read is not None:
            fs.append(self.read[1])
            self.read = None
        for f in fs:
            f.set_exception(StreamClosedError(real_error=self.error))
        if self.close_cb is not None:
            cb, self.close_cb = self.close_cb, None
            self.close_cb_runs += 1
            self.loop.add_callback(cb)

    # --- used by the harness ----------------------------------------------
    def _try_read(self):
        if self.read is None:
            return False
        regex, f = self.read
        m = re.search(regex, self.buf)
        if m is None:
            return False
        n = m.end()
        data, self.buf = self.buf[:n], self.buf[n:]
        self.read = None
        f.set_result(data)
        return True

    def feed(self, data):
        self.buf = self.buf + data
        self._try_read()

    def flush(self):
        fs, self.pending = self.pending, []
        for f, data in fs:
            self.out.append(data)
            f.set_result(None)

    def close_remote(self, error=None):
        if not self.is_closed:
            self.is_closed = True
            self.error = error
            self._maybe_close_callback()

    def take(self):
        """Messages written since the last call."""
        out, self.out = self.out, []
        return messages(out)


def messages(chunks):
    """Parsed messages of written chunks (each ends with a newline)."""
    msgs = []
    for c in chunks:
        if type(c) is bytes:
            lines = c.split(b'\n')
            if lines[-1] != b'':
                raise AssertionError('a write must end with a newline')
            lines = lines[:-1]
        else:
            if not c.endswith(b'\n'):
                raise AssertionError('a write must end with a newline')
            lines = [c[:-1]]
        for line in lines:
            if len(line):
                msgs.append(MessageParser().parse(line))
    return msgs


class FakeTCPServer(object):
    instances = []

    def __init__(self, io_loop=None, ssl_options=None, max_buffer_size=None,
                 **kw):
        self.handle_stream = None
        self.sockets = []
        self.stopped = False
        FakeTCPServer.instances.append(self)

    def add_socket(self, s):
        self.sockets.append(s)

    add_sockets = add_socket

    def stop(self):
        self.stopped = True


class FakeSock(object):
    def __getattr__(self, name):
        return lambda *a, **k: None

    def getsockname(self):
        return ('127.0.0.1', 5000)


class FakeSocketModule(object):
    AF_INET, SOCK_STREAM, SOL_SOCKET, SO_REUSEADDR = 2, 1, 1, 2
    error = OSError

    @staticmethod
    def socket(*a, **k):
        return FakeSock()

    def __getattr__(self, name):
        import socket
        return getattr(socket, name)


class NothingHappens(Exception):
    """A thread waits for something no other thread will do."""


class FakeEvent(object):
    """threading.Event; waiting lets the ioloop thread run."""
    world = None

    def __init__(self):
        self.flag = False

    def set(self):
        self.flag = True

    def clear(self):
        self.flag = False

    def is_set(self):
        return self.flag

    isSet = is_set

    def wait(self, timeout=None):
        if not self.flag and self.world is not None:
            self.world.wait_for(self)
        return self.flag


class FakeThread(object):
    started = []

    def __init__(self, target=None, name=None, args=(), kwargs=None):
        self.target = target
        self.alive = False
        self.daemon = False

    def setDaemon(self, v):
        pass

    def start(self):
        self.alive = True
        FakeThread.started.append(self)

    def is_alive(self):
        return self.alive


    def join(self, timeout=None):
        pass


class FakeThreading(object):
    Event = FakeEvent
    Thread = FakeThread

    def __getattr__(self, name):
        import threading
        return getattr(threading, name)


class ServerWorld(object):
    def __init__(self, ctx, device_cls, thread_safe=False, now=None,
                 handler_thread=False):
        self.ctx = ctx
        self.loop = SimLoop(now if now is not None else 1000)
        self.foreign_writes = 0
        self.idle = None
        FakeEvent.world = self
        del FakeThread.started[:]
        server_mod.threading = FakeThreading()
        install_env(self.loop, LOOP)
        server_mod.socket = FakeSocketModule()
        tornado.tcpserver.TCPServer = FakeTCPServer
        del FakeTCPServer.instances[:]
        self.device = device_cls('127.0.0.1', 5000)
        self.device.set_concurrency_options(thread_safe=thread_safe,
                                            handler_thread=handler_thread)
        self.device.world = self
        self.device.set_ioloop(self.loop)
        self.device.start()
        self.loop.settle()
        self.tcp = FakeTCPServer.instances[0]
        self.nconn = 0

    def connect(self, settle=True):
        s = FakeStream(self)
        self.nconn += 1
        self.tcp.handle_stream(s, ('10.0.0.%d' % self.nconn, 4000))
        if settle:
            self.loop.settle()
        return s

    def settle(self):
        self.loop.settle()

    # --- handler thread -----------------------------------------------------
    def wait_for(self, event):
        """The handler thread waits: the ioloop thread runs meanwhile."""
        with as_thread(LOOP):
            self.loop.settle()
            if not event.flag and self.idle is not None:
                self.idle()
                self.loop.settle()

    def run_handler_thread(self, preempt=None):
        """Run the message handler thread until it is stopped.

        While it waits (and at the line ``preempt``) the ioloop thread runs.
        """
        t = FakeThread.started[0]

        def switch():
            with as_thread(LOOP):
                self.loop.settle()
        with as_thread(HANDLER):
            if preempt is None:
                t.target()
            else:
                p = Preempt(preempt, switch, files=['/server.py'])
                with p:
                    t.target()
                if not p.fired:
                    self.ctx.cover('beyond the last line')
        t.alive = False
