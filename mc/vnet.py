"""In-memory network endpoints for the virtual loop: listeners, stream and
datagram transports.  The protocols, StreamReader/StreamWriter, Server objects
and everything above them are the real ones."""
import asyncio
import socket

from .vloop import VLoop


class FakeSocket(socket.socket):
    """A socket object no traffic goes through."""

    def listen(self, *a):
        pass


class MemTransport(asyncio.Transport):
    """Our end of a stream; the peer is the harness."""

    def __init__(self, loop, protocol, name, server=None, on_write=None):
        super().__init__()
        self.loop = loop
        self.protocol = protocol
        self.name = name
        self.server = server
        self.out = bytearray()
        self.writes = []
        self.on_write = on_write
        self.closing = False
        self.aborted = False
        self.lost = False
        self.eof_written = False
        self.made = False
        self.paused = False
        self.blocked = False         # the peer does not read
        self.on_close = None
        self._pending = []
        if server is not None:
            server._attach()
        loop.call_soon(self._made)

    def _made(self):
        self.made = True
        self.protocol.connection_made(self)
        for k in self._pending:
            k()

    # -- used by the code under test
    def get_extra_info(self, name, default=None):
        if name == "peername":
            return ("peer", self.name)
        return default

    def set_protocol(self, p):
        self.protocol = p

    def get_protocol(self):
        return self.protocol

    def is_closing(self):
        return self.closing

    def is_reading(self):
        return not self.paused

    def pause_reading(self):
        self.paused = True

    def resume_reading(self):
        self.paused = False

    def can_write_eof(self):
        return True

    def write_eof(self):
        self.eof_written = True

    def get_write_buffer_size(self):
        return 0

    def write(self, data):
        if self.closing:
            return
        self.writes.append(bytes(data))
        self.out += data
        if self.on_write is not None:
            self.on_write(self)

    def writelines(self, lines):
        self.write(b"".join(lines))

    def close(self):
        if self.closing:
            return
        self.closing = True
        self.loop.call_soon(self._lost, None)
        if self.on_close is not None:
            self.on_close(self)

    def abort(self):
        self.aborted = True
        self.close()

    def _lost(self, exc):
        if self.lost:
            return
        self.lost = True
        try:
            self.protocol.connection_lost(exc)
        finally:
            if self.server is not None:
                self.server._detach()
                self.server = None

    # -- used by the harness
    def feed(self, data):
        if not self.made:
            self._pending.append(lambda: self.feed(data))
        elif not self.closing:
            self.protocol.data_received(data)

    def feed_eof(self):
        if not self.made:
            self._pending.append(self.feed_eof)
        elif not self.closing:
            if not self.protocol.eof_received():
                self.close()

    def reset(self, exc=None):
        if not self.made:
            self._pending.append(lambda: self.reset(exc))
        elif not self.closing:
            self.closing = True
            self.loop.call_soon(self._lost, exc or ConnectionResetError(104, "reset"))


class MemDatagramTransport(asyncio.DatagramTransport):
    def __init__(self, loop, protocol, sock):
        super().__init__()
        self.loop = loop
        self.protocol = protocol
        self.sock = sock
        self.sent = []
        self.closing = False
        self.lost = False
        self.late = 0

    def get_extra_info(self, name, default=None):
        if name == "sockname":
            return ("127.0.0.1", 5353)
        return default

    def is_closing(self):
        return self.closing

    def sendto(self, data, addr=None):
        if self.lost:
            self.late += 1
            return
        self.sent.append((bytes(data), addr))

    def close(self):
        if self.closing:
            return
        self.closing = True
        self.loop.call_soon(self._lost)

    abort = close

    def _lost(self):
        self.lost = True
        self.protocol.connection_lost(None)
        self.sock.close()

    def deliver(self, data, addr):
        if not self.closing:
            try:
                self.protocol.datagram_received(data, addr)
            except Exception as e:       # the event loop only logs it
                self.loop.call_exception_handler({"message": "datagram", "exception": e})
            return True
        return False


class NetLoop(VLoop):
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.listeners = {}          # sock -> (factory, server)
        self.conns = []
        self.dgram = None
        self.connect_hook = None     # async (host, port, kw) -> name or raises

    def _start_serving(self, factory, sock, ssl, server, backlog, *a):
        self.listeners[sock] = (factory, server)

    def _stop_serving(self, sock):
        self.listeners.pop(sock, None)
        sock.close()

    def accept(self, name):
        """A peer connects; None if nobody listens."""
        for sock, (factory, server) in self.listeners.items():
            t = MemTransport(self, factory(), name, server)
            self.conns.append(t)
            return t
        return None

    def _make_datagram_transport(self, sock, protocol, address=None, waiter=None, extra=None):
        self.dgram = t = MemDatagramTransport(self, protocol, sock)
        self.call_soon(protocol.connection_made, t)
        if waiter is not None:
            self.call_soon(self._wake, waiter)
        return t

    @staticmethod
    def _wake(waiter):
        if not waiter.done():
            waiter.set_result(None)

    async def create_connection(self, factory, host=None, port=None, **kw):
        name = await self.connect_hook(host, port, kw)
        protocol = factory()
        t = MemTransport(self, protocol, name)
        self.conns.append(t)
        waiter = self.create_future()
        self.call_soon(self._wake, waiter)
        try:
            await waiter
        except BaseException:
            t.close()
            raise
        return t, protocol
