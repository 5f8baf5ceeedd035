"""Deterministic asyncio loop and in-memory sockets for driving the real server.

The loop runs one callback (handle) at a time under the control of the driver: `loop.step()`.  Ordering is the FIFO
order asyncio itself uses, time is virtual, and no file descriptor is involved.  SimTransport follows
asyncio.selector_events._SelectorSocketTransport (3.12) statement by statement where the behaviour is observable:
partial sends keep a memoryview of the caller's buffer, flow control by high/low water marks, close/abort,
fatal errors, BufferedProtocol reads (TLS), pause/resume reading.
"""
from __future__ import annotations

import asyncio
import collections
import contextlib
import heapq
import signal
import sys
import threading
import time
from asyncio import base_events, events, protocols, transports, futures
from typing import Any, Callable, Optional


class Hang(BaseException):
    """Raised into code that holds the event loop for longer than the watchdog allows."""


class NullSelector:
    def select(self, timeout=None):
        return []

    def close(self):
        pass

    def get_map(self):
        return {}


class FakeServer:
    def __init__(self, loop, factory):
        self._loop = loop
        self.factory = factory
        self.sockets = ()
        self.closed = False

    def close(self):
        self.closed = True

    def is_serving(self):
        return not self.closed

    def get_loop(self):
        return self._loop

    async def start_serving(self):
        pass

    async def wait_closed(self):
        pass

    async def serve_forever(self):
        await self._loop.create_future()

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        self.close()

    def _attach(self, *a):
        pass

    def _detach(self, *a):
        pass


class SimLoop(base_events.BaseEventLoop):
    #: virtual seconds a pump may skip over to reach a timer
    AUTO_ADVANCE = 20.0
    #: the loop whose callback is being watched
    current = None

    def __init__(self, watchdog: float = 0.0):
        super().__init__()
        self._selector = NullSelector()
        self._now = 1000.0
        self._clock_resolution = 1e-9
        self.sim_servers: list[FakeServer] = []
        self.exceptions: list[dict] = []
        self.steps = 0
        self.watchdog = watchdog
        self.hung = False
        self.livelock = False
        self.in_step = False
        self.set_exception_handler(lambda loop, ctx: self.exceptions.append(ctx))

    # -- loop plumbing -------------------------------------------------------------------------
    def time(self):
        return self._now

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        pass

    async def create_server(self, protocol_factory, host=None, port=None, **kw):
        s = FakeServer(self, protocol_factory)
        self.sim_servers.append(s)
        return s

    async def create_unix_server(self, protocol_factory, path=None, **kw):
        s = FakeServer(self, protocol_factory)
        self.sim_servers.append(s)
        return s

    @contextlib.contextmanager
    def entered(self):
        """Pretend to be inside the running loop (as asyncio.run would)."""
        if self.in_step:
            yield
            return
        old = events._get_running_loop()
        events._set_running_loop(None)
        events._set_running_loop(self)
        self._thread_id = threading.get_ident()
        hooks = sys.get_asyncgen_hooks()
        sys.set_asyncgen_hooks(
            firstiter=self._asyncgen_firstiter_hook,
            finalizer=self._asyncgen_finalizer_hook,
        )
        self.in_step = True
        try:
            yield
        finally:
            self.in_step = False
            self._thread_id = None
            events._set_running_loop(None)
            events._set_running_loop(old)
            sys.set_asyncgen_hooks(*hooks)

    def _due(self, limit):
        sched = self._scheduled
        while sched and sched[0]._cancelled:
            self._timer_cancelled_count -= 1
            h = heapq.heappop(sched)
            h._scheduled = False
        if sched and sched[0]._when <= self._now + limit:
            h = heapq.heappop(sched)
            h._scheduled = False
            self._now = max(self._now, h._when)
            self._ready.append(h)
            return True
        return False

    def step(self) -> bool:
        """Run exactly one ready callback.  False if there is none."""
        while self._ready and self._ready[0]._cancelled:
            self._ready.popleft()
        if not self._ready:
            return False
        h = self._ready.popleft()
        self.steps += 1
        with self.entered():
            if self.watchdog:
                SimLoop.current = self
                signal.setitimer(signal.ITIMER_VIRTUAL, 0.3 if self.hung else self.watchdog, 0.3)
            try:
                h._run()
            except Hang:
                self.hung = True
            finally:
                if self.watchdog:
                    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        h = None
        return True

    def pump(self, max_steps: int = 60_000, advance: Optional[float] = None) -> int:
        """Run until nothing is ready (and no timer is near).  Returns number of callbacks run."""
        n = 0
        if self.livelock:
            max_steps = min(max_steps, 500)
        budget = self.AUTO_ADVANCE if advance is None else advance
        end = self._now + budget
        while True:
            if self.step():
                n += 1
                if n >= max_steps:
                    self.livelock = True
                    return n
                continue
            if not self._due(end - self._now):
                return n

    def advance(self, seconds: float):
        end = self._now + seconds
        self.pump(advance=0)
        while self._due(end - self._now):
            self.pump(advance=0)
        self._now = end

    def run_coro(self, coro, max_steps=1_000_000):
        with self.entered():
            t = self.create_task(coro)
        n = 0
        while not t.done():
            if not self.step() and not self._due(self.AUTO_ADVANCE):
                raise RuntimeError("run_coro: deadlock")
            n += 1
            if n > max_steps:
                raise RuntimeError("run_coro: too many steps")
        return t.result()

    def live_tasks(self):
        return [t for t in asyncio.all_tasks(self) if not t.done()]

    def shutdown(self):
        """Cancel whatever is left and drop the loop (end of a scenario)."""
        for _ in range(5):
            ts = self.live_tasks()
            if not ts:
                break
            for t in ts:
                t.cancel()
            try:
                self.pump(max_steps=200_000)
            except RuntimeError:
                break
        self._ready.clear()
        self._scheduled.clear()
        self.close()


def install_watchdog():
    def onalarm(signum, frame):
        if SimLoop.current is not None:
            SimLoop.current.hung = True
        raise Hang("event loop held for too long")

    signal.signal(signal.SIGVTALRM, onalarm)


class SimTransport(transports._FlowControlMixin, transports.Transport):
    _start_tls_compatible = True
    max_size = 256 * 1024

    def __init__(self, loop: SimLoop, protocol, conn: "SimConn", extra=None):
        super().__init__(extra or {}, loop)
        self._protocol = protocol
        self._conn = conn
        self._buffer: collections.deque = collections.deque()
        self._conn_lost = 0
        self._closing = False
        self._eof = False
        self._paused = False
        self.reading = False
        self.sock_closed = False
        self.writes = 0  # number of write() calls reaching the socket layer
        self._read_scheduled = False
        self._wready_scheduled = False
        loop.call_soon(self._protocol.connection_made, self)
        loop.call_soon(self._start_reading)

    # -- reading -------------------------------------------------------------------------------
    def _start_reading(self):
        if self._closing or self._paused:
            return
        self.reading = True
        self._kick_read()

    def _kick_read(self):
        if (
            self.reading
            and not self._read_scheduled
            and not self.sock_closed
            and (self._conn.inbound or self._conn.client_eof or self._conn.client_reset)
        ):
            self._read_scheduled = True
            self._loop.call_soon(self._read_ready)

    def _read_ready(self):
        self._read_scheduled = False
        if not self.reading or self._conn_lost:
            return
        inb = self._conn.inbound
        if inb:
            if isinstance(self._protocol, protocols.BufferedProtocol):
                try:
                    buf = self._protocol.get_buffer(-1)
                    n = min(len(buf), len(inb[0]))
                    buf[:n] = inb[0][:n]
                except BaseException as exc:
                    self._fatal_error(exc)
                    return
                if n == len(inb[0]):
                    inb.popleft()
                else:
                    inb[0] = inb[0][n:]
                try:
                    self._protocol.buffer_updated(n)
                except Hang:
                    raise
                except BaseException as exc:
                    self._fatal_error(exc)
                    return
            else:
                data = inb[0][: self.max_size]
                if len(data) == len(inb[0]):
                    inb.popleft()
                else:
                    inb[0] = inb[0][self.max_size:]
                try:
                    self._protocol.data_received(bytes(data))
                except Hang:
                    raise
                except BaseException as exc:
                    self._fatal_error(exc)
                    return
        elif self._conn.client_reset:
            self._fatal_error(ConnectionResetError(104, "Connection reset by peer"))
            return
        elif self._conn.client_eof:
            try:
                keep_open = self._protocol.eof_received()
            except BaseException as exc:
                self._fatal_error(exc)
                return
            self.reading = False
            if not keep_open:
                self.close()
            return
        self._kick_read()

    def is_reading(self):
        return not self._closing and not self._paused

    def pause_reading(self):
        if not self.is_reading():
            return
        self._paused = True
        self.reading = False

    def resume_reading(self):
        if self._closing or not self._paused:
            return
        self._paused = False
        self.reading = True
        self._kick_read()

    # -- protocol ------------------------------------------------------------------------------
    def set_protocol(self, protocol):
        self._protocol = protocol

    def get_protocol(self):
        return self._protocol

    # -- writing -------------------------------------------------------------------------------
    def _sock_send(self, data) -> int:
        c = self._conn
        self.writes += 1
        if c.fail_write_at is not None and self.writes >= c.fail_write_at:
            raise c.fail_write_exc()
        room = len(data) if c.window is None else min(c.window, len(data))
        if room <= 0:
            raise BlockingIOError()
        if c.window is not None:
            c.window -= room
        c.received += bytes(data[:room])
        c.accepted += room
        return room

    def write(self, data):
        if not isinstance(data, (bytes, bytearray, memoryview)):
            raise TypeError("data argument must be a bytes-like object")
        if self._eof:
            raise RuntimeError("Cannot call write() after write_eof()")
        if not data:
            return
        if self._conn_lost:
            self._conn_lost += 1
            return
        if not self._buffer:
            try:
                n = self._sock_send(data)
            except (BlockingIOError, InterruptedError):
                pass
            except BaseException as exc:
                self._fatal_error(exc)
                return
            else:
                data = memoryview(data)[n:]
                if not data:
                    return
        self._buffer.append(data)
        self._maybe_pause_protocol()

    def _kick_write(self):
        if self._buffer and not self._wready_scheduled and not self._conn_lost:
            self._wready_scheduled = True
            self._loop.call_soon(self._write_ready)

    def _write_ready(self):
        self._wready_scheduled = False
        if self._conn_lost or not self._buffer:
            return
        try:
            while self._buffer:
                d = self._buffer[0]
                n = self._sock_send(d)
                if n == len(d):
                    self._buffer.popleft()
                else:
                    self._buffer[0] = d[n:]
        except (BlockingIOError, InterruptedError):
            pass
        except BaseException as exc:
            self._buffer.clear()
            self._fatal_error(exc)
            return
        self._maybe_resume_protocol()
        if not self._buffer and self._closing:
            self._call_connection_lost(None)

    def get_write_buffer_size(self):
        return sum(map(len, self._buffer))

    def can_write_eof(self):
        return True

    def write_eof(self):
        self._eof = True

    # -- closing -------------------------------------------------------------------------------
    def is_closing(self):
        return self._closing

    def abort(self):
        self._force_close(None)

    def close(self):
        if self._closing:
            return
        self._closing = True
        self.reading = False
        if not self._buffer:
            self._conn_lost += 1
            self._loop.call_soon(self._call_connection_lost, None)

    def _fatal_error(self, exc, message=""):
        self._force_close(exc)

    def _force_close(self, exc):
        if self._conn_lost:
            return
        self._buffer.clear()
        if not self._closing:
            self._closing = True
            self.reading = False
        self._conn_lost += 1
        self._loop.call_soon(self._call_connection_lost, exc)

    def _call_connection_lost(self, exc):
        if self.sock_closed:
            return
        self.sock_closed = True
        self._conn.server_closed = True
        try:
            self._protocol.connection_lost(exc)
        finally:
            self._protocol = None


class SimConn:
    """The client end of one accepted socket."""

    def __init__(self, loop: SimLoop, factory: Callable[[], Any], window: Optional[int] = None):
        self.loop = loop
        self.inbound: collections.deque = collections.deque()
        self.client_eof = False
        self.client_reset = False
        self.window = window
        self.received = bytearray()
        self.accepted = 0
        self.server_closed = False
        self.fail_write_at: Optional[int] = None
        self.fail_write_exc = lambda: ConnectionResetError(104, "Connection reset by peer")
        with loop.entered():
            self.protocol = factory()
            self.transport = SimTransport(
                loop, self.protocol, self, {"peername": ("127.0.0.1", 1), "sockname": ("127.0.0.1", 3306)}
            )

    def send(self, data: bytes):
        """One network segment."""
        if data:
            self.inbound.append(bytes(data))
            with self.loop.entered():
                self.transport._kick_read()

    def close(self):
        self.client_eof = True
        with self.loop.entered():
            self.transport._kick_read()

    def reset(self):
        self.client_reset = True
        self.inbound.clear()
        with self.loop.entered():
            self.transport._kick_read()

    def open_window(self, n: Optional[int]):
        self.window = n
        with self.loop.entered():
            self.transport._kick_write()

    def take(self) -> bytes:
        b = bytes(self.received)
        self.received.clear()
        return b
