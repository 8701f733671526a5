"""Runs the real server of /repo in process, on a deterministic transport.

The server side is exactly what asyncio.start_server would run:
StreamReaderProtocol(reader, <the callback the server gives asyncio.start_server>).  Only the
socket transport is replaced; it follows the contract of asyncio's selector
transport (flow control, pause_reading, connection_lost, start_tls).

The harness is synchronous and steps the event loop one iteration at a time.
"""
from __future__ import annotations

import asyncio
import gc
import logging
import os
import signal
import ssl as ssl_module
import sys
import time
from collections import deque
from typing import Any, Callable, List, Optional, Tuple

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import mysql_mimic  # noqa: E402

assert os.path.realpath(mysql_mimic.__file__).startswith(os.path.realpath(REPO) + "/"), mysql_mimic.__file__

from lib import proto as P  # noqa: E402
from lib.proto import ProtocolError  # noqa: E402

logging.disable(logging.CRITICAL)


class Violation(Exception):
    """The property does not hold on this execution"""


class Hang(KeyboardInterrupt):
    """The event loop was blocked for too long (asyncio re-raises KeyboardInterrupt)"""


class Watchdog:
    """Ends what takes more than `hang` seconds of this process's own time, or waits for four times as long outside of the event loop.
    (Not by the clock: on a busy machine the process may not run for seconds.)"""

    TICK = 0.25

    def __init__(self) -> None:
        self.hang = self.cpu = 0.0
        self.ticks = 0
        signal.signal(signal.SIGALRM, self._alarm)

    def start(self, hang: float) -> None:
        self.hang, self.cpu, self.ticks = hang, time.process_time(), 0
        signal.setitimer(signal.ITIMER_REAL, self.TICK, self.TICK)

    def stop(self) -> None:
        signal.setitimer(signal.ITIMER_REAL, 0)

    def _alarm(self, signum: int, frame: Any) -> None:
        self.ticks += 1
        if time.process_time() - self.cpu >= self.hang or self.ticks * self.TICK >= 4 * self.hang:
            self.stop()
            raise Hang()


WATCHDOG = Watchdog()


class FakeTransport(asyncio.Transport):
    _start_tls_compatible = True
    HIGH = 64 * 1024
    LOW = 16 * 1024

    def __init__(self, loop: asyncio.AbstractEventLoop, protocol: asyncio.BaseProtocol):
        super().__init__()
        self.loop = loop
        self.protocol = protocol
        self.inbox: deque = deque()
        self.reading_paused = False
        self.delivering = False
        self.eof = False
        self.out = bytearray()  # what the client has taken off the socket
        self.pending: List[memoryview] = []  # written, not taken yet; references, like a real transport
        self.pending_size = 0
        self.window: Optional[int] = None  # bytes the client is still willing to take, None: unlimited
        self.write_paused = False
        self.closed = False  # close()/abort() called
        self.lost = False  # connection_lost called
        self.lost_exc: Optional[BaseException] = None
        self.writes = 0
        self.fail_at: Optional[int] = None
        self.extra: dict = {}
        self.total_written = 0

    # --- API used by the server
    def get_extra_info(self, name: str, default: Any = None) -> Any:
        return {"peername": ("127.0.0.1", 1), "sockname": ("127.0.0.1", 3306)}.get(name, default)

    def is_closing(self) -> bool:
        return self.closed

    def set_protocol(self, protocol: asyncio.BaseProtocol) -> None:
        self.protocol = protocol

    def get_protocol(self) -> asyncio.BaseProtocol:
        return self.protocol

    def pause_reading(self) -> None:
        self.reading_paused = True

    def resume_reading(self) -> None:
        if self.reading_paused:
            self.reading_paused = False
            self.loop.call_soon(self._deliver)

    def is_reading(self) -> bool:
        return not self.reading_paused

    def set_write_buffer_limits(self, high: Optional[int] = None, low: Optional[int] = None) -> None:
        pass

    def get_write_buffer_size(self) -> int:
        return self.pending_size

    def get_write_buffer_limits(self) -> Tuple[int, int]:
        return self.LOW, self.HIGH

    def write(self, data: Any) -> None:
        if not isinstance(data, (bytes, bytearray, memoryview)):
            raise TypeError(f"data argument must be a bytes-like object, not {type(data).__name__!r}")
        if self.closed or self.lost:
            return
        if not data:
            return
        self.writes += 1
        if self.fail_at is not None and self.writes >= self.fail_at:
            self.client_abort(BrokenPipeError("write failed"))
            return
        self.total_written += len(data)
        # like the selector transport in 3.12: remember a view of the caller's object
        self.pending.append(memoryview(data))
        self.pending_size += len(data)
        self._take()
        if self.pending_size > self.HIGH and not self.write_paused:
            self.write_paused = True
            self.protocol.pause_writing()

    def writelines(self, list_of_data: Any) -> None:
        self.write(b"".join(list_of_data))

    def can_write_eof(self) -> bool:
        return True

    def write_eof(self) -> None:
        pass

    def close(self) -> None:
        if self.closed:
            return
        self.closed = True
        if not self.pending_size:
            self.loop.call_soon(self._lost, None)
        # otherwise connection_lost follows once the client took everything

    def abort(self) -> None:
        self.client_abort(None)

    # --- internals
    def _take(self) -> None:
        while self.pending and (self.window is None or self.window > 0):
            mv = self.pending[0]
            n = len(mv) if self.window is None else min(len(mv), self.window)
            self.out += mv[:n]
            self.pending_size -= n
            if self.window is not None:
                self.window -= n
            if n == len(mv):
                self.pending.pop(0)
            else:
                self.pending[0] = mv[n:]

    def _lost(self, exc: Optional[BaseException]) -> None:
        if self.lost:
            return
        self.lost = True
        self.lost_exc = exc
        self.pending.clear()
        self.pending_size = 0
        self.protocol.connection_lost(exc)

    def _deliver(self) -> None:
        while self.inbox and not self.reading_paused and not self.lost and not self.closed:
            data = self.inbox.popleft()
            if isinstance(self.protocol, asyncio.BufferedProtocol):
                while data:
                    buf = self.protocol.get_buffer(len(data))
                    n = min(len(buf), len(data))
                    buf[:n] = data[:n]
                    self.protocol.buffer_updated(n)
                    data = data[n:]
            else:
                self.protocol.data_received(data)
        if self.eof and not self.inbox and not self.lost and not self.closed:
            self.eof = False
            if not self.protocol.eof_received():
                self.close()

    # --- client side
    def client_send(self, data: bytes) -> None:
        if self.lost or self.closed:
            return
        if data:
            self.inbox.append(bytes(data))
        self.loop.call_soon(self._deliver)

    def client_eof(self) -> None:
        self.eof = True
        self.loop.call_soon(self._deliver)

    def client_abort(self, exc: Optional[BaseException] = None) -> None:
        self.closed = True
        self.inbox.clear()
        self.pending.clear()
        self.pending_size = 0
        self.loop.call_soon(self._lost, exc)

    def client_accept(self, window: Optional[int]) -> None:
        """The client takes up to `window` more bytes (None: everything from now on)"""
        self.window = window
        self._take()
        if self.write_paused and self.pending_size <= self.LOW:
            self.write_paused = False
            self.loop.call_soon(self._resume)
        if self.closed and not self.pending_size and not self.lost:
            self.loop.call_soon(self._lost, None)

    def _resume(self) -> None:
        if not self.lost:
            self.protocol.resume_writing()


class Sim:
    """One event loop with one server"""

    MAX_STEPS = 20000

    def __init__(self, server: Any = None, hang: float = 5.0, **server_kw: Any):
        self.loop = asyncio.new_event_loop()
        asyncio.set_event_loop(self.loop)
        self.errors: List[dict] = []
        self.loop.set_exception_handler(lambda _, c: self.errors.append(c))
        self.hang = hang
        self.clients: List[Client] = []
        if server is None:
            server = mysql_mimic.MysqlServer(**server_kw)
        self.server = server
        self.callback = self._callback(server)

    def _callback(self, server: Any) -> Callable:
        """What the server gives asyncio to be called for every accepted socket"""
        got: list = []

        async def start_server(cb: Callable, *args: Any, **kw: Any) -> Any:
            got.append(cb)

        real = asyncio.start_server
        asyncio.start_server = start_server  # type: ignore
        try:
            self.loop.run_until_complete(server.start_server(host="127.0.0.1", port=0))
        finally:
            asyncio.start_server = real  # type: ignore
        return got[0]

    def __enter__(self) -> "Sim":
        return self

    def __exit__(self, *exc: Any) -> None:
        self.shutdown()

    def shutdown(self) -> None:
        try:
            WATCHDOG.start(self.hang)
            for c in self.clients:
                if not c.tr.lost:
                    c.tr.client_abort(None)
            for _ in range(3):
                self._steps(50)
                for t in asyncio.all_tasks(self.loop):
                    t.cancel()
            self.loop.run_until_complete(self.loop.shutdown_asyncgens())
        except BaseException:  # pylint: disable=broad-except
            pass
        finally:
            WATCHDOG.stop()
            try:
                self.loop.close()
            except Exception:  # pylint: disable=broad-except
                pass
            asyncio.set_event_loop(None)

    def _steps(self, n: int) -> None:
        for _ in range(n):
            if not self.loop._ready:
                return
            self.loop.stop()
            self.loop.run_forever()

    def step(self) -> None:
        """One event loop iteration"""
        WATCHDOG.start(self.hang)
        try:
            self.loop.stop()
            self.loop.run_forever()
        finally:
            WATCHDOG.stop()

    @property
    def ready(self) -> bool:
        return bool(self.loop._ready)

    def settle(self, max_steps: Optional[int] = None) -> int:
        """Run until nothing is left to do; returns the number of iterations"""
        limit = max_steps or self.MAX_STEPS
        n = 0
        WATCHDOG.start(self.hang)
        try:
            while self.loop._ready:
                self.loop.stop()
                self.loop.run_forever()
                n += 1
                if n >= limit:
                    raise Violation(f"the server is still busy after {n} event loop iterations")
        finally:
            WATCHDOG.stop()
        return n

    def connect(self, **kw: Any) -> "Client":
        c = Client(self, **kw)
        self.clients.append(c)
        return c

    def login(self, user: str = "user", password: str = "", **kw: Any) -> "Client":
        opts = {k: kw.pop(k) for k in ("caps", "window") if k in kw}
        c = self.connect(**opts)
        c.login(user, password, **kw)
        return c

    def tasks(self) -> set:
        return {t for t in asyncio.all_tasks(self.loop) if not t.done()}


class ServerClosed(Exception):
    """The server closed the connection"""


class Client:
    def __init__(self, sim: Sim, caps: Optional[int] = None, window: Optional[int] = None, settle: bool = True):
        self.sim = sim
        self.want_caps = P.BASE_CAPS if caps is None else caps
        self.caps = 0
        loop = sim.loop
        self.reader = asyncio.StreamReader(limit=2**16, loop=loop)
        self.protocol = asyncio.StreamReaderProtocol(self.reader, sim.callback, loop=loop)
        self.tr = FakeTransport(loop, self.protocol)
        self.tr.window = window
        self.pos = 0
        self.hs: Optional[P.Handshake] = None
        self.seq = 0
        self.tls: Optional[ssl_module.SSLObject] = None
        self.tls_in: Optional[ssl_module.MemoryBIO] = None
        self.tls_out: Optional[ssl_module.MemoryBIO] = None
        self.plain = bytearray()
        self.stmt_columns: dict = {}
        self.unsupported = 0
        self.cut: Optional[Callable[[bytes], List[bytes]]] = None
        loop.call_soon(self.protocol.connection_made, self.tr)
        if settle:
            sim.settle()

    # --- bytes
    def send_raw(self, data: bytes) -> None:
        if self.tls:
            self.tls.write(data)
            data = self.tls_out.read()
        if self.cut:
            for part in self.cut(data):
                self.tr.client_send(part)
                self.sim.settle()
        else:
            self.tr.client_send(data)

    def send(self, payload: bytes, seq: Optional[int] = None) -> None:
        if seq is not None:
            self.seq = seq
        n = P.n_frames(len(payload))
        self.send_raw(P.frames(payload, self.seq))
        self.seq = (self.seq + n) % 256

    @property
    def closed(self) -> bool:
        return self.tr.closed or self.tr.lost

    def buffer(self) -> bytes:
        """Everything received and not consumed"""
        if self.tls:
            raw = bytes(self.tr.out[self.pos:])
            self.pos = len(self.tr.out)
            if raw:
                self.tls_in.write(raw)
            while True:
                try:
                    d = self.tls.read(1 << 20)
                except (ssl_module.SSLWantReadError, ssl_module.SSLZeroReturnError):
                    break
                if not d:
                    break
                self.plain += d
            return bytes(self.plain)
        return bytes(self.tr.out[self.pos:])

    def consume(self, n: int) -> None:
        if self.tls:
            del self.plain[:n]
        else:
            self.pos += n

    def start_tls(self, ctx: ssl_module.SSLContext, settle: bool = True) -> None:
        self.tls_in, self.tls_out = ssl_module.MemoryBIO(), ssl_module.MemoryBIO()
        tls = ctx.wrap_bio(self.tls_in, self.tls_out, server_side=False)
        for _ in range(50):
            try:
                tls.do_handshake()
                done = True
            except ssl_module.SSLWantReadError:
                done = False
            data = self.tls_out.read()
            if data:
                for part in self.cut(data) if self.cut else [data]:
                    self.tr.client_send(part)
                    self.sim.settle()
            if done:
                break
            self.sim.settle()
            raw = bytes(self.tr.out[self.pos:])
            self.pos = len(self.tr.out)
            if not raw and not data:
                raise Violation("TLS handshake stalled")
            self.tls_in.write(raw)
        else:
            raise Violation("TLS handshake stalled")
        self.tls = tls

    def frame(self) -> Optional[Tuple[int, bytes]]:
        """One packet frame off the stream, None if there isn't a complete one"""
        b = self.buffer()
        if len(b) < 4:
            return None
        n = int.from_bytes(b[:3], "little")
        if len(b) < 4 + n:
            return None
        self.consume(4 + n)
        return b[3], b[4:4 + n]

    def packet(self) -> Optional[bytes]:
        """One payload, reassembled; checks the sequence numbers"""
        payload = b""
        first = True
        while True:
            f = self.frame()
            if f is None:
                if not first:
                    raise ProtocolError("continuation packet missing")
                return None
            first = False
            if f[0] != self.seq:
                raise ProtocolError(f"sequence number {f[0]}, expected {self.seq}: {f[1][:60]!r}")
            self.seq = (self.seq + 1) % 256
            payload += f[1]
            if len(f[1]) < 0xFFFFFF:
                return payload

    def packet_peek(self) -> bytes:
        """Payload bytes of the next frame, as far as received"""
        return self.buffer()[4:]

    def expect(self) -> bytes:
        p = self.packet()
        if p is None:
            if self.closed:
                raise ServerClosed()
            raise ProtocolError(f"no (complete) packet from the server, buffered {self.buffer()[:80]!r}")
        return p

    def quiet(self) -> None:
        b = self.buffer()
        if b:
            raise ProtocolError(f"unsolicited data after the response: {b[:80]!r}")

    # --- handshake
    def greet(self) -> P.Handshake:
        p = self.expect()
        if P.is_err(p):
            raise ServerClosed(P.parse_err(p, 0))
        self.hs = P.parse_handshake(p)
        return self.hs

    def login(self, user: Any = "user", password: str = "", db: Optional[Any] = None, collation: int = 45,
              attrs: Optional[list] = None, plugin: Optional[bytes] = None, auth: Optional[bytes] = None,
              tls: Optional[ssl_module.SSLContext] = None, raw_result: bool = False) -> bytes:
        hs = self.hs or self.greet()
        caps = self.want_caps
        if db is not None:
            caps |= P.CONNECT_WITH_DB
        if attrs is not None:
            caps |= P.CONNECT_ATTRS
        if tls:
            caps |= P.SSL
            self.send(P.ssl_request(caps, collation))
            self.sim.settle()
            self.start_tls(tls)
        self.caps = caps & hs.caps
        pw = password.encode() if isinstance(password, str) else password
        if auth is None:
            auth = P.native_scramble(pw, hs.nonce.rstrip(b"\0"))
        enc = (lambda s: s if isinstance(s, bytes) else s.encode())
        self.send(P.handshake_response(self.caps, enc(user), auth, collation,
                                       enc(db) if db is not None else None, plugin, attrs,
                                       unsupported=self.unsupported & ~hs.caps))
        self.sim.settle()
        p = self.auth_loop(pw)
        if raw_result:
            return p
        if P.is_err(p):
            raise ProtocolError(f"login failed: {P.parse_err(p, self.caps)}")
        P.parse_ok(p, self.caps)
        self.quiet()
        return p

    def auth_loop(self, pw: bytes) -> bytes:
        for _ in range(5):
            p = self.expect()
            if p[0] in (0, 0xFF):
                return p
            if p[0] == 0xFE:
                r = P.R(p)
                r.take(1)
                name = r.znull()
                data = r.rest()
                if name == b"mysql_native_password":
                    self.send(P.native_scramble(pw, data.rstrip(b"\0")))
                else:
                    self.send(pw + b"\0")
            elif p[0] == 1:
                self.send(P.native_scramble(pw, p[1:].rstrip(b"\0")))
            else:
                raise ProtocolError(f"unexpected packet during authentication: {p[:40]!r}")
            self.sim.settle()
        raise ProtocolError("authentication does not end")

    # --- commands
    def read_response(self, kind: str, columns: Optional[list] = None) -> P.Response:
        d = P.Decoder(kind, self.caps, columns)
        while not d.feed(self.expect()):
            pass
        return d.r

    def command(self, payload: bytes, kind: str, columns: Optional[list] = None) -> P.Response:
        self.send(payload, 0)
        self.sim.settle()
        r = self.read_response(kind, columns)
        self.quiet()
        return r

    def query(self, sql: Any, attrs: Optional[list] = None) -> P.Response:
        if isinstance(sql, str):
            sql = sql.encode()
        return self.command(P.com_query(self.caps, sql, attrs), "query")

    def ping(self) -> P.Response:
        return self.command(bytes([P.COM_PING]), "ok")

    def alive(self) -> None:
        r = self.ping()
        if r.kind != "ok":
            raise ProtocolError(f"PING answered with {r.err}")

    def init_db(self, db: bytes) -> P.Response:
        return self.command(bytes([P.COM_INIT_DB]) + db, "ok")

    def prepare(self, sql: Any) -> P.Response:
        if isinstance(sql, str):
            sql = sql.encode()
        return self.command(bytes([P.COM_STMT_PREPARE]) + sql, "prepare")

    def long_data(self, stmt: int, param: int, data: bytes) -> None:
        self.send(bytes([P.COM_STMT_SEND_LONG_DATA]) + stmt.to_bytes(4, "little") + param.to_bytes(2, "little") + data, 0)
        self.sim.settle()
        self.quiet()

    def execute(self, stmt: int, params: list = (), attrs: Optional[list] = None, cursor: bool = False) -> P.Response:
        r = self.command(P.com_stmt_execute(self.caps, stmt, list(params), attrs, cursor),
                         "execute_cursor" if cursor else "execute")
        if r.kind == "rows" and cursor:
            self.stmt_columns[stmt] = r.columns
        return r

    def fetch(self, stmt: int, n: int) -> P.Response:
        return self.command(bytes([P.COM_STMT_FETCH]) + stmt.to_bytes(4, "little") + n.to_bytes(4, "little"),
                            "fetch", self.stmt_columns.get(stmt, []))

    def stmt_reset(self, stmt: int) -> P.Response:
        return self.command(bytes([P.COM_STMT_RESET]) + stmt.to_bytes(4, "little"), "ok")

    def stmt_close(self, stmt: int) -> None:
        self.send(bytes([P.COM_STMT_CLOSE]) + stmt.to_bytes(4, "little"), 0)
        self.sim.settle()
        self.quiet()

    def field_list(self, table: bytes, wildcard: bytes = b"") -> P.Response:
        return self.command(bytes([P.COM_FIELD_LIST]) + table + b"\0" + wildcard, "field_list")

    def quit(self) -> None:
        self.send(bytes([P.COM_QUIT]), 0)
        self.sim.settle()
        self.quiet()

    def change_user(self, user: str, password: str = "", db: str = "", collation: Optional[int] = 45,
                    plugin: Optional[bytes] = None, attrs: Optional[list] = None, auth: Optional[bytes] = None) -> bytes:
        assert self.hs
        pw = password.encode()
        if auth is None:
            auth = P.native_scramble(pw, self.hs.nonce.rstrip(b"\0"))
        self.send(P.change_user(self.caps, user.encode(), auth, db.encode(), collation, plugin, attrs), 0)
        self.sim.settle()
        return self.auth_loop(pw)

    def disconnect(self, abrupt: bool = False) -> None:
        if abrupt:
            self.tr.client_abort(ConnectionResetError("reset by peer"))
        else:
            self.tr.client_eof()


# --- applications ---------------------------------------------------------------------
from mysql_mimic.control import LocalControl  # noqa: E402
from mysql_mimic.session import BaseSession, Session  # noqa: E402
from mysql_mimic.variables import GlobalVariables, SessionVariables  # noqa: E402


class Raw(BaseSession):
    """A BaseSession whose handle_query is given by the harness; records every call"""

    def __init__(self, handler: Optional[Callable] = None, log: Optional[list] = None):
        self.handler = handler
        self.calls: list = [] if log is None else log
        self.username = None
        self.database = None
        self.variables = SessionVariables(GlobalVariables())

    async def init(self, connection: Any) -> None:
        self.connection = connection
        self.calls.append(("init",))

    async def handle_query(self, sql: str, attrs: dict) -> Any:
        self.calls.append(("query", sql, dict(attrs)))
        if self.handler is None:
            return None
        r = self.handler(self, sql, attrs)
        if hasattr(r, "__await__"):
            r = await r
        return r

    async def close(self) -> None:
        self.calls.append(("close",))

    async def reset(self) -> None:
        self.calls.append(("reset",))

    async def use(self, database: str) -> None:
        self.calls.append(("use", database))
        self.database = database


class Tracking(LocalControl):
    """A LocalControl that tells which connections are registered"""

    def __init__(self, *args: Any, **kw: Any):
        super().__init__(*args, **kw)
        self.live: dict = {}
        self.ever: list = []
        self.log: list = []

    async def add(self, connection: Any) -> int:
        cid = await super().add(connection)
        self.live[cid] = connection
        self.ever.append((cid, connection))
        self.log.append(("add", cid))
        return cid

    async def remove(self, connection_id: int) -> None:
        await super().remove(connection_id)
        self.live.pop(connection_id, None)
        self.log.append(("remove", connection_id))

    async def registered(self) -> list:
        """The ids whose KILL reaches a connection"""
        out = []
        for cid, connection in self.ever:
            connection.kill = lambda *a, cid=cid, **k: out.append(cid)
            try:
                await LocalControl.kill(self, cid)
            finally:
                del connection.kill
        return out


class Factory:
    """Session factory that keeps every session it made"""

    def __init__(self, make: Callable):
        self.make = make
        self.sessions: list = []

    def __call__(self) -> Any:
        s = self.make()
        self.sessions.append(s)
        return s
