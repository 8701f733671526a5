"""stream.py: packet framing.

The peer is the receiver the protocol describes: payloads are concatenated until a frame is shorter than 0xFFFFFF, and the
sequence numbers count up modulo 256.  _enqueue: after every iteration the buffer is what it was, followed by one more full
frame; the frames before it are abstracted to the text `sent`, which by induction is the framing of the first `p` bytes
(appending a full frame to a string of full frames gives a string of full frames).
"""
import asyncio

from contracts.ghost import Ghostly
from dv.core import Unsupported, unit
from dv.shadow import Invariant
from dv.spec import And, Implies, Not, Or, at, cat, eq, le, length, part, raises, reader, run, symbolic
from dv.sym import SByteArray, SBytes, Symbolic, is_sym

M = 0xFFFFFF


class Transport:
    """asyncio.StreamWriter: write() takes bytes, drain() may fail"""

    def __init__(self, v, fail=None):
        self.v = v
        self.got = b""
        self.fail = fail
        self.on_drain = lambda: None

    def write(self, data):
        self.v.check("the transport is given bytes that nothing changes later",
                     isinstance(data, (bytes, SBytes)))
        self.got = cat(self.got, data)

    async def drain(self):
        self.on_drain()
        if self.fail is not None:
            raise self.fail


def stream_of(v, reader=None, writer=None, buffer=b"", seq=0, limit=None):
    m = v.mod("stream")
    s = m.MysqlStream(reader, writer) if limit is None else m.MysqlStream(reader, writer, limit)
    s.seq.value = seq
    s._buffer.extend(buffer)
    return s


# --- sending

def _enqueue_loop(c, it):
    def havoc(c, L):
        me, st = L.self, c.state
        D, s0 = st["D"], st["s0"]
        p = c.int("p", 0)
        c.assume(And(p % M == 0, p <= length(D)))
        sent = c.bytes("sent")
        st["p"] = p
        st["e"] = (s0 + p // M) % 256
        st["sent"] = sent
        c.assume(Implies(p == 0, length(sent) == 0))
        me._buffer.rope = SBytes.of(cat(st["B"], sent))
        me.seq.value = st["e"]
        st["abstract"] = me._buffer.rope
        return {"data": part(D, p)}

    def inv(c, L):
        me, st = L.self, c.state
        D = st["D"]
        if "p" not in st:
            # on entry
            yield "nothing was sent yet", And(eq(me._buffer, st["B"]), eq(L.data, D), me.seq.value == st["s0"])
            return
        if me._buffer.rope is st["abstract"]:
            return  # assumed: by construction in havoc
        p, e, old = st["p"], st["e"], st["abstract"]
        new = me._buffer.rope
        yield "a frame was appended", length(new) == length(old) + 4 + M
        yield "what was buffered before is unchanged", eq(part(new, 0, length(old)), old)
        f = part(new, length(old))
        yield "there was enough data for a full frame", p + M <= length(D)
        yield "full frames have the full length", eq(part(f, 0, 3), le(M, 3))
        yield "sequence numbers count up", eq(part(f, 3, 4), le(e, 1))
        yield "the frame has the next part of the payload", eq(part(f, 4), part(D, p, p + M))
        yield "the rest is left to send", eq(L.data, part(D, p + M))
        yield "the sequence counter has advanced", me.seq.value == (e + 1) % 256

    return Invariant(havoc, inv, variant=lambda c, L: length(L.data),
                     heap=lambda c, L: [L.self._buffer, L.self.seq])


def check_frames(v, name, buf, old, D, s0, seq):
    """buf is old, followed by the frames of D[p:] where p bytes have been sent in full frames before"""
    p = v.state.get("p", 0)
    e = v.state.get("e", s0)
    before = v.state.get("abstract", old)
    n = length(D) - p
    v.check(f"{name}: what was buffered before is unchanged", eq(part(buf, 0, length(before)), before))
    f = part(buf, length(before))
    if not symbolic() or v.bounded:
        want, k = b"", 0
        while True:
            if n - k * M < M:
                want = cat(want, le(n - k * M, 3), le((e + k) % 256, 1), part(D, p + k * M))
                break
            want = cat(want, le(M, 3), le((e + k) % 256, 1), part(D, p + k * M, p + (k + 1) * M))
            k += 1
        v.check(f"{name}: the frames are those of the payload", eq(f, want))
        v.check(f"{name}: the next sequence number is the next one", seq == (e + k + 1) % 256)
        return
    v.check(f"{name}: the last frame isn't a full one", n < M)
    v.check(f"{name}: the frames are those of the payload", eq(f, cat(le(n, 3), le(e, 1), part(D, p))))
    v.check(f"{name}: the next sequence number is the next one", seq == (e + 1) % 256)


@unit("C03 C04", "stream.MysqlStream._enqueue", loops={"MysqlStream._enqueue#0": _enqueue_loop}, internal=True)
def enqueue(v):
    D = v.bytes("payload", bound=2 * M + 5)
    B = v.bytes("buffered")
    s0 = v.int("seq", 0, 255)
    v.state.update(D=D, B=B, s0=s0)
    w = Transport(v)
    s = stream_of(v, None, w, B, s0)
    s._enqueue(D)
    check_frames(v, "enqueue", s._buffer, B, D, s0, s.seq.value)
    v.check("nothing is written to the transport before a flush", eq(w.got, b""))


def _stub_enqueue(v, s):
    """The contract of _enqueue: one whole payload's frames are appended; and here, what else is true at that moment"""
    def enqueue(data):
        F = v.bytes("frames", minlen=4)
        v.state["frames"] = F
        v.state["enqueued"] = v.state.get("enqueued", []) + [data]
        s._buffer.extend(F)
    v.patch(s, "_enqueue", enqueue)


@unit("C03 C04 C09 C12", "stream.MysqlStream.write stream.MysqlStream.drain stream.MysqlStream._flush", internal=True)
def write(v):
    """Contract of write: with drain the whole packet reaches the transport, after everything buffered before; without, it
    stays in the buffer, which is flushed when it has reached its limit.  Also when waiting for the client fails (the
    connection broke, or the task was cancelled) whole packets are in the transport and the buffer"""
    m = v.mod("stream")
    B = v.bytes("buffered")
    D = v.bytes("payload", bound=50)
    limit = v.int("limit", 1, 1 << 20)
    fails = v.choose(3, "drain") if True else 0
    fail = [None, ConnectionResetError(), asyncio.CancelledError()][fails]
    w = Transport(v, fail)
    s = stream_of(v, None, w, B, 0, limit)
    _stub_enqueue(v, s)
    drain = v.pick("drain?", [True, False])
    drained = []
    w.on_drain = lambda: drained.append(1)
    e = raises(lambda: run(s.write(D, drain=drain)), ConnectionResetError, asyncio.CancelledError)
    q = v.state.get("enqueued", [])
    v.check("the payload is framed at most once", len(q) <= 1)
    sent = cat(w.got, s._buffer.rope if isinstance(s._buffer, SByteArray) else bytes(s._buffer))
    F = v.state.get("frames", b"")
    v.check("packets leave in the order they were written, none is lost or torn", eq(sent, cat(B, F)))
    if e is None:
        v.check("the payload is framed", len(q) == 1 and eq(q[0], D) is not False)
        if q:
            v.check("the payload that is framed is the one that was given", eq(q[0], D))
    else:
        v.check("an exception is the transport's", e is fail)
    if drain and e is None:
        v.check("a drained write leaves nothing in the buffer", length(s._buffer) == 0)
        v.check("a drained write waits for the client", len(drained) >= 1)
    if not drain and len(drained) == 0:
        v.check("the buffer's limit is respected", length(B) < limit)


@unit("C03 C09", "stream.MysqlStream.write_nowait", internal=True)
def write_nowait(v):
    B = v.bytes("buffered")
    D = v.bytes("payload", bound=50)
    w = Transport(v, AssertionError("write_nowait waits"))
    s = stream_of(v, None, w, B, 0)
    _stub_enqueue(v, s)
    s.write_nowait(D)
    q = v.state.get("enqueued", [])
    v.check("the payload is framed once", len(q) == 1)
    v.check("the payload that is framed is the one that was given", eq(q[0], D))
    v.check("everything reaches the transport in order", eq(w.got, cat(B, v.state["frames"])))
    v.check("nothing is left in the buffer", length(s._buffer) == 0)


# --- receiving

class Source:
    """asyncio.StreamReader at the beginning of the frames of D, after which `after` follows.  A frame is made when it is
    asked for: p bytes of D are in earlier frames and e is the sequence number of the next frame"""

    def __init__(self, v, D, e, after):
        self.v, self.D, self.after = v, D, after
        self.p, self.e = 0, e
        self.cur = b""
        self.done = False

    def unfold(self):
        n = length(self.D) - self.p
        if n >= M:
            self.cur = cat(self.cur, le(M, 3), le(self.e, 1), part(self.D, self.p, self.p + M))
            self.p = self.p + M
        else:
            self.cur = cat(self.cur, le(n, 3), le(self.e, 1), part(self.D, self.p), self.after)
            self.p = length(self.D)
            self.done = True
        self.e = (self.e + 1) % 256

    async def readexactly(self, n):
        for _ in range(3):
            if self.done or length(self.cur) >= n:
                break
            self.unfold()
        if length(self.cur) < n:
            got, self.cur = self.cur, b""
            raise asyncio.IncompleteReadError(got, n) if not is_sym(got) else Truncated(got, n)
        got, self.cur = part(self.cur, 0, n), part(self.cur, n)
        return got

    async def read(self, n=-1):
        """What has arrived: at least a byte, unless this is the end"""
        if length(self.cur) == 0 and not self.done:
            self.unfold()
        most = length(self.cur) if n < 0 else min_(n, length(self.cur))
        k = self.v.int("arrived", 0)
        self.v.assume(k <= most)
        self.v.assume(Implies(most > 0, k > 0))
        got, self.cur = part(self.cur, 0, k), part(self.cur, k)
        return got


def min_(a, b):
    return a if a < b else b


class Truncated(asyncio.IncompleteReadError):
    def __init__(self, partial, expected):
        Exception.__init__(self, "truncated")
        self.partial = partial
        self.expected = expected


def _read_loop(c, it):
    def havoc(c, L):
        src = c.state["src"]
        p = c.int("p", 0)
        c.assume(And(p % M == 0, p <= length(src.D)))
        src.p, src.e, src.cur, src.done = p, (c.state["s0"] + p // M) % 256, b"", False
        L.self.seq.value = src.e
        c.state["cut"] = True
        c.state["data0"] = part(src.D, 0, p)
        return {"data": c.state["data0"]}

    def inv(c, L):
        src = c.state["src"]
        if "cut" in c.state and L.data is c.state["data0"]:
            return
        yield "whole frames have been read", And(length(src.cur) == 0, Not(src.done))
        yield "what was read is the beginning of the payload", eq(L.data, part(src.D, 0, src.p))
        yield "the next sequence number is expected", L.self.seq.value == src.e

    return Invariant(havoc, inv, variant=lambda c, L: length(c.state["src"].D) - c.state["src"].p,
                     heap=lambda c, L: [c.state["src"], L.self.seq])


@unit("C04 C03", "stream.MysqlStream.read", loops={"MysqlStream.read#0": _read_loop},
      assumes=["asyncio.StreamReader.readexactly returns the next n bytes of the stream however it is segmented, or raises "
               "IncompleteReadError with what there was (CPython)"], internal=True)
def read(v):
    """The payload is reassembled, and what follows it is left"""
    D = v.bytes("payload", bound=2 * M + 5)
    after = v.bytes("after")
    s0 = v.int("seq", 0, 255)
    src = Source(v, D, s0, after)
    v.state.update(src=src, s0=s0)
    s = stream_of(v, src, None, b"", s0)
    got = run(s.read())
    v.check("the payload is what the client sent", eq(got, D))
    if not src.done:
        src.unfold()
    v.check("the next packet is left", And(src.done, eq(src.cur, after)))
    v.check("the sequence counter has advanced past the packet", s.seq.value == src.e)


class Bytes:
    """asyncio.StreamReader with these bytes and then the end"""

    def __init__(self, data):
        self.data = data
        self.calls = 0

    async def readexactly(self, n):
        self.calls += 1
        if length(self.data) < n:
            got, self.data = self.data, b""
            raise Truncated(got, n)
        got, self.data = part(self.data, 0, n), part(self.data, n)
        return got


@unit("C04 C07", "stream.MysqlStream.read", internal=True)
def read_wrong_sequence(v):
    """A wrong sequence number is an error before anything else of the packet is looked at"""
    m = v.mod("stream")
    s0, e = v.int("expected", 0, 255), v.int("sent", 0, 255)
    v.assume(s0 != e)
    n = v.int("n", 0, M)
    after = v.bytes("after")
    src = Bytes(cat(le(n, 3), le(e, 1), after))
    s = stream_of(v, src, None, b"", s0)
    x = raises(lambda: run(s.read()), Exception)
    v.check("a wrong sequence number is an error", isinstance(x, m.MysqlError))
    v.check("the payload isn't waited for", eq(src.data, after))


@unit("C07 C10", "stream.MysqlStream.read", internal=True)
def read_end(v):
    """The end of the stream between packets is the client's departure, within a packet it is an error"""
    m = v.mod("stream")
    d = v.bytes("data", maxlen=40)
    s0 = v.int("seq", 0, 255)
    # not a whole packet: less than a header, or a header with the right number and less payload than it says
    if v.choose(2, "header?"):
        n = v.int("n", 1, M)
        v.assume(length(d) < n)
        src = Bytes(cat(le(n, 3), le(s0, 1), d))
        whole = False
    else:
        v.assume(length(d) < 4)
        src = Bytes(d)
        whole = length(d) == 0
    s = stream_of(v, src, None, b"", s0)
    x = raises(lambda: run(s.read()), Exception)
    v.check("the end of the stream ends read()", x is not None)
    if whole:
        v.check("the end between packets is ConnectionClosed", isinstance(x, m.ConnectionClosed))
    else:
        v.check("the end within a packet isn't a proper end", isinstance(x, Exception) and not isinstance(x, m.ConnectionClosed))


@unit("C03 C04", "stream.MysqlStream.reset_seq utils.seq.__next__ utils.seq.reset", internal=True)
def sequence(v):
    m = v.mod("utils")
    q = m.seq(256)
    q.value = v.int("value", 0, 255)
    x = q.value
    v.check("a sequence returns its value", eq(next(q), x))
    v.check("and advances modulo its size", eq(q.value, (x + 1) % 256))
    q.reset()
    v.check("reset starts again at 0", eq(q.value, 0))
    s = stream_of(v, None, None, b"", x)
    s.reset_seq()
    v.check("reset_seq starts again at 0", eq(s.seq.value, 0))


# --- TLS

class Protocol(Ghostly):
    """A protocol that takes data as it is"""

    def __init__(self, env):
        self.env, self.got, self.connected = env, b"", False

    def data_received(self, data):
        self.env.v.check("data is handed over after the connection was made", self.connected)
        self.got = cat(self.got, data)


class Buffer(Ghostly, Symbolic):
    """What a protocol offers to be filled: as long as it likes, but not empty"""
    __slots__ = ("n", "content", "env")

    def __init__(self, env, n):
        self.env, self.n, self.content = env, n, None

    def length(self):
        return self.n

    def __len__(self):
        return self.n

    def __setitem__(self, k, x):
        if not (isinstance(k, slice) and k.start in (None, 0) and k.step is None):
            raise Unsupported("how the buffer is filled")
        self.env.v.check("what is filled in fits in its place", And(eq(length(x), k.stop), k.stop <= self.n))
        self.content = x


class Buffered(asyncio.BufferedProtocol):
    """A protocol that offers buffers to be filled"""
    __dv_ghost__ = True

    def __init__(self, env):
        self.env, self.connected = env, False
        self.got, self.buf = b"", None

    def get_buffer(self, hint):
        v = self.env.v
        v.check("data is handed over after the connection was made", self.connected)
        n = v.int("buffer size", 1, 1 << 20)
        self.buf = Buffer(self.env, n) if symbolic() else bytearray(n)
        return self.buf

    def buffer_updated(self, n):
        b = self.buf.content if isinstance(self.buf, Buffer) else bytes(self.buf[:n])
        self.env.v.check("the protocol is told how much was filled in", And(eq(length(b), n), n > 0))
        self.got = cat(self.got, b)
        self.buf = None


def _feeding(c, it):
    """What was handed over, and what is left, is the data"""
    env = c.state["tls"]
    st = {}

    def havoc(c, L):
        names = [k for k in L.changed if is_sym(L._loc.get(k)) or isinstance(L._loc.get(k), bytes)]
        names = [k for k in names if isinstance(L._loc.get(k), (bytes, SBytes))]
        if len(names) != 1:
            raise Unsupported("which local is the rest of the data?")
        st["k"] = names[0]
        p = c.int("handed over", 0)
        c.assume(p <= length(env.data))
        env.new.got = part(env.data, 0, p)
        st["p"] = p
        return {names[0]: part(env.data, p)}

    def inv(c, L):
        if not st:
            yield "nothing was handed over at first", eq(env.new.got, b"")
            return
        yield "what was handed over, and what is left, is the data", eq(cat(env.new.got, getattr(L, st["k"])), env.data)
        yield "no more than the data", length(env.new.got) <= length(env.data)

    return Invariant(havoc, inv, variant=lambda c, L: length(env.data) - length(env.new.got), heap=lambda c, L: [env.new, st])


class Tls(Ghostly):
    pass


@unit("C04 C07", "stream._feed_data", loops={"*": _feeding}, internal=True)
def feed(v):
    """All the data, in order, whatever kind of protocol it is"""
    m = v.mod("stream")
    env = v.state["tls"] = Tls()
    env.v, env.data = v, v.bytes("data")
    env.new = v.pick("protocol", [Protocol, Buffered])(env)
    env.new.connected = True
    m._feed_data(env.new, env.data)
    if isinstance(env.new, Buffered):
        v.check("all data was handed over", eq(env.new.got, env.data))
        v.check("no buffer is left", env.new.buf is None)
    else:
        v.check("all data was handed over", eq(env.new.got, env.data))


@unit("C04 C07 C10", "stream.MysqlStream.start_tls", concrete=False,
      assumes=["asyncio: loop.start_tls, once scheduled, installs its protocol and schedules connection_made before the loop's next turn ends "
               "(CPython); the TLS protocol itself"])
def start_tls(v):
    """What the client sent after its SSL request, in the same read, is the beginning of its TLS handshake: it is handed to the TLS protocol,
    completely, once it is connected, and nothing of it stays behind as plain text"""
    m = v.mod("stream")
    env = v.state["tls"] = Tls()
    env.v = v
    data = env.data = v.bytes("read together with the request")
    old, new = Protocol(env), Protocol(env)
    context, upgraded = Ghostly(), Ghostly()
    queue, log = [], []

    class Transport(Ghostly):
        protocol = old

        def get_protocol(self):
            return self.protocol

    class Reader(Ghostly):
        pass

    class Writer(Ghostly):
        pass

    def turn():
        for f in queue[:]:
            queue.pop(0)
            f()

    def begin():
        transport.protocol = new

        def made():
            new.connected = True
        queue.append(made)

    class Upgrade(Ghostly):
        done = cancelled = False

        def __await__(self):
            v.check("the client's data isn't taken for plain text", eq(length(reader._buffer), 0))
            if v.choose(2, "cancelled while waiting"):
                raise asyncio.CancelledError()
            turn()
            turn()
            turn()
            v.check("the TLS handshake begins with what the client sent", And(eq(new.got, data), eq(old.got, b"")))
            if v.choose(2, "handshake fails"):
                raise ConnectionResetError()
            self.done = True
            return upgraded
            yield

        def cancel(self):
            self.cancelled = True

    class Loop(Ghostly):
        def start_tls(self, transport, protocol, sslcontext, server_side):
            v.check("the connection's transport is upgraded, as the server, with its context",
                    transport is transport_ and protocol is old and sslcontext is context and server_side is True)
            log.append("start_tls")
            return "upgrade"

        def call_soon(self, f, *a):
            queue.append(lambda: f(*a))

    upgrade = Upgrade()

    def ensure_future(x):
        v.check("the upgrade is begun once", x == "upgrade" and log == ["start_tls"])
        log.append("begun")
        queue.append(begin)
        return upgrade

    async def sleep(t):
        if v.choose(2, "cancelled at once"):
            raise asyncio.CancelledError()
        turn()

    for name, f in (("ensure_future", ensure_future), ("create_task", ensure_future), ("get_event_loop", Loop), ("get_running_loop", Loop), ("sleep", sleep)):
        v.state["stub:asyncio." + name] = f
    transport = transport_ = Transport()
    reader, writer = Reader(), Writer()
    reader._buffer, writer.transport = SByteArray(data), transport
    s = m.MysqlStream(reader, writer)
    try:
        run(s.start_tls(context))
    except (asyncio.CancelledError, ConnectionResetError):
        v.check("an upgrade that isn't waited for any more is given up", upgrade.done or upgrade.cancelled)
        return
    v.check("reading and writing go on encrypted", upgrade.done and writer._transport is upgraded and reader._transport is upgraded)
    v.check("no plain text is left to be read", eq(length(reader._buffer), 0))
