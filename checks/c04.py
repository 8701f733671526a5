"""C04: packet framing is lossless for every payload size and every stream segmentation."""
import os
import random
import ssl

from lib import REPO, proto as P
from lib.apps import SpecApp
from lib.sim import Client, Factory, ProtocolError, Raw, Sim, Violation
from mysql_mimic import ColumnType, ResultColumn
from mysql_mimic.control import LocalControl

MEM = 8 << 30
CASE_TIMEOUT = 200
CERT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib", "cert.pem")
KEY = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib", "key.pem")
M = 0xFFFFFF


def server_ctx():
    c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
    c.load_cert_chain(CERT, KEY)
    return c


def client_ctx():
    c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    c.check_hostname = False
    c.verify_mode = ssl.CERT_NONE
    return c


# --- payload sizes --------------------------------------------------------------------
def pattern(n: int, seed: int) -> bytes:
    """n bytes in which a lost, repeated or moved block shows (ASCII)"""
    block = b"".join(b"%07x\n" % ((i * 2654435761 + seed) & 0xFFFFFFF) for i in range(1 << 13))
    out = b"".join(b"%015x\n" % i + block for i in range(n // (len(block) + 16) + 1))
    return out[:n]


def server_payload(length: int, binary: bool) -> None:
    """The server sends a row packet whose payload is exactly `length` bytes"""
    pre = 1 + 1 if binary else 0
    for w in (1, 3, 4, 9):
        n = length - pre - w
        if n >= 0 and len(P.lenenc(n)) == w:
            break
    else:
        return
    data = pattern(n, length)
    f = Factory(lambda: Raw(lambda s, q, a: ([(data,), (b"x",)], [ResultColumn("a", ColumnType.BLOB)])))
    with Sim(session_factory=f, hang=60) as sim:
        c = sim.login("u")
        if binary:
            st = c.prepare("q")
            r = c.execute(st.stmt_id)
            got = [x[0] for x in r.rows]
        else:
            r = c.query("q")
            got = [x[0] for x in r.rows]
        if r.kind != "rows" or got != [data, b"x"]:
            raise Violation(f"payload of {length} bytes: {r.kind} {r.err}, cells of {[len(x) for x in got]} bytes")
        c.alive()


def client_payload(length: int, cut: int) -> None:
    """The client sends a command of exactly `length` bytes"""
    sql = pattern(length - 1, length)
    f = Factory(lambda: Raw(lambda s, q, a: None))
    with Sim(session_factory=f, hang=60) as sim:
        c = sim.login("u")
        raw = P.frames(bytes([P.COM_QUERY]) + sql, 0)
        c.seq = P.n_frames(length) % 256
        rng = random.Random(cut)
        if cut:
            # around every header
            pts = set()
            pos = 0
            while pos < len(raw):
                pts |= {pos + d for d in range(-2, 7)} if cut == 1 else {pos + rng.randrange(-3, 8)}
                pos += 4 + int.from_bytes(raw[pos:pos + 3], "little")
            pts = sorted(p for p in pts if 0 < p < len(raw))
            parts = [raw[a:b] for a, b in zip([0] + pts, pts + [len(raw)])]
        else:
            parts = [raw]
        for p in parts:
            c.tr.client_send(p)
            if cut:
                sim.settle()
        sim.settle()
        r = c.read_response("query")
        c.quiet()
        got = [x[1] for x in f.sessions[0].calls if x[0] == "query"]
        if r.kind != "ok" or got != [sql.decode()]:
            raise Violation(f"command of {length} bytes: {r.kind} {r.err}, the application got {[len(x) for x in got]}")
        c.alive()


def stream_write(length: int, more: int) -> None:
    """Auth-more-data style payloads of any length, written through the server's stream by an auth plugin"""
    from mysql_mimic.auth import AuthPlugin, IdentityProvider, Success, User
    data = pattern(length, 3)
    got = []

    class Plug(AuthPlugin):
        name = "plug"
        client_plugin_name = None

        async def auth(self, auth_info=None):
            if not auth_info:
                auth_info = yield b"x" * 20 + b"\0"
            for _ in range(more):
                auth_info = yield data
                got.append(auth_info.data)
            yield Success("me")

    class Prov(IdentityProvider):
        def get_plugins(self):
            return [Plug()]

        async def get_user(self, username):
            return User(username, auth_plugin="plug")

    with Sim(identity_provider=Prov(), hang=60) as sim:
        c = sim.connect()
        hs = c.greet()
        c.caps = P.BASE_CAPS & hs.caps
        c.send(P.handshake_response(c.caps, b"u", b"", 45, None, b"z"))
        sim.settle()
        sent = []
        for i in range(more):
            p = c.expect()
            if p != b"\1" + data:
                raise Violation(f"auth-more-data of {length} bytes arrives as {len(p)} bytes")
            c.quiet()
            reply = [b"", data, b"\0"][i % 3]
            sent.append(reply)
            c.send(reply)
            sim.settle()
        p = c.expect()
        if p[0] != 0 or got != sent:
            raise Violation(f"replies of {[len(x) for x in sent]} bytes arrive as {[len(x) for x in got]}")
        c.alive()


# --- segmentation -----------------------------------------------------------------------
def conversation(caps: int, kind: int) -> list:
    q = lambda s, **k: P.com_query(caps, s, [P.Param(P.T["STRING"], b"v", name=b"k")] if caps & P.QUERY_ATTRIBUTES else None)
    if kind == 0:
        return [q(b"{'c':1,'r':2}"), bytes([P.COM_PING])]
    if kind == 1:
        return [q(b"{'c':2,'r':3}"), bytes([P.COM_PING]), bytes([P.COM_INIT_DB]) + b"db", q(b"SELECT DATABASE()"),
                bytes([P.COM_STMT_PREPARE]) + b"{'c':1,'r':4} ?",
                bytes([P.COM_STMT_SEND_LONG_DATA]) + bytes(6) + b"long",
                P.com_stmt_execute(caps, 0, [P.Param(P.T["STRING"], None, long_data=True)], cursor=True),
                bytes([P.COM_STMT_FETCH]) + bytes(4) + b"\3\0\0\0", b"",
                bytes([P.COM_STMT_CLOSE]) + bytes(4), bytes([P.COM_FIELD_LIST]) + b"t\0",
                b"\x09", q(b"{'e':'my','c':1}"), bytes([P.COM_QUIT])]
    return [q(b"{'c':1,'r':300}"), q(b"{'c':1,'r':1,'w':300}" + b" " * 300), bytes([P.COM_PING])]


def transcript(caps: int, msgs: list, cuts: list, pipelined: bool, window: int = -1, cut_hs: bool = True) -> bytes:
    """The server's bytes after the greeting, for a client stream delivered in pieces"""
    control = LocalControl(server_id=1)
    with Sim(session_factory=SpecApp, control=control) as sim:
        c = sim.connect(caps=caps)
        hs = c.greet()
        caps &= hs.caps
        first = P.frames(P.handshake_response(caps, b"user", b"", 45), 1)
        rest = b"".join(P.frames(m, 0) for m in msgs)
        if not pipelined:
            stream = [first] + [P.frames(m, 0) for m in msgs]
        else:
            stream = [first + rest]
        if window >= 0:
            c.tr.client_accept(window)
        pos = 0
        for s in stream:
            inner = [x - pos for x in cuts if pos < x < pos + len(s)]
            for a, b in zip([0] + inner, inner + [len(s)]):
                c.tr.client_send(s[a:b])
                sim.settle()
            pos += len(s)
            if window >= 0:
                sim.settle()
        if window >= 0:
            c.tr.client_accept(None)
            sim.settle()
        b = c.buffer()
        c.consume(len(b))
        return b + (b"|closed" if c.closed else b"|open")


_BASE = {}


def baseline(caps, kind):
    if (caps, kind) not in _BASE:
        _BASE[(caps, kind)] = transcript(caps, conversation(caps, kind), [], False)
    return _BASE[(caps, kind)]


def total(caps, kind):
    hs = P.frames(P.handshake_response(caps & ALL, b"user", b"", 45), 1)
    return len(hs) + sum(len(P.frames(m, 0)) for m in conversation(caps, kind))


ALL = ~0


def check_cuts(caps, kind, cuts, pipelined, window=-1):
    want = baseline(caps, kind)
    got = transcript(caps, conversation(caps, kind), cuts, pipelined, window)
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        raise Violation(f"cuts {cuts} change the conversation at byte {i}: {got[max(0, i - 20):i + 40]!r} "
                        f"instead of {want[max(0, i - 20):i + 40]!r}")


def one_cut(caps: int, kind: int, pipelined: bool, lo: int, hi: int) -> None:
    for x in range(lo, min(hi, total(caps, kind))):
        check_cuts(caps, kind, [x], pipelined)


def two_cuts(caps: int, kind: int, x: int, pipelined: bool) -> None:
    for y in range(x + 1, total(caps, kind)):
        check_cuts(caps, kind, [x, y], pipelined)


def many_cuts(caps: int, kind: int, seed: int) -> None:
    rng = random.Random(seed)
    n = total(caps, kind)
    if seed == 0:
        cuts = list(range(1, n))
    else:
        cuts = sorted(rng.sample(range(1, n), rng.randrange(2, 40)))
    check_cuts(caps, kind, cuts, rng.random() < 0.5)


def slow_reader(caps: int, kind: int, window: int) -> None:
    """A client that doesn't read while the server writes sees the same bytes"""
    check_cuts(caps, kind, [], True, window)


# --- TLS ------------------------------------------------------------------------------------
def tls(caps: int, together: bool, cuts: list, seed: int) -> None:
    """SSL request and TLS handshake, in the same read or not, cut anywhere"""
    rng = random.Random(seed)
    with Sim(session_factory=SpecApp, ssl=server_ctx(), control=LocalControl(server_id=1), hang=20) as sim:
        c = sim.connect(caps=caps)
        hs = c.greet()
        if not hs.caps & P.SSL:
            raise Violation("the server has TLS but does not announce it")
        c.caps = (caps | P.SSL) & hs.caps
        req = P.frames(P.ssl_request(c.caps), 1)
        c.seq = 2
        tin, tout = ssl.MemoryBIO(), ssl.MemoryBIO()
        obj = client_ctx().wrap_bio(tin, tout, server_side=False)
        try:
            obj.do_handshake()
        except ssl.SSLWantReadError:
            pass
        hello = tout.read()
        blob = req + hello
        pts = sorted(x for x in (cuts if together else cuts + [len(req)]) if 0 < x < len(blob))
        for a, b in zip([0] + pts, pts + [len(blob)]):
            c.tr.client_send(blob[a:b])
            sim.settle()
        for _ in range(10):
            raw = bytes(c.tr.out[c.pos:])
            c.pos = len(c.tr.out)
            if raw:
                tin.write(raw)
            try:
                obj.do_handshake()
                done = True
            except ssl.SSLWantReadError:
                done = False
            out = tout.read()
            if done:
                # the client's Finished and the handshake response in the same read
                obj.write(P.frames(P.handshake_response(c.caps, b"user", b"", 45), 2))
                out += tout.read()
                c.seq = 3
            if not out and not raw:
                raise Violation(f"TLS handshake stalled with cuts {cuts}, together={together}")
            if seed and len(out) > 2:
                k = sorted(rng.randrange(1, len(out)) for _ in range(2))
                parts = [out[:k[0]], out[k[0]:k[1]], out[k[1]:]]
            else:
                parts = [out]
            for p in parts:
                if p:
                    c.tr.client_send(p)
                    sim.settle()
            sim.settle()
            if done:
                break
        else:
            raise Violation("TLS handshake stalled")
        c.tls, c.tls_in, c.tls_out = obj, tin, tout
        p = c.expect()
        P.parse_ok(p, c.caps)
        c.quiet()
        if seed:
            c.cut = lambda d: [d[:len(d) // 2], d[len(d) // 2:]] if len(d) > 1 else [d]
        r = c.query("{'c':2,'r':5}")
        if len(r.rows) != 5:
            raise Violation("rows over TLS")
        c.alive()


def tls_big(n: int) -> None:
    data = pattern(n, 5)
    f = Factory(lambda: Raw(lambda s, q, a: ([(data,)], [ResultColumn("a", ColumnType.BLOB)])))
    with Sim(session_factory=f, ssl=server_ctx(), hang=60) as sim:
        c = sim.connect()
        c.login("u", tls=client_ctx())
        r = c.query(b"x" * 100000)
        if r.rows != [[data]]:
            raise Violation("cell over TLS")
        if f.sessions[0].calls[-1][1] != "x" * 100000:
            raise Violation("SQL over TLS")
        c.alive()


SCENARIOS = {"server_payload": server_payload, "client_payload": client_payload, "stream_write": stream_write,
             "one_cut": one_cut, "two_cuts": two_cuts, "many_cuts": many_cuts, "slow_reader": slow_reader,
             "tls": tls, "tls_big": tls_big}


def cases(tier, seed):
    deep = tier != "quick"
    sizes = [M - 1, M, M + 1, 2 * M - 1, 2 * M, 2 * M + 1]
    if deep:
        sizes += [M - 2, M + 2, 3 * M, 3 * M + 1]
    for n in sizes:
        yield "server_payload", {"length": n, "binary": False}
        yield "client_payload", {"length": n, "cut": 1}
        if n <= M + 1 or deep:
            yield "server_payload", {"length": n, "binary": True}
            yield "client_payload", {"length": n, "cut": 0}
    for n in (M - 2, M - 1, M, 2 * M - 1):
        yield "stream_write", {"length": n, "more": 2}
    for n in (0, 1, 250, 251, 32760, 32767, 32768, 65535, 65536):
        yield "stream_write", {"length": n, "more": 3}
    for n in (1, 2, 100, 251, 252, 254, 2**15 - 4, 2**15, 2**16 - 1, 2**16, 2**16 + 4, 2**17, 2**20):
        yield "server_payload", {"length": n, "binary": False}
        yield "server_payload", {"length": n, "binary": True}
        yield "client_payload", {"length": n, "cut": n % 2}
    caps_list = [P.BASE_CAPS, P.BASE_CAPS | P.DEPRECATE_EOF | P.QUERY_ATTRIBUTES | P.LENENC_CLIENT_DATA]
    for caps in caps_list:
        for kind in (0, 1, 2):
            t = total(caps, kind)
            for pipelined in (False, True):
                for lo in range(0, t, 25):
                    yield "one_cut", {"caps": caps, "kind": kind, "pipelined": pipelined, "lo": lo, "hi": lo + 25}
            for w in (0, 1, 5, 100, 1000):
                yield "slow_reader", {"caps": caps, "kind": kind, "window": w}
            yield "many_cuts", {"caps": caps, "kind": kind, "seed": 0}
            for i in range(300 if deep else 40):
                yield "many_cuts", {"caps": caps, "kind": kind, "seed": seed * 1000 + i + 1}
        t = total(caps, 0)
        for x in range(1, t, 1 if deep else 3):
            yield "two_cuts", {"caps": caps, "kind": 0, "x": x, "pipelined": x % 2 == 0}
    caps = caps_list[1]
    for together in (True, False):
        yield "tls", {"caps": caps, "together": together, "cuts": [], "seed": 0}
        for x in range(1, 560, 1 if deep else (1 if together else 5)):
            yield "tls", {"caps": caps, "together": together, "cuts": [x], "seed": 0 if x % 2 else x}
    rng = random.Random(seed)
    for i in range(1000 if deep else 150):
        yield "tls", {"caps": caps_list[i % 2], "together": True, "cuts": sorted(rng.randrange(1, 540) for _ in range(3)),
                      "seed": i}
    yield "tls", {"caps": caps, "together": True, "cuts": list(range(1, 80)), "seed": 1}
    yield "tls_big", {"n": 300000}
    yield "tls_big", {"n": M + 10}
