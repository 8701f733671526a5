"""C07: malformed or hostile packets cannot hang, crash or wedge the server."""
import random
import struct
import time
import tracemalloc

from lib import proto as P
from lib.apps import SpecApp
from lib.proto import Param, ProtocolError, T
from lib.sim import Factory, Hang, Raw, ServerClosed, Sim, Violation
from mysql_mimic.auth import AbstractClearPasswordAuthPlugin, IdentityProvider, NativePasswordAuthPlugin, NoLoginAuthPlugin, User
from mysql_mimic.control import LocalControl

MEM = 3 << 29
CPU = 2.0  # seconds of processor time one packet may cost (they cost milliseconds)
KIND = {P.COM_QUERY: "query", P.COM_INIT_DB: "ok", P.COM_FIELD_LIST: "field_list", P.COM_PING: "ok", P.COM_DEBUG: "ok",
        P.COM_STMT_PREPARE: "prepare", P.COM_STMT_EXECUTE: "execute", P.COM_STMT_FETCH: "fetch", P.COM_STMT_RESET: "ok",
        P.COM_RESET_CONNECTION: "ok"}
CAPS = [P.BASE_CAPS, P.BASE_CAPS | P.QUERY_ATTRIBUTES | P.CONNECT_ATTRS | P.LENENC_CLIENT_DATA | P.DEPRECATE_EOF | P.CONNECT_WITH_DB]


class Control(LocalControl):
    def __init__(self):
        super().__init__(server_id=3)
        self.added, self.removed = [], []

    async def add(self, connection):
        i = await super().add(connection)
        self.added.append(i)
        return i

    async def remove(self, connection_id):
        self.removed.append(connection_id)
        await super().remove(connection_id)


class Clear(AbstractClearPasswordAuthPlugin):
    name = "clear"

    async def check(self, username, password):
        return username if password == "pw" else None


class Provider(IdentityProvider):
    def get_plugins(self):
        return [NativePasswordAuthPlugin(), Clear(), NoLoginAuthPlugin()]

    async def get_user(self, username):
        plugin = {"clear": "clear", "no": "mysql_no_login"}.get(username, "mysql_native_password")
        return User(name=username, auth_plugin=plugin, auth_string="" if username != "pw" else P.native_auth_string(b"pw"))


class World:
    def __init__(self, app="raw", hang=20.0):
        self.control = Control()
        make = (lambda: Raw(lambda s, q, a: ([(1, "x")] * 3, ["a", "b"]))) if app == "raw" else SpecApp
        self.f = Factory(make)
        self.sim = Sim(session_factory=self.f, control=self.control, identity_provider=Provider(), hang=hang)
        self.witness = self.sim.login("w")
        self.n = 0

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.sim.shutdown()

    def work(self, fn, what):
        t = time.process_time()
        fn()
        d = time.process_time() - t
        if d > CPU:
            raise Violation(f"{what}: {d:.1f}s of processor time for one packet")

    def check(self, c, what):
        """The other connections are still served"""
        self.n += 1
        if self.n % 8 == 0:
            self.witness.alive()
            d = self.sim.login("new")
            r = d.query("SELECT 1")
            if r.kind != "rows":
                raise Violation(f"{what}: a new connection's query got {r.kind}")
            d.quit()
            if not d.closed:
                raise Violation("COM_QUIT did not close the connection")

    def released(self, c, what):
        c.disconnect(abrupt=self.n % 2 == 0)
        self.sim.settle()
        if not c.tr.closed:
            raise Violation(f"{what}: the connection isn't closed after the client left")
        cid = c.hs.thread_id if c.hs else None
        if cid is not None and self.control.removed.count(cid) != 1:
            raise Violation(f"{what}: the registration of the connection was removed {self.control.removed.count(cid)} times")
        if len(self.control.added) - len(self.control.removed) > 1:
            raise Violation(f"{what}: registrations left behind")
        self.sim.clients.remove(c)


INTS = [b"\xfe" + b"\xff" * 8, b"\xfe" + b"\0" * 7 + b"\x80", b"\xfe" + struct.pack("<Q", 1 << 62), b"\xfe" + struct.pack("<Q", 1 << 32),
        b"\xfe" + struct.pack("<Q", 1 << 40), b"\xfd\xff\xff\xff", b"\xfc\xff\xff", b"\xff" * 9, b"\xfb", b"\xfa", b"\xfe" + struct.pack("<Q", 50_000_000)]
BIG = [b"\xfe" + struct.pack("<Q", 1 << 32), b"\xfe" + struct.pack("<Q", (1 << 30) + 1), b"\xfd\xff\xff\xff"]
ALLOC = 32 << 20  # bytes one of these packets may take while it's handled (they take a few 10,000)
BYTES = [0, 1, 2, 5, 0x7F, 0x80, 0xFA, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF]


def mutants(p: bytes, rng):
    """(description, payload) of every systematic mutation"""
    for i in range(len(p)):
        yield f"cut at {i}", p[:i]
    step = 1 if len(p) < 80 else 2
    for i in range(0, len(p), step):
        for b in BYTES:
            if b != p[i]:
                yield f"byte {i} = {b:#x}", p[:i] + bytes([b]) + p[i + 1:]
        for j, x in enumerate(INTS):
            yield f"int {j} at {i}", p[:i] + x + p[i + 1:]
        yield f"byte {i} removed", p[:i] + p[i + 1:]
        yield f"int at {i}, end", p[:i] + INTS[i % len(INTS)]
        yield f"32 bits at {i}", p[:i] + b"\xff\xff\xff\xff" + p[i + 4:]
    for _ in range(60):
        q = bytearray(p)
        for _ in range(rng.randrange(1, 6)):
            if q:
                q[rng.randrange(len(q))] ^= 1 << rng.randrange(8)
        yield "bits flipped", bytes(q)
    for _ in range(20):
        yield "garbage appended", p + rng.randbytes(rng.randrange(1, 40))
    yield "long tail", p + b"A" * 70000
    yield "nulls", p + bytes(300)


def auth_dance(w, c, what):
    """Read the outcome of an authentication exchange; True if it ended with OK"""
    for _ in range(4):
        p = c.packet()
        if p is None:
            if c.buffer():
                raise ProtocolError("incomplete packet")
            if not c.closed:
                raise Violation(f"{what}: no answer, and the connection isn't closed")
            return False
        if p[:1] == b"\0":
            P.parse_ok(p, c.caps)
            c.quiet()
            return True
        if P.is_err(p):
            P.parse_err(p, c.caps)
            c.quiet()
            return False
        if p[:1] not in (b"\xfe", b"\1"):
            raise ProtocolError(f"{what}: {p[:30]!r}")
        c.send(b"garbage" if what[-1:] < "g" else b"pw\0")
        w.sim.settle()
    raise Violation(f"{what}: the exchange does not end")


def outcome(w, c, payload, what):
    """Read the response to a command the client sent in the command phase; True if the connection goes on"""
    code = payload[0] if payload else None
    kind = KIND.get(code, "ok")
    if code == P.COM_QUIT:
        if c.buffer() or not c.closed:
            raise Violation(f"{what}: COM_QUIT: {c.buffer()!r}, closed {c.closed}")
        return False
    if code in (P.COM_STMT_SEND_LONG_DATA, P.COM_STMT_CLOSE):
        # no response by specification, a malformed one may be refused
        if c.buffer():
            p = c.expect()
            if not P.is_err(p):
                raise ProtocolError(f"{what}: {p[:30]!r}")
        c.quiet()
        return not c.closed
    if code == P.COM_CHANGE_USER:
        ok = auth_dance(w, c, what)
        if not ok and not c.closed:
            pass  # an ERR for a malformed packet, or a failed authentication
        return ok and not c.closed
    if not c.buffer() and c.closed:
        return False
    if kind == "execute" and len(payload) > 5 and payload[5] & 1:
        kind = "execute_cursor"
    d = P.Decoder(kind, c.caps, c.stmt_columns.get(0, []))
    while True:
        p = c.packet()
        if p is None:
            raise Violation(f"{what}: the response is incomplete (connection closed: {c.closed})")
        if d.feed(p):
            break
    c.quiet()
    r = d.r
    if code == P.COM_STMT_EXECUTE and r.kind == "rows":
        c.stmt_columns[0] = r.columns
    return not c.closed


def command_payloads(caps):
    q = bool(caps & P.QUERY_ATTRIBUTES)
    at = [Param(T["VAR_STRING"], b"value", name=b"name"), Param(T["LONG"], 5, name=b"n"), Param(T["DOUBLE"], 1.5, name=b"")]
    ps = [Param(T["VAR_STRING"], b"str"), Param(T["LONGLONG"], 7), Param(T["TINY"], None)]
    return [
        ("query", P.com_query(caps, b"SELECT 1", at if q else None)),
        ("query0", P.com_query(caps, b"SELECT 1")),
        ("init_db", bytes([P.COM_INIT_DB]) + b"db"),
        ("field_list", bytes([P.COM_FIELD_LIST]) + b"table\0wild"),
        ("change_user", P.change_user(caps, b"bob", b"\1" * 20, b"db", 45, b"mysql_native_password", [(b"k", b"v"), (b"k2", b"v2")])),
        ("change_clear", P.change_user(caps, b"clear", b"pw\0", b"", 33, b"mysql_clear_password", [(b"k", b"v")])),
        ("prepare", bytes([P.COM_STMT_PREPARE]) + b"SELECT ?, '?', ?"),
        ("execute", P.com_stmt_execute(caps, 0, ps, at if q else None)),
        ("execute_cursor", P.com_stmt_execute(caps, 0, ps, None, cursor=True)),
        ("long_data", bytes([P.COM_STMT_SEND_LONG_DATA]) + struct.pack("<IH", 0, 0) + b"data"),
        ("fetch", bytes([P.COM_STMT_FETCH]) + struct.pack("<II", 0, 2)),
        ("reset", bytes([P.COM_STMT_RESET]) + struct.pack("<I", 0)),
        ("close", bytes([P.COM_STMT_CLOSE]) + struct.pack("<I", 7)),
        ("ping", bytes([P.COM_PING])),
        ("reset_connection", bytes([P.COM_RESET_CONNECTION])),
    ]


def ready(w, caps):
    """A connection with statement 0 (three parameters), and an open cursor"""
    c = w.sim.login("bob", caps=caps)
    c.prepare("SELECT ?, ?, ?")
    c.stmt_columns[0] = c.execute(0, [Param(T["LONG"], i) for i in range(3)], cursor=True).columns
    return c


def commands(caps: int, idx: int, seed: int) -> None:
    rng = random.Random(seed + idx)
    with World() as w:
        name, payload = command_payloads(CAPS[caps])[idx]
        c = ready(w, CAPS[caps])
        uses = 0
        for m, p in mutants(payload, rng):
            what = f"{name}, {m}: {p[:80]!r}"
            if p[:1] == bytes([P.COM_STMT_CLOSE]) and p[1:5] == bytes(4):
                continue  # closes the statement the other cases use
            c.send(p, 0)
            w.work(w.sim.settle, what)
            go_on = outcome(w, c, p, what)
            if go_on:
                c.alive()
                uses += 1
                # a fetch leaves the cursor exhausted, reopen it
                if uses % 20 == 0 or name in ("fetch",) and uses % 2 == 0:
                    c.stmt_reset(0)
                    if c.execute(0, [Param(T["LONG"], i) for i in range(3)], cursor=True).kind != "rows":
                        raise Violation(f"{what}: the statement can't be executed any more")
            w.check(c, what)
            if not go_on or uses > 150:
                if not go_on:
                    gone(w, c, what)
                w.released(c, what)
                c = ready(w, CAPS[caps])
                uses = 0


def gone(w, c, what):
    """After a failed authentication nothing is answered with anything but ERR or close"""
    if c.closed:
        return
    c.send(bytes([P.COM_PING]), 0)
    w.sim.settle()
    while True:
        p = c.packet()
        if p is None:
            break
        if p[:1] == b"\0" and "change" not in what:
            raise Violation(f"{what}: answered after the connection was given up")


def allocation(caps: int, which: str, idx: int) -> None:
    """What a packet claims to be long or many of costs no memory; only what it holds does"""
    with World() as w:
        name, payload = (command_payloads if which == "command" else handshake_payloads)(CAPS[caps])[idx]
        tracemalloc.start()
        try:
            c = ready(w, CAPS[caps]) if which == "command" else None
            for i in range(1, len(payload)):
                for x in BIG:
                    for p in (payload[:i] + x + payload[i + 1:], payload[:i] + x):
                        if which == "command":
                            if c.closed or p[:1] == bytes([P.COM_STMT_CLOSE]):
                                w.released(c, name)
                                c = ready(w, CAPS[caps])
                        else:
                            c = w.sim.connect()
                            c.greet()
                        before = tracemalloc.get_traced_memory()[0]
                        tracemalloc.reset_peak()
                        c.send(p, *([0] if which == "command" else []))
                        w.sim.settle()
                        peak = tracemalloc.get_traced_memory()[1] - before
                        if peak > ALLOC:
                            raise Violation(f"{name}: {p!r} took {peak >> 20} MB")
                        while c.packet_peek():
                            if c.packet() is None:
                                break
                        if which != "command" or i % 5 == 0 and x is BIG[0] or p[:1] == bytes([P.COM_CHANGE_USER]):
                            w.released(c, name)
                            c = ready(w, CAPS[caps]) if which == "command" else None
        finally:
            tracemalloc.stop()


def handshake_payloads(caps):
    return [
        ("response", P.handshake_response(caps, b"bob", b"\1" * 20, 45, b"db", b"mysql_native_password", [(b"k", b"v"), (b"k2", b"v2")])),
        ("empty", P.handshake_response(caps, b"bob", b"", 45, b"db", b"mysql_native_password", [])),
        ("clear", P.handshake_response(caps, b"clear", b"pw\0", 33, b"", b"mysql_clear_password", [(b"a" * 260, b"b" * 300)])),
        ("old", P.handshake_response(caps & ~P.PLUGIN_AUTH, b"bob", b"", 8, None, None, None)),
        ("ssl", P.ssl_request(caps)),
    ]


def handshakes(caps: int, idx: int, seed: int) -> None:
    rng = random.Random(seed * 7 + idx)
    with World() as w:
        name, payload = handshake_payloads(CAPS[caps])[idx]
        for m, p in mutants(payload, rng):
            what = f"handshake {name}, {m}: {p[:80]!r}"
            c = w.sim.connect()
            c.greet()
            c.caps = c.hs.caps & struct.unpack("<I", p[:4])[0] if len(p) >= 4 else 0
            n0 = len(w.f.sessions)
            c.send(p)
            w.work(w.sim.settle, what)
            # errors before the capabilities are known follow the defaults
            if c.packet_peek()[:1] == b"\xff":
                if c.packet()[:1] != b"\xff":
                    raise ProtocolError(what)
                c.quiet()
                ok = False
                if not c.closed:
                    raise Violation(f"{what}: ERR, but the connection isn't closed")
            else:
                ok = auth_dance(w, c, what)
            if ok:
                c.send(bytes([P.COM_PING]), 0)
                w.sim.settle()
                P.parse_ok(c.expect(), c.caps)
            elif not c.closed:
                raise Violation(f"{what}: not authenticated, not closed")
            w.check(c, what)
            w.released(c, what)


def auth_answers(seed: int) -> None:
    """Hostile answers to authentication challenges"""
    rng = random.Random(seed)
    with World() as w:
        for user, first in (("pw", b"mysql_clear_password"), ("clear", b"mysql_native_password"), ("no", b"x"), ("pw", b"nosuch"),
                            ("bob", b"mysql_clear_password")):
            answers = [b"", b"\0", b"\xff" * 20, b"\xff" * 19, b"a" * 21, b"\0" * 20, b"pw", b"pw\0", b"pw\0x", b"\xff\xfe\0", b"x" * 70000,
                       b"\xc3\0", b"\xed\xa0\x80\0"] + [rng.randbytes(rng.randrange(40)) for _ in range(15)]
            for a in answers:
                what = f"{user} {first!r} answer {a[:30]!r}"
                c = w.sim.connect()
                c.greet()
                c.caps = P.BASE_CAPS & c.hs.caps
                c.send(P.handshake_response(c.caps, user.encode(), b"", 45, None, first))
                w.sim.settle()
                for _ in range(5):
                    p = c.packet()
                    if p is None or p[:1] not in (b"\xfe", b"\1"):
                        break
                    c.send(a)
                    w.work(w.sim.settle, what)
                else:
                    raise Violation(f"{what}: the exchange does not end")
                if p is None and not c.closed:
                    raise Violation(f"{what}: no answer")
                if p is not None and p[:1] not in (b"\0", b"\xff"):
                    raise ProtocolError(f"{what}: {p[:30]!r}")
                if p is not None and p[:1] == b"\xff" and not c.closed:
                    raise Violation(f"{what}: ERR, but the connection isn't closed")
                c.quiet()
                w.check(c, what)
                w.released(c, what)


def framing(seed: int) -> None:
    """Sequence numbers, lengths, partial packets, raw garbage, at every position of the session"""
    rng = random.Random(seed)
    with World() as w:
        for _ in range(60):
            pre = rng.random() < 0.4
            c = w.sim.connect() if pre else ready(w, rng.choice(CAPS))
            if pre:
                c.greet()
                base, seq = handshake_payloads(CAPS[0])[rng.randrange(4)][1], 1
            else:
                base, seq = rng.choice(command_payloads(c.caps))[1], 0
            x = rng.randrange(8)
            if x == 0:
                seq2 = rng.choice([s for s in (0, 1, 2, 3, 127, 255) if s != seq])
                raw, what = P.frames(base, seq2), f"sequence number {seq2}"
            elif x == 1:
                n = rng.choice([0, 1, len(base) - 1])
                raw, what = struct.pack("<I", n | seq << 24) + base, f"length {n} of {len(base)}"
            elif x == 2:
                n = rng.choice([len(base) + 1, 0xFFFFFE, 0xFFFFFF, 1000])
                raw, what = struct.pack("<I", n | seq << 24) + base, f"length {n} of {len(base)}"
            elif x == 3:
                raw = P.frames(base, seq)
                raw = raw[:rng.randrange(1, len(raw))]
                what = f"{len(raw)} bytes"
            elif x == 4:
                raw, what = rng.randbytes(rng.randrange(1, 200)), "garbage"
            elif x == 5:
                raw, what = struct.pack("<I", 0xFFFFFF | seq << 24) + b"\3" * 0xFFFFFF + struct.pack("<I", rng.choice([0, 5 << 24, 3 | 9 << 24])), "continuation"
            elif x == 6:
                raw, what = struct.pack("<I", seq << 24) * rng.randrange(1, 5), "empty packets"
            else:
                raw, what = b"GET / HTTP/1.1\r\nHost: x\r\n\r\n", "http"
            what = f"{'handshake' if pre else 'command'} {base[:20]!r}: {what}"
            c.send_raw(raw)
            w.work(w.sim.settle, what)
            # responses are well-formed frames with consecutive numbers
            if x in (0, 5) and c.packet_peek()[:1] != b"\xff" and (c.buffer() or not c.closed):
                raise Violation(f"{what}: neither refused nor closed, but {c.packet_peek()[:20]!r}")
            while c.frame():
                pass
            if c.buffer():
                raise ProtocolError(f"{what}: incomplete frame {c.buffer()[:40]!r}")
            w.witness.alive()
            w.check(c, what)
            w.released(c, what)


def random_commands(seed: int) -> None:
    """Random payloads in the command phase"""
    rng = random.Random(seed)
    with World() as w:
        c = ready(w, rng.choice(CAPS))
        for _ in range(150):
            code = rng.choice(list(KIND) + [P.COM_STMT_SEND_LONG_DATA, P.COM_STMT_CLOSE, P.COM_CHANGE_USER, rng.randrange(256)])
            p = bytes([code]) + rng.choice([
                rng.randbytes(rng.randrange(40)), bytes(rng.randrange(30)), b"\xff" * rng.randrange(40),
                struct.pack("<I", 0) + rng.randbytes(rng.randrange(30)), b"\xfe" + rng.randbytes(8) + b"\1" + rng.randbytes(9)])
            if code == P.COM_STMT_CLOSE and p[1:5] == bytes(4):
                continue
            what = f"payload {p!r}"
            c.send(p, 0)
            w.work(w.sim.settle, what)
            if outcome(w, c, p, what):
                c.alive()
            else:
                gone(w, c, what)
                w.released(c, what)
                c = ready(w, rng.choice(CAPS))
            w.check(c, what)


SQLS = ["", ";" * 3000, "(" * 3000, "SELECT " + "(" * 2000 + "1", "SELECT " + "-" * 5000 + "1", "SELECT 'a", "SELECT \"", "SELECT `", "/*", "--", "SELECT " + "1+" * 2000 + "1",
        "SET " + "a," * 1000, "SHOW VARIABLES LIKE '" + "%a" * 40 + "b'", "SHOW VARIABLES LIKE '" + "%_" * 60 + "'", "SHOW TABLES LIKE '" + "%a" * 40 + "b'",
        "SHOW VARIABLES LIKE '%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%zzz'",
        "SHOW", "SHOW FULL", "SHOW COLUMNS", "DESCRIBE", "USE", "KILL", "KILL x", "KILL 99999999999999999999", "KILL QUERY -1", "SET NAMES", "SET NAMES nosuch",
        "SET CHARACTER SET x", "SET @@time_zone = 'x'", "SET time_zone = '+99:99'", "SELECT /*+ SET_VAR(", "SELECT /*+ SET_VAR(a=) */ 1", "SELECT @@", "SELECT @@nosuch",
        "SELECT 1/0", "SELECT NOW(", "\0", "SELECT \0", "SELECT 1; SELECT", "CASE WHEN", "WITH RECURSIVE", "SELECT * FROM information_schema.nosuch",
        "SELECT nosuch FROM information_schema.tables", "SELECT CAST('x' AS SIGNED)", "\ufffd" * 200, "SELECT '" + "\\" * 3001, "EXPLAIN", "BEGIN BEGIN",
        "SELECT 0x", "SELECT 1e999", "SELECT " + "9" * 5000, "SELECT ?" * 50, "SET @@version = 'x'", "SET x = " + "9" * 5000, "SET autocommit = 1e999",
        "SET max_execution_time = " + "9" * 4000, "SELECT SUBSTRING('abc', 99999999999)", "SELECT REPEAT('a', -1)"]


def sql_text(lo: int) -> None:
    """Hostile statements against the session of the library, in both charsets and with undecodable bytes"""
    with World("session", hang=30) as w:
        c = w.sim.login("bob")
        for sql in SQLS[lo::4] + [b"SELECT '\xff\xfe'", b"\xc3", b"\x80" * 50]:
            raw = sql if isinstance(sql, bytes) else sql.encode()
            for code in (P.COM_QUERY, P.COM_STMT_PREPARE, P.COM_INIT_DB, P.COM_FIELD_LIST):
                p = bytes([code]) + raw
                what = f"{code:#x} {sql[:80]!r}"
                c.send(p, 0)
                w.work(w.sim.settle, what)
                if outcome(w, c, p, what):
                    c.alive()
                else:
                    raise Violation(f"{what}: connection closed")
                if code == P.COM_QUERY:
                    # whatever was assigned, later statements work
                    r = c.query("SELECT 1")
                    if r.kind != "rows":
                        raise Violation(f"{what}: then SELECT 1 gets {r.err}")
                w.check(c, what)
        w.released(c, "sql")


def drip(seed: int) -> None:
    """Clients that stall in the middle of anything don't keep others from being served"""
    rng = random.Random(seed)
    with World() as w:
        stalled = []
        for _ in range(20):
            c = w.sim.connect() if rng.random() < 0.5 else ready(w, rng.choice(CAPS))
            if not c.hs:
                c.greet()
                raw = P.frames(handshake_payloads(CAPS[0])[rng.randrange(4)][1], 1)
            else:
                raw = P.frames(rng.choice(command_payloads(c.caps))[1], 0)
            cut = rng.randrange(len(raw))
            for b in raw[:cut]:
                c.send_raw(bytes([b]))
                w.sim.settle()
            stalled.append(c)
            w.witness.alive()
        d = w.sim.login("new")
        d.alive()
        for c in stalled:
            w.n += 1
            c.disconnect(abrupt=rng.random() < 0.5)
        w.sim.settle()
        for c in stalled:
            if w.control.removed.count(c.hs.thread_id) != 1 or not c.tr.closed:
                raise Violation("a stalled connection isn't released when its client leaves")
        d.alive()
        w.witness.alive()


SCENARIOS = {"commands": commands, "allocation": allocation, "handshakes": handshakes, "auth_answers": auth_answers, "framing": framing,
             "random_commands": random_commands, "sql_text": sql_text, "drip": drip}


def cases(tier, seed):
    n = 1 if tier == "quick" else 8
    for s in range(n):
        for caps in (0, 1):
            for idx in range(15):
                yield "commands", {"caps": caps, "idx": idx, "seed": seed + 100 * s}
            for idx in range(5):
                yield "handshakes", {"caps": caps, "idx": idx, "seed": seed + 100 * s}
    for caps in (0, 1):
        for idx in range(15):
            yield "allocation", {"caps": caps, "which": "command", "idx": idx}
        for idx in range(5):
            yield "allocation", {"caps": caps, "which": "handshake", "idx": idx}
    for lo in range(4):
        yield "sql_text", {"lo": lo}
    for i in range(20 * n):
        yield "framing", {"seed": seed * 1000 + i}
        yield "random_commands", {"seed": seed * 1000 + i}
        yield "drip", {"seed": seed * 1000 + i}
        if i < 4 * n:
            yield "auth_answers", {"seed": seed * 1000 + i}


def known_executor():
    """A query on catalog tables that costs more than any bound on the packet's size suggests"""
    from mysql_mimic.session import Session  # pylint: disable=import-outside-toplevel
    with Sim(session_factory=Session, hang=2) as sim:
        c = sim.login()
        t = "information_schema.columns"
        try:
            c.query(f"SELECT COUNT(*) FROM {t} a, {t} b, {t} c")
        except Hang:
            return True
    return False


KNOWN = {"C07-executor": (known_executor, "SQL that SQLGlot's embedded executor evaluates (catalog queries, FROM-less SELECTs) has unbounded cost and "
                          "blocks the event loop, e.g. SELECT COUNT(*) FROM information_schema.columns a, information_schema.columns b, information_schema.columns c")}
