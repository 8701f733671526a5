"""C08: connections do not interfere: each behaves as if it were alone."""
import asyncio
import os
import pickle
import random
import signal
import traceback

from lib import proto as P
from lib.proto import Param, T
from lib.apps import spec_result, parse_spec
from lib.sim import Hang, Session, Sim, Violation
from mysql_mimic.auth import AbstractClearPasswordAuthPlugin, IdentityProvider, NativePasswordAuthPlugin, User

USERS = {"ann": b"pa", "bob": b"pb", "cat": b""}


class Clear(AbstractClearPasswordAuthPlugin):
    name = "clear"

    async def check(self, username, password):
        await asyncio.sleep(0)
        return "as_" + username if password == "pw" else None


class Provider(IdentityProvider):
    def __init__(self):
        self.plugins = [NativePasswordAuthPlugin(), Clear()]

    def get_plugins(self):
        return self.plugins

    async def get_user(self, username):
        await asyncio.sleep(0)
        if username == "dan":
            return User("dan", auth_plugin="clear")
        if username not in USERS:
            return None
        pw = USERS[username]
        return User(username, auth_plugin="mysql_native_password", auth_string=P.native_auth_string(pw) if pw else "")


class App(Session):
    async def query(self, expression, sql, attrs):
        name = expression.args["from"].this.name if expression.args.get("from") else ""
        rows = [(self.database, self.username, str(self.variables.get("external_user")), str(self.variables.get("sql_mode")),
                 str(self.variables.get("time_zone")), repr(sorted(attrs.items())), sql)]
        if name == "slow":
            for _ in range(7):
                await asyncio.sleep(0)
        if name == "gen":
            async def gen():
                for i in range(5):
                    await asyncio.sleep(0)
                    yield (self.database, self.username, str(i), str(self.variables.get("sql_mode")),
                           str(self.variables.get("time_zone")), self.variables.get("character_set_results"), sql)
            return gen(), list("abcdefg")
        if name == "fail":
            raise ValueError(f"failed for {self.username}")
        if name == "wait":
            f = asyncio.get_running_loop().create_future()
            WAITING.append(f)
            await f
        rows.append((self.database, self.username, str(self.variables.get("external_user")), str(self.variables.get("sql_mode")),
                     str(self.variables.get("time_zone")), repr(sorted(attrs.items())), "after"))
        return rows, list("abcdefg")

    async def schema(self):
        await asyncio.sleep(0)
        u = self.username or "none"
        return {u + "_db": {u + "_t": {u + "_c": "INT"}, "t": {"a_" + u: "TEXT"}}, "db": {"t": {u: "INT"}}}

    async def handle_query(self, sql, attrs):
        spec = parse_spec(sql)
        if spec is not None:
            return spec_result(spec)
        return await super().handle_query(sql, attrs)


WAITING: list = []

VARS = {"auto_increment_increment": "%d", "autocommit": "0", "character_set_client": "'latin1'", "character_set_connection": "'cp1251'",
        "character_set_database": "'greek'", "character_set_results": "'utf8'", "character_set_server": "'hebrew'",
        "collation_connection": "'utf8mb4_bin'", "collation_database": "'latin1_bin'", "collation_server": "'utf8mb4_bin'",
        "init_connect": "'x%d'", "interactive_timeout": "1%d", "lower_case_table_names": "1", "max_allowed_packet": "10%d",
        "max_execution_time": "7%d", "net_buffer_length": "8%d", "net_write_timeout": "9%d", "sql_auto_is_null": "1", "sql_mode": "'S%d'",
        "sql_select_limit": "5%d", "time_zone": "'+0%d:30'", "transaction_read_only": "1", "transaction_isolation": "'SERIALIZABLE'",
        "wait_timeout": "3%d", "event_scheduler": "'ON'", "default_storage_engine": "'E%d'", "default_tmp_storage_engine": "'F%d'"}

SQLS = ["SELECT a FROM slow", "SELECT a FROM gen", "SELECT a FROM gen", "SELECT a FROM fail", "SELECT a FROM wait", "SELECT a FROM wait", "SELECT a FROM x",
        "SET @@sql_mode = 'M%d'", "SET sql_mode = 'N%d'", "SET time_zone = '+0%d:00'", "SET NAMES latin1", "SET NAMES utf8mb4", "SET CHARACTER SET cp1251",
        "SET autocommit = 0", "SET sql_mode = DEFAULT", "SET TRANSACTION READ ONLY", "SELECT @@sql_mode, @@time_zone, @@character_set_client",
        "SELECT @@autocommit, @@transaction_read_only, @@external_user", "SHOW VARIABLES", "SHOW VARIABLES LIKE 'sql%%'", "USE db%d", "USE db",
        "SELECT DATABASE()", "SELECT USER(), CURRENT_USER()", "SELECT /*+ SET_VAR(sql_mode='H%d') */ a FROM slow",
        "SELECT /*+ SET_VAR(sql_mode='H%d') */ a FROM wait", "SELECT /*+ SET_VAR(time_zone='+1%d:00') */ a FROM gen",
        "SELECT /*+ SET_VAR(sql_mode='H%d') */ a FROM fail", "SHOW DATABASES", "SHOW TABLES FROM db", "SHOW COLUMNS FROM t FROM db", "SHOW TABLES",
        "SELECT * FROM information_schema.columns WHERE table_schema <> 'information_schema' AND table_schema <> 'mysql'", "KILL 4294967295", "KILL QUERY 7",
        "SELECT nosuch FROM information_schema.tables", "SELECT @@nosuch", "bad sql (", "BEGIN", "{'c':3,'r':50,'s':'slowagen'}", "{'c':2,'r':9,'s':'slowagen','e':'my','at':4}",
        "SELECT CONNECTION_ID() = @@nosuch", "SET external_user = 'x'", "SELECT a FROM slow WHERE x = '\u00e9'"]


def program(rng, n):
    """A connection's commands, as plain data"""
    ops = [("login", rng.choice(["ann", "bob", "cat", "cat", "dan"]), rng.choice([None, "db", "d1"]),
            rng.choice([0, P.DEPRECATE_EOF, P.QUERY_ATTRIBUTES, P.QUERY_ATTRIBUTES | P.DEPRECATE_EOF]), rng.random() < 0.04)]
    for _ in range(n):
        x = rng.random()
        if x < 0.07:
            k = rng.choice(sorted(VARS))
            s = rng.choice([f"SET {k} = {VARS[k]}", f"SET @@SESSION.{k} = {VARS[k]}", f"SELECT /*+ SET_VAR({k} = {VARS[k]}) */ a FROM slow",
                            f"SELECT @@{k}", "SHOW VARIABLES", f"SET {k} = DEFAULT"])
            ops.append(("query", s.replace("%d", str(rng.randrange(9))), False, 0))
        elif x < 0.45:
            s = rng.choice(SQLS)
            s = s.replace("%d", str(rng.randrange(9))).replace("%%", "%")
            ops.append(("query", s, rng.random() < 0.3, rng.randrange(100)))
        elif x < 0.55:
            ops.append(("prepare", rng.choice(["SELECT ? FROM x", "SELECT ?, ? FROM gen", "SELECT a FROM slow", "SELECT ? FROM wait",
                                               "{'c':2,'r':20,'s':'agen'}", "SELECT ? FROM fail"])))
        elif x < 0.60:
            ops.append(("long", rng.randrange(3), rng.randrange(2), f"ld{rng.randrange(99)}".encode()))
        elif x < 0.72:
            ops.append(("execute", rng.randrange(4), rng.random() < 0.5, rng.randrange(1000)))
        elif x < 0.80:
            ops.append(("fetch", rng.randrange(4), rng.randrange(1, 6)))
        elif x < 0.84:
            ops.append(("reset", rng.randrange(4)))
        elif x < 0.86:
            ops.append(("close", rng.randrange(4)))
        elif x < 0.90:
            ops.append(("init_db", rng.choice(["db", "d2", "ann_db"])))
        elif x < 0.94:
            ops.append(("field_list", rng.choice(["t", "ann_t", "bob_t"])))
        elif x < 0.97:
            ops.append(("change_user", rng.choice(["ann", "bob", "cat"]), rng.choice(["", "db"]), rng.random() < 0.05))
        elif x < 0.99:
            ops.append(("ping",))
        else:
            ops.append(("reset_connection",))
    ops.append(("query", "SHOW VARIABLES", False, 0))
    if rng.random() < 0.3:
        ops.append(("quit",))
    return ops


def masked(p, hs):
    """A handshake packet without its connection id and nonce, at their places in it"""
    i = p.index(b"\0") + 1
    assert p[i:i + 4] == hs.thread_id.to_bytes(4, "little") and p[i + 4:i + 12] == hs.nonce[:8]
    j = i + 4 + 8 + 1 + 2 + 1 + 2 + 2 + 1 + 10
    assert p[j:j + 12] == hs.nonce[8:20]
    return p[:i] + p[i + 12:j] + p[j + 12:]


def run(c, ops, out, waiting=None):
    """Generator that plays a program; yields while it waits for the server"""
    stmts = {}

    def recv():
        while True:
            p = c.packet()
            if p is not None:
                return p
            if c.closed and not c.buffer():
                return None
            yield

    def response(kind, columns=None):
        d = P.Decoder(kind, c.caps, columns)
        while True:
            p = yield from recv()
            if p is None:
                out.append("closed")
                return None
            out.append(p)
            if d.feed(p):
                return d.r

    def auth(pw, nonce):
        while True:
            p = yield from recv()
            if p is None:
                out.append("closed")
                return False
            if p[:1] == b"\xfe":
                r = P.R(p)
                r.take(1)
                name, data = r.znull(), r.rest()
                out.append(("switch", name))
                c.send(P.native_scramble(pw, data.rstrip(b"\0")) if b"native" in name else b"pw\0")
            elif p[:1] == b"\1":
                out.append("more")
                c.send(P.native_scramble(pw, p[1:].rstrip(b"\0")))
            else:
                out.append(p)
                return p[:1] == b"\0"

    for op in ops:
        k = op[0]
        if k == "login":
            p = yield from recv()
            c.hs = P.parse_handshake(p)
            out.append(masked(p, c.hs))
            _, user, db, caps, wrong = op
            caps |= P.BASE_CAPS | (P.CONNECT_WITH_DB if db else 0)
            c.caps = caps & c.hs.caps
            pw = b"nope" if wrong else USERS.get(user, b"")
            c.send(P.handshake_response(c.caps, user.encode(), P.native_scramble(pw, c.hs.nonce[:20]), 45, db.encode() if db else None,
                                        b"mysql_native_password"))
            ok = yield from auth(pw, c.hs.nonce[:20])
            if not ok:
                out.append("denied")
                return
        elif k == "query":
            attrs = None
            if op[2] and c.caps & P.QUERY_ATTRIBUTES:
                attrs = [Param(T["LONG"], op[3], name=b"k"), Param(T["VAR_STRING"], b"v", name=b"n%d" % op[3])]
            c.send(P.com_query(c.caps, op[1].encode(), attrs), 0)
            yield from response("query")
        elif k == "prepare":
            c.send(bytes([P.COM_STMT_PREPARE]) + op[1].encode(), 0)
            r = yield from response("prepare")
            if r and r.kind == "prepare":
                stmts[r.stmt_id] = [r.n_params, {}, None]
        elif k == "long":
            c.send(bytes([P.COM_STMT_SEND_LONG_DATA]) + op[1].to_bytes(4, "little") + op[2].to_bytes(2, "little") + op[3], 0)
            if op[1] in stmts and op[2] < stmts[op[1]][0]:
                stmts[op[1]][1][op[2]] = 1
        elif k == "execute":
            st = stmts.get(op[1], [0, {}, None])
            params = [Param(T["BLOB"], None, long_data=True) if i in st[1] else Param(T["LONG"], op[3] + i) for i in range(st[0])]
            st[1] = {}
            c.send(P.com_stmt_execute(c.caps, op[1], params, None, op[2]), 0)
            r = yield from response("execute_cursor" if op[2] else "execute")
            if r:
                st[2] = r.columns if r.kind == "rows" and op[2] else None
        elif k == "fetch":
            st = stmts.get(op[1], [0, {}, None])
            c.send(bytes([P.COM_STMT_FETCH]) + op[1].to_bytes(4, "little") + op[2].to_bytes(4, "little"), 0)
            yield from response("fetch", st[2] or [])
        elif k == "reset":
            c.send(bytes([P.COM_STMT_RESET]) + op[1].to_bytes(4, "little"), 0)
            r = yield from response("ok")
            if op[1] in stmts:
                stmts[op[1]][1] = {}
        elif k == "close":
            c.send(bytes([P.COM_STMT_CLOSE]) + op[1].to_bytes(4, "little"), 0)
            stmts.pop(op[1], None)
        elif k == "init_db":
            c.send(bytes([P.COM_INIT_DB]) + op[1].encode(), 0)
            yield from response("ok")
        elif k == "field_list":
            c.send(bytes([P.COM_FIELD_LIST]) + op[1].encode() + b"\0", 0)
            yield from response("field_list")
        elif k == "change_user":
            pw = b"nope" if op[3] else USERS[op[1]]
            c.send(P.change_user(c.caps, op[1].encode(), P.native_scramble(pw, c.hs.nonce[:20]), op[2].encode(), 45,
                                 b"mysql_native_password"), 0)
            ok = yield from auth(pw, c.hs.nonce[:20])
            if not ok:
                out.append("denied")
                return
        elif k == "ping":
            c.send(bytes([P.COM_PING]), 0)
            yield from response("ok")
        elif k == "reset_connection":
            c.send(bytes([P.COM_RESET_CONNECTION]), 0)
            yield from response("ok")
        elif k == "quit":
            c.send(bytes([P.COM_QUIT]), 0)
            return


def isolated(fn):
    """In a process of its own, so that nothing is left over in this one for the next runs"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                res = ("ok", fn())
            except Violation as e:
                res = ("violation", str(e))
            except Hang as e:
                res = ("hang", str(e))
            except BaseException:  # pylint: disable=broad-except
                res = ("crash", traceback.format_exc())
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    finally:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    if not data:
        raise Violation("the process running the server died")
    kind, res = pickle.loads(data)
    if kind == "violation":
        raise Violation(res)
    if kind == "hang":
        raise Hang(res)
    if kind == "crash":
        raise RuntimeError(res)
    return res


def alone(ops):
    WAITING.clear()
    out = []
    with Sim(session_factory=App, identity_provider=Provider()) as sim:
        c = sim.connect()
        g = run(c, ops, out)
        for _ in range(100000):
            try:
                next(g)
            except StopIteration:
                break
            sim.settle()
            if not sim.ready and WAITING:
                for f in WAITING:
                    if not f.done():
                        f.set_result(None)
                WAITING.clear()
        else:
            raise Violation("a program does not end")
    return out


def together(rng, progs, provider=None):
    WAITING.clear()
    outs = [[] for _ in progs]
    with Sim(session_factory=App, identity_provider=provider or Provider()) as sim:
        live = []
        for i, ops in enumerate(progs):
            c = sim.connect(settle=False)
            live.append((c, run(c, ops, outs[i])))
        burst = rng.choice([1, 1, 3, 20])
        idle = 0
        while live:
            i = rng.randrange(len(live))
            for _ in range(rng.randrange(1, burst + 1)):
                if not sim.ready:
                    break
                sim.step()
            n = len(outs[i]) if i < len(outs) else 0
            try:
                next(live[i][1])
            except StopIteration:
                live.pop(i)
                idle = 0
                continue
            if rng.random() < 0.1 and WAITING:
                f = WAITING.pop(rng.randrange(len(WAITING)))
                if not f.done():
                    f.set_result(None)
            idle = 0 if sim.ready else idle + 1
            if idle > 60:
                while WAITING:
                    f = WAITING.pop()
                    if not f.done():
                        f.set_result(None)
            if idle > 2000:
                raise Violation("the server doesn't answer")
    return outs


def compare(progs, solo, outs):
    for k, (a, b) in enumerate(zip(solo, outs)):
        if a != b:
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            raise Violation(f"connection {k} behaves differently than alone at packet {i}: {b[i:i + 1]!r} instead of {a[i:i + 1]!r}; "
                            f"previous {a[max(0, i - 3):i]!r}; program {progs[k]}")


def interleave(seed: int, n: int, rounds: int) -> None:
    rng = random.Random(seed)
    progs = [program(rng, rng.randrange(5, 22)) for _ in range(n)]
    solo = [isolated(lambda p=p: alone(p)) for p in progs]
    for _ in range(rounds):
        r = random.Random(rng.random())
        compare(progs, solo, isolated(lambda r=r: together(r, progs)))


def sequence(seed: int) -> None:
    """Connections one after the other on one server: nothing is left over for the next one"""
    rng = random.Random(seed)
    progs = [program(rng, 10) for _ in range(4)]
    progs += progs[:2]
    solo = [isolated(lambda p=p: alone(p)) for p in progs]
    compare(progs, solo, isolated(lambda: one_by_one(rng, progs)))


def one_by_one(rng, progs):
    WAITING.clear()
    outs = []
    with Sim(session_factory=App, identity_provider=Provider()) as sim:
        for ops in progs:
            out = []
            c = sim.connect()
            g = run(c, ops, out)
            while True:
                try:
                    next(g)
                except StopIteration:
                    break
                sim.settle()
                while WAITING:
                    f = WAITING.pop()
                    if not f.done():
                        f.set_result(None)
            if rng.random() < 0.7:
                c.disconnect(rng.random() < 0.5)
                sim.settle()
            outs.append(out)
    return outs


def own_id(seed: int) -> None:
    """CONNECTION_ID() and all other information functions are each connection's own, however they interleave"""
    isolated(lambda: _own_id(seed))


class Own(App):
    """Its server version, too, is the session's own"""

    async def init(self, connection):
        await super().init(connection)
        self.variables.set("version", f"9.{connection.connection_id}", force=True)
        self.variables.set("external_user", f"ext{connection.connection_id}", force=True)


def _own_id(seed: int) -> None:
    rng = random.Random(seed)
    with Sim(session_factory=Own, identity_provider=Provider()) as sim:
        cs = [sim.login("cat") for _ in range(4)]
        if len({c.hs.nonce for c in cs}) != 4:
            raise Violation("two connections got the same nonce")
        for _ in range(10):
            for c in rng.sample(cs, 4):
                c.send(P.com_query(c.caps, b"SELECT CONNECTION_ID()"), 0)
                if rng.random() < 0.5 and sim.ready:
                    sim.step()
            sim.settle()
            for c in cs:
                r = c.read_response("query")
                if r.rows != [[str(c.hs.thread_id).encode()]]:
                    raise Violation(f"CONNECTION_ID() {r.rows}, the handshake announced {c.hs.thread_id}")
        for k in range(3):
            for c in rng.sample(cs, 4):
                if c.query(f"USE db{c.hs.thread_id}_{k}").kind != "ok":
                    raise Violation("USE failed")
            f = rng.choice(["VERSION(), DATABASE(), USER()", "USER(), SCHEMA(), VERSION()", "@@version, database(), @@external_user"])
            for c in rng.sample(cs, 4):
                c.send(P.com_query(c.caps, b"SELECT " + f.encode()), 0)
                if rng.random() < 0.5 and sim.ready:
                    sim.step()
            sim.settle()
            for c in cs:
                r = c.read_response("query")
                i = c.hs.thread_id
                if sorted(r.rows[0]) != sorted(x.encode() for x in (f"9.{i}", f"db{i}_{k}", f"ext{i}")):
                    raise Violation(f"SELECT {f}: {r.rows} on connection {i}")


SCENARIOS = {"interleave": interleave, "sequence": sequence, "own_id": own_id}


def cases(tier, seed):
    n = 1 if tier == "quick" else 12
    base = seed * 32452843
    for i in range(400 * n):
        yield "interleave", {"seed": base + i, "n": 2 + i % 2, "rounds": 3}
        if i % 4 == 0:
            yield "sequence", {"seed": base + i}
            yield "own_id", {"seed": base + i}
