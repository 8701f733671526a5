"""C10: However a connection ends, every resource taken for it is released exactly once."""
import asyncio
import os
import random
import ssl as ssl_module

from lib import proto as P
from lib.apps import SpecApp
from lib.proto import Param, T
from lib.sim import Factory, Sim, Tracking, Violation
from mysql_mimic.auth import AbstractClearPasswordAuthPlugin, IdentityProvider, NativePasswordAuthPlugin, User
from mysql_mimic.constants import KillKind
from mysql_mimic.control import TooManyConnections
from mysql_mimic.errors import MysqlError

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Boom(Exception):
    pass


EXCS = {
    "boom": lambda: Boom("boom"),
    "my": lambda: MysqlError("my"),
    "key": lambda: KeyError("x"),
    "reset": lambda: ConnectionResetError("the app's"),
    "pipe": lambda: BrokenPipeError(),
    "eof": lambda: EOFError(),
    "incomplete": lambda: asyncio.IncompleteReadError(b"", 4),
    "stop": lambda: StopAsyncIteration(),
    "timeout": lambda: asyncio.TimeoutError(),
    "unicode": lambda: UnicodeDecodeError("utf8", b"x", 0, 1, "bad"),
    "recursion": lambda: RecursionError(),
    "toomany": TooManyConnections,
}


class App(SpecApp):
    """Raises EXC in the callback named by `fail`, after `slow` iterations"""

    def __init__(self, fail=None, exc="boom", slow=0):
        super().__init__()
        self.fail, self.exc, self.slow = fail, exc, slow

    async def enter(self, what):
        self.calls.append((what,))
        for _ in range(self.slow):
            await asyncio.sleep(0)
        if self.fail == what:
            raise EXCS[self.exc]()

    async def init(self, connection):
        self.conn = connection
        await self.enter("init")
        await super(SpecApp, self).init(connection)
        self.calls.append(("inited",))

    async def close(self):
        await self.enter("close")
        await super(SpecApp, self).close()
        self.calls.append(("closed",))

    async def use(self, database):
        await self.enter("use")
        await super().use(database)

    async def reset(self):
        await self.enter("reset")
        await super().reset()

    async def schema(self):
        await self.enter("schema")
        return await super().schema()

    async def handle_query(self, sql, attrs):
        await self.enter("query")
        return await super().handle_query(sql, attrs)

    async def query(self, expression, sql, attrs):
        await self.enter("query2")
        return [("x",)], ["a"]


class Slow(AbstractClearPasswordAuthPlugin):
    name = "slow"

    def __init__(self, fail=None, exc=None):
        super().__init__()
        self.fail, self.exc = fail, exc

    async def check(self, username, password):
        await asyncio.sleep(0)
        if self.fail == "plugin":
            raise EXCS[self.exc]()
        return username


class Provider(IdentityProvider):
    def __init__(self, fail=None, exc=None):
        self.fail, self.exc = fail, exc

    def get_plugins(self):
        return [NativePasswordAuthPlugin(), Slow(self.fail, self.exc)]

    def get_default_plugin(self):
        if self.fail == "default_plugin":
            raise EXCS[self.exc]()
        return super().get_default_plugin()

    async def get_user(self, username):
        await asyncio.sleep(0)
        if self.fail == "get_user":
            raise EXCS[self.exc]()
        if username == "nobody":
            return None
        if username == "pw":
            return User("pw", auth_string=NativePasswordAuthPlugin.create_auth_string("secret"),
                        auth_plugin="mysql_native_password")
        return User(username, auth_plugin="slow" if username == "slow" else "mysql_native_password")


class Control(Tracking):
    def __init__(self, fail=None, exc=None, slow=0):
        super().__init__(3)
        self.fail, self.exc, self.slow = fail, exc, slow
        self.added, self.removed = [], []

    async def add(self, connection):
        for _ in range(self.slow):
            await asyncio.sleep(0)
        if self.fail == "add":
            raise EXCS[self.exc]()
        cid = await super().add(connection)
        self.added.append(cid)
        return cid

    async def remove(self, connection_id):
        self.removed.append(connection_id)
        await super().remove(connection_id)
        if self.fail == "remove":
            raise EXCS[self.exc]()


# ------------------------------------------------------------------ conversations (client bytes)
CAPS = P.BASE_CAPS


def hello(user=b"user", auth=b"", plugin=b"mysql_native_password", caps=CAPS):
    return P.frames(P.handshake_response(caps, user, auth, 45, None, plugin), 1)


def cmd(*payloads):
    return b"".join(P.frames(p, 0) for p in payloads)


def conversations():
    q = lambda s: P.com_query(CAPS, s.encode())
    z = bytes(4)
    ex = lambda cur, n=1: P.com_stmt_execute(CAPS, 0, [Param(T["LONG"], i) for i in range(n)], None, cur)
    return {
        "login": hello(),
        "nobody": hello(b"nobody"),
        "wrong": hello(b"pw", b"x" * 20),
        "switch": hello(b"slow", b"") + P.frames(b"pw\0", 3),
        "quit": hello() + cmd(bytes([P.COM_QUIT])),
        "queries": hello() + cmd(q("{'c':2,'r':3}"), q("SELECT 1"), q("SET sql_mode = 'x'"), q("select x from y")),
        "stream": hello() + cmd(q("{'c':1,'r':30,'s':'slowagen'}"), bytes([P.COM_PING])),
        "error": hello() + cmd(q("{'e':'my'}"), q("{'e':'value','r':3,'at':1}"), q("SELECT (")),
        "mixed": hello() + cmd(bytes([P.COM_INIT_DB]) + b"db", bytes([P.COM_STMT_PREPARE]) + b"{'c':1,'r':9,'s':'slowagen'}",
                               ex(True, 0), bytes([P.COM_STMT_FETCH]) + z + b"\3\0\0\0", bytes([P.COM_STMT_RESET]) + z,
                               ex(True, 0), bytes([P.COM_STMT_CLOSE]) + z, bytes([P.COM_FIELD_LIST]) + b"t\0"),
        "change": hello() + cmd(P.change_user(CAPS, b"u2", b"", b"db", 45, b"mysql_native_password"), bytes([P.COM_PING])),
        "change_fail": hello() + cmd(P.change_user(CAPS, b"nobody", b"", b"db", 45, b"mysql_native_password"), bytes([P.COM_PING])),
        "change_more": hello() + cmd(P.change_user(CAPS, b"slow", b"", b"", 45, b"mysql_native_password")) + P.frames(b"pw\0", 2)
        + cmd(bytes([P.COM_PING])),
        "bad_seq": hello() + P.frames(bytes([P.COM_PING]), 5),
        "bad_command": hello() + cmd(b"\x77", b""),
        "bad_payload": hello() + cmd(bytes([P.COM_STMT_EXECUTE]) + b"\1", bytes([P.COM_STMT_FETCH]), bytes([P.COM_CHANGE_USER]) + b"x"),
        "bad_hello": P.frames(b"\1\2\3", 1),
        "kill_self": hello() + cmd(q("KILL QUERY 196608"), q("KILL 196608"), bytes([P.COM_PING])),
    }


class World:
    def __init__(self, fail=None, exc="boom", slow=0, window=None, sslctx=None, cslow=0):
        self.control = Control(fail, exc, cslow)
        self.f = Factory(lambda: self.make(fail, exc, slow))
        kw = {"ssl": sslctx} if sslctx else {}
        self.sim = Sim(session_factory=self.f, control=self.control, identity_provider=Provider(fail, exc), hang=20, **kw)
        self.fail = fail
        self.window = window

    def make(self, fail, exc, slow):
        if fail == "factory":
            raise EXCS[exc]()
        return App(fail, exc, slow)

    def __enter__(self):
        return self

    def __exit__(self, *e):
        self.sim.shutdown()

    def connect(self, **kw):
        c = self.sim.connect(window=self.window, **kw)
        return c

    def release(self):
        for s in self.f.sessions:
            for f in s.pending:
                if not f.done():
                    f.set_result(None)
        self.sim.settle()

    def check(self, c, ended=True):
        """Everything is released, if the connection is over"""
        w = self
        if not ended:
            return
        if not c.tr.closed:
            raise Violation("the socket is not closed")
        if w.sim.tasks():
            raise Violation(f"tasks still running: {w.sim.tasks()}")
        if w.control.added != w.control.removed:
            raise Violation(f"registered {w.control.added}, removed {w.control.removed}")
        left = w.sim.loop.run_until_complete(w.control.registered())
        if left:
            raise Violation(f"left in the registry: {left}")
        for s in w.f.sessions:
            calls = [x[0] for x in s.calls]
            if calls.count("init") > 1:
                raise Violation(f"initialised more than once: {calls}")
            inited = calls.count("inited")
            closes = calls.count("close")
            if inited != closes:
                raise Violation(f"initialised {inited} times, closed {closes} times: {calls}")
            if closes and calls[calls.index("close"):] not in (["close", "closed"], ["close"]):
                raise Violation(f"used after close: {calls}")
            if closes and w.fail != "close" and calls[-1] != "closed":
                raise Violation(f"close was interrupted: {calls}")
            if calls and calls[0] != "init":
                raise Violation(f"used before it was initialised: {calls}")

    def running(self, c):
        """While the connection lives, the session is neither closed nor unregistered"""
        if not c.tr.closed:
            for s in self.f.sessions:
                if ("close",) in s.calls:
                    raise Violation("the session was closed while the connection is alive")
            if self.control.added and self.control.removed:
                raise Violation("the connection was removed from the registry while it is alive")


def cut(name, at, how, slow=0, window=None, steps=None):
    """Everything before byte `at` arrives, then the client goes away"""
    data = conversations()[name]
    with World(slow=slow, window=window) as w:
        c = w.connect()
        c.tr.client_send(data[:at])
        if steps is None:
            w.sim.settle()
            w.running(c)
        else:
            for _ in range(steps):
                w.sim.step()
        c.disconnect(how == "abrupt")
        w.sim.settle()
        w.release()
        if window is not None and how != "abrupt":
            c.tr.client_accept(None)
            w.sim.settle()
        w.check(c)


def write_fails(name, n):
    """The n-th write to the socket fails"""
    data = conversations()[name]
    with World() as w:
        c = w.connect(settle=False)
        c.tr.fail_at = n
        w.sim.settle()
        c.tr.client_send(data)
        w.sim.settle()
        failed = c.tr.lost
        w.release()
        if not failed:
            w.running(c)
            c.disconnect(False)
            w.sim.settle()
        w.check(c)


def raises(fail, exc, slow):
    """An application callback raises"""
    conv = conversations()
    with World(fail, exc, slow) as w:
        for name in ("mixed", "queries", "change", "change_more", "quit", "switch"):
            w.f.sessions.clear()
            w.control.added.clear()
            w.control.removed.clear()
            c = w.connect()
            c.tr.client_send(conv[name])
            w.sim.settle()
            w.running(c)
            if not c.tr.closed:
                if fail in ("init", "factory", "default_plugin", "add") or fail == "get_user" or fail == "plugin" and name == "switch":
                    raise Violation(f"{fail} failed, but the connection is kept open")
                c.disconnect(False)
                w.sim.settle()
            w.check(c)


def pending(what, how, k):
    """The client goes away while the application is busy"""
    progs = {
        "query": P.com_query(CAPS, b"{'c':1,'r':3,'wait':1}"),
        "rows": P.com_query(CAPS, b"{'c':1,'r':500,'w':1000}"),
        "binary": P.com_stmt_execute(CAPS, 0, [], None, False),
        "cursor": P.com_stmt_execute(CAPS, 0, [], None, True),
        "slow": P.com_query(CAPS, b"{'c':1,'r':50,'s':'slowagen'}"),
        "kill": P.com_query(CAPS, b"KILL 196608"),
    }
    with World() as w:
        c = w.sim.login(window=None)
        c.prepare("{'c':1,'r':500,'w':1000}")
        c.tr.client_accept(0)
        c.send(progs[what], 0)
        for _ in range(k):
            w.sim.step()
        if how == "kill":
            w.f.sessions[-1].conn.kill(KillKind.CONNECTION)
        elif how == "killquery":
            w.f.sessions[-1].conn.kill(KillKind.QUERY)
            c.disconnect(False)
        else:
            c.disconnect(how == "abrupt")
        w.sim.settle()
        w.release()
        c.tr.client_accept(None)
        w.sim.settle()
        w.check(c)


def closing(k, how, slow):
    """Kills and disconnects while session.close is running"""
    with World(slow=slow) as w:
        c = w.sim.login()
        conn = w.f.sessions[-1].conn
        c.send(bytes([P.COM_QUIT]), 0)
        for _ in range(k):
            w.sim.step()
        if how in ("C", "Q"):
            conn.kill(KillKind.CONNECTION if how == "C" else KillKind.QUERY)
        elif how == "CC":
            conn.kill(KillKind.CONNECTION)
            w.sim.step()
            conn.kill(KillKind.CONNECTION)
        else:
            c.disconnect(how == "abrupt")
        w.sim.settle()
        w.check(c)


def killed(k, kind, slow, prog):
    """Kills at any moment of a connection's life"""
    data = conversations()[prog]
    with World(slow=slow, cslow=slow) as w:
        c = w.connect(settle=False)
        c.tr.client_send(data)
        for _ in range(k):
            w.sim.step()
        for conn in list(w.control.live.values()):
            for x in kind:
                conn.kill(KillKind.CONNECTION if x == "C" else KillKind.QUERY)
        w.sim.settle()
        if not c.tr.closed:
            w.running(c)
            c.disconnect(False)
            w.sim.settle()
        w.check(c)


def tls(at, how):
    """The client goes away during or after the TLS handshake"""
    ctx = ssl_module.SSLContext(ssl_module.PROTOCOL_TLS_SERVER)
    ctx.load_cert_chain(os.path.join(HERE, "lib/cert.pem"), os.path.join(HERE, "lib/key.pem"))
    cl = ssl_module.SSLContext(ssl_module.PROTOCOL_TLS_CLIENT)
    cl.check_hostname = False
    cl.verify_mode = ssl_module.CERT_NONE
    with World(sslctx=ctx) as w:
        c = w.connect()
        c.greet()
        count = [0]
        real = c.tr.client_send
        gone = [False]

        def send(data):
            if gone[0]:
                return
            if count[0] + len(data) >= at:
                real(data[:at - count[0]])
                w.sim.settle()
                gone[0] = True
                c.disconnect(how == "abrupt")
                w.sim.settle()
            else:
                real(data)
            count[0] += len(data)

        c.tr.client_send = send
        try:
            c.login("user", tls=cl)
            c.query("{'c':1,'r':2}")
            c.quit()
        except Exception:  # pylint: disable=broad-except
            if not gone[0]:
                raise
        if not gone[0]:
            c.tr.client_eof()
        # asyncio waits for the client's close_notify for ssl_shutdown_timeout
        w.sim.settle()
        for _ in range(3):
            if w.sim.loop._scheduled and not c.tr.closed:
                for h in list(w.sim.loop._scheduled):
                    if not h._cancelled:
                        h._run()
                        h.cancel()
                w.sim.settle()
        w.check(c)


def rand(seed):
    rng = random.Random(seed)
    conv = conversations()
    name = rng.choice(list(conv))
    data = conv[name]
    fail = rng.choice([None, None, None, "init", "close", "use", "reset", "query", "schema", "get_user", "plugin", "remove", "query2"])
    slow = rng.randrange(3)
    with World(fail, rng.choice(list(EXCS)), slow, window=rng.choice([None, None, 0, 50, 300])) as w:
        c = w.connect(settle=False)
        if rng.random() < 0.3:
            c.tr.fail_at = rng.randrange(1, 12)
        pos = 0
        gone = False
        for _ in range(rng.randrange(5, 80)):
            x = rng.random()
            if x < 0.45:
                if w.sim.ready:
                    w.sim.step()
            elif x < 0.7 and pos < len(data) and not gone:
                n = rng.choice([1, 2, 5, 30, 1000])
                c.tr.client_send(data[pos:pos + n])
                pos += n
            elif x < 0.75:
                for conn in list(w.control.live.values()):
                    conn.kill(rng.choice([KillKind.CONNECTION, KillKind.QUERY, KillKind.QUERY]))
            elif x < 0.78 and not gone:
                gone = True
                c.disconnect(rng.random() < 0.5)
            elif x < 0.85:
                c.tr.client_accept(rng.choice([None, 10, 100]))
        if not gone:
            c.disconnect(rng.random() < 0.5)
        w.sim.settle()
        w.release()
        c.tr.client_accept(None)
        w.sim.settle()
        w.release()
        w.check(c)


SCENARIOS = {"cut": cut, "write_fails": write_fails, "raises": raises, "pending": pending, "closing": closing, "killed": killed,
             "tls": tls, "rand": rand}


def cases(tier, seed):
    quick = tier == "quick"
    rng = random.Random(seed)
    conv = conversations()
    for name, data in conv.items():
        for at in range(len(data) + 1):
            for how in ("clean", "abrupt"):
                yield "cut", {"name": name, "at": at, "how": how}
            if not quick or rng.random() < 0.3:
                yield "cut", {"name": name, "at": at, "how": rng.choice(["clean", "abrupt"]), "slow": 2}
                yield "cut", {"name": name, "at": at, "how": rng.choice(["clean", "abrupt"]), "window": 0}
        for steps in range(0, 40 if quick else 120):
            for how in ("clean", "abrupt"):
                yield "cut", {"name": name, "at": len(data), "how": how, "slow": rng.choice([0, 1, 2]), "steps": steps}
        for n in range(1, 12 if quick else 40):
            yield "write_fails", {"name": name, "n": n}
    for fail in ("factory", "init", "close", "use", "reset", "query", "query2", "schema", "get_user", "plugin", "default_plugin", "add",
                 "remove"):
        for exc in EXCS:
            for slow in (0, 2):
                yield "raises", {"fail": fail, "exc": exc, "slow": slow}
    for what in ("query", "rows", "binary", "cursor", "slow", "kill"):
        for how in ("clean", "abrupt", "kill", "killquery"):
            for k in (0, 1, 2, 3, 4, 5, 6, 8, 10, 15, 20, 40, 60):
                yield "pending", {"what": what, "how": how, "k": k}
    for k in range(0, 14):
        for how in ("C", "Q", "CC", "clean", "abrupt"):
            for slow in (0, 1, 4):
                yield "closing", {"k": k, "how": how, "slow": slow}
    for prog in conv:
        for k in range(0, 30 if quick else 80):
            for kind in ("C", "Q", "QC"):
                yield "killed", {"k": k, "kind": kind, "slow": rng.choice([0, 1, 2]), "prog": prog}
    for at in list(range(1, 60)) + list(range(60, 2200, 50 if quick else 7)):
        for how in ("clean", "abrupt"):
            yield "tls", {"at": at, "how": how}
    for i in range(1500 if quick else 30000):
        yield "rand", {"seed": seed * 104729 + i}
