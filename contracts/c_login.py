"""connection.py and server.py: who is let in, and what is left when a connection ends"""
import dataclasses

from contracts import ghost
from contracts.ghost import Env, Failure, Ghostly, finish
from dv import shadow, sym
from dv.core import Unsupported, term, unit
from dv.shadow import Invariant, replace_everywhere
from dv.spec import And, Implies, Not, Or, eq, length, opaque, run
from dv.sym import SSeq, SStr

LOOPS = {"*": lambda c, it: None if it is not None else c.state["exchange"].loop(c)}


class User(Ghostly):
    _mutable = False

    def __init__(self, v):
        self.name = v.text("account")
        self.auth_plugin = None if v.choose(2, "has no plugin?") else v.text("auth_plugin")


class Plugin(Ghostly):
    """Any plugin: each step gives data for the client, a verdict, or fails"""
    _mutable = False

    def __init__(self, ex, tag, name):
        self.ex, self.tag, self.name = ex, tag, name
        v = ex.v
        self.client_plugin_name = None
        if not v.choose(2, f"{tag} accepts any client plugin?"):
            self.client_plugin_name = v.text(f"{tag}_client_plugin")
            v.assume(length(self.client_plugin_name) > 0)

    async def start(self, auth_info=None):
        ex = self.ex
        ex.v.check("one exchange at a time", ex.state is None)
        ex.state = State(self)
        if auth_info is not None:
            ex.hears(self, auth_info)
        return await ex.decide(), ex.state


class State(Ghostly):
    _mutable = False

    def __init__(self, plugin):
        self.plugin = plugin

    async def asend(self, info):
        ex = self.plugin.ex
        if ex.state is None:
            ex.state = self  # the exchange that began with the handshake
        ex.v.check("the exchange goes on where it began", self is ex.state)
        ex.hears(self.plugin, info)
        return await ex.decide()


class Exchange(Ghostly):
    """An exchange of authentication data, and what may be asked of it"""

    def __init__(self, v, env):
        self.v, self.env = v, env
        env.client.expect("auth")
        self.account = self.user_plugin = self.default = self.state = None
        self.reads = self.looping = 0
        self.verdict = None  # the latest decision
        self.optimistic = False
        v.state["exchange"] = self
        auth = self.auth = v.mod("auth")
        env.provider.get_user = self.get_user
        env.provider.get_plugin = self.get_plugin
        env.provider.get_default_plugin = self.get_default_plugin
        env.read = self.read
        self.claimed = v.text("username")
        self.latest = v.bytes("auth_response")
        self.attrs = {"k": "v"}
        self.client = None if v.choose(2, "names no client plugin?") else v.text("client_plugin")
        self.Success, self.Forbidden = auth.Success, auth.Forbidden
        env.conn.handshake_auth_data = v.bytes("handshake_data")
        env.conn.handshake_auth_plugin = v.text("handshake_plugin")
        self.using = self.client

        class Refusal(self.Forbidden):
            def __init__(self):
                pass

            @property
            def msg(self):
                return None if v.choose(2, "no reason?") else v.text("reason")
        self.Refusal = Refusal
        env.client.switch, env.client.more = self.switch, self.more

    async def get_user(self, name):
        self.v.check("the account is that of the claimed name", eq(name, self.claimed))
        await self.env.point()
        how = self.v.pick("account", ["known", "unknown", "fails"])
        if how == "fails":
            self.env.failed = True
            raise Failure()
        self.account = User(self.v) if how == "known" else None
        return self.account

    def get_plugin(self, name):
        v = self.v
        v.check("the plugin is the account's", self.account is not None and eq(name, self.account.auth_plugin or ""))
        if v.choose(2, "is the plugin registered?"):
            return None
        self.user_plugin = Plugin(self, "users", name)
        return self.user_plugin

    def get_default_plugin(self):
        if self.default is None:
            self.default = Plugin(self, "default", self.v.text("default_plugin"))
        return self.default

    def plugin(self):
        """Whose word counts for the account"""
        return self.user_plugin if self.user_plugin is not None else self.default

    def hears(self, plugin, info):
        v, conn = self.v, self.env.conn
        v.check("the account's plugin decides", And(self.plugin() is not None, eq(plugin.name, self.plugin().name)))
        v.check("the plugin gets data made for it", True if plugin.client_plugin_name is None else eq(self.using, plugin.client_plugin_name))
        v.check("the plugin gets the client's latest data", eq(info.data, self.latest))
        v.check("the plugin gets the claim", And(eq(info.username, self.claimed), info.user is self.account, info.connect_attrs is self.attrs))
        v.check("the plugin gets this connection's nonce", And(info.handshake_auth_data is conn.handshake_auth_data, eq(info.handshake_plugin_name, conn.handshake_auth_plugin)))
        v.check("nothing is asked after the verdict", not self.final())

    def verdicts(self, final=False):
        how = self.v.pick("decision", ["success", "forbidden"] + ([] if final else ["more"]))
        if how == "more":
            return self.v.bytes("more")
        if how == "success":
            return self.Success(authenticated_as=self.v.text("identity"))
        return self.Refusal()

    def final(self):
        return isinstance(self.verdict, (self.Success, self.Forbidden))

    def talks(self):
        """Is the client using the plugin of this exchange?"""
        p = self.state.plugin
        return True if p.client_plugin_name is None else eq(self.using, p.client_plugin_name)

    async def decide(self):
        await self.env.point()
        if self.v.choose(2, "the plugin fails?"):
            self.env.failed = True
            raise Failure()
        self.verdict = self.verdicts()
        return self.verdict

    async def read(self):
        v, cl = self.v, self.env.client
        v.check("data is awaited only if asked for", cl.phase == "respond")
        await self.env.point()
        if v.choose(2, "the client is gone?"):
            self.env.failed = True
            raise Failure()
        cl.phase = "start"
        self.reads += 1
        self.latest = v.bytes("response")
        return self.latest

    def switch(self, pkt):
        v = self.v
        p = self.plugin()
        v.check("the client switches to the account's plugin", And(p is not None, eq(pkt.plugin, p.client_plugin_name)))
        v.check("it's given the plugin's data", pkt.data is self.verdict)
        v.check("it's only told to switch if it has to", Not(eq(self.using, pkt.plugin)))
        self.using = pkt.plugin

    def more(self, pkt):
        v = self.v
        v.check("it's given the plugin's data", pkt.data is self.verdict)
        v.check("the client talks to the account's plugin", self.talks())

    def loop(self, c):
        env, v = self.env, self.v

        st = {"at": 0, "final": self.final()}

        def havoc(c, L):
            self.reads, st["at"] = 0, 1
            if st["final"]:
                return {}  # the loop isn't entered
            was = self.verdict
            out = {}
            latest, self.latest = self.latest, v.bytes("latest")
            self.verdict = self.verdicts()
            for n in L.changed:
                x = L._loc.get(n)
                if isinstance(x, self.auth.AuthInfo):
                    out[n] = dataclasses.replace(x, data=self.latest)
                elif x is was:
                    out[n] = self.verdict
                elif x is latest:
                    out[n] = self.latest
            return out

        def inv(c, L):
            yield "the client waits", env.client.phase == "start" and env.client.errors == 0
            yield "the latest decision counts", any(x is self.verdict for x in L._loc.values())
            yield "nobody is authenticated before the verdict", env.session.username is self.before and env.conn.authenticated is False
            yield "the client talks to the plugin", True if self.final() else self.talks()
            if st["at"] == 2:
                yield "a verdict ends the exchange", not st["final"]
                yield "each step is the answer to a packet", self.reads == 1
            st["at"] += st["at"] > 0
        return Invariant(havoc, inv, None, heap=lambda c, L: [env, env.client, self, env.stream])


@unit("C01 C02 C03 C07 C09 C10", "connection.Connection.authenticate auth.AuthInfo.copy", weight=3, budget=120, max_paths=20000, concrete=False, loops=LOOPS)
def authenticate(v):
    """True iff the account's plugin vouched for an identity, which the session then runs under; else one ERR.
    The plugin is given what this client sent for this exchange"""
    env = Env(v)
    conn, cl = env.conn, env.client
    ex = Exchange(v, env)
    more = {}
    if v.choose(2, "in the handshake?"):
        plugin = ex.get_default_plugin()
        v.add(term(eq(plugin.name, conn.handshake_auth_plugin)))
        more = {"auth_state": State(plugin), "server_plugin": plugin}
    else:
        # COM_CHANGE_USER
        env.session.username = v.text("the user before")
    before = ex.before = env.session.username
    r = []

    async def call():
        r.append(await conn.authenticate(username=ex.claimed, auth_response=ex.latest, client_plugin_name=ex.client, connect_attrs=ex.attrs, **more))
    out = finish(v, env, call, complete=False)
    who = env.session.username
    if out is not None:
        v.check("an exchange that fails lets nobody in", who is before or isinstance(ex.verdict, ex.Success))
        return
    v.check("it tells whether the client is authenticated", r[0] is True or r[0] is False)
    v.check("authenticated iff the account's plugin says so", r[0] == (ex.account is not None and isinstance(ex.verdict, ex.Success)))
    if r[0]:
        v.check("the session runs under the identity that was vouched for", who is ex.verdict.authenticated_as)
        v.check("the caller sends the OK", cl.phase == "start" and cl.errors == 0)
    else:
        v.check("else one ERR, and nobody is let in", And(cl.errors == 1, cl.phase == "done", who is before))
        code = env.errors.ErrorCode.ACCESS_DENIED_ERROR if ex.account is not None else env.errors.ErrorCode.USER_DOES_NOT_EXIST
        v.check("the error is about the account", cl.last.code == code)
    v.check("authenticating isn't being served", conn.authenticated is False)


def authenticating(v, env, expected):
    """authenticate() by its contract"""
    async def fake(self, **k):
        v.check("nobody is authenticated meanwhile", self.authenticated is False)
        v.check("one exchange", env.exchanges == 0)
        env.exchanges += 1
        for name, x in expected.items():
            v.check(f"the exchange is about what the client sent: {name}", k.get(name) is x)
        v.check("nothing else is assumed", all(n in expected or k[n] is None for n in k))
        await env.point()
        how = v.pick("authentication", ["accepted", "refused", "fails"])
        if how == "fails":
            env.failed = True
            if v.choose(2, "after the verdict?"):
                env.session.username = v.text("unused")
            raise Failure()
        if how == "refused":
            env.client.phase = "done"
            env.client.errors += 1
            return False
        env.identity = env.session.username = v.text("identity")
        return True
    env.exchanges = 0
    env.identity = None
    v.patch(env.m.Connection, "authenticate", fake)


def settled(v, env, r):
    conn, cl = env.conn, env.client
    v.check("a client is authenticated only if its exchange succeeded", conn.authenticated is False or env.identity is not None)
    if r is None:
        v.check("OK iff the client is authenticated, else ERR", And(cl.phase == "done", conn.authenticated == (env.identity is not None), cl.errors == (0 if conn.authenticated else 1)))


@unit("C01 C02 C03 C07 C09 C13 C15", "connection.Connection.handle_change_user", concrete=False)
def change_user(v):
    """Until the exchange succeeds nobody is authenticated; then the session is the new user's, and OK is sent"""
    env = Env(v)
    conn, cl = env.conn, env.client
    conn.authenticated = True
    cl.expect("simple")
    data = v.bytes("data")
    cs = None
    if v.choose(2, "a character set?"):
        cs = v.charset("new_charset")
    com = env.packets.ComChangeUser(username=v.text("username"), auth_response=v.bytes("auth_response"), database=v.text("database"), client_charset=cs,
                                    client_plugin=None if v.choose(2, "no plugin?") else v.text("client_plugin"), connect_attrs={"k": "v"} if v.choose(2, "attributes?") else {})

    def parse(capabilities, client_charset, data):
        v.check("parsed as negotiated", And(capabilities is env.caps, client_charset is env.cs_client))
        return com
    env.parsed("parse_com_change_user", parse)
    authenticating(v, env, {"username": com.username, "auth_response": com.auth_response, "client_plugin_name": com.client_plugin, "connect_attrs": com.connect_attrs})
    r = finish(v, env, lambda: conn.handle_change_user(data))
    settled(v, env, r)
    if conn.authenticated:
        sets = {x[1]: x[2] for x in env.log if x[0] == "set"}
        v.check("the default database is the one that was asked for", env.session.database is com.database)
        v.check("the client's character set is the one that was asked for", eq(sets.get("character_set_client"), cs.name if cs is not None else None))
        v.check("the external user is the claimed one", sets.get("external_user") is com.username)
        v.check("the session is reset once", [x[0] for x in env.log].count("reset") == 1)


@unit("C01 C02 C03 C04 C07 C13 C14 C15 C18", "connection.Connection.connection_phase", concrete=False)
def connection_phase(v):
    """The server begins with a handshake, takes TLS if asked to, and authenticates the client by what it sent; OK or ERR"""
    env = Env(v)
    conn, cl = env.conn, env.client
    conn.connection_id = v.int("connection_id", 0, 2 ** 32 - 1)
    conn.ssl = v.pick("ssl", [None, object()])
    env.identity = None
    cl.expect("handshake")
    nonce, plugin, state = v.bytes("nonce"), Ghostly(), Ghostly()
    plugin.name = v.text("plugin")
    st = {"reads": 0, "tls": False, "starts": 0}

    async def start(auth_info=None):
        v.check("the exchange begins without the client", auth_info is None)
        st["starts"] += 1
        await env.point()
        if v.choose(2, "the plugin fails?"):
            env.failed = True
            raise Failure()
        return nonce, state
    plugin.start = start
    env.provider.get_default_plugin = lambda: plugin
    cs = v.charset("handshake_charset")
    caps = v.flags("client_capabilities", env.C)
    packets = []

    def handshake(pkt):
        v.check("the handshake announces the connection's id", eq(pkt.connection_id, conn.connection_id))
        v.check("the handshake announces the version variable", pkt.server_version == "<version>")
        v.check("the handshake has the plugin's nonce", And(pkt.auth_data is nonce, pkt.auth_plugin_name is plugin.name))
        v.check("the handshake announces the server's capabilities", pkt.capabilities is conn.server_capabilities)
    cl.handshake = handshake

    async def read():
        v.check("the client speaks after the handshake", cl.phase == "respond")
        await env.point()
        if v.choose(2, "the client is gone?"):
            env.failed = True
            raise Failure()
        st["reads"] += 1
        cl.phase, cl.mode = "start", "simple"
        packets.append(v.bytes("packet"))
        return packets[-1]
    env.read = read

    async def tls(ssl):
        v.check("TLS is begun once, with the server's context", ssl is conn.ssl and ssl is not None and not st["tls"])
        v.check("TLS begins right after the client asked", st["asked"] and st["reads"] == 1)
        await env.point()
        if v.choose(2, "TLS fails?"):
            env.failed = True
            raise Failure()
        st["tls"] = True
        cl.phase = "respond"
    env.tls = tls
    st["asked"] = False

    def answer(capabilities, data):
        v.check("the latest packet is parsed with the server's capabilities", And(data is packets[-1], capabilities is conn.server_capabilities))
        st["response"] = env.packets.HandshakeResponse41(
            max_packet_size=7, capabilities=caps, client_charset=cs, username=v.text("username"), auth_response=v.bytes("auth_response"), connect_attrs={"k": "v"},
            database=None if v.choose(2, "no database?") else v.text("database"), client_plugin=None if v.choose(2, "no plugin?") else v.text("client_plugin"))
        expected.update(username=st["response"].username, auth_response=st["response"].auth_response, client_plugin_name=st["response"].client_plugin,
                        connect_attrs=st["response"].connect_attrs, auth_state=state, server_plugin=plugin)
        return st["response"]

    def first(capabilities, data):
        if not st["tls"] and v.choose(2, "TLS?"):
            st["asked"] = True
            if conn.ssl is None:
                env.failed = True
            return env.packets.SSLRequest(max_packet_size=7, capabilities=caps, client_charset=cs)
        return answer(capabilities, data)
    expected = {}
    authenticating(v, env, expected)
    env.parsed("parse_handshake_response", first)
    env.parsed("parse_handshake_response_41", answer)
    r = finish(v, env, lambda: conn.connection_phase(), closing=True)
    v.check("a client is authenticated only if its exchange succeeded", conn.authenticated is False or env.identity is not None and env.exchanges == 1)
    v.check("TLS goes on in TLS", env.exchanges == 0 or st["tls"] == st["asked"])
    if r is not None:
        return
    v.check("OK iff the client is authenticated, else ERR", And(cl.phase == "done", conn.authenticated == (env.identity is not None), cl.errors == (0 if conn.authenticated else 1)))
    v.check("the negotiated capabilities count from now on", conn.capabilities is caps)
    sets = {x[1]: x[2] for x in env.log if x[0] == "set"}
    v.check("the client's character set is the one of the handshake", eq(sets.get("character_set_client"), cs.name))
    v.check("the external user is the claimed one", sets.get("external_user") is st["response"].username)
    v.check("the default database is the one of the handshake", env.session.database is st["response"].database)
    v.check("the next command starts a new sequence", env.stream.resets > 0)


# --- server.py

class Writer(Ghostly):
    def __init__(self):
        self.closes = 0

    def close(self):
        self.closes += 1


@unit("C01 C07 C08 C10 C18", "server.MysqlServer._client_connected_cb server.MysqlServer._serve server.MysqlServer.__init__ connection.Connection.__init__", weight=2, concrete=False)
def serve(v):
    """Each socket has a session, a stream and a connection of its own. The connection is registered before it's served, and removed
    and closed when it ends, however it ends; the client of a server that is full gets ERR 1040"""
    env = Env(v)
    m, K = v.mod("server"), env.m.Connection
    cl = env.client
    log, made = [], []
    err = v.mod("errors").ErrorCode

    async def point(fails=True):
        how = v.pick("meanwhile", ["nothing", "cancelled"] + (["fails"] if fails else []))
        if how == "cancelled":
            env.cancelled = True
            raise ghost.asyncio.CancelledError()
        if how == "fails":
            env.failed = True
            raise Failure()

    def new_session():
        made.append(Session())
        return made[-1]

    class Session(Ghostly):
        variables = env.session.variables

    if v.choose(2, "async factory?"):
        async def factory():
            await point()
            return new_session()
    else:
        def factory():
            if v.choose(2, "the factory fails?"):
                env.failed = True
                raise Failure()
            return new_session()

    class Control(Ghostly):
        async def add(self, connection):
            log.append(("add", connection))
            v.check("the connection isn't served before it's registered", len(log) == 1)
            if v.choose(2, "full?"):
                env.failed = "full"
                raise v.mod("control").TooManyConnections()
            await point()
            log.append(("added", connection))
            return 77

        async def remove(self, connection_id):
            log.append(("remove", connection_id))
            await point()

    async def start(self):
        log.append(("start", self))
        v.check("the connection has its id when it begins", self.connection_id == 77)
        fresh(v, env, self)
        v.check("the server offers TLS iff it has a context, besides its capabilities",
                eq(self.server_capabilities, caps | env.C.CLIENT_SSL if ssl is not None else caps))
        v.check("the connection has its own session", len(made) == 1 and self.session is made[0])
        v.check("the connection has its own stream", self.stream is env.stream)
        v.check("the connection has the server's settings", And(self.control is server.control, self.identity_provider is server.identity_provider, self.ssl is server.ssl))
        await point()
    v.patch(K, "start", start)
    reader, writer = Ghostly(), Writer()
    streams = []

    def stream(r, w, *a):
        v.check("the stream is the client's", r is reader and w is writer and not a)
        streams.append(env.stream)
        return env.stream
    v.patch(m, "MysqlStream", stream)
    cl.expect("connection")
    ssl, caps = v.pick("ssl", [None, object()]), v.flags("server_caps", env.C)
    server = m.MysqlServer(session_factory=factory, control=Control(), identity_provider=env.provider, ssl=ssl, capabilities=caps)
    out = None
    try:
        shadow.drive(server._client_connected_cb(reader, writer))
    except (Failure, ghost.asyncio.CancelledError) as e:
        out = e
    kinds = [x[0] for x in log]
    v.check("the socket is closed", writer.closes >= 1)
    v.check("the connection has one stream", len(streams) == 1)
    v.check("it's removed after it ended, iff it was registered", (kinds.count("remove"), "remove" in kinds and kinds[-1] != "remove") == (1 if "added" in kinds else 0, False))
    v.check("what's removed is what was registered", all(x[1] == 77 for x in log if x[0] == "remove"))
    v.check("only a registered connection is served", ("start" in kinds) == ("added" in kinds))
    if "start" not in kinds and out is None:
        v.check("a client that isn't served gets one ERR", cl.errors == 1)
    if env.failed == "full" and out is None:
        v.check("ERR 1040 if the server is full", cl.last.code == err.CON_COUNT_ERROR == 1040)
    if "start" not in kinds and not env.cancelled:
        v.check("the server survives", not isinstance(out, Failure))


def fresh(v, env, conn):
    """A new connection: nothing is shared, nobody is authenticated"""
    v.check("nobody is authenticated", conn.authenticated is False)
    v.check("it isn't killed, and executes nothing", And(conn._kill is None, conn._executing is None, conn._closing is False, conn._task is None))
    v.check("it has no statements", type(conn.prepared_stmts) is dict and not conn.prepared_stmts)
    v.check("no capabilities are negotiated", int(conn.capabilities) == 0)
    v.check("its first statement has id 0", conn.prepared_stmt_seq.value == 0)
    other = env.m.Connection(stream=env.stream, session=env.session, control=env.control, identity_provider=env.provider)
    mutable = [n for n, x in vars(conn).items() if isinstance(x, (dict, list, set, bytearray)) or hasattr(x, "__next__")]
    v.check("connections share no state", all(getattr(conn, n) is not getattr(other, n) for n in mutable))
    v.check("nor do their classes", not any(isinstance(x, (dict, list, set, bytearray)) for n, x in vars(env.m.Connection).items() if not n.startswith("__")))


@unit("C15", "connection.Connection.server_charset connection.Connection.client_charset", concrete=False)
def charsets(v):
    """The character sets are those of the variables, at any time"""
    env = Env(v)
    conn, vs = env.conn, env.session.variables
    v.check("before", And(conn.client_charset is env.cs_client, conn.server_charset is env.cs_results))
    a, b = v.charset("a"), v.charset("b")
    vs.values["character_set_client"] = a.name
    v.check("the client's follows its variable", And(conn.client_charset is a, conn.server_charset is env.cs_results))
    vs.values["character_set_results"] = b.name
    v.check("the results' follows its variable", And(conn.client_charset is a, conn.server_charset is b))


@unit("C07 C10", "server.MysqlServer.start_server server.MysqlServer.start_unix_server server.MysqlServer.serve_forever server.MysqlServer.close "
      "server.MysqlServer.wait_closed server.MysqlServer.sockets", concrete=False, bounded="options from a list")
def listen(v):
    """Every client that connects, by TCP or a local socket, is served by the same callback, with the options the application gave"""
    m = v.mod("server")
    log = []

    class Server(Ghostly):
        sockets = ("socket",)

        def close(self):
            log.append("close")

        async def wait_closed(self):
            log.append("closed")

        async def serve_forever(self):
            log.append("serve")
    listening = Server()

    def starting(kind):
        async def start(cb, **kw):
            log.append((kind, cb, kw))
            return listening
        return start
    v.state["stub:asyncio.start_server"], v.state["stub:asyncio.start_unix_server"] = starting("tcp"), starting("unix")
    kw = v.pick("options of the server", [{}, {"port": 3307, "limit": 1}])
    s = m.MysqlServer(control=Ghostly(), identity_provider=Ghostly(), **kw)
    v.check("no sockets at first", tuple(s.sockets()) == () and s.close() is None and run(s.wait_closed()) is None and not log)
    how = v.pick("how", ["start_server", "start_unix_server", "serve_forever"])
    more = v.pick("options of the call", [{}, {"port": 3308, "host": "h"}])
    run(getattr(s, how)(**more))
    kind, cb, given = log[0]
    v.check("it listens on what was asked for", kind == ("unix" if how == "start_unix_server" else "tcp"))
    v.check("clients are served by the server", cb == s._client_connected_cb)
    v.check("with the given options", {**kw, **more} == {k: x for k, x in given.items() if k in kw or k in more})
    v.check("nothing else happens", log[1:] == (["serve"] if how == "serve_forever" else []))
    v.check("its sockets", tuple(s.sockets()) == ("socket",))
    s.close()
    run(s.wait_closed())
    v.check("it stops listening", log[-2:] == ["close", "closed"])
