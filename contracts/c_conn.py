"""connection.py: handlers of commands. Each leaves a complete response behind, or fails while an ERR may still end it"""
import z3

from contracts import ghost
from contracts.common import cap
from contracts.ghost import Env, Ghostly, Pkt, Source, finish, loops
from dv import core, shadow, sym
from dv.core import Unsupported, term, unit, put
from dv.shadow import Invariant, replace_everywhere
from dv.spec import And, Implies, Not, Or, eq, length
from dv.sym import SList

LOOPS = {"*": loops}


def opts(**k):
    return dict(concrete=False, loops=LOOPS, **k)


@unit("C03 C09", "connection.Connection.handle_ping connection.Connection.handle_reset_connection connection.Connection.handle_debug", **opts())
def simple_commands(v):
    env = Env(v)
    env.client.expect("simple")
    name = v.pick("command", ["handle_ping", "handle_reset_connection", "handle_debug"])
    finish(v, env, lambda: getattr(env.conn, name)(v.bytes("data")))


@unit("C03 C09 C13 C15", "connection.Connection.handle_init_db", **opts())
def init_db(v):
    """The session uses the database, decoded with the client's character set, then OK"""
    env = Env(v)
    env.client.expect("simple")
    data, db = v.bytes("data"), v.text("db")

    def parse(client_charset, d):
        v.check("decoded with the client's character set", And(client_charset is env.cs_client, d is data))
        return db
    env.parsed("parse_com_init_db", parse)
    r = finish(v, env, lambda: env.conn.handle_init_db(data))
    if r is None:
        v.check("the session uses the database once", env.log == [("use", db)] if False else len(env.log) == 1 and env.log[0][0] == "use" and env.log[0][1] is db)


@unit("C03 C05 C09 C12 C13 C15 C17", "connection.Connection.handle_query connection.Connection.query connection.Connection.text_resultset "
      "connection.Connection.ok_or_eof connection.Connection.ok connection.Connection.eof", weight=2, **opts())
def query(v):
    """The application gets the statement with its attributes once; the response is its result, row by row"""
    env = Env(v)
    env.client.expect("query")
    data, sql, attrs = v.bytes("data"), v.text("sql"), {"k": "v"}

    def parse(capabilities, client_charset, data):
        v.check("parsed as negotiated", And(capabilities is env.caps, client_charset is env.cs_client))
        return env.packets.ComQuery(sql=sql, query_attrs=attrs)
    env.parsed("parse_com_query", parse)
    rs = env.resultset(v)
    env.pulled = pulled(v, env)
    r = finish(v, env, lambda: env.conn.handle_query(data))
    asked(v, env, r, sql, attrs)
    if r is None and rs.columns:
        v.check("all rows are sent", eq(env.client.rows, env.source.n))


def pulled(v, env):
    def f(source):
        v.check("a row is pulled when those before were handed over", eq(env.client.rows, source.pos))
    return f


def asked(v, env, r, sql, attrs):
    calls = [x for x in env.log if x[0] == "handle_query"]
    if r is None:
        v.check("the application gets the statement once", len(calls) == 1)
    v.check("the application gets the statement and its attributes", len(calls) <= 1 and all(x[1] is sql and x[2] is attrs for x in calls))


def statement(v, env, k, **kw):
    """Any statement that was prepared"""
    P = v.mod("prepared").PreparedStatement
    s = P(stmt_id=k, sql=v.text("prepared_sql"), num_params=v.int("num_params", 0))
    for n, x in kw.items():
        setattr(s, n, x)
    return s


def statements(v, env, **kw):
    """The statements of a connection: any number of them, each under its id"""
    made = []

    def val(t):
        for k, s in made:
            if sym.same(k, t):
                return s
        s = statement(v, env, sym.wrap(term(t)), **{n: f() for n, f in kw.items()})
        made.append((term(t), s))
        return s
    d = sym.SDict("stmt", val)
    env.conn.prepared_stmts = d
    env.made = made
    return d


@unit("C03 C06 C08 C09 C15", "connection.Connection.handle_stmt_prepare connection.Connection.com_stmt_prepare_response", **opts())
def prepare(v):
    """The statement is registered under a fresh id with its text and number of parameters; the others stay"""
    env = Env(v)
    cl, conn = env.client, env.conn
    cl.expect("prepare")
    d = statements(v, env)
    n, size = v.int("placeholders", 0), d.n
    conn.prepared_stmt_seq.value = v.int("seq", 0, 2 ** 32 - 1)
    data = v.bytes("data")
    text = []

    def find(sql):
        text.append(sql)
        return SList(term(n), lambda i: sym.wrap(term(i)))
    replace_everywhere(v, v.mod("prepared").find_params, find)
    before = d.has
    k = conn.prepared_stmt_seq.value
    v.assume(Not(sym.wrap(before(term(k)))))  # fewer than 2**32 statements, the id isn't used
    r = finish(v, env, lambda: conn.handle_stmt_prepare(data))
    if r is not None and not cl.stmt:
        return
    v.check("the id is new", Not(sym.wrap(before(term(cl.stmt.stmt_id)))))
    v.check("ids have 32 bits", And(cl.stmt.stmt_id >= 0, cl.stmt.stmt_id < 1 << 32))
    v.check("the statement is registered", And(conn.prepared_stmts[cl.stmt.stmt_id] is cl.stmt, eq(cl.stmt.num_params, n)))
    v.check("its text is the client's, decoded", len(text) == 1 and eq(cl.stmt.sql, text[0]) and eq(text[0], env.cs_client.decode(data)))
    v.check("it has neither long data nor a cursor", cl.stmt.param_buffers is None and cl.stmt.cursor is None)
    x = v.int("another")
    v.assume(x != cl.stmt.stmt_id)
    v.check("other statements stay", sym.wrap(before(term(x)) == conn.prepared_stmts.has(term(x))))
    v.check("the next id is another one", conn.prepared_stmt_seq.value != k)
    v.check("the application isn't asked", not env.log)


@unit("C06 C08 C11", "connection.Connection.handle_stmt_send_long_data", **opts())
def long_data(v):
    """Chunks of a parameter are concatenated in order; nothing else changes, and there is no response"""
    env = Env(v)
    env.client.expect("none")
    at = shadow.dv_getitem
    chunk, old = v.bytes("chunk"), v.bytes("sent_before")
    sid, pid = v.int("stmt_id", 0, 2 ** 32 - 1), v.int("param_id", 0, 65535)
    other = v.bytes("another_buffer")
    case = v.pick("buffers", ["none", "empty", "same", "other"])
    cursor = object()

    def buffers():
        if case == "none":
            return None
        b = sym.SDict("buffer", lambda t: keep(t))
        return b
    kept = []

    def keep(t):
        for k, x in kept:
            if sym.same(k, t):
                return x
        x = sym.SByteArray(v.bytes(f"buffer{len(kept)}"))
        kept.append((term(t), x))
        return x
    d = statements(v, env, param_buffers=buffers, cursor=lambda: cursor)
    before = d.has
    P = env.packets.ComStmtSendLongData
    env.parsed("parse_com_stmt_send_long_data", lambda data: P(stmt_id=sid, param_id=pid, data=chunk))
    had = sym.wrap(before(term(sid)))
    st = d.val(term(sid)) if had else None
    had_buffer = st is not None and st.param_buffers is not None and bool(shadow.dv_in(pid, st.param_buffers))
    old = st.param_buffers[pid].rope if had_buffer else b""
    bhas = st.param_buffers.has if st is not None and st.param_buffers is not None else (lambda k: z3.BoolVal(False))
    n = st.num_params if st is not None else None
    r = finish(v, env, lambda: env.conn.handle_stmt_send_long_data(v.bytes("data")))
    if r is not None:
        return
    j = v.int("any_stmt")
    v.check("statements stay", sym.wrap(before(term(j)) == env.conn.prepared_stmts.has(term(j))))
    if st is None:
        return
    v.check("the statement is the same otherwise", And(st.cursor is cursor, st.num_params is n, len(env.made) == 1))
    if pid < n:
        v.check("the chunk is appended to what was sent before", eq(at(st.param_buffers, pid), sym.SBytes.cat([old, chunk])))
    i = v.int("another_param")
    v.assume(i != pid)
    now = st.param_buffers
    if isinstance(now, dict):
        v.check("other parameters stay", And(not sym.wrap(bhas(term(i))), all(eq(k, pid) for k in now)))
    elif now is not None:
        v.check("other parameters stay", And(sym.wrap(bhas(term(i)) == now.has(term(i)))))
        if sym.wrap(bhas(term(i))):
            was = keep(term(i)).rope
            v.check("other parameters keep their data", now[i].rope is was)


@unit("C03 C05 C06 C08 C09 C11 C12 C15 C17", "connection.Connection.handle_stmt_execute", weight=3, budget=120, max_paths=20000, **opts())
def execute(v):
    """The statement is run with its parameters bound; its result follows, or becomes the statement's new cursor"""
    env = Env(v)
    cl, conn = env.client, env.conn
    use_cursor = bool(v.choose(2, "cursor?"))
    cl.expect("execute", cursor=use_cursor)
    sql, attrs = v.text("sql"), {"k": "v"}
    sid = v.int("stmt_id", 0, 2 ** 32 - 1)
    old, buf = object(), {0: bytearray(b"x")}
    d = statements(v, env, param_buffers=lambda: buf, cursor=lambda: old)
    before = d.has
    had = bool(sym.wrap(before(term(sid))))
    data = v.bytes("data")
    seen = []

    def parse(capabilities, client_charset, data, get_stmt):
        v.check("parsed as negotiated", And(capabilities is env.caps, client_charset is env.cs_client))
        if v.choose(2, "malformed at first?"):
            env.failed = True
            raise env.errors.MysqlError("malformed")
        s = get_stmt(sid)
        v.check("an unknown statement isn't executed", had)
        v.check("the statement is the one the client names", s is env.made[0][1])
        v.check("its long data is there", s.param_buffers is buf)
        seen.append(s)
        if v.choose(2, "malformed?"):
            env.failed = True
            raise env.errors.MysqlError("malformed")
        return env.packets.ComStmtExecute(sql=sql, query_attrs=attrs, stmt=s, use_cursor=use_cursor)
    replace_everywhere(v, env.packets.parse_com_stmt_execute, parse)
    rs = env.resultset(v)
    env.pulled = pulled(v, env)
    r = finish(v, env, lambda: conn.handle_stmt_execute(data))
    asked(v, env, r, sql, attrs)
    j = v.int("any_stmt")
    v.check("statements stay", sym.wrap(before(term(j)) == conn.prepared_stmts.has(term(j))))
    if not seen:
        v.check("a statement that isn't executed stays the same", all(s.cursor is old and s.param_buffers is buf for _, s in env.made))
        v.check("nothing is executed", not env.log)
        if not had:
            v.check("an unknown statement is an error", isinstance(r, env.errors.MysqlError))
        return
    s = seen[0]
    v.check("no other statement is changed", len(env.made) == 1)
    v.check("long data is for one execution", s.param_buffers is None)
    if r is not None:
        v.check("the old cursor is gone", s.cursor is not old)
        return
    if not rs.columns:
        v.check("no result: no cursor", s.cursor is None)
        return
    if not use_cursor:
        v.check("all rows are sent", eq(cl.rows, env.source.n))
        v.check("no cursor stays behind", s.cursor is None)
        return
    flags = v.mod("types").ServerStatus
    v.check("the client is told that there is a cursor", eq(cl.flags, flags.SERVER_STATUS_CURSOR_EXISTS))
    v.check("a cursor is stored", s.cursor is not None and s.cursor is not old)
    v.check("no row is pulled before it is fetched", eq(env.source.pos, 0))
    # the cursor gives the rows of the result, in the binary protocol, once and in order
    cl.expect("fetch", columns=rs.columns, first_row=0)
    env.pulled = lambda source: None
    it = s.cursor.__aiter__()
    cl.phase = "rows"
    while True:
        try:
            p = shadow.drive(it.__anext__())
        except StopAsyncIteration:
            break
        except (ghost.asyncio.CancelledError, ghost.Failure):
            return
        v.check("a row of the result, in the binary protocol", isinstance(p, Pkt) and p.kind == "row" and p.binary is True and p.columns is rs.columns)
        v.check("the next row", eq(p.i, cl.rows))
        cl.rows = cl.rows + 1
    v.check("the cursor ends with the result", eq(cl.rows, env.source.n))


@unit("C03 C05 C08 C09 C11 C12", "connection.Connection.handle_stmt_fetch connection.Connection.get_stmt", weight=2, **opts())
def fetch(v):
    """The next rows of the cursor, as many as asked for unless it ends; the end is flagged on the fetch that met it"""
    env = Env(v)
    cl, conn = env.client, env.conn
    sid, asked_ = v.int("stmt_id", 0, 2 ** 32 - 1), v.int("num_rows", 0, 2 ** 32 - 1)
    n, pos = v.int("rows", 0), v.int("rows_fetched_before", 0)
    v.assume(pos <= n)
    cur = Source(env, n, make=lambda i: Pkt("row", i=i, binary=True, columns=None))
    cur.pos = pos
    with_cursor = bool(v.choose(2, "is there a cursor?"))
    buf = {0: bytearray(b"x")}
    d = statements(v, env, param_buffers=lambda: buf, cursor=lambda: cur if with_cursor else None)
    before = d.has
    had = bool(sym.wrap(before(term(sid))))
    P = env.packets.ComStmtFetch
    env.parsed("parse_handle_stmt_fetch", lambda data: P(stmt_id=sid, num_rows=asked_))
    cl.expect("fetch", first_row=pos)
    env.pulled = lambda source: v.check("a row is pulled when those before were handed over, and one is still asked for",
                                        And(eq(cl.rows, source.pos - pos), cl.rows < asked_))

    def while_loop(c):
        st = {}

        def havoc(c, L):
            st["ints"] = ghost.ints(L)
            env.stream.queued = True
            cl.rows = c.int("sent", 0)
            cur.pos = pos + cl.rows
            c.assume(cur.pos <= n)
            if v.choose(2, "some sent?"):
                cl.phase = "rows"
                c.assume(cl.rows > 0)
            else:
                c.assume(eq(cl.rows, 0))
            return ghost.counted(c, st)

        def inv(c, L):
            yield "every row that was pulled was sent", And(eq(cur.pos, pos + cl.rows), cl.rows <= asked_)
            yield "rows are expected", cl.phase == "rows" or cl.phase == "start" and eq(cl.rows, 0)
            yield from ghost.counting(L, st, cl.rows)

        return Invariant(havoc, inv, lambda c, L: n - cur.pos, heap=lambda c, L: [cl, cur, st, env, env.stream] + list(st.values()))
    env.while_loop = while_loop
    r = finish_fetch(v, env, lambda: conn.handle_stmt_fetch(v.bytes("data")))
    if not had or not with_cursor:
        v.check("an unknown statement, or one without a cursor, is an error", r is not None)
        v.check("nothing changes", all(s.param_buffers is buf for _, s in env.made))
        return
    s = env.made[0][1] if env.made else None
    j = v.int("any_stmt")
    v.check("statements stay", And(sym.wrap(before(term(j)) == conn.prepared_stmts.has(term(j))), len(env.made) <= 1))
    if r is not None:
        # rows may have been pulled that the client doesn't get
        if s is not None and s.cursor is not None:
            v.check("a cursor that stays hasn't lost a row", eq(cur.pos, pos))
        return
    F = v.mod("types").ServerStatus
    v.check("the cursor stays, after what was sent", s.cursor is cur and eq(cur.pos, pos + cl.rows))
    v.check("as many rows as asked for, unless the result ends", Or(eq(cl.rows, asked_), And(eq(cur.pos, n), cl.rows < asked_)))
    v.check("the end is flagged iff the fetch wasn't filled", eq(cl.flags, F.SERVER_STATUS_LAST_ROW_SENT) if cl.rows < asked_ else eq(cl.flags, F.SERVER_STATUS_CURSOR_EXISTS))
    v.check("the application isn't asked", not env.log)
    v.check("long data stays", s.param_buffers is buf)


def finish_fetch(v, env, call):
    try:
        return finish(v, env, call)
    except AssertionError as e:  # becomes an ERR, as any exception
        return e


@unit("C03 C06 C08 C09 C11", "connection.Connection.handle_stmt_reset", **opts())
def reset(v):
    """Long data and the cursor of the statement are dropped, then OK; unknown ids are an error"""
    env = Env(v)
    env.client.expect("simple")
    sid = v.int("stmt_id", 0, 2 ** 32 - 1)
    d = statements(v, env, param_buffers=lambda: {0: bytearray(b"x")}, cursor=object)
    before, had = d.has, bool(sym.wrap(d.has(term(sid))))
    env.parsed("parse_com_stmt_reset", lambda data: env.packets.ComStmtReset(stmt_id=sid))
    r = finish(v, env, lambda: env.conn.handle_stmt_reset(v.bytes("data")))
    j = v.int("any_stmt")
    v.check("statements stay", And(sym.wrap(before(term(j)) == env.conn.prepared_stmts.has(term(j))), len(env.made) <= 1))
    if r is None:
        v.check("only known statements are reset", had)
        s = env.made[0][1]
        v.check("neither long data nor a cursor stays", s.param_buffers is None and s.cursor is None)


@unit("C03 C08 C11 C10", "connection.Connection.handle_stmt_close", **opts())
def close(v):
    """Exactly the statement is forgotten; there is no response, not even for an unknown id"""
    env = Env(v)
    env.client.expect("none")
    sid = v.int("stmt_id", 0, 2 ** 32 - 1)
    d = statements(v, env)
    before = d.has
    env.parsed("parse_com_stmt_close", lambda data: env.packets.ComStmtClose(stmt_id=sid))
    r = finish(v, env, lambda: env.conn.handle_stmt_close(v.bytes("data")))
    if r is not None:
        v.check("it only fails if the packet is malformed", env.failed or env.cancelled)
        return
    v.check("the statement is gone", Not(shadow.dv_in(sid, env.conn.prepared_stmts)))
    j = v.int("another")
    v.assume(j != sid)
    v.check("other statements stay", sym.wrap(before(term(j)) == env.conn.prepared_stmts.has(term(j))))


@unit("C13 C16 C03 C15", "connection.Connection.handle_field_list", **opts())
def field_list(v):
    """A column definition per row of SHOW COLUMNS, then the terminator"""
    env = Env(v)
    cl = env.client
    sql, table = v.text("sql"), v.text("table")
    data = v.bytes("data")

    def parse(client_charset, d):
        v.check("decoded with the client's character set", And(client_charset is env.cs_client, d is data))
        return env.packets.ComFieldList(table=table, wildcard="%")
    env.parsed("parse_com_field_list", parse)
    replace_everywhere(v, v.mod("schema").com_field_list_to_show_statement, lambda com: sql)

    class Field(ghost.Ghostly):
        _mutable = False

        def __init__(self, i):
            self.i = i

        def __getitem__(self, j):
            return ghost.Tagged(f"field{j}", self.i)
    cl.expect("fields")
    rs = env.resultset(v)
    if not rs.columns:
        v.end()
    env.source.make = Field
    env.fields = env.source

    def field(pkt):
        v.check("the column's name and default", And(ghost.tagged(pkt.name, "field0", cl.cols - 1), ghost.tagged(pkt.default, "field4", cl.cols - 1)))
        v.check("names are in the results character set", pkt.names_charset is env.cs_results)
        v.check("the table is the client's", pkt.table is table)
    cl.field = field
    r = finish(v, env, lambda: env.conn.handle_field_list(data))
    calls = [x for x in env.log if x[0] == "handle_query"]
    v.check("the session is asked once, without attributes", len(calls) <= 1 and all(x[1] is sql and x[2] == {} for x in calls))
    if r is None:
        v.check("there is a definition for each column", eq(cl.cols, env.source.n))


# --- the connection's life

HANDLERS = {3: "handle_query", 22: "handle_stmt_prepare", 24: "handle_stmt_send_long_data", 23: "handle_stmt_execute", 28: "handle_stmt_fetch",
            26: "handle_stmt_reset", 25: "handle_stmt_close", 14: "handle_ping", 17: "handle_change_user", 31: "handle_reset_connection",
            13: "handle_debug", 2: "handle_init_db", 4: "handle_field_list"}
SILENT = {24, 25}


class Gone(Exception):
    pass


def handlers(v, env):
    """Handlers by their contract: a complete response or a failure that leaves it open"""
    cls, cl = env.m.Connection, env.client

    def make(code, name):
        async def handler(self, data):
            env.handled.append(name)
            v.check("commands are served for an authenticated client only", env.identity is not None and self.authenticated is True)
            v.check("the command is the client's", And(eq(env.packet[0], code), eq(data, env.packet[1:])))
            if code == 17:
                # (change_user) until the exchange succeeds nobody is authenticated
                self.authenticated, env.identity = False, None
            await env.point()
            outcome = v.pick("outcome", ["done", "error", "exception", "kills itself"] + (["refused"] if code == 17 else []))
            if outcome == "error":
                raise env.errors.MysqlError("failed")
            if outcome == "exception":
                raise Gone()
            if outcome == "kills itself":
                kind = v.pick("kind", list(env.KillKind))
                self.kill(kind)
                env.own = kind
                v.check("a connection that kills itself isn't interrupted", not env.task.pending)
            if outcome == "refused":
                cl.phase = "done"
                cl.errors += 1
                return
            if code == 17:
                self.authenticated, env.identity = True, "another"
                await env.point()
            if code not in SILENT:
                cl.phase = "done"
        return handler
    for code, name in HANDLERS.items():
        v.patch(cls, name, make(code, name))


def no_kill_pending(conn):
    return conn._kill is None or conn._kill.name == "CONNECTION"


COMMANDS = {"statements": [3, 22, 23, 28], "silent": [24, 25, 26], "session": [17, 14], "others": [31, 13, 2], "end": [4, 1, None]}


def serving(group):
    def command_phase(v):
        serve(v, COMMANDS[group])
    command_phase.__doc__ = ("Whatever the client sends and whenever it is killed: one response per command, and none without. "
                             f"By induction over the commands. Next command: {COMMANDS[group]}")
    command_phase.__name__ = command_phase.__qualname__ = f"command_phase_{group}"
    unit("C01 C03 C07 C09 C10", "connection.Connection.command_phase connection.Connection.kill", weight=4, budget=150, max_paths=40000,
         concrete=False, loops={"*": lambda c, it: c.state["env"].__dict__.get("while_loop", lambda c: None)(c)})(command_phase)


def serve(v, commands):
    env = Env(v, killing=True)
    conn, cl, K = env.conn, env.client, env.KillKind
    put(conn, "_task", env.task)
    conn.authenticated = bool(v.choose(2, "authenticated?"))
    env.identity = "somebody" if conn.authenticated else None
    env.handled, env.own, env.shutdown = [], None, False
    env.packet = None
    env.left = None
    handlers(v, env)
    put(conn, "_kill", v.pick("killed before?", [None, K.CONNECTION]))
    cl.phase, cl.mode = "idle", "idle"

    def while_loop(c):
        def havoc(c, L):
            put(conn, "_kill", v.pick("killed?", [None, K.CONNECTION]))
            conn.authenticated = bool(v.choose(2, "still authenticated?"))
            env.identity = "somebody" if conn.authenticated else None
            put(conn, "_executing", None)
            env.packet, env.own = None, None
            del env.handled[:]
            cl.phase, cl.mode, cl.errors, cl.last = "idle", "idle", 0, None
            env.task.cancels = 0
            return {}

        def inv(c, L):
            if env.packet is not None:
                code = env.packet[0] if length(env.packet) > 0 else None
                silent = code is not None and bool(Or(*[eq(code, x) for x in SILENT]))
                yield "each command has one complete response", cl.phase == "done" or silent and cl.phase == "start"
                yield "at most one handler", len(env.handled) <= 1
                if conn.authenticated:
                    yield "an authenticated connection has an identity", env.identity is not None
                yield "a new command starts a new sequence", env.stream.resets > 0
                known = code is not None and bool(Or(*[eq(code, x) for x in HANDLERS]))
                yield "a known command has its handler", len(env.handled) == (1 if known else 0)
                yield "an unknown command is an error", known or cl.errors == 1
            yield "no statement is executing between commands", conn._executing is None
            yield "a killed statement is no reason to end", no_kill_pending(conn)
            yield "no cancellation is left over", not env.task.pending and env.task.cancels <= 0
            # idle again
            env.packet = None
            cl.phase, cl.mode = "idle", "idle"
            env.stream.resets = 0

        return Invariant(havoc, inv, None, heap=lambda c, L: [conn, cl, env, env.task, env.handled, env.stream])
    env.while_loop = while_loop

    async def read():
        v.check("the connection waits for a command only when the last one was answered", cl.phase == "idle")
        v.check("a command is only awaited from an authenticated client", conn.authenticated is True)
        await env.point()
        how = v.pick("read", ["command", "closed", "broken", "out of order"])
        if how == "closed":
            env.left = "closed"
            raise v.mod("stream").ConnectionClosed()
        if how == "broken":
            env.left = "broken"
            raise ConnectionResetError()
        if how == "out of order":
            env.left = "broken"
            raise env.errors.MysqlError("sequence")
        env.packet = v.bytes("packet")
        code = v.pick("command", commands)
        if code is None:
            # anything else
            if length(env.packet) > 0:
                v.assume(And(*[Not(eq(env.packet[0], x)) for x in [1, *HANDLERS]]))
        else:
            v.assume(length(env.packet) > 0)
            v.assume(eq(env.packet[0], code))
        cl.expect("none" if length(env.packet) == 0 else "any")
        cl.mode = "command"
        return env.packet
    env.read = read
    try:
        shadow.drive(conn.command_phase())
    except ghost.asyncio.CancelledError:
        v.check("only KILL CONNECTION or the server's end cancels a connection", conn._kill == K.CONNECTION or env.shutdown)
        if env.packet is None or cl.phase == "done":
            v.check("nothing is executing when the response is complete", conn._executing is None)
        if conn._executing is not None:
            v.check("a response is still owed", cl.phase in ("start", "rows", "cols") and env.packet is not None)
        return
    except Exception as e:  # pylint: disable=broad-except
        if core.misfit(e):
            raise
        v.check("it only fails if the client is gone", env.left == "broken", lambda: repr(e))
        return
    if env.left == "closed":
        return
    quit_ = env.packet is not None and length(env.packet) > 0 and bool(eq(env.packet[0], 1))
    v.check("the connection ends because the client quits, isn't authenticated any more, or is killed", quit_ or not conn.authenticated or conn._kill == K.CONNECTION)
    if quit_:
        v.check("COM_QUIT isn't answered", cl.phase == "start" and not env.handled)


for _group in COMMANDS:
    serving(_group)


@unit("C01 C09 C10", "connection.Connection._start", weight=2, concrete=False, loops=LOOPS)
def start(v):
    """The session is initialised after authentication only, and closed exactly once iff it was initialised"""
    env = Env(v, killing=True)
    conn, cl, K, cls = env.conn, env.client, env.KillKind, env.m.Connection
    put(conn, "_task", env.task)
    env.identity, env.shutdown = None, False
    cl.expect("connection")
    st = {"phase": "connection", "inits": 0, "closes": 0, "error": None}

    async def connection_phase(self):
        await env.point()
        r = v.pick("authentication", ["accepted", "refused", "failed"])
        if r == "failed":
            raise Gone()
        if r == "refused":
            cl.phase = "done"
            return
        self.authenticated, env.identity = True, "somebody"
        st["phase"] = "authenticated"

    async def init(c):
        v.check("the session is initialised with its connection, after authentication", c is conn and st["phase"] == "authenticated")
        st["inits"] += 1
        await env.point()
        if v.choose(2, "init fails?"):
            raise Gone()
        st["phase"] = "initialised"

    async def close():
        v.check("the session is closed if it was initialised only", st["phase"] in ("initialised", "served"))
        v.check("no kill interrupts the end of the session", conn_ignores_kill(v, env))
        st["closes"] += 1

    async def command_phase(self):
        v.check("commands are served after the session is initialised", st["phase"] == "initialised" and self.authenticated is True)
        st["phase"] = "served"
        cl.phase = "idle"
        put(self, "_executing", v.pick("executing", [None, 3]))
        cl.phase = "idle" if self._executing is None else "start"
        cl.mode = "command"
        await env.point()
        if v.choose(2, "the client is gone?"):
            raise Gone()
    v.patch(cls, "connection_phase", connection_phase)
    v.patch(cls, "command_phase", command_phase)
    env.session.init, env.session.close = init, close
    err = None
    try:
        shadow.drive(conn._start())
    except (Exception, ghost.asyncio.CancelledError) as e:  # pylint: disable=broad-except
        if not isinstance(e, (Gone, ghost.asyncio.CancelledError)):
            raise
        err = e
    v.check("the session is closed exactly once iff it was initialised", st["closes"] == (1 if st["phase"] in ("initialised", "served") else 0))
    if isinstance(err, ghost.asyncio.CancelledError):
        v.check("a kill doesn't end the server's task as cancelled, after the session began", conn._kill != K.CONNECTION or env.shutdown or st["phase"] != "served")
    if st["phase"] in ("connection", "authenticated") and isinstance(err, Gone):
        v.check("a connection that can't begin gets one ERR", cl.errors == 1)


def conn_ignores_kill(v, env):
    before = env.task.pending, env.task.cancels, env.conn._kill
    env.current = None
    env.conn.kill(v.pick("late kill", list(env.KillKind)))
    env.current = env.task
    return (env.task.pending, env.task.cancels, env.conn._kill) == before


@unit("C09", "connection.Connection.kill", concrete=False)
def kill_twice(v):
    """Killing again changes nothing, and a connection can't be spared once it was killed: any sequence of kills has the effect of
    at most one KILL QUERY followed by at most one KILL CONNECTION"""
    env = Env(v, killing=True)
    conn, K = env.conn, env.KillKind
    put(conn, "_task", v.pick("task", [env.task, None]))
    put(conn, "_executing", v.pick("executing", [None, 3, 17]))
    put(conn, "_kill", v.pick("kill", [None, K.QUERY, K.CONNECTION]))
    put(conn, "_closing", bool(v.choose(2, "closing?")))
    env.current = v.pick("current", [None, env.task])
    state = lambda: (conn._kill, env.task.pending)
    a, b = v.pick("first", list(K)), v.pick("second", list(K))
    conn.kill(a)
    one = state()
    conn.kill(b)
    if a == b:
        v.check("killing twice is killing once", state() == one)
    if a == K.CONNECTION:
        v.check("a killed connection stays killed", state() == one)
    if conn._executing in (None, 17) and a == b == K.QUERY:
        v.check("KILL QUERY does nothing when no statement is executing", not env.task.pending)
    if conn._task is None or conn._closing:
        v.check("a connection that has ended isn't cancelled", env.task.cancels == 0)


@unit("C09 C10", "connection.Connection.start", concrete=False)
def task(v):
    """The connection runs in one task of its own, the one that kills are aimed at; when it has ended, kills have no effect"""
    env = Env(v, killing=True)
    conn, K = env.conn, env.KillKind
    put(conn, "_task", None)
    made, ran = [], []

    async def body(self):
        ran.append(self)
        v.check("kills are aimed at the task of the connection", conn._task is made[0])
        if v.choose(2, "fails?"):
            raise Gone()

    class Task(Ghostly):
        cancels = 0

        def __init__(self, coro):
            self.coro = coro

        def __await__(self):
            env.current = None
            if v.choose(2, "killed at the beginning?"):
                conn.kill(K.CONNECTION)
                v.check("the task is cancelled", self.cancels == 1)
                self.coro.close()
                raise ghost.asyncio.CancelledError()
            shadow.drive(self.coro)
            return None
            yield

        def cancel(self, *a):
            self.cancels += 1

    def create(coro, **k):
        made.append(Task(coro))
        return made[-1]
    for name in ("create_task", "ensure_future"):
        v.state["stub:asyncio." + name] = create
    v.patch(env.m.Connection, "_start", body)
    try:
        shadow.drive(conn.start())
    except (Gone, ghost.asyncio.CancelledError):
        pass
    v.check("there's one task", len(made) == 1 and len(ran) + made[0].cancels == 1)
    before = made[0].cancels
    for kind in K:
        conn.kill(kind)
    v.check("a connection that has ended isn't killed", made[0].cancels == before)
