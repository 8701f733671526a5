"""Ghost environment of a connection: the client as a strict automaton, the stream, the application's session, the task.

The stream by its contract (c_stream): a packet is queued as a whole, after waiting for room if the buffer is full; write(drain=True)
and drain() wait for the client.  Whatever waits may be cancelled there."""
import asyncio
import inspect

import z3

from contracts.common import cap
from dv import core, shadow, sym
from dv.core import Unsupported, term
from dv.shadow import TRANSPARENT, Invariant, replace_everywhere
from dv.spec import And, Implies, Not, Or, eq, length
from dv.sym import SInt, SList


class Ghostly:
    _mutable = True

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"{type(self).__name__}.{name} has no contract")


class Pkt(Ghostly):
    """A packet, by its kind and what it was made of"""
    _mutable = False

    def __init__(self, kind, **k):
        self.kind = kind
        self.__dict__.update(k)

    def __repr__(self):
        return self.kind


class Row(Ghostly):
    _mutable = False

    def __init__(self, i):
        self.i = i


class Column(Ghostly):
    _mutable = False

    def __init__(self, v, i):
        self.i = i
        self.name, self.type, self.character_set = Tagged("name", i), Tagged("type", i), Tagged("charset", i)


class Tagged(Ghostly):
    _mutable = False

    def __init__(self, tag, i):
        self.tag, self.i = tag, i

    def same(self, tag, i):
        return And(self.tag == tag, eq(self.i, i))


def tagged(x, tag, i):
    return x.same(tag, i) if isinstance(x, Tagged) else False


class Failure(Exception):
    """What the application raises"""


class Source(Ghostly):
    """An iterator of n rows that may fail at any time"""

    def __init__(self, env, n, make=Row, fails=True, suspends=True):
        self.env, self.n, self.pos, self.make, self.fails, self.suspends = env, n, 0, make, fails, suspends
        self.cooperative = False

    def __aiter__(self):
        return self

    async def __anext__(self):
        env = self.env
        if self.suspends:
            await env.point()
        if self.fails and env.v.choose(2, "the source fails?"):
            env.failed = True
            raise Failure()
        if not self.pos < self.n:
            raise StopAsyncIteration
        if self.make is Row:
            env.v.check("rows are pulled by cooperative_iterate (c_results.cooperative)", self.cooperative, aux=True)
        env.pulled(self)
        r = self.make(self.pos)
        self.pos = self.pos + 1
        return r


class Client(Ghostly):
    """Reads packets as the protocol documents them"""

    def __init__(self, env):
        self.env = env
        self.phase = "idle"
        self.mode = None
        self.cols = self.ncols = self.rows = 0
        self.errors = 0
        self.last = None

    def expect(self, mode, **k):
        self.mode, self.phase = mode, "start"
        self.cols = self.rows = self.errors = 0
        self.ncols = None
        self.stmt = self.columns = self.cursor = None
        self.__dict__.update(k)

    def deprecate(self):
        return bool(cap(self.env.conn.capabilities, self.env.C, "CLIENT_DEPRECATE_EOF"))

    def columns_sent(self):
        return self.ncols is not None and eq(self.cols, self.ncols)

    def complete(self):
        """Is there nothing left to wait for?"""
        if self.mode == "none":
            return True
        if self.mode == "prepare" and self.phase == "cols":
            return bool(eq(self.ncols, 0)) or bool(self.columns_sent()) and self.deprecate()
        return self.phase == "done"

    def at_rows(self):
        """May rows follow?"""
        if self.phase == "rows":
            return True
        return self.phase == "cols" and self.deprecate() and self.columns_sent()

    def bad(self, pkt, why=""):
        self.env.v.check(f"the response to {self.mode} is well-formed", False, lambda: f"{pkt.kind} in phase {self.phase} of {self.mode} {why}")

    def ok(self, cond, why):
        self.env.v.check(f"the response to {self.mode} is well-formed: {why}", cond)

    def feed(self, pkt):
        v = self.env.v
        if not isinstance(pkt, Pkt):
            raise Unsupported("bytes without a contract are sent")
        v.check("nothing is sent that the client doesn't wait for", self.phase != "idle" and not self.complete(), lambda: f"{pkt.kind} in phase {self.phase}")
        self.last = pkt
        k, m = pkt.kind, self.mode
        if k == "handshake":
            if self.phase != "start" or m != "handshake":
                return self.bad(pkt)
            self.phase, self.mode = "respond", "auth"
            self.handshake(pkt)
            return
        if k in ("switch", "more"):
            if self.phase != "start" or m != "auth":
                return self.bad(pkt)
            self.phase = "respond"
            getattr(self, k)(pkt)
            return
        if k == "err":
            self.errors += 1
            self.phase = "done"
            return
        if k == "ok" and not pkt.eof:
            if self.phase != "start" or m not in ("simple", "query", "execute"):
                return self.bad(pkt)
            self.phase = "done"
        elif k == "count":
            if self.phase != "start" or m not in ("query", "execute"):
                return self.bad(pkt)
            self.ok(eq(pkt.n, length(self.columns)), "column count")
            self.ncols, self.phase = pkt.n, "cols"
        elif k == "prepared":
            if self.phase != "start" or m != "prepare":
                return self.bad(pkt)
            self.stmt = pkt.stmt
            self.ncols = pkt.stmt.num_params
            self.phase = "cols"
        elif k == "column":
            if m == "fields" and self.phase == "start" and pkt.field_list:
                self.cols = self.cols + 1
                self.field(pkt)
                return
            if self.phase != "cols" or pkt.field_list:
                return self.bad(pkt)
            self.ok(self.cols < self.ncols, "no more column definitions than columns")
            if m != "prepare":
                self.ok(And(tagged(pkt.name, "name", self.cols), tagged(pkt.type, "type", self.cols), tagged(pkt.charset, "charset", self.cols)),
                        "the definition is that of the next column")
            self.ok(pkt.names_charset is self.env.cs_results, "column names are in the results character set")
            self.cols = self.cols + 1
        elif k == "row":
            if not self.at_rows() and not (m == "fetch" and self.phase == "start"):
                return self.bad(pkt)
            if self.cursor is True:
                return self.bad(pkt, "with a cursor")
            self.phase = "rows"
            self.ok(pkt.binary == (m in ("execute", "fetch")), "the row's protocol")
            self.ok(eq(pkt.i, self.base() + self.rows), "the next row")
            if m != "fetch":
                self.ok(pkt.columns is self.columns, "the row's columns")
            self.rows = self.rows + 1
        elif k == "eof" or k == "ok":
            # an OK packet in place of EOF iff that was negotiated
            self.ok((k == "ok") == self.deprecate(), "EOF or OK")
            if self.phase == "cols" and m == "prepare":
                self.ok(And(self.columns_sent(), self.ncols > 0), "all parameter definitions")
                self.phase = "done"
            elif self.phase == "cols" and k == "eof" and not (m == "execute" and self.cursor is True):
                self.ok(self.columns_sent(), "all column definitions")
                self.phase = "rows"
            elif self.at_rows() or self.phase == "start" and m in ("fields", "fetch") or self.phase == "cols" and self.cursor is True:
                if self.phase == "cols":
                    self.ok(self.columns_sent(), "all column definitions")
                self.phase = "done"
                self.terminator(pkt)
            else:
                self.bad(pkt)
        else:
            self.bad(pkt)

    def base(self):
        return self.__dict__.get("first_row", 0)

    def terminator(self, pkt):
        self.flags = pkt.flags

    def field(self, pkt):
        pass


class Stream(Ghostly):
    def __init__(self, env):
        self.env = env
        self.resets = 0
        self.queued = False  # since the last drain

    async def read(self):
        return await self.env.read()

    async def write(self, data, drain=True):
        env = self.env
        if self.queued and env.v.choose(2, "is the buffer full?"):
            self.queued = False
            await env.point(must=True)
        self.queued = True
        env.client.feed(data)
        env.sent(data)
        if drain:
            await self.drain()

    def write_nowait(self, data):
        self.env.client.feed(data)
        self.env.sent(data)

    async def drain(self):
        self.queued = False
        await self.env.point()

    def reset_seq(self):
        self.resets += 1

    async def start_tls(self, ssl):
        await self.env.tls(ssl)


class Variables(Ghostly):
    def __init__(self, env):
        self.env = env
        self.values = {"character_set_client": "<client>", "character_set_results": "<results>", "version": "<version>"}

    def get(self, name):
        if name not in self.values:
            raise Unsupported(f"variable {name}")
        return self.values[name]

    def set(self, name, value, force=False):
        self.env.log.append(("set", name, value, force))
        self.values[name] = value


class Session(Ghostly):
    def __init__(self, env):
        self.env = env
        self.variables = Variables(env)
        self.username = self.database = None

    async def _call(self, name, *a):
        env = self.env
        env.v.check("the application's session is only used by an authenticated client", env.identity is not None)
        env.log.append((name, *a))
        await env.point()
        if env.v.choose(2, f"{name} fails?"):
            env.failed = True
            raise Failure()

    async def init(self, conn):
        await self._call("init", conn)

    async def use(self, db):
        await self._call("use", db)

    async def reset(self):
        await self._call("reset")

    async def handle_query(self, sql, attrs):
        await self._call("handle_query", sql, attrs)
        return self.env.result

    async def close(self):
        self.env.log.append(("close",))
        if self.env.v.choose(2, "close is cancelled?"):
            raise asyncio.CancelledError()


class Task(Ghostly):
    def __init__(self, env):
        self.env = env
        self.pending = False
        self.cancels = 0

    def cancel(self, *a):
        self.pending = True
        self.cancels += 1
        return True

    def uncancel(self):
        self.cancels -= 1
        return self.cancels

    def cancelling(self):
        return self.cancels


class Charsets(Ghostly):
    def __init__(self, env):
        self.env = env

    def __getitem__(self, name):
        if isinstance(name, sym.SCharsetName):
            return name.charset
        if name == "<client>":
            return self.env.cs_client
        if name == "<results>":
            return self.env.cs_results
        raise Unsupported(f"character set {name}")


STUBS = {}


def stub(kind):
    def deco(f):
        STUBS["make_" + kind] = f
        return f
    return deco


class Env(Ghostly):
    """A connection whose environment is the worst"""

    def __init__(self, v, killing=False):
        self.v = v
        self.killing = killing
        m = self.m = v.mod("connection")
        self.C = v.mod("types").Capabilities
        self.packets = v.mod("packets")
        self.errors = v.mod("errors")
        self.KillKind = v.mod("constants").KillKind
        self.log = []
        self.failed = self.cancelled = False
        self.identity = "somebody"
        self.cs_client, self.cs_results = v.charset("client_charset"), v.charset("results_charset")
        self.client = Client(self)
        self.stream = Stream(self)
        self.session = Session(self)
        self.control, self.provider = Ghostly(), Ghostly()
        self.result = None
        self.current = None
        self.trace = []
        v.patch(m, "CharacterSet", Charsets(self))
        self.task = Task(self)
        v.state["stub:asyncio.current_task"] = lambda *a: self.current
        self.caps = v.flags("capabilities", self.C)
        conn = self.conn = m.Connection(stream=self.stream, session=self.session, control=self.control, identity_provider=self.provider,
                                        server_capabilities=v.flags("server_capabilities", self.C))
        conn.capabilities = self.caps
        self.current = self.task
        self.stubs()
        v.state["env"] = self
        v.state["conn"] = conn
        v.abstract = True

    def stubs(self):
        """packets.make_* by their contracts (c_packets)"""
        v, p, me = self.v, self.packets, self

        def put(name, f):
            real = getattr(p, name)
            sig = inspect.signature(real)

            def fake(*a, **k):
                b = sig.bind(*a, **k)
                b.apply_defaults()
                return f(**b.arguments)
            replace_everywhere(v, real, fake)

        def capabilities(x):
            v.check("packets are made for the negotiated capabilities", x is me.conn.capabilities)

        def ok(capabilities, status_flags, eof, affected_rows, last_insert_id, warnings, flags, c=capabilities):
            c(capabilities)
            return Pkt("ok", eof=eof, flags=flags, affected_rows=affected_rows)

        def eof(capabilities, status_flags, warnings, flags, c=capabilities):
            c(capabilities)
            return Pkt("eof", flags=flags)

        def error(capabilities, server_charset, msg, code):
            return Pkt("err", code=code, charset=server_charset, capabilities=capabilities, msg=msg)

        def count(capabilities, column_count, c=capabilities):
            c(capabilities)
            return Pkt("count", n=column_count)

        def column(server_charset, schema, table, org_table, name, org_name, character_set, column_length, column_type, flags, decimals,
                   is_com_field_list, default):
            return Pkt("column", names_charset=server_charset, name=name, type=column_type, charset=character_set,
                       field_list=bool(is_com_field_list), default=default, table=table)

        put("make_ok", ok)
        put("make_eof", eof)
        put("make_error", error)
        put("make_column_count", count)
        put("make_column_definition_41", column)
        put("make_com_stmt_prepare_ok", lambda statement: Pkt("prepared", stmt=statement))
        put("make_text_resultset_row", lambda row, columns: Pkt("row", i=row.i, columns=columns, binary=False))
        put("make_binary_resultrow", lambda row, columns: Pkt("row", i=row.i, columns=columns, binary=True))
        put("make_auth_more_data", lambda data: Pkt("more", data=data))
        put("make_auth_switch_request", lambda server_charset, plugin_name, plugin_provided_data: Pkt(
            "switch", plugin=plugin_name, data=plugin_provided_data, charset=server_charset))
        put("make_handshake_v10", lambda **k: Pkt("handshake", **k))
        # rows are passed on, once and in order (c_results.row_iterators)
        u = v.mod("utils")
        replace_everywhere(v, u.aiterate, lambda x: x)

        def cooperative(x, batch_size=10_000):
            if isinstance(x, Source):
                x.cooperative = True
            return x
        replace_everywhere(v, u.cooperative_iterate, cooperative)

    def parsed(self, name, make):
        """A parser of packets: it gives what the client sent, or fails"""
        v = self.v

        def parse(*a, **k):
            if v.choose(2, "malformed?"):
                self.failed = True
                raise self.errors.MysqlError("malformed")
            return make(*a, **k)
        real = getattr(self.packets, name)
        replace_everywhere(v, real, parse)

    def columns(self):
        n = self.v.int("columns", 1)
        return SList(term(n), lambda i: Column(self.v, sym.wrap(term(i))))

    def resultset(self, v):
        """What the application returns, as ensure_result_set leaves it (c_results.result_set)"""
        if not v.choose(2, "rows?"):
            rs = v.mod("results").ResultSet([], [])
        else:
            self.source = Source(self, v.int("rows", 0))
            rs = v.mod("results").ResultSet(self.source, self.columns())
            self.client.columns = rs.columns
        self.result = rs

        async def ensure(x):
            v.check("the result is the application's", x is rs)
            await self.point()
            if v.choose(2, "is the result refused?"):
                self.failed = True
                raise self.errors.MysqlError("bad result")
            return rs
        replace_everywhere(v, v.mod("results").ensure_result_set, ensure)
        return rs

    # --- what happens while the connection waits
    async def point(self, must=False):
        v = self.v
        if not self.killing:
            if must or v.choose(2, "cancelled?"):
                self.cancelled = True
                raise asyncio.CancelledError()
            return
        k = self.KillKind
        what = v.pick("meanwhile", [(), (k.QUERY,), (k.CONNECTION,), (k.QUERY, k.CONNECTION), ("cancel",)])
        self.environment(what)
        if self.task.pending:
            self.task.pending = False
            raise asyncio.CancelledError()

    def environment(self, what):
        for kind in what:
            self.current, mine = None, self.current
            if kind == "cancel":
                self.shutdown = True
                self.task.cancel()
            else:
                self.conn.kill(kind)
            self.current = mine

    def pulled(self, source):
        """A row is pulled from the application"""

    def sent(self, pkt):
        pass

    async def read(self):
        raise Unsupported("the connection reads")

    async def tls(self, ssl):
        raise Unsupported("TLS")


def loops(c, it):
    """The contract of any loop of a connection, by what it iterates over"""
    env = c.state["env"]
    if shadow.is_generator(it):
        return TRANSPARENT
    if isinstance(it, shadow.SymIter):
        return over_columns(c, it, env)
    if isinstance(it, Source):
        return over_rows(c, it, env)
    if it is None and env.__dict__.get("while_loop"):
        return env.while_loop(c)
    return None


def ints(L):
    """Locals that count, or keep their value: {name: value on entry}"""
    return {n: x for n, x in L._loc.items() if n in L.changed and type(x) in (int, bool)}


def counted(c, st):
    return {n: c.int(n) if type(x) is int else x for n, x in st["ints"].items()}


def counting(L, st, k):
    for n, x in st.get("ints", {}).items():
        if type(x) is int:
            yield f"{n} counts", eq(getattr(L, n), k + x)
        else:
            yield f"{n} is unchanged", eq(getattr(L, n), x)


def over_columns(c, it, env):
    st, cl = {}, env.client

    def havoc(c, L):
        st["ints"] = ints(L)
        env.stream.queued = True
        cl.cols = c.int("columns_sent", 0)
        st["in"] = True
        return counted(c, st)

    def inv(c, L):
        yield "column definitions are expected", cl.phase == "cols"
        yield "a column definition was sent for each column so far", eq(cl.cols, sym.wrap(term(it.k)))
        yield from counting(L, st, sym.wrap(term(it.k)))

    return Invariant(havoc, inv, lambda c, L: sym.wrap(it.n() - term(it.k)), heap=lambda c, L: [cl, st, env, env.stream] + list(st.values()))


def over_rows(c, src, env):
    st, cl = {}, env.client

    def havoc(c, L):
        st["ints"] = ints(L)
        env.stream.queued = True
        src.pos = c.int("pos", 0)
        c.assume(src.pos <= src.n)
        cl.phase, cl.rows = "rows", src.pos
        if src is env.__dict__.get("fields"):
            cl.phase, cl.cols, cl.rows = "start", src.pos, 0
        return counted(c, st)

    def inv(c, L):
        if src is env.__dict__.get("fields"):
            yield "a column definition was sent for each row so far", And(cl.phase == "start", eq(cl.cols, src.pos))
        else:
            yield "rows are expected", cl.at_rows()
            yield "every row that was pulled was sent", eq(cl.rows, src.pos)
        yield from counting(L, st, src.pos)

    return Invariant(havoc, inv, lambda c, L: src.n - src.pos, heap=lambda c, L: [cl, src, st, env, env.stream] + list(st.values()))


def finish(v, env, call, complete=True, closing=False):
    """Run a handler; what it leaves behind is a complete response, or one that an ERR may still end"""
    cl = env.client
    try:
        shadow.drive(call())
    except asyncio.CancelledError:
        v.check("only a handler that is cancelled ends that way", env.cancelled)
        v.check("a cancelled handler leaves the response open", closing or cl.mode == "none" or not cl.complete(), lambda: cl.phase)
        return "cancelled"
    except Exception as e:  # pylint: disable=broad-except
        if core.misfit(e) or not env.failed and not isinstance(e, env.errors.MysqlError):
            raise
        v.check("a failed handler leaves the response open", cl.mode == "none" or not cl.complete())
        return e
    v.check("a cancellation isn't swallowed", not env.cancelled)
    if complete:
        v.check("the response is complete", cl.complete(), lambda: cl.phase)
    return None
