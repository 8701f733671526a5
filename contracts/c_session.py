"""session.py, intercept.py: which statements the application sees, and what the library makes of the others"""
import asyncio
import inspect
from datetime import timezone

import z3

from contracts.common import fam_bool, fam_text
from contracts.ghost import Failure, Ghostly
from dv import shadow, sym
from dv.core import Unsupported, term, unit, put
from dv.shadow import Invariant
from dv.spec import And, Implies, Not, Or, eq, length, opaque, raises, run, symbolic
from dv.sym import SInt, SList, is_sym


class Opaque:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


def exp():
    from sqlglot import expressions
    return expressions


class Control(Ghostly):
    def __init__(self, fails=False):
        self.kills, self.fails = [], fails

    async def kill(self, connection_id, kind):
        self.kills.append((connection_id, kind))
        if self.fails:
            raise asyncio.CancelledError()


class Conn(Ghostly):
    def __init__(self, control):
        self.control = control
        self.connection_id = Opaque("this connection's id")


class Vars(Ghostly):
    """A store of variables: some may be refused, all reads are of what was set last"""

    def __init__(self, values=(), refused=(), readonly=()):
        self.values, self.refused, self.readonly, self.log = dict(values), set(refused), set(readonly), []

    def get(self, name):
        name = name.lower()
        if name not in self.values:
            raise Failure()
        return self.values[name]

    def set(self, name, value, force=False):
        name = name.lower()
        if name not in self.values or name in self.refused and not force or name in self.readonly and not force:
            raise Failure()
        self.log.append((name, value))
        self.values[name] = value

    def list(self):
        return sorted(self.values.items())


def session(v, variables=None):
    m = v.mod("session")
    s = m.Session(variables)
    put(s, "_connection", Conn(Control()))
    return m, s


# --- the chain of middlewares

class Chain(Ghostly):
    """A list of middlewares: none, or one and the rest of the list"""
    _mutable = False

    def __init__(self, first, rest):
        self.first, self.rest = first, rest

    def __bool__(self):
        return self.first is not None

    def __len__(self):
        raise Unsupported("the number of middlewares")

    def __getitem__(self, k):
        if k == 0 and self.first:
            return self.first
        if isinstance(k, slice) and (k.start, k.stop, k.step) == (1, None, None):
            return self.rest
        raise Unsupported("how the list of middlewares is taken apart")


@unit("C13 C17", "session.Query.next session.Query.start", internal=True)
def query_next(v):
    """The first middleware gets the statement, with the rest of the middlewares; if there's none left, the application gets it, with
    the client's text and attributes.  By induction for any number of middlewares"""
    m = v.mod("session")
    log = []
    fails = v.choose(2, "it fails?")
    result, rest = Opaque("result"), Chain(None, None)

    async def first(q):
        log.append(("middleware", q))
        if fails:
            raise Failure()
        return result

    async def app(e, sql, attrs):
        log.append(("application", e, sql, attrs))
        if fails:
            raise Failure()
        return result
    more = v.choose(2, "are there middlewares left?")
    q = m.Query(expression=opaque("expression"), sql=opaque("sql"), attrs=opaque("attrs"), _middlewares=Chain(first if more else None, rest),
                _query=app)
    e, sql, attrs = q.expression, q.sql, q.attrs
    got = []
    ex = raises(lambda: got.append(run(q.start() if v.choose(2, "started by the session") else q.next())), Failure)
    v.check("the next one is called once", len(log) == 1)
    v.check("by its turn", log[0][0] == ("middleware" if more else "application"))
    if more:
        p = log[0][1]
        v.check("the middleware gets the statement as it was sent", p.expression is e and p.sql is sql and p.attrs is attrs)
        v.check("the rest of the middlewares comes next, then the application", p._middlewares is rest and p._query is app)
    else:
        v.check("the application gets the statement as it was sent", log[0][1] is e and log[0][2] is sql and log[0][3] is attrs)
    v.check("its result is returned, its error raised", ex is not None if fails else ex is None and got[0] is result)


class Statement(Ghostly):
    _mutable = False

    def __init__(self, i):
        self.i = i
        self.key = "statement"


class Result(Ghostly):
    """What the application returned for statement i: maybe something falsy"""
    _mutable = False

    def __init__(self, v, i):
        self.v, self.i, self.truth = v, i, None

    def __bool__(self):
        if self.truth is None:
            self.truth = self.v.choose(2, "is the result falsy?") == 0
        return self.truth


def _statements(c, it):
    st = c.state
    if not isinstance(it, shadow.SymIter):
        return None

    def result(L):
        names = [k for k in L.changed if k in L._loc and L._loc[k] is None]
        if len(names) != 1:
            raise Unsupported("which local is the result?")
        return names[0]

    def havoc(c, L):
        st["result"] = result(L)
        k = st["started"] = c.int("statements", 0)
        return {st["result"]: Result(c, k - 1) if k > 0 else None}

    def inv(c, L):
        if "result" not in st:
            yield "no statement has been started", eq(st["started"], 0)
            return
        k, r = st["started"], getattr(L, st["result"])
        yield "every statement so far was started once, in order", eq(k, sym.wrap(term(L.it.k)))
        yield "the result is that of the last one", r is None and k == 0 if not isinstance(r, Result) else eq(r.i, k - 1)
    return Invariant(havoc, inv)


@unit("C13 C14", "session.Session.handle_query", loops={"*": _statements}, internal=True)
def handle_query(v):
    """Each statement of the text is run exactly once, in textual order, with the client's text and attributes; the result is that of
    the last; after an error no further statement is run.  For any number of statements"""
    m, s = session(v)
    n = v.int("n", 0, None if symbolic() and not v.bounded else 4)
    sql, attrs, app = opaque("sql"), opaque("attrs"), None
    app = s.query
    st = v.state
    st["started"] = 0
    st["stub:datetime.now"] = lambda tz=None: ("now", tz)
    tz = opaque("time zone") if symbolic() else timezone.utc
    s.timezone = lambda: tz
    put(s, "_parse", lambda text: SList(term(n), Statement) if symbolic() else [Statement(i) for i in range(n)])
    fails = []

    async def go(q):
        e = q.expression
        v.check("the next statement is run", isinstance(e, Statement) and eq(e.i, st["started"]))
        v.check("with the client's text", q.sql is sql)
        v.check("with the client's query attributes", q.attrs is attrs)
        v.check("all of the middlewares see it", q._middlewares is s.middlewares or list(q._middlewares) == list(s.middlewares))
        v.check("then the application", q._query == app)
        if symbolic():
            v.check("NOW is when the text arrived", eq(s.timestamp[0], "now"))
        st["started"] = st["started"] + 1
        if v.choose(2, "it fails?"):
            fails.append(True)
            raise Failure()
        return Result(v, e.i)
    v.patch(m.Query, "start", go)
    v.patch(m.Query, "next", go)
    got = []
    e = raises(lambda: got.append(run(s.handle_query(sql, attrs))), Failure)
    v.check("a statement's error is raised, and only that", (e is not None) == bool(fails))
    if e is not None:
        return
    r = got[0]
    v.check("every statement was run", eq(st["started"], n))
    v.check("the result is that of the last statement", eq(n, 0) if r is None else isinstance(r, Result) and eq(r.i, n - 1))


class Parsed(Ghostly):
    """Something the parser found: a statement, nothing, or a trailing comment"""
    _mutable = False

    def __init__(self, v, i):
        self.i = i
        self.there = v.choose(2, "is there a statement?") == 1
        self.key = v.pick("kind", ["select", "semicolon", "semicolons"]) if self.there else None

    def __bool__(self):
        return self.there


@unit("C13", "session.Session._parse", internal=True)
def parse(v):
    """The statements are those that SQLGlot finds in the text, in order, without the empty ones; for any number"""
    m, s = session(v)
    sql, tokens, other = opaque("sql"), opaque("tokens"), opaque("tokens, IN replaced")
    n = v.int("n", 0, None if symbolic() and not v.bounded else 3)
    found = {}

    def at(i):
        k = str(i)
        if k not in found:
            found[k] = Parsed(v, i)
        return found[k]

    class Parser:
        def parse(self, t, text=None):
            v.check("the tokens of the text are parsed", t is other and (text is sql or text is None))
            return SList(term(n), at) if symbolic() else [at(i) for i in range(n)]

    class Dialect:
        def tokenize(self, text):
            v.check("the client's text is tokenized", text is sql)
            return tokens

        def parser(self, **k):
            return Parser()
    s.dialect = Dialect

    def replace(t):
        v.check("IN is replaced in the tokens", t is tokens)
        return other
    v.patch(m, "replace_show_in", replace)
    got = s._parse(sql)
    if isinstance(got, shadow.SComp):
        i = v.int("i", 0)
        v.assume(i < n)
        e, included = got.at(i)
        p = got.it.item(term(i))
        v.check("a statement is kept, in its place", e is p)
        v.check("exactly the statements are kept", sym.wrap(sym.truth(included)) == (p.there and p.key != "semicolon"))
        return
    if not isinstance(got, list):
        raise Unsupported("what _parse returns")
    want = [at(i) for i in range(n)] if not symbolic() else [found[k] for k in found]
    v.check("exactly the statements are kept, in order", [id(x) for x in got] == [id(x) for x in want if x.there and x.key != "semicolon"])


def _tokens(c, it):
    st = c.state
    if not isinstance(it, shadow.SymIter):
        return None
    tt = st["tt"]

    def havoc(c, L):
        lists = [k for k in L.changed if k in L._loc and isinstance(L._loc[k], (list, SList))]
        bools = [k for k in L.changed if k in L._loc and isinstance(L._loc[k], bool)]
        kinds = [k for k in L.changed if k in L._loc and isinstance(L._loc[k], tt)]
        if len(lists) != 1 or len(bools) != 1 or len(kinds) != 1:
            raise Unsupported("which locals are the result, the state and the previous token?")
        st.update(out=lists[0], show=bools[0], prev=kinds[0])
        k = st["k"] = c.int("scanned", 0)
        del k
        st["list"] = SList(c.int("tokens so far", 0)._z3, lambda i: opaque("token"))
        is_show = st["show0"] = c.choose(2, "in SHOW") == 1
        prev = st["prev0"] = c.pick("previous", [tt.SEMICOLON, tt.VAR])
        st["seen"] = None
        return {lists[0]: st["list"], bools[0]: is_show, kinds[0]: prev}

    def inv(c, L):
        if "out" not in st:
            yield "nothing is scanned yet", True
            return
        out, t = getattr(L, st["out"]), st["seen"]
        yield "the result is extended", out is st["list"]
        if t is None:
            return
        is_show = (t.token_type == tt.SHOW) if st["prev0"] == tt.SEMICOLON else (st["show0"] and t.token_type not in (tt.LIKE, tt.WHERE))
        yield "a statement is SHOW if its first token is, up to LIKE or WHERE", getattr(L, st["show"]) == is_show
        prev = getattr(L, st["prev"])
        yield "the previous token is known", (prev == tt.SEMICOLON) == (t.token_type == tt.SEMICOLON)
        ok = len(out.tail) == 1
        if ok:
            x = out.tail[0]
            if is_show and t.token_type == tt.IN:
                ok = x.token_type == tt.FROM and (x.text, x.line, x.col, x.start, x.end, x.comments) == ("FROM", t.line, t.col, t.start, t.end, t.comments)
            else:
                ok = x is t
        yield "the token is kept, unless it's IN of SHOW, which becomes FROM", ok
    return Invariant(havoc, inv, heap=lambda c, L: [getattr(L, st["out"]), getattr(L, st["out"]).tail])


@unit("C13 C16", "intercept.replace_show_in", loops={"*": _tokens}, internal=True)
def show_in(v):
    """IN becomes FROM in SHOW statements, before LIKE and WHERE; no other token is changed, dropped, moved or added; for any number"""
    from sqlglot.tokens import Token, TokenType as TT
    m = v.mod("intercept")
    v.state["tt"] = TT
    kinds = [TT.SEMICOLON, TT.SHOW, TT.IN, TT.LIKE, TT.WHERE, TT.FROM, TT.VAR, TT.SELECT]
    if not symbolic() or v.bounded:
        toks = [Token(v.pick("token", kinds), f"t{i}", 1, 2, 3, 4, ["c"]) for i in range(v.int("n", 0, 8) if not symbolic() else 3)]
        got = m.replace_show_in(toks)
        show, prev, want = False, TT.SEMICOLON, []
        for t in toks:
            if prev == TT.SEMICOLON:
                show = t.token_type == TT.SHOW
            elif t.token_type in (TT.LIKE, TT.WHERE):
                show = False
            prev = t.token_type
            want.append((TT.FROM, "FROM") if show and t.token_type == TT.IN else (t.token_type, t.text))
        v.check("the tokens", [(t.token_type, t.text) for t in got] == want)
        return
    memo = {}

    def at(i):
        # the token of the arbitrary iteration
        if str(i) not in memo:
            memo[str(i)] = Token(v.pick("token", kinds), "text", 1, 2, 3, 4, ["comment"])
        v.state["seen"] = memo[str(i)]
        return memo[str(i)]
    got = m.replace_show_in(SList(v.int("n", 0)._z3, at))
    v.check("the result is that of the scan", got is v.state["list"])


# --- which statements are the library's

def chain(v, s, m, expression, sql="the text", attrs=None):
    """(result or exception, what the application got)"""
    calls = []
    attrs = {"a": "b"} if attrs is None else attrs
    result = Opaque("the application's result")

    async def app(e, text, at):
        calls.append((e, text, at))
        return result
    q = m.Query(expression=expression, sql=sql, attrs=attrs, _middlewares=s.middlewares, _query=app)
    out = []
    ex = raises(lambda: out.append(run(q.start())), Exception)
    return (out[0] if out else ex), result, [(e is expression, text is sql, at is attrs) for e, text, at in calls]


LIBRARY = {"Set", "Use", "Kill", "Show", "Transaction", "Commit", "Rollback"}


@unit("C13", "session.Session._begin_middleware session.Session._commit_middleware session.Session._rollback_middleware "
      "session.Session._use_middleware session.Session._kill_middleware session.Session._show_middleware session.Session._set_middleware "
      "session.Session._describe_middleware session.Session._static_query_middleware session.Session._info_schema_middleware "
      "session.Session._set_var_middleware session.Session._replace_variables_middleware",
      assumes=["exhaustive over the statement classes of the installed SQLGlot"], bounded="one statement of each of SQLGlot's statement classes")
def dispatch(v):
    """A statement of any class that isn't the library's own passes all middlewares and reaches the application exactly once;
    one of the library's never does.  Exhaustive over SQLGlot's expression classes, in the session's real order of middlewares"""
    x = exp()
    m, s = session(v)
    classes = sorted((c for c in vars(x).values() if inspect.isclass(c) and issubclass(c, x.Expression)), key=lambda c: c.__name__)
    t = x.to_table("t")
    col = x.select("a").from_("t")
    special = {"Select": [col.copy()], "Subquery": [x.Subquery(this=col.copy())],
               "Union": [x.Union(this=col.copy(), expression=col.copy())], "Except": [x.Except(this=col.copy(), expression=col.copy())],
               "Intersect": [x.Intersect(this=col.copy(), expression=col.copy())],
               "Describe": [x.Describe(this=col.copy())], "Command": [x.Command(this="EXPLAIN", expression=x.Literal.string("SELECT 1"))],
               "Insert": [x.insert("SELECT 1", "t", dialect="mysql"), x.Insert(this=t.copy(), expression=x.select("1"))],
               "Create": [x.Create(this=t.copy(), kind="TABLE", expression=x.select("1"))]}
    for c in classes:
        if issubclass(c, (x.Set, x.Use, x.Kill, x.Show, x.Transaction, x.Commit, x.Rollback)):
            continue
        if issubclass(c, (x.Func, x.Condition)) and c.__name__ not in special:
            continue  # not statements
        for e in special.get(c.__name__, [c()]):
            r, result, calls = chain(v, s, m, e)
            v.check(f"{c.__name__} reaches the application once, as it was sent", calls == [(True, True, True)], lambda: repr((r, calls)))
            v.check(f"{c.__name__}: the application's result is the client's", r is result)
    for e in (x.Transaction(), x.Commit(), x.Rollback()):
        for s.database in (None, "db"):
            r, result, calls = chain(v, s, m, e)
            v.check(f"{type(e).__name__} is answered by the library", calls == [] and r is not result and not isinstance(r, Exception) and not r[0])


@unit("C13", "session.Session._use_middleware session.Session.use")
def use(v):
    """USE selects the named database, once; the application never sees the statement"""
    x = exp()
    m, s = session(v)
    name = v.text("name")

    class Node(x.Table):
        name = property(lambda self: wanted)
        this = property(lambda self: x.Identifier(this=wanted, quoted=False))
    wanted = name
    node = x.Use(this=Node())
    calls = []

    async def app(*a):
        calls.append(a)
    q = m.Query(expression=node, sql="", attrs={}, _middlewares=[], _query=app)
    if v.choose(2, "the session's own"):
        given = []

        async def spy(db):
            given.append(db)
            if v.choose(2, "it fails?"):
                raise Failure()
        s.use = spy
        out = []
        e = raises(lambda: out.append(run(s._use_middleware(q))), Failure)
        v.check("the session is told once which database is selected", len(given) == 1 and eq(given[0], name))
        v.check("the application doesn't see it", calls == [])
        v.check("an error is raised", e is not None or not out[0][0])
        return
    s.database = v.text("selected before")
    r = run(s._use_middleware(q))
    v.check("the database is selected", And(eq(s.database, name), not r[0], calls == []))
    other = v.text("other")
    run(s.use(other))
    v.check("the selected database is what the client selected last", eq(s.database, other))


class Number(Ghostly):
    """The node of a connection id"""
    _mutable = False

    def __init__(self, name):
        self.name = self.this = name
        self.parent = self.arg_key = self.index = None

    def text(self, key):
        return self.name if key == "this" else ""


@unit("C09 C13 C18", "session.Session._kill_middleware", internal=True)
def kill(v):
    """KILL [CONNECTION | QUERY] n asks for exactly that, once, of connection n; an id that isn't a number is an error"""
    x = exp()
    m, s = session(v)
    kinds = v.mod("constants").KillKind
    kind = v.pick("kind", ["", "QUERY", "CONNECTION", "query", "Connection"])
    want = kinds.QUERY if kind.upper() == "QUERY" else kinds.CONNECTION
    n = v.int("n", 0, (1 << 64) - 1)
    bad = v.choose(2, "isn't a number") == 1
    text = v.text("id") if symbolic() else ("abc" if bad else str(n))

    def to_int(t, *a):
        v.check("the id is what the client sent", t is text)
        if bad:
            raise ValueError("invalid literal")
        return n
    v.state["int_of_text"] = to_int
    e = x.Kill(this=Number(text))
    if kind:
        e.set("kind", x.Var(this=kind))
    control = v.pick("control", ["control", "cancelled", "none"])
    s._connection.control = None if control == "none" else Control(control == "cancelled")
    # straight, since other middlewares walk the tree
    calls = []

    async def app(*a):
        calls.append(a)
    q = m.Query(expression=e, sql="", attrs={}, _middlewares=[], _query=app)
    out = []
    ex = raises(lambda: out.append(run(s._kill_middleware(q))), BaseException) if True else None
    if isinstance(ex, (Unsupported, sym.Symbolic)) or ex is not None and type(ex).__module__.startswith("dv"):
        raise ex
    v.check("the application doesn't see it", calls == [])
    if control == "none":
        return
    kills = s._connection.control.kills
    if bad:
        v.check("an id that isn't a number is an error", isinstance(ex, v.mod("errors").MysqlError) and kills == [])
        return
    v.check("one kill is asked for", len(kills) == 1)
    v.check("of the connection with that id", eq(kills[0][0], n))
    v.check("of that kind", kills[0][1] is want)
    v.check("whoever kills itself is cancelled, all others get an OK", isinstance(ex, asyncio.CancelledError) if control == "cancelled" else ex is None and not out[0][0])


# --- variables

@unit("C14", "session.Session._set_var_middleware", internal=True, bounded="up to 2 hints of two variables")
def set_var(v):
    """SET_VAR: the statement is run with the variables of the hint; afterwards, however it ended, each has the value from before"""
    x = exp()
    names = ["a", "b"]
    before = {n: Opaque(f"{n} before") for n in names + ["other"]}
    refused = v.pick("refused", [[], ["a"], ["b"]])
    vs = Vars(before, refused if v.choose(2, "by its type") else (), refused)
    m, s = session(v, vs)
    hints = v.choose(3, "hints")
    asked = [names[v.choose(2, "variable")].upper() for _ in range(hints)]
    if v.choose(2, "unknown variable") and hints:
        asked[-1] = "nosuch"
    values = [f"value {i}" for i in range(hints)]
    fns = [x.Anonymous(this="SET_VAR", expressions=[x.EQ(this=x.column(n), expression=x.Literal.string(w))]) for n, w in zip(asked, values)]
    other = v.choose(2, "another hint")
    if other:
        fns.insert(v.choose(len(fns) + 1, "where"), x.Anonymous(this="NO_MERGE", expressions=[]))
    e = x.select("y").from_("t")
    if fns:
        e.set("hint", x.Hint(expressions=fns))
    how = v.pick("the statement", ["succeeds", "fails", "is cancelled"])
    during, result = [], Opaque("result")

    async def app(ex, sql, attrs):
        during.append((dict(vs.values), ex is e, ex.find(x.Hint)))
        if how == "fails":
            raise Failure()
        if how == "is cancelled":
            raise asyncio.CancelledError()
        return result
    q = m.Query(expression=e, sql="", attrs={}, _middlewares=[], _query=app)
    out = []
    try:
        out.append(run(s._set_var_middleware(q)))
    except (Failure, asyncio.CancelledError) as err:
        out.append(err)
    v.check("every variable has its value from before", vs.values == before)
    bad = any(n.lower() not in before or n.lower() in refused for n in asked)
    if bad:
        v.check("a hint that can't be applied is an error, and the statement isn't run", during == [] and isinstance(out[0], Exception))
        return
    v.check("the statement is run once", len(during) == 1 and during[0][1])
    want = dict(before)
    for n, w in reversed(list(zip(asked, values))):
        if sum(n.lower() == o.lower() for o in asked) == 1:
            want[n.lower()] = w
    got = during[0][0]
    v.check("with the variables of the hint, and no other changed",
            all(got[n] == want[n] for n in before if sum(n == o.lower() for o in asked) < 2)
            and all(got[n.lower()] in [w for o, w in zip(asked, values) if o == n] for n in asked))
    v.check("its outcome is the client's", out[0] is result if how == "succeeds" else isinstance(out[0], (Failure, asyncio.CancelledError)))
    left = [f.name for f in during[0][2].expressions] if during[0][2] else []
    v.check("SET_VAR isn't left in the statement, other hints are", left == (["NO_MERGE"] if other else []))


@unit("C14 C13 C15", "session.Session._set_middleware session.Session._set_variable session.Session._set_names session.Session._set_charset "
      "session.Session._set_transaction intercept.setitem_kind", bounded="every form of SET, up to 2 assignments of two variables")
def set_statement(v):
    """SET assigns exactly the named variables of the session, in order; other scopes and user variables are errors"""
    x = exp()
    cs = v.mod("charset")
    errors = v.mod("errors")
    default = v.mod("variables").DEFAULT
    names = ["a", "b", "character_set_client", "character_set_results", "character_set_connection", "character_set_database",
             "collation_connection", "transaction_isolation", "transaction_read_only"]
    before = {n: Opaque(f"{n} before") for n in names}
    before["character_set_database"] = "utf8mb4"
    vs = Vars(before)
    m, s = session(v, vs)
    kind = v.pick("kind", ["variable", "names", "charset", "transaction", "command", "unknown"])
    value, want = Opaque("value"), []
    literal = x.Literal.string("text")
    fails = False
    if kind == "variable":
        items = []
        for i in range(v.choose(3, "assignments")):
            n = v.pick("name", ["a", "b"])
            style = v.pick("style", ["name", "@@name", "@@session.name", "SESSION name", "LOCAL name", "GLOBAL name", "@@global.name", "@name", "nosuch"])
            left = x.SessionParameter(this=x.to_identifier(n)) if style.startswith("@@") else x.column("nosuch" if style == "nosuch" else n)
            if "." in style:
                left.set("kind", style[2:].split(".")[0].upper() if v.choose(2, "upper") else style[2:].split(".")[0])
            if style == "@name":
                left = x.Parameter(this=x.to_identifier(n))
            it = x.SetItem(this=x.EQ(this=left, expression=literal.copy()))
            if " " in style:
                it.set("kind", style.split()[0])
            items.append(it)
            if style in ("GLOBAL name", "@@global.name", "@name", "nosuch"):
                fails = True
            elif not fails:
                want.append((n, "text"))
        e = x.Set(expressions=items)
    elif kind == "names":
        name = v.pick("charset", ["latin1", "LATIN1", "DEFAULT", "default", "gbk", "nosuch"])
        collate = v.pick("collate", [None, "gbk_bin"])
        it = x.SetItem(this=x.Var(this=name), kind="NAMES")
        if collate:
            it.set("collate", x.Var(this=collate))
        if name.upper() == "DEFAULT":
            want = [("character_set_client", default), ("character_set_connection", default), ("character_set_results", default), ("collation_connection", default)]
        elif name == "nosuch":
            fails = True
            if collate:
                return
        else:
            n = name.lower()
            want = [("character_set_client", n), ("character_set_connection", n), ("character_set_results", n),
                    ("collation_connection", collate or cs.CharacterSet[n].default_collation.name)]
        e = x.Set(expressions=[it])
    elif kind == "charset":
        name = v.pick("charset", ["latin1", "DEFAULT", "default"])
        d = name.upper() == "DEFAULT"
        want = [("character_set_client", default if d else name), ("character_set_results", default if d else name),
                ("character_set_connection", default if d else before["character_set_database"])]
        e = x.Set(expressions=[x.SetItem(this=x.Var(this=name), kind="CHARACTER SET")])
    elif kind == "transaction":
        table = {"READ ONLY": ("transaction_read_only", True), "READ WRITE": ("transaction_read_only", False),
                 "ISOLATION LEVEL REPEATABLE READ": ("transaction_isolation", "REPEATABLE-READ"),
                 "ISOLATION LEVEL READ COMMITTED": ("transaction_isolation", "READ-COMMITTED"),
                 "ISOLATION LEVEL READ UNCOMMITTED": ("transaction_isolation", "READ-UNCOMMITTED"),
                 "ISOLATION LEVEL SERIALIZABLE": ("transaction_isolation", "SERIALIZABLE")}
        cs_ = [v.pick("characteristic", sorted(table)) for _ in range(1 + v.choose(2, "two"))]
        want = [table[c] for c in cs_]
        e = x.Set(expressions=[x.SetItem(expressions=[x.Var(this=c) for c in cs_], kind="TRANSACTION")])
    elif kind == "command":
        fails = True
        e = x.Command(this=v.pick("word", ["SET", "set"]), expression=x.Literal.string("whatever"))
    else:
        fails = True
        e = x.Set(expressions=[x.SetItem(this=x.Var(this="y"), kind="PASSWORD")])
    if kind in ("names", "charset") and v.choose(2, "straight"):
        pass
    r, result, calls = chain(v, s, m, e)
    v.check("the application doesn't see SET", calls == [])
    v.check("what isn't supported is an error, all else succeeds", isinstance(r, Exception) == fails, lambda: repr(r))
    if not fails:
        v.check("an OK without rows", not r[0])
        last = dict(before)
        last.update(want)
        v.check("exactly the variables of the statement are assigned", vs.values == last, lambda: repr((vs.log, want)))
        if kind == "variable":
            v.check("each once, in order", vs.log == want)
    else:
        v.check("no other variable is assigned", all(vs.values[n] is before[n] or (n, vs.values[n]) in want for n in before))
    del value, errors


@unit("C14 C13 C18", "session.Session._replace_variables_middleware session.Session.__init__ intercept.value_to_expression", internal=True, bounded="every function and spelling in two statements")
def functions(v):
    """@@variables and information functions are replaced by their values, of this session and connection"""
    x = exp()
    m = v.mod("session")
    vs = Vars({"external_user": "ext", "version": "9.9", "time_zone": "UTC", "a": Opaque("a")})
    s = m.Session(vs)
    conn = put(s, "_connection", Conn(Control()))
    conn.connection_id = 77
    s.username, s.database = "user", "db"
    asked = []

    class Stamp(Ghostly):
        def astimezone(self, tz):
            asked.append(tz)
            return self

        def strftime(self, fmt):
            return {"%Y-%m-%d %H:%M:%S": "now", "%Y-%m-%d": "today", "%H:%M:%S": "time"}[fmt]
    s.timestamp = Stamp()
    zone = opaque("zone")
    s.timezone = lambda: zone
    value = Opaque("value of a")
    vs.values["a"] = v.pick("a", [True, False, None, 0, 5, -1, 2.5, "", "x'y", "5"])
    want = {"CONNECTION_ID": 77, "USER": "ext", "SYSTEM_USER": "ext", "SESSION_USER": "ext", "CURRENT_USER": "user", "VERSION": "9.9",
            "DATABASE": "db", "SCHEMA": "db", "NOW": "now", "CURRENT_TIMESTAMP": "now", "LOCALTIME": "now", "LOCALTIMESTAMP": "now",
            "CURDATE": "today", "CURRENT_DATE": "today", "CURTIME": "time", "CURRENT_TIME": "time"}
    import sqlglot
    cases = []
    for f, w in want.items():
        for spelling in (f, f.lower()):
            cases.append((f"{spelling}()", w))
        if f in ("CURRENT_USER", "CURRENT_TIME", "CURRENT_TIMESTAMP", "CURRENT_DATE"):
            cases.append((f, w))
    cases += [("@@a", vs.values["a"]), ("@@session.a", vs.values["a"]), ("@@A", vs.values["a"])]
    for sql, w in cases:
        for text, find in ((f"SELECT {sql}, 'keep' FROM t", lambda e: e.expressions[0].unalias()), (f"SELECT x FROM t WHERE y = {sql}", lambda e: e.find(x.EQ).right)):
            e = sqlglot.parse_one(text, read="mysql")
            seen = []

            async def app(ex, sql, attrs):
                seen.append(ex)
            run(m.Query(expression=e, sql=text, attrs={}, _middlewares=[], _query=app).start() if False else s._replace_variables_middleware(
                m.Query(expression=e, sql=text, attrs={}, _middlewares=[], _query=app)))
            v.check("the statement goes on, once", len(seen) == 1)
            node = find(seen[0])
            ok = {bool: lambda: isinstance(node, x.Boolean) and node.this is w, type(None): lambda: isinstance(node, x.Null)}.get(
                type(w), lambda: value_of(x, node) == w and type(value_of(x, node)) is type(w))
            v.check(f"{sql} is its value", bool(ok()), lambda: repr((node, w)))
            v.check("the output column keeps its name", text.startswith("SELECT x") or seen[0].expressions[0].alias_or_name != "")
            v.check("the rest of the statement is as it was", text.startswith("SELECT x") or seen[0].expressions[1].name == "keep")
    v.check("NOW and the like are in the session's time zone", all(z is zone for z in asked) and asked != [])
    del value


def value_of(x, node):
    if isinstance(node, x.Neg):
        return -value_of(x, node.this)
    if isinstance(node, x.Literal):
        if node.is_string:
            return node.this
        return float(node.this) if "." in str(node.this) else int(node.this)
    return node


@unit("C14 C16", "session.Session._show_variables session.Session._show", internal=True)
def show_variables(v):
    """SHOW VARIABLES lists every variable once with its value as text (NULL stays NULL); LIKE selects exactly those whose name matches;
    for any number of variables"""
    x = exp()
    if symbolic() and not v.bounded:
        return _any_variables(v, x)
    vals = {"a": 5, "ab": None, "b_c": "text", "bxc": True}
    pattern = v.pick("pattern", ["some pattern", "a", "a%", "%", "b_c", "b\\_c", "", "A"])
    vs = Vars(vals)
    m, s = session(v, vs)
    like = v.choose(2, "like")
    matching = {n for n in vals if v.choose(2, f"{n} matches")} if like else set(vals)
    asked = []

    def match(value, pattern):
        asked.append((value, pattern))
        return value in matching
    v.patch(m, "like_match", match)
    e = x.Show(this="VARIABLES")
    if like:
        e.set("like", x.Literal.string(pattern))
    r, result, calls = chain(v, s, m, e)
    v.check("the application doesn't see it", calls == [])
    v.check("the columns", list(r[1]) == ["Variable_name", "Value"])
    v.check("every matching variable is listed once, with its value",
            [tuple(y) for y in r[0]] == [(n, None if w is None else str(w)) for n, w in sorted(vals.items()) if n in matching])
    v.check("names are matched with the pattern", not like or asked == [(n, pattern) for n in sorted(vals)])


class Named(Ghostly):
    """The name of variable i"""
    _mutable = False

    def __init__(self, i):
        self.i = i


def _any_variables(v, x):
    n = v.int("variables", 0)
    vs = Vars({})
    put(vs, "list", lambda: SList(term(n), lambda i: (Named(i), None if fam_bool("null", i) else fam_text("value", i))))
    m, s = session(v, vs)
    like, pattern = v.choose(2, "like"), v.pick("pattern", ["pattern", ""])

    def match(name, p):
        v.check("names are matched with the pattern", isinstance(name, Named) and p == pattern)
        return fam_bool("matches", name.i)
    v.patch(m, "like_match", match)
    e = x.Show(this="VARIABLES")
    if like:
        e.set("like", x.Literal.string(pattern))
    rows, columns = run(s._show(e))
    v.check("the columns", list(columns) == ["Variable_name", "Value"])
    i = v.int("i", 0)
    v.assume(i < n)
    if isinstance(rows, shadow.SComp) and rows.kind == "ListComp":
        v.check("all variables are considered", And(eq(sym.wrap(term(rows.start)), 0), eq(rows.n(), n)))
        row, included = rows.at(i)
        included = sym.wrap(sym.truth(included))
    elif isinstance(rows, SList) and not rows.tail:
        v.check("all variables are listed", eq(rows.length(), n))
        row, included = rows.at(term(i)), True
    else:
        raise Unsupported("how the rows are made")
    v.check("exactly the matching variables are listed, once each, in order", eq(included, sym.wrap(term(fam_bool("matches", i))) if like else True))
    if included:
        v.check("with their names", isinstance(row[0], Named) and eq(row[0].i, i))
        if fam_bool("null", i):
            v.check("NULL stays NULL", row[1] is None)
        else:
            v.check("with their values", row[1] is not None and eq(row[1], fam_text("value", i)))


def _items(c, it):
    st = c.state
    if not isinstance(it, shadow.SymIter):
        return None

    def havoc(c, L):
        k = st["handled"] = c.int("handled", 0)
        del k
        return {}

    def inv(c, L):
        yield "every assignment so far was made once, in order", eq(st["handled"], sym.wrap(term(L.it.k)))
    return Invariant(havoc, inv)


@unit("C14 C13", "session.Session._set_middleware", loops={"*": _items}, internal=True)
def set_items(v):
    """SET makes each of its assignments exactly once, in textual order, by its kind; after an error none is made.  For any number"""
    x = exp()
    m, s = session(v, Vars({}))
    n = v.int("assignments", 0, None if symbolic() and not v.bounded else 4)
    st = v.state
    st["handled"] = 0
    kinds = ["VARIABLE", "NAMES", "CHARACTER SET", "TRANSACTION", "PASSWORD"]
    chosen, fails = {}, []

    class Item(x.SetItem):
        def __init__(self, i):
            super().__init__()
            self.i = i

    def kind_of(item):
        if str(item.i) not in chosen:
            chosen[str(item.i)] = v.pick("kind", kinds)
        return chosen[str(item.i)]

    def handle(kind):
        def f(item, *a):
            v.check("the next assignment is made", isinstance(item, Item) and eq(item.i, st["handled"]))
            v.check("by its kind", kind_of(item) == kind)
            if v.choose(2, "it fails?"):
                fails.append(True)
                raise Failure()
            st["handled"] = st["handled"] + 1
        return f
    v.patch(m, "setitem_kind", kind_of)
    for name, kind in (("_set_variable", "VARIABLE"), ("_set_names", "NAMES"), ("_set_charset", "CHARACTER SET"), ("_set_transaction", "TRANSACTION")):
        if not hasattr(s, name):
            raise Unsupported(name)
        put(s, name, handle(kind))
    memo = {}

    def at(i):
        k = str(i)
        if k not in memo:
            memo[k] = Item(i)
        return memo[k]
    e = x.Set()
    e.args["expressions"] = SList(term(n), at) if symbolic() else [at(i) for i in range(n)]
    calls = []

    async def app(*a):
        calls.append(a)
    out = []
    err = raises(lambda: out.append(run(s._set_middleware(m.Query(expression=e, sql="", attrs={}, _middlewares=[], _query=app)))),
                 Failure, v.mod("errors").MysqlError)
    v.check("the application doesn't see it", calls == [])
    if err is None:
        v.check("all assignments were made", eq(st["handled"], n))
        v.check("an OK without rows", not out[0][0])
    else:
        v.check("an error is that of an assignment, or of an unknown kind", bool(fails) or "PASSWORD" in chosen.values())


@unit("C14", "session.Session._show_status session.Session._show_warnings session.Session._show_errors session.Session._show")
def show_nothing(v):
    """SHOW STATUS, WARNINGS and ERRORS have no rows, and don't reach the application"""
    x = exp()
    m, s = session(v, Vars({}))
    kind, columns = v.pick("kind", [("STATUS", 2), ("WARNINGS", 3), ("ERRORS", 3)])
    r, _, calls = chain(v, s, m, x.Show(this=kind))
    v.check("the application doesn't see it", calls == [])
    v.check("no rows", not list(r[0]) and len(list(r[1])) == columns)


@unit("C13 C16", "session.Session._info_schema_middleware session.Session._show session.Session._describe_middleware session.Session._query_info_schema", bounded="queries of up to 2 tables")
def catalog(v):
    """A query is answered from the catalog iff all tables it reads are catalog tables, by their database or the selected one; SHOW and
    DESCRIBE of a table always are"""
    x = exp()
    m, s = session(v)
    s.database = v.pick("selected", [None, "information_schema", "INFORMATION_SCHEMA", "mydb"])
    asked, schema = [], opaque("schema")

    class Info:
        async def query(self, e):
            asked.append(e)
            return "rows"

    async def get_schema():
        return schema
    s.schema = get_schema

    def ensure(sc):
        v.check("the application's current schema is used", sc is schema)
        return Info()
    v.patch(m, "ensure_info_schema", ensure)
    kind = v.pick("statement", ["query", "show", "describe"])
    if kind == "show":
        built = Opaque("query")

        def build(show, database=None):
            v.check("SHOW is relative to the selected database", database == s.database)
            return built
        v.patch(m, "show_statement_to_info_schema_query", build)
        e = x.Show(this=v.pick("what", ["TABLES", "DATABASES", "COLUMNS", "INDEX"]))
        r, result, calls = chain(v, s, m, e)
        v.check("SHOW is answered from the catalog", r == "rows" and asked == [built] and calls == [])
        return
    if kind == "describe":
        shows = []

        def build(show, database=None):
            shows.append((show.name, show.text("target"), show.text("db"), database))
            return "query"
        v.patch(m, "show_statement_to_info_schema_query", build)
        db = v.pick("db", [None, "Other"])
        e = x.Describe(this=x.table_("Tbl", db=db))
        r, result, calls = chain(v, s, m, e)
        v.check("DESCRIBE of a table lists its columns", r == "rows" and shows == [("COLUMNS", "Tbl", db or "", s.database)] and calls == [])
        return
    dbs = [v.pick("table of", [None, "information_schema", "Information_Schema", "mysql", "mydb", "performance_schema"]) for _ in range(1 + v.choose(2, "two tables"))]
    tables = [x.table_(f"t{i}", db=d) for i, d in enumerate(dbs)]
    e = x.select("c").from_(tables[0])
    for t in tables[1:]:
        e = e.join(t, on="c = c")
    catalog_dbs = {"information_schema", "mysql", "performance_schema", "sys"} & set(v.mod("constants").INFO_SCHEMA)
    eff = [(d or s.database or "").lower() for d in dbs]
    mine = all(d in catalog_dbs for d in eff)
    r, result, calls = chain(v, s, m, e)
    if mine:
        v.check("a query of catalog tables is answered by the library", calls == [] and r == "rows" and len(asked) == 1)
        v.check("tables without a database are those of the selected one", [t.text("db").lower() for t in asked[0].find_all(x.Table)] == eff or
                sorted(t.text("db").lower() for t in asked[0].find_all(x.Table)) == sorted(eff))
    else:
        v.check("a query of any other table is the application's", calls == [(True, True, True)] and r is result and asked == [])


@unit("C13", "session.Session._static_query_middleware", bounded="eight statements")
def static(v):
    """A SELECT without FROM is evaluated by the library; one with FROM, INTO or a lock isn't"""
    x = exp()
    m, s = session(v)
    import sqlglot
    ran = []

    class Table:
        rows, columns = [(1,)], ("c",)

    def execute(e, tables=None, **k):
        ran.append(e)
        return Table
    v.patch(m, "execute", execute)
    for sql, mine in (("SELECT 1", True), ("SELECT 1 + 2 AS x, 'a' WHERE 1", True), ("SELECT 1 ORDER BY 1 LIMIT 1", True), ("SELECT 1 FROM t", False),
                      ("SELECT (SELECT a FROM t)", False), ("SELECT 1 WHERE EXISTS (SELECT a FROM t)", False), ("SELECT 1 INTO @x", False),
                      ("SELECT 1 FOR UPDATE", False)):
        del ran[:]
        try:
            e = sqlglot.parse_one(sql, read="mysql")
        except sqlglot.ParseError:
            continue
        r, result, calls = chain(v, s, m, e)
        if mine:
            v.check(f"{sql} is the library's", calls == [] and len(ran) == 1 and list(r[0]) == [(1,)] and list(r[1]) == ["c"])
        else:
            v.check(f"{sql} is the application's", calls == [(True, True, True)] and ran == [])


@unit("C14", "session.Session.timezone session.Session._now", internal=True)
def now(v):
    """NOW is when the statement arrived, in the time zone that is set then"""
    vs = Vars({"time_zone": opaque("name")})
    m, s = session(v, vs)
    zone, shifted = opaque("zone"), opaque("shifted")

    def parse(name):
        v.check("the time zone is the variable's", name is vs.values["time_zone"])
        return zone

    class Stamp(Ghostly):
        def astimezone(self, tz):
            v.check("it is shifted to the time zone", tz is zone)
            return shifted
    v.patch(m, "parse_timezone", parse)
    s.timestamp = Stamp()
    v.check("the time zone", s.timezone() is zone)
    v.check("the shifted time is used", s._now() is shifted)


@unit("C10 C08", "session.Session.init session.Session.close session.Session.connection")
def bound(v):
    m = v.mod("session")
    s, other = m.Session(), m.Session()
    conn = opaque("connection")
    run(s.init(conn))
    v.check("it is bound to its connection", s.connection is conn)
    v.check("another isn't", isinstance(raises(lambda: other.connection, Exception), AttributeError))
    for name in ("variables", "middlewares", "_functions"):
        v.check(f"sessions have their own {name}", getattr(s, name) is not getattr(other, name))


@unit("C15 C14", "intercept.expression_to_value", internal=True)
def values(v):
    """What a variable is set to: numbers, text, TRUE, FALSE, ON, OFF, NULL, DEFAULT; nothing else is taken for a value"""
    m, x = v.mod("intercept"), exp()
    kind = v.pick("kind", ["text", "number", "word", "other"])
    if kind == "text":
        text = v.text("text")

        class Text(x.Literal):
            name = property(lambda self: text)
            this = property(lambda self: text)
        v.check("text is the text", eq(m.expression_to_value(Text(this="", is_string=True)), text))
    elif kind == "number":
        t, w = v.pick("number", [("0", 0), ("5", 5), ("007", 7), ("18446744073709551615", 2 ** 64 - 1), ("1.5", 1.5), (".25", 0.25), ("1e3", 1000.0)])
        got = m.expression_to_value(x.Literal(this=t, is_string=False))
        v.check("a number is the number", type(got) is type(w) and got == w)
    elif kind == "word":
        t, w = v.pick("word", [("TRUE", True), ("FALSE", False), ("NULL", None), ("ON", True), ("OFF", False), ("DEFAULT", m.DEFAULT)])
        if t in ("TRUE", "FALSE", "NULL"):
            e = {"TRUE": x.true, "FALSE": x.false, "NULL": x.null}[t]()
        else:
            t = v.pick("spelling", [t, t.lower(), t.title()])
            e = v.pick("node", [x.Var(this=t), x.column(t), x.to_identifier(t)])
        v.check("a word is its value", m.expression_to_value(e) is w)
    else:
        e = v.pick("expression", [x.column("a"), x.Var(this="x"), x.Anonymous(this="f"), x.Add(this=x.Literal.number(1), expression=x.Literal.number(2)), x.Placeholder()])
        r = raises(lambda: m.expression_to_value(e), Exception)
        v.check("anything else is an error", r is not None)


@unit("C14", "session._is_command", internal=True)
def commands(v):
    """A statement that SQLGlot doesn't know is recognized by its first word, in any case; nothing else is"""
    m, x = v.mod("session"), exp()
    word = v.pick("word", ["SHOW", "show", "Set", "SET", "KILL", "SHOWS", "x", ""])
    name = v.pick("asked", ["SHOW", "SET"])
    v.check("the first word of a command", bool(m._is_command(x.Command(this=word, expression=v.pick("rest", ["", " SHOW", " SET"])), name)) == (word.upper() == name))
    for e in (x.column("SHOW"), x.Var(this="SET"), x.Show(this="SET"), x.Set(), x.select("SHOW")):
        v.check("not a command", not m._is_command(e, name))


__all__ = ["And", "Implies", "Not", "Or", "SInt", "is_sym", "length", "z3"]
