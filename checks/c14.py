"""C14: System variables form a typed, scoped store that clients cannot corrupt."""
import random
from datetime import datetime, timedelta, timezone

from lib import proto as P
from lib.sim import Factory, Session, Sim, Violation
from mysql_mimic.errors import MysqlError
from mysql_mimic.variables import GlobalVariables, SessionVariables, SYSTEM_VARIABLES

# name: (type, read-only), written down independently; defaults are read from a fresh session
INTS = ["auto_increment_increment", "interactive_timeout", "lower_case_table_names", "max_allowed_packet", "max_execution_time",
        "net_buffer_length", "net_write_timeout", "wait_timeout", "sql_select_limit"]
BOOLS = ["autocommit", "sql_auto_is_null", "transaction_read_only"]
STRS = ["init_connect", "sql_mode", "event_scheduler", "default_storage_engine", "default_tmp_storage_engine", "transaction_isolation",
        "collation_connection", "collation_database", "collation_server"]
CHARSETS = ["character_set_connection", "character_set_database", "character_set_server", "character_set_client", "character_set_results"]
READ_ONLY = ["external_user", "license", "performance_schema", "system_time_zone", "version", "version_comment"]
DYNAMIC = INTS + BOOLS + STRS + CHARSETS + ["time_zone"]
ERR = object()  # the assignment must fail
ANY = object()  # accepted or refused, any value of the type
UNKNOWN = ["nonsense", "sql_mod", "versio", "x", "values", "schema"]


def kind_of(name):
    if name in INTS:
        return "int"
    if name in BOOLS:
        return "bool"
    if name in CHARSETS:
        return "charset"
    if name == "time_zone":
        return "tz"
    return "str"


def quote(s):
    return "'" + s.replace("\\", "\\\\").replace("'", "''") + "'"


STRINGS = ["", "x", "TRADITIONAL", "a'b", "it''s", "a\\b", "%", "a;b", "-- c", "\u00e9", "x" * 300, "NULL", "DEFAULT", "1", "true", "@@version",
           "\"q\"", "a\nb", " pad "]


def value_for(rng, name, model):
    """(SQL text, expected value)"""
    kind = kind_of(name)
    x = rng.random()
    if x < 0.12:
        return rng.choice(["DEFAULT", "default", "Default", "NULL", "null"]), model.defaults[name]
    if kind == "int":
        v = rng.choice([0, 1, 2, 7, 100, 28800, 2**31 - 1, 2**31, 2**32, 2**63 - 1, rng.randrange(10**6)])
        return rng.choice([(str(v), v), (f"'{v}'", v), ("'abc'", ERR), ("''", ERR), ("1.5", ANY), ("TRUE", 1), ("FALSE", 0), ("-1", ANY), ("1 + 1", ANY),
                           (str(v), v), (str(v), v)])
    if kind == "bool":
        return rng.choice([("0", False), ("1", True), ("ON", True), ("OFF", False), ("on", True), ("off", False), ("TRUE", True), ("FALSE", False),
                           ("true", True), ("'ON'", True), ("'OFF'", False), ("'off'", False), ("'0'", False), ("'1'", True), ("'abc'", ERR), ("2", ANY), ("'on'", True), ("'true'", True), ("'False'", False), ("'On'", True), ("''", ERR)])
    if kind == "charset":
        c = rng.choice(["utf8mb4", "utf8", "latin1", "ascii"])
        return rng.choice([(f"'{c}'", c), (c, ANY) if False else (f"'{c}'", c), ("'nonsense'", ERR), ("''", ERR), ("7", ERR)])
    if kind == "tz":
        h, m = rng.randrange(0, 14), rng.choice([0, 0, 30, 45])
        sign = rng.choice("+-")
        return rng.choice([(f"'{sign}{h:02}:{m:02}'", f"{sign}{h:02}:{m:02}"), ("'UTC'", "UTC"), ("'utc'", "utc"), ("'nowhere'", ERR), ("''", ERR),
                           ("'+25:00'", ERR), ("'+1:00'", ANY), ("'+05:60'", ERR), ("5", ERR), ("'+05:00x'", ERR), ("'\u0661+05:00'", ERR),
                           (f"'{sign}{h:02}:{m:02}'", f"{sign}{h:02}:{m:02}")])
    s = rng.choice(STRINGS)
    return rng.choice([(quote(s), s), (quote(s), s), ("5", "5"), ("TRUE", ANY), ("ON", ANY), ("1.5", ANY)])


class Model:
    def __init__(self, defaults):
        self.defaults = dict(defaults)
        self.values = dict(defaults)

    def fits(self, name, got):
        """Is `got` a value of the variable's type?"""
        kind = kind_of(name)
        if got is None:
            return True
        try:
            if kind == "int":
                int(got)
            if kind == "bool":
                return got in ("True", "False")
        except ValueError:
            return False
        return True


class App(Session):
    def __init__(self, schema=None):
        super().__init__(SessionVariables(GlobalVariables(schema)) if schema else None)
        self.seen = []
        self.fail = False

    async def query(self, expression, sql, attrs):
        self.seen.append({k: v for k, v in self.variables.list()})
        if self.fail == "my":
            raise MysqlError("app")
        if self.fail:
            raise ValueError("app")
        return [("x",)], ["a"]


def text(v):
    return None if v is None else str(v)


def cellstr(x):
    return x.decode("utf8") if isinstance(x, (bytes, bytearray)) else None if x is None else str(x)


class Conn:
    def __init__(self, sim, f):
        self.c = sim.login("user")
        self.s = f.sessions[-1]
        self.m = Model({})
        self.m = Model(self.show())
        bad = [n for n in DYNAMIC + READ_ONLY if n not in self.m.values]
        if bad:
            raise Violation(f"not listed by SHOW VARIABLES: {bad}")

    def show(self):
        r = self.c.query("SHOW VARIABLES")
        if r.kind != "rows":
            raise Violation(f"SHOW VARIABLES: {r.err}")
        # results may be in another character set; only names and ASCII values matter then
        enc = {"latin1": "latin1", "ascii": "ascii"}.get(self.m.values.get("character_set_results"), "utf8") if self.m.values else "utf8"
        out = {}
        for k, v in r.rows:
            k = k.decode()
            if k in out:
                raise Violation(f"{k} listed twice")
            out[k] = None if v is None else bytes(v).decode("utf8")
        return out

    def read(self, name, spelling="@@{}"):
        r = self.c.query("SELECT " + spelling.format(name))
        if r.kind != "rows":
            raise Violation(f"reading {name}: {r.err}")
        return cellstr(r.rows[0][0])

    def same(self, name, got, bool_as_int=False):
        want = self.m.values[name]
        if kind_of(name) == "bool" or name == "performance_schema":
            got = {"1": "True", "0": "False"}.get(got, got)
        return got == want

    def verify(self, what, rng=None):
        shown = self.show()
        if shown != self.m.values:
            diff = {k: (shown.get(k), self.m.values.get(k)) for k in set(shown) | set(self.m.values) if shown.get(k) != self.m.values.get(k)}
            raise Violation(f"after {what!r}: variable: (value, expected): {diff}")
        if rng:
            for name in rng.sample(sorted(self.m.values), 3):
                sp = rng.choice(["@@{}", "@@session.{}", "@@SESSION.{}", "@@local.{}"])
                if rng.random() < 0.3:
                    name = name.upper()
                got = self.read(name, sp)
                if not self.same(name.lower(), got):
                    raise Violation(f"after {what!r}: {sp.format(name)} is {got!r}, expected {self.m.values[name.lower()]!r}")

    def assign(self, what, assignments, fits=False):
        """Runs a statement that assigns; assignments: [(name, expected)]; fits: the value isn't known, but it has one"""
        r = self.c.query(what)
        must_fail = any(e is ERR for _, e in assignments)
        may_fail = not fits and any(e is ANY for _, e in assignments)
        if must_fail and r.kind != "err":
            raise Violation(f"{what!r} was accepted")
        if not must_fail and not may_fail and r.kind == "err":
            raise Violation(f"{what!r}: {r.err}")
        if r.kind == "err" and len(assignments) > 1:
            # which of several assignments were made before the failure isn't specified: each has its old or new value
            shown = self.show()
            for name, e in assignments:
                if name in self.m.values and (e in (shown[name],) or text_eq(e, shown[name]) or e is ANY and self.m.fits(name, shown[name])):
                    self.m.values[name] = shown[name]
        elif r.kind != "err":
            shown = None
            for name, e in assignments:
                if e is ANY:
                    shown = shown or self.show()
                    if not self.m.fits(name, shown[name]):
                        raise Violation(f"{what!r}: {name} is {shown[name]!r}")
                    self.m.values[name] = shown[name]
                else:
                    self.m.values[name] = text(e)


def text_eq(e, got):
    return e is not ERR and e is not ANY and text(e) == got


def spelling(rng, name):
    n = rng.choice([name, name.upper(), name.capitalize()])
    return rng.choice(["{}", "SESSION {}", "LOCAL {}", "session {}", "@@{}", "@@SESSION.{}", "@@session.{}", "@@local.{}", "@@LOCAL.{}"]).format(n)


def assignments(rng, m, k):
    names = rng.sample([n for n in DYNAMIC], k)
    out = []
    for name in names:
        if rng.random() < 0.08:
            name = rng.choice(READ_ONLY)
            out.append((name, rng.choice(["'x'", "DEFAULT", "NULL", "1"]), ERR))
        elif rng.random() < 0.05:
            out.append((rng.choice(UNKNOWN), "1", ERR))
        else:
            if rng.random() < 0.1 and kind_of(name) == "str":
                src = rng.choice([n for n in STRS])
                out.append((name, "@@" + src, m.values[src]))
                continue
            t, e = value_for(rng, name, m)
            out.append((name, t, e))
    return out


def history(seed):
    rng = random.Random(seed)
    f = Factory(App)
    with Sim(session_factory=f, hang=20) as sim:
        conns = [Conn(sim, f) for _ in range(2)]
        for _ in range(14):
            k = rng.choice(conns)
            x = rng.random()
            if x < 0.6:
                a = assignments(rng, k.m, rng.choice([1, 1, 1, 2, 3]))
                what = "SET " + ", ".join(f"{spelling(rng, n)} = {t}" for n, t, _ in a)
                # reading another variable happens before the assignment: don't mix with assigning it
                if len(a) > 1 and any(t.startswith("@@") for _, t, _ in a):
                    continue
                k.assign(what, [(n, e) for n, _, e in a])
            elif x < 0.66:
                cs = rng.choice(["utf8mb4", "latin1", "utf8", "ascii"])
                what = rng.choice(["SET NAMES {}", "SET NAMES '{}'", "set names {}"]).format(cs)
                made = [("character_set_client", cs), ("character_set_connection", cs), ("character_set_results", cs),
                        ("collation_connection", ANY)]
                if rng.random() < 0.5:
                    # with assignments of variables before or after it
                    name = rng.choice([n for n in DYNAMIC if kind_of(n) in ("int", "bool")])
                    t, e = rng.choice([("1", "1"), ("0", "0")]) if kind_of(name) == "int" else rng.choice([("TRUE", True), ("OFF", False)])
                    sp = spelling(rng, name)
                    what = rng.choice([f"SET {sp} = {t}, {what[4:]}", f"{what}, {sp} = {t}"])
                    made.append((name, e))
                k.assign(what, made, fits=True)
            elif x < 0.7:
                what = "SET NAMES DEFAULT"
                k.assign(what, [(n, k.m.defaults[n]) for n in ("character_set_client", "character_set_connection", "character_set_results",
                                                                "collation_connection")])
                # the handshake set the client's character set
            elif x < 0.76:
                what, e = rng.choice([("SET TRANSACTION READ ONLY", ("transaction_read_only", True)),
                                      ("SET SESSION TRANSACTION READ WRITE", ("transaction_read_only", False)),
                                      ("SET SESSION TRANSACTION ISOLATION LEVEL SERIALIZABLE", ("transaction_isolation", "SERIALIZABLE")),
                                      ("SET TRANSACTION ISOLATION LEVEL REPEATABLE READ", ("transaction_isolation", "REPEATABLE-READ"))])
                k.assign(what, [e])
            elif x < 0.9:
                what = hint(rng, k)
            else:
                what = rng.choice(["SET GLOBAL sql_mode = 'g'", "SET @@GLOBAL.sql_mode = 'g'", "SET PERSIST sql_mode = 'g'", "SET @@PERSIST.wait_timeout = 1",
                                   "SELECT @@nonsense", "SET @user = 1", "SELECT", "SHOW VARIABLES LIKE 'v%'", "SET GLOBAL TRANSACTION READ ONLY"])
                if "TRANSACTION" in what:
                    k.assign(what, [("transaction_read_only", ANY)])
                elif k.c.query(what).kind != ("rows" if what.startswith("SHOW") else "err") and what != "SELECT":
                    raise Violation(f"{what!r} was accepted")
            for y in conns:
                y.verify(what, rng)
            r = k.c.query("SELECT NOW(), 1")
            if r.kind != "rows" or cellstr(r.rows[0][1]) != "1":
                raise Violation(f"after {what!r}, the session is broken: {r.kind} {r.err}")


def hint(rng, k):
    """A SET_VAR hint: in force during its statement only"""
    a = [x for x in assignments(rng, k.m, rng.choice([1, 1, 2, 3])) if not x[1].startswith("@@") and x[0] not in ("character_set_results",
                                                                                                                "character_set_client")]
    # hints take literals
    a = [(n, t, e) for n, t, e in a if e is not ANY and "+" not in t.strip("'") and "\\" not in t
         and t.upper() not in ("ON", "OFF")]  # SQLGlot can't parse these in hints
    text_ = " ".join(f"SET_VAR({n} = {t})" for n, t, _ in a) if rng.random() < 0.5 else \
        "SET_VAR(" + ", ".join(f"{n} = {t}" for n, t, _ in a) + ")"
    if not a:
        return "nothing"
    bad = any(e is ERR for _, _, e in a)
    names = [n for n, _, _ in a if n in k.m.values]
    fail = rng.choice([False, False, "my", "value"])
    if rng.random() < 0.5 and names:
        what = f"SELECT /*+ {text_} */ " + ", ".join("@@" + n for n in names)
        r = k.c.query(what)
        if bad:
            if r.kind != "err":
                raise Violation(f"{what!r} was accepted")
            return what
        if r.kind != "rows":
            raise Violation(f"{what!r}: {r.err}")
        for (n, _, e), got in zip(a, r.rows[0]):
            got = cellstr(got)
            if kind_of(n) == "bool":
                got = {"1": "True", "0": "False"}.get(got, got)
            if got != text(e):
                raise Violation(f"{what!r}: {n} is {got!r}")
    else:
        k.s.fail = fail
        k.s.seen.clear()
        what = f"SELECT /*+ {text_} */ a FROM t"
        r = k.c.query(what)
        k.s.fail = False
        if bad:
            if r.kind != "err" or k.s.seen:
                raise Violation(f"{what!r}: {r.kind}, {len(k.s.seen)} calls")
            return what
        if (r.kind == "err") != bool(fail) or len(k.s.seen) != 1:
            raise Violation(f"{what!r}: {r.kind} {r.err}, {len(k.s.seen)} calls")
        seen = {n: text(v) for n, v in k.s.seen[0].items()}
        want = dict(k.m.values)
        want.update({n: text(e) for n, _, e in a})
        if seen != want:
            raise Violation(f"{what!r}: the application saw " + repr({n: (seen[n], want[n]) for n in want if seen[n] != want[n]}))
    return what


def read_only(name, sp, value):
    f = Factory(App)
    with Sim(session_factory=f, hang=20) as sim:
        k = Conn(sim, f)
        for what in (f"SET {sp.format(name)} = {value}", f"SET sql_mode = 'x', {sp.format(name)} = {value}",
                     f"SELECT /*+ SET_VAR({name} = {value}) */ 1", f"SELECT /*+ SET_VAR({name} = {value}, wait_timeout = 5) */ a FROM t"):
            r = k.c.query(what)
            if r.kind != "err":
                raise Violation(f"{what!r} was accepted")
            shown = k.show()
            k.m.values["sql_mode"] = shown["sql_mode"]
            k.verify(what)
            if k.s.seen:
                raise Violation(f"{what!r}: the statement was executed")


def now(tz, minutes):
    f = Factory(App)
    with Sim(session_factory=f, hang=20) as sim:
        c = sim.login(caps=P.BASE_CAPS | P.QUERY_ATTRIBUTES)

        def check(sql, *, shift=minutes, way="query"):
            for _ in range(3):
                lo = datetime.now(timezone.utc).replace(tzinfo=None)
                r = c.query(sql, [P.Param(P.T["STRING"], b"v", name=b"k")]) if way == "attributes" else \
                    c.execute(c.prepare(sql).stmt_id) if way == "prepared" else c.query(sql)
                hi = datetime.now(timezone.utc).replace(tzinfo=None)
                if r.kind != "rows":
                    raise Violation(f"{sql}: {r.err}")
                got = [cellstr(x) for x in r.rows[0]]
                d = timedelta(minutes=shift)
                lo2, hi2 = (lo + d).replace(microsecond=0), hi + d
                if lo2.date() != hi2.date():
                    continue
                t = datetime.fromisoformat(got[0])
                if not lo2 <= t <= hi2:
                    raise Violation(f"{sql} in {tz}: {got}, expected {lo2}")
                if got[1] != str(lo2.date()):
                    raise Violation(f"{sql} in {tz}: {got}, expected {lo2}")
                if not str(lo2.time()) <= got[2][:8] <= str(hi2.time()):
                    raise Violation(f"{sql} in {tz}: {got}, expected {lo2}")
                return

        check("SELECT NOW(), CURDATE(), CURTIME()", shift=0)
        check(f"SELECT /*+ SET_VAR(time_zone = '{tz}') */ NOW(), CURDATE(), CURTIME()")
        check("SELECT NOW(), CURDATE(), CURTIME()", shift=0)
        check(f"SET time_zone = '{tz}'; SELECT NOW(), CURDATE(), CURTIME()")
        for fns in ("NOW(), CURDATE(), CURTIME()", "CURRENT_TIMESTAMP, CURRENT_DATE, CURRENT_TIME", "LOCALTIME(), CURRENT_DATE(), CURRENT_TIME()",
                    "CURRENT_TIMESTAMP(), CURDATE(), CURTIME()"):
            for way in ("query", "attributes", "prepared"):
                check("SELECT " + fns, way=way)
        check("SET time_zone = DEFAULT; SELECT NOW(), CURDATE(), CURTIME()", shift=0)


def version(v):
    """The version is what the handshake announces"""
    schema = dict(SYSTEM_VARIABLES)
    t, _, d = schema["version"]
    schema["version"] = (t, v, d)
    f = Factory(lambda: App(schema))
    with Sim(session_factory=f, hang=20) as sim:
        c = sim.login()
        if c.hs.version.decode() != v:
            raise Violation(f"handshake announces {c.hs.version!r}, version is {v!r}")
        for sql in ("SELECT @@version", "SELECT VERSION()"):
            if cellstr(c.query(sql).rows[0][0]) != v:
                raise Violation(sql)
        for sql in ("SET version = 'x'", "SET @@session.version = DEFAULT", "SELECT /*+ SET_VAR(version='y') */ 1"):
            if c.query(sql).kind != "err":
                raise Violation(f"{sql} was accepted")
        if cellstr(c.query("SELECT @@version").rows[0][0]) != v:
            raise Violation("version changed")


def isolation():
    """Assignments and hints of one session don't reach another, even while their statements are suspended"""
    import asyncio

    class Waiting(App):
        async def query(self, expression, sql, attrs):
            self.f = asyncio.get_running_loop().create_future()
            await self.f
            return [("x",)], ["a"]

    f = Factory(Waiting)
    with Sim(session_factory=f, hang=20) as sim:
        a, b = Conn(sim, f), Conn(sim, f)
        a.c.send(P.com_query(a.c.caps, b"SELECT /*+ SET_VAR(sql_mode='h') */ a FROM t"), 0)
        sim.settle()
        b.verify("hint in another session")
        b.assign("SET sql_mode = 'b'", [("sql_mode", "b")])
        if a.s.variables.get("sql_mode") != "h":
            raise Violation("the hint is not in force")
        a.s.f.set_result(None)
        sim.settle()
        a.c.seq = 1
        a.c.read_response("query")
        a.verify("hint")
        b.verify("hint")
        # a killed statement
        from mysql_mimic.constants import KillKind
        a.c.send(P.com_query(a.c.caps, b"SELECT /*+ SET_VAR(sql_mode='h') */ a FROM t"), 0)
        sim.settle()
        a.s.connection.kill(KillKind.QUERY)
        sim.settle()
        a.c.seq = 1
        if a.c.read_response("query").kind != "err":
            raise Violation("not killed")
        a.verify("killed hint")


def streaming(seed):
    """A hint is over when its statement is, whatever the application does with the result"""
    f = Factory(App)
    with Sim(session_factory=f, hang=20) as sim:
        k = Conn(sim, f)
        rng = random.Random(seed)
        for _ in range(20):
            what = hint(rng, k)
            k.verify(what)
            r = k.c.query("SELECT /*+ SET_VAR(wait_timeout = 9) */ @@wait_timeout; SELECT @@wait_timeout")
            if cellstr(r.rows[0][0]) != k.m.values["wait_timeout"]:
                raise Violation("hint in force in the next statement")
            # the first hint of the outermost query takes precedence, and hints in subqueries are restored as well
            k.c.query("SELECT /*+ SET_VAR(wait_timeout = 9) */ a FROM (SELECT /*+ SET_VAR(sql_mode = 'in') SET_VAR(autocommit = OFF) */ a FROM t) AS q")
            k.verify("nested hints")


SCENARIOS = {"history": history, "read_only": read_only, "now": now, "version": version, "isolation": isolation, "streaming": streaming}


def cases(tier, seed):
    quick = tier == "quick"
    for name in READ_ONLY:
        for sp in ("{}", "@@{}", "SESSION {}", "@@SESSION.{}", "LOCAL {}"):
            for value in ("'x'", "1", "DEFAULT", "NULL"):
                yield "read_only", {"name": name, "sp": sp, "value": value}
    for sign in "+-":
        for h, m in ((0, 0), (1, 0), (5, 30), (9, 0), (12, 45), (13, 0), (23, 59), (3, 15)):
            yield "now", {"tz": f"{sign}{h:02}:{m:02}", "minutes": (h * 60 + m) * (1 if sign == "+" else -1)}
    yield "now", {"tz": "UTC", "minutes": 0}
    for v in ("8.0.29", "5.7.1-x", "9"):
        yield "version", {"v": v}
    yield "isolation", {}
    for i in range(8 if quick else 200):
        yield "streaming", {"seed": seed * 31 + i}
    for i in range(120 if quick else 3000):
        yield "history", {"seed": seed * 52711 + i}


def known_nul():
    with Sim(session_factory=Session) as sim:
        c = sim.login()
        c.query("SET sql_mode = 'a\0b'")
        return c.query("SELECT @@sql_mode").kind == "err"


KNOWN = {"C14-nul": (known_nul, "SELECT @@name is an error while the variable's value contains a NUL character: SQLGlot's executor can't evaluate such a literal")}
