"""C13: the application sees exactly the statements it must handle, once, in order."""
import itertools
import random

import sqlglot

from lib import proto as P
from lib.proto import Param, T
from lib.sim import Client, Factory, Session, Sim, Violation
from mysql_mimic.auth import IdentityProvider, NativePasswordAuthPlugin, User

# Statements the library answers: text -> rows of the result (None: don't care), no effect on the database
LIB = {
    "SET sql_mode = 'x'": [], "set @@session.sql_mode = 'a;b'": [], "SET autocommit = 1, sql_mode = 'y'": [],
    "SET NAMES utf8mb4": [], "SET CHARACTER SET utf8mb4": [], "SET TRANSACTION READ ONLY": [],
    "SET SESSION TRANSACTION ISOLATION LEVEL READ COMMITTED": [], "SET NAMES utf8mb4 COLLATE utf8mb4_bin": [],
    "BEGIN": [], "COMMIT": [], "ROLLBACK": [], "START TRANSACTION": [], "begin": [], "commit": [],
    "KILL QUERY 4000000000": [], "KILL 4000000000": [],
    "SHOW DATABASES": None, "SHOW TABLES FROM db": [("t",), ("u",)], "SHOW TABLES IN db": [("t",), ("u",)], "show tables from db like 'u'": [("u",)],
    "SHOW COLUMNS FROM t FROM db": None, "SHOW VARIABLES": None, "SHOW VARIABLES LIKE 'sql_auto%'": [("sql_auto_is_null", "False")],
    "SHOW WARNINGS": [], "SHOW ERRORS": [], "SHOW STATUS": [], "SHOW FULL TABLES FROM db": None, "SHOW INDEX FROM t FROM db": [],
    "SHOW SESSION VARIABLES LIKE 'license'": [("license", "MIT")], "SHOW GLOBAL VARIABLES LIKE 'license'": [("license", "MIT")],
    "DESCRIBE t": None, "DESC t": None, "describe db.u": None, "DESC `t`": None,
    "SELECT 1": [("1",)], "SELECT 'a;b'": [("a;b",)], "select 1 AS x, 'from t' AS y": [("1", "from t")], "SELECT @@version": [("8.0.29",)],
    "SELECT VERSION()": [("8.0.29",)], "SELECT 2 LIMIT 1": [("2",)], "SELECT @@autocommit": None, "SELECT NULL": [(None,)],
    "SELECT USER()": [("user",)], "SELECT 1 + 1": [("2",)], "SELECT 3 WHERE 1 = 1": [("3",)], "SELECT /* x */ 4": [("4",)], "select 5 ORDER BY 1": [("5",)],
    "SELECT table_name FROM information_schema.tables WHERE table_schema = 'db'": [("t",), ("u",)],
    "SELECT COUNT(*) FROM INFORMATION_SCHEMA.SCHEMATA WHERE schema_name = 'db'": [("1",)],
    "SELECT * FROM `information_schema`.`columns` WHERE table_schema = 'nope'": [],
    "SELECT t.table_name FROM information_schema.tables AS t JOIN information_schema.schemata AS s ON t.table_schema = s.schema_name "
    "WHERE s.schema_name = 'db' AND t.table_name = 'u'": [("u",)],
    "SELECT table_name FROM information_schema.tables WHERE table_schema IN (SELECT schema_name FROM information_schema.schemata "
    "WHERE schema_name = 'db') AND table_name = 't'": [("t",)],
    "WITH x AS (SELECT table_name FROM information_schema.tables WHERE table_schema = 'db') SELECT table_name FROM x WHERE table_name = 't'": [("t",)],
    "SELECT schema_name FROM information_schema.schemata WHERE schema_name = 'db' UNION ALL "
    "SELECT schema_name FROM information_schema.schemata WHERE schema_name = 'db'": [("db",), ("db",)],
    "SELECT * FROM (SELECT schema_name FROM information_schema.schemata WHERE schema_name = 'db') AS q": [("db",)],
}
# Statements for the application
APP = [
    "SELECT a FROM t", "select * from db.t where a = 'x;y'", "SELECT 1 FROM t", "INSERT INTO t (a) VALUES (1)", "INSERT INTO t SELECT 1",
    "UPDATE t SET a = 1 WHERE b = 2", "DELETE FROM t WHERE a = 1", "CREATE TABLE x (a INT)", "DROP TABLE x", "ALTER TABLE t ADD COLUMN c INT",
    "TRUNCATE TABLE t", "SELECT a FROM t UNION SELECT b FROM u", "SELECT (SELECT a FROM t)", "SELECT 1 WHERE EXISTS(SELECT 1 FROM t)",
    "SELECT a FROM t, information_schema.tables", "SELECT a FROM information_schema.tables JOIN db.t ON TRUE",
    "SELECT table_name FROM information_schema.tables WHERE table_name IN (SELECT a FROM t)",
    "SELECT a FROM t WHERE a IN (SELECT table_name FROM information_schema.tables)",
    "SELECT a FROM t UNION ALL SELECT table_name FROM information_schema.tables",
    "SELECT table_name FROM information_schema.tables UNION ALL SELECT a FROM t",
    "WITH x AS (SELECT a FROM t) SELECT a FROM x", "WITH tables AS (SELECT a FROM u) SELECT * FROM tables",
    "WITH x AS (SELECT table_name FROM information_schema.tables) SELECT * FROM x JOIN t ON TRUE",
    "DESCRIBE SELECT a FROM t", "EXPLAIN SELECT a FROM t", "EXPLAIN SELECT 1 FROM information_schema_x.t",
    "CREATE VIEW v AS SELECT table_name FROM information_schema.tables", "INSERT INTO t SELECT table_name FROM information_schema.tables",
    "CREATE DATABASE d", "DROP DATABASE d", "SELECT * FROM information_schemas.tables", "SELECT a.b FROM t AS a", "CALL p(1)",
    "SELECT a FROM t LIMIT 3", "SELECT a FROM t FOR UPDATE", "SELECT '''' FROM t", "SELECT \"x\" FROM t", "SELECT a -- c\n FROM t",
    "SELECT a /* ; */ FROM t", "SELECT * FROM `my db`.`my table`", "REPLACE INTO t (a) VALUES (1)", "GRANT SELECT ON t TO x", "ANALYZE TABLE t",
    "LOCK TABLES t READ", "UNLOCK TABLES", "OPTIMIZE TABLE t", "SAVEPOINT a", "FLUSH TABLES", 
    "SELECT sleep(1) FROM dual", "SELECT * FROM mysqlx.user", "VALUES ROW(1)", "CREATE TEMPORARY TABLE y AS SELECT 1",
      "SELECT \u00e9 FROM t", "SELECT '\u4e2d' FROM t", "PREPARE s FROM 'SELECT 1'",
]
# Statements that fail
FAIL = ["SET nonsense = 1", "SET version = 'x'", "SELECT @@nonsense", "SET GLOBAL sql_mode = 'x'", "SHOW ENGINES", "SHOW GRANTS",
        "SET time_zone = 'nowhere'", "SET @x = 1", "SELECT /*+ SET_VAR(version = 'x') */ 1",
        "SET NAMES nonsense", "SET PERSIST sql_mode = 'a'"]
SYNTAX = ["KILL abc", "KILL QUERY x", "SELECT (", "SELECT 'a", "SELEC * FORM t WHERE", "INSERT INTO", "SELECT * FROM t WHERE a = = 1"]
USE = ["db", "information_schema", "mysql", "other", "`we ird`", "Db2"]


def parse(stmt):
    return sqlglot.parse_one(stmt, dialect="mysql").sql(dialect="mysql", comments=False)


OK = ["no result"]


class App(Session):
    def __init__(self):
        super().__init__()
        self.calls = []
        self.nones = False  # some statements have no result

    async def query(self, expression, sql, attrs):
        n = len(self.calls)
        self.calls.append((expression.sql(dialect="mysql", comments=False), sql, dict(attrs), self.database))
        return ([(f"app{n}",)], ["a"]) if n % 5 != 3 or not self.nones else None

    async def schema(self):
        return {"db": {"t": {"a": "INT", "b": "TEXT"}, "u": {"x": "INT"}}, "other": {"t": {"a": "INT"}, "u": {"x": "INT"}}}


class Provider(IdentityProvider):
    def get_plugins(self):
        return [NativePasswordAuthPlugin()]

    async def get_user(self, username):
        return None if username.startswith("bad") else User(username, auth_plugin="mysql_native_password")


class World:
    def __init__(self, caps=0, db=None):
        self.f = Factory(App)
        self.sim = Sim(session_factory=self.f, identity_provider=Provider(), hang=20)
        self.c = self.sim.login("user", caps=P.BASE_CAPS | caps, db=db)
        self.s = self.f.sessions[-1]
        self.db = db

    def __enter__(self):
        return self

    def __exit__(self, *e):
        self.sim.shutdown()

    def unquote(self, name):
        return name.strip("`")

    def check(self, stmts, text, attrs=(), how="query"):
        """stmts: list of (kind, stmt) in textual order; runs `text`"""
        before = len(self.s.calls)
        self.s.nones = True
        enc = [Param(T["VAR_STRING"], v.encode(), False, k.encode()) for k, v in attrs] if self.c.caps & P.QUERY_ATTRIBUTES else []
        want_attrs = dict(attrs) if enc or not attrs else {}
        start_db = self.db
        want = []
        failed = False
        last = None
        db = start_db
        for kind, stmt in stmts:
            if kind == "syntax":
                # nothing at all can be executed if the text can't be parsed
                want, failed, db = [], True, start_db
                break
        else:
            for kind, stmt in stmts:
                if kind == "use":
                    db = self.unquote(stmt)
                    last = []
                elif kind == "app":
                    # without a database of its own, a table is one of the default database
                    want.append((parse(stmt), text, want_attrs, db))
                    n = before + len(want) - 1
                    last = [(f"app{n}",)] if n % 5 != 3 else OK
                elif kind == "lib":
                    last = LIB[stmt]
                elif kind == "fail":
                    failed = True
                    break
        if how == "query":
            r = self.c.query(text, enc or None)
        else:
            p = self.c.prepare(text)
            if p.n_params:
                raise Violation(f"{p.n_params} parameters in {text!r}")
            r = self.c.execute(p.stmt_id, [], enc or None, how == "cursor")
            if r.kind == "rows" and how == "cursor":
                r = self.c.fetch(p.stmt_id, 1000)
        self.s.nones = False
        got = self.s.calls[before:]
        if [g[1:] for g in got] != [w[1:] for w in want] or [g[0] for g in got] != [w[0] for w in want]:
            raise Violation(f"{text!r}:\nthe application saw {got}\nexpected {want}")
        self.db = db
        if self.s.database != db:
            raise Violation(f"{text!r}: default database {self.s.database!r}, expected {db!r}")
        if failed:
            if r.kind != "err":
                raise Violation(f"{text!r}: no error, but {r.kind}")
            return
        if r.kind == "err":
            raise Violation(f"{text!r}: {r.err}")
        if last is OK:
            if r.kind != "ok":
                raise Violation(f"{text!r}: {r.kind} {getattr(r, 'rows', None)}, but the last statement has no result")
        elif last:
            if r.kind != "rows":
                raise Violation(f"{text!r}: {r.kind} instead of {last}")
            rows = [tuple(x.decode() if isinstance(x, (bytes, bytearray)) else None if x is None else str(x) for x in row) for row in r.rows]
            if sorted(rows, key=repr) != sorted(last, key=repr):
                raise Violation(f"{text!r}: result {rows}, expected {last}")
        elif last == [] and r.kind == "rows" and r.rows:
            raise Violation(f"{text!r}: result {r.rows}, expected none")
        elif last is None and stmts and r.kind != "rows":
            raise Violation(f"{text!r}: {r.kind}")


def sql_of(kind, stmt):
    return f"USE {stmt}" if kind == "use" else stmt


def single(kind, stmt, how, db, caps):
    with World(caps, db) as w:
        w.check([(kind, stmt)], sql_of(kind, stmt), [("k", "v")], how)
        if kind in ("app", "lib", "use"):
            w.check([(kind, stmt)] * 2, "  " + sql_of(kind, stmt) + " ; " + sql_of(kind, stmt) + " ;", [], how)
            w.check([(kind, stmt), ("app", "SELECT z FROM db.t")], sql_of(kind, stmt) + ";SELECT z FROM db.t -- c", [], how)
            w.check([("app", "SELECT z FROM db.t"), (kind, stmt)], "SELECT z FROM db.t;" + sql_of(kind, stmt), [], how)


def text_of(rng, stmts):
    """One SQL text with the statements"""
    seps = [";", "; ", " ;\n", ";;", "; -- c\n", ";/* x; y */ ", ";\t", "; # z\n"]
    out = rng.choice(["", "", " ", "/* lead */ ", "-- l\n"])
    for i, (kind, stmt) in enumerate(stmts):
        if i:
            out += rng.choice(seps)
        out += sql_of(kind, stmt)
    return out + rng.choice(["", "", ";", " ; ", "; -- end", " /* end; */", ";;", "; # x"])


def many(seed):
    rng = random.Random(seed)
    caps = rng.choice([0, P.QUERY_ATTRIBUTES, P.DEPRECATE_EOF | P.QUERY_ATTRIBUTES])
    with World(caps, rng.choice([None, "db", "other"])) as w:
        for _ in range(6):
            stmts = []
            for _ in range(rng.randrange(1, 6)):
                x = rng.random()
                if x < 0.45:
                    stmts.append(("app", rng.choice(APP)))
                elif x < 0.8:
                    stmts.append(("lib", rng.choice(list(LIB))))
                elif x < 0.9:
                    stmts.append(("use", rng.choice(["db", "other", "`db`"])))
                elif x < 0.97:
                    stmts.append(("fail", rng.choice(FAIL)))
                else:
                    stmts.append(("syntax", rng.choice(SYNTAX)))
            # DESCRIBE, EXPLAIN of a table need one in the default database; commands take the rest of the text as their argument
            cmds = ("CALL", "GRANT", "ANALYZE", "LOCK", "UNLOCK", "OPTIMIZE", "SAVEPOINT", "FLUSH", "LOAD", "DO", "HANDLER", "CHECK", "PREPARE", "EXPLAIN",
                    "SHOW", "SET", "KILL", "ALTER", "REPLACE", "TRUNCATE", "CREATE", "VALUES")
            text = text_of(rng, stmts)
            # comments next to statements SQLGlot keeps as text become part of that text
            if any(k in ("app", "fail", "syntax") and s.split()[0] in cmds for k, s in stmts):
                text = ";".join(sql_of(k, s) for k, s in stmts)
            attrs = [(f"k{i}", rng.choice(["v", "", "x;y"])) for i in range(rng.randrange(0, 3))]
            how = "query" if rng.random() < 0.7 else rng.choice(["execute", "cursor"])
            w.check(stmts, text, attrs, how)


def comments(seed):
    """Comments and empty statements anywhere between the statements"""
    rng = random.Random(seed)
    simple = ["SELECT a FROM t", "UPDATE t SET a = 1 WHERE b = 2", "DELETE FROM t WHERE a = 1", "SELECT 1 FROM u", "INSERT INTO t (a) VALUES (1)"]
    libs = ["SELECT 1", "BEGIN", "COMMIT", "SET sql_mode = 'x'", "SHOW TABLES FROM db", "SHOW WARNINGS", "SELECT @@version"]
    with World(0, "db") as w:
        for _ in range(8):
            stmts = [("app", rng.choice(simple)) if rng.random() < 0.6 else ("lib", rng.choice(libs)) if rng.random() < 0.8 else ("use", "db")
                     for _ in range(rng.randrange(1, 5))]
            w.check(stmts, text_of(rng, stmts))


def only_comments(text):
    """Texts without a statement"""
    with World() as w:
        r = w.c.query(text)
        if w.s.calls:
            raise Violation(f"{text!r}: the application got {w.s.calls}")
        if r.kind not in ("ok", "err"):
            raise Violation(f"{text!r}: {r.kind}")
        w.c.alive()


CATALOG = ["information_schema", "mysql", "performance_schema", "sys", "INFORMATION_SCHEMA", "MySQL"]
TABLES = {"information_schema": ["tables", "columns", "schemata"], "mysql": ["procs_priv", "role_edges"]}


def catalog(seed):
    """Queries on any mix of tables: the library answers iff all are of catalog databases"""
    from mysql_mimic.constants import INFO_SCHEMA
    rng = random.Random(seed)
    real = {db: list(t) for db, t in INFO_SCHEMA.items()}
    with World(0, rng.choice([None, "db", "other", "information_schema"])) as w:
        for _ in range(10):
            if rng.random() < 0.3:
                w.check([("use", x := rng.choice(["db", "other", "information_schema"]))], f"USE {x}")
            refs = []
            for _ in range(rng.randrange(1, 4)):
                if rng.random() < 0.6:
                    db = rng.choice(list(real))
                    tb = rng.choice(real[db])
                    cat = True
                else:
                    db, tb = rng.choice([("db", "t"), ("other", "u"), ("db", "tables"), ("other", "schemata")])
                    cat = False
                if w.db is not None and w.db == db and rng.random() < 0.6:
                    refs.append((tb, cat))
                else:
                    refs.append((f"{rng.choice([db, db, db.upper() if cat else db])}.{tb}", cat))
            n = [0]

            def alias():
                n[0] += 1
                return f"q{n[0]}"

            shape = rng.randrange(6)
            t = [r[0] for r in refs]
            if shape == 0:
                sql = "SELECT COUNT(*) FROM " + ", ".join(f"{x} AS {alias()}" for x in t)
            elif shape == 1:
                sql = "SELECT 1 AS c FROM " + " JOIN ".join(f"{x} AS {alias()}" + (" ON 1 = 1" if i else "") for i, x in enumerate(t))
            elif shape == 2:
                sql = " UNION ALL ".join(f"SELECT 1 AS c FROM {x}" for x in t)
            elif shape == 3:
                sql = f"SELECT 1 AS c FROM {t[0]} AS q0" + "".join(f" WHERE 1 IN (SELECT 1 FROM {x})" if i == 0 else f" AND 1 IN (SELECT 1 FROM {x})"
                                                                for i, x in enumerate(t[1:]))
            elif shape == 4:
                sql = "WITH " + ", ".join(f"w{i} AS (SELECT 1 AS c FROM {x})" for i, x in enumerate(t)) + " SELECT * FROM " + \
                      ", ".join(f"w{i}" for i in range(len(t)))
            else:
                sql = "SELECT * FROM " + ", ".join(f"(SELECT 1 AS c FROM {x}) AS {alias()}" for x in t)
            before = len(w.s.calls)
            all_cat = all(r[1] for r in refs)
            if all_cat and (shape == 0 and len(t) > 1 or shape in (1, 4, 5) and len(t) > 1):
                # cross joins of the catalog are large
                continue
            r = w.c.query(sql)
            seen = len(w.s.calls) - before
            if seen != (0 if all_cat else 1):
                raise Violation(f"{sql!r} with default database {w.db!r}: the application got it {seen} times")
            if not all_cat and (r.kind != "rows" or r.rows[0][0] != f"app{before}".encode()):
                raise Violation(f"{sql!r}: {r.kind} {r.err} {r.rows}")


def database(seed):
    """The default database over any history"""
    rng = random.Random(seed)
    first = rng.choice([None, "db", "d\u00e9", ""])
    with World(rng.choice([0, P.DEPRECATE_EOF]), first) as w:
        if not first:
            w.db = w.s.database
            if w.db not in (None, ""):
                raise Violation(f"default database {w.db!r} without one in the handshake")
        for _ in range(14):
            x = rng.random()
            if x < 0.2:
                db = rng.choice(["db", "other", "a b", "\u00fcber", "x`y", "123"])
                r = w.c.init_db(db.encode())
                if r.kind != "ok":
                    raise Violation(f"{r.err}")
                w.db = db
            elif x < 0.4:
                w.check([("use", d := rng.choice(["db", "other", "`a b`", "information_schema"]))], f"USE {d}", [], rng.choice(["query", "execute"]))
            elif x < 0.5:
                db = rng.choice(["db", "other", ""])
                p = w.c.change_user("u2", "", db)
                if p[0] != 0:
                    raise Violation("COM_CHANGE_USER failed")
                w.db = db or w.s.database
                if not db and w.db not in (None, ""):
                    raise Violation(f"database {w.db!r} after COM_CHANGE_USER without one")
            elif x < 0.6:
                w.check([("syntax", "KILL abc")], "KILL abc; USE nope")
            elif x < 0.7:
                w.check([("use", "db"), ("fail", "x"), ("use", "other")], "USE db; SET nonsense = 1; USE other")
            elif x < 0.8:
                r = w.c.query("SELECT DATABASE()")
                got = r.rows[0][0]
                if (got.decode() if got is not None else None) != w.db:
                    raise Violation(f"DATABASE() is {got}, expected {w.db!r}")
            else:
                w.check([("app", "SELECT a FROM db.t2")], "SELECT a FROM db.t2", [], rng.choice(["query", "execute", "cursor"]))
            if w.s.database != w.db:
                raise Violation(f"default database {w.s.database!r}, expected {w.db!r}")


SCENARIOS = {"single": single, "many": many, "comments": comments, "only_comments": only_comments, "catalog": catalog, "database": database}


def cases(tier, seed):
    quick = tier == "quick"
    rng = random.Random(seed)
    for kind, stmts in (("app", APP), ("lib", LIB), ("fail", FAIL), ("syntax", SYNTAX), ("use", USE)):
        for stmt in stmts:
            for how in ("query", "execute", "cursor"):
                for db in ("db", "other") if quick and how == "query" else ("db",):
                    yield "single", {"kind": kind, "stmt": stmt, "how": how, "db": db, "caps": rng.choice([0, P.QUERY_ATTRIBUTES])}
    for text in ("", " ", ";", ";;", "-- c", "/* c */", "# c", " ; -- c", "/* c */ ; /* d */", "-- c\n;", "\n"):
        yield "only_comments", {"text": text}
    for i in range(150 if quick else 3000):
        yield "many", {"seed": seed * 999983 + i}
        yield "comments", {"seed": seed * 999983 + i}
        yield "catalog", {"seed": seed * 999983 + i}
        yield "database", {"seed": seed * 999983 + i}
