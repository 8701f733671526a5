"""C16: Catalog answers mirror the application's declared schema exactly."""
import random

from lib import proto as P
from lib.sim import Factory, Session, Sim, Violation
from mysql_mimic.constants import INFO_SCHEMA

NAMES = ["a", "b", "t", "users", "order", "select", "x_y", "xay", "x%y", "a.b", "a*", "[a]", "(a)", "a+", "^a$", "a b", "a'b", "a\"b", "\u00e9t\u00e9",
         "\u4e2d\u6587", "1", "1a", "MixedCase", "Orders", "ID", "X_y", "\u00c9t\u00e9s", "SHOW", "a-b", "a,b", "a;b", "$x", "@x", "#x", "table_name", "columns", "tables", "x|y", "a" * 60, "a\u0301", "\U0001f600",
         "null", "true", "--", "/*a*/", "a=1", "%", "_", "%%", "a_", "_a", "x__y", "?", "{x}", "a:b", "x\ty", ".", "..", "desc", "from", "like", "def", ""]
TYPES = ["INT", "TEXT", "VARCHAR(20)", "DECIMAL(10,2)", "enum('a','b')", "BIGINT UNSIGNED", "DOUBLE", "JSON", "int", "a b c", "\u00e9", " padded "]


def like(value, pattern):
    """Reference LIKE, by dynamic programming"""
    toks, i = [], 0
    while i < len(pattern):
        c = pattern[i]
        if c == "\\" and i + 1 < len(pattern):
            toks.append(("c", pattern[i + 1]))
            i += 2
            continue
        toks.append(("%" if c == "%" else "_" if c == "_" else "c", c))
        i += 1
    ok = {0}
    for kind, c in toks:
        if kind == "%":
            ok = set(range(min(ok), len(value) + 1)) if ok else set()
        else:
            ok = {j + 1 for j in ok if j < len(value) and (kind == "_" or value[j] == c)}
    return len(value) in ok


def pattern_for(rng, names):
    """A pattern close to some name"""
    base = rng.choice(sorted(names) or ["a"])
    if rng.random() < 0.15:
        # the beginning or the end of a name, or all of it
        i, j = sorted([rng.choice([0, rng.randrange(len(base) + 1)]), rng.randrange(len(base) + 1)])
        return base[i:j] or "%"
    out = []
    for ch in base:
        x = rng.random()
        if x < 0.12:
            out.append("_")
        elif x < 0.2:
            out.append("%")
        elif x < 0.25:
            pass
        else:
            out.append("\\" + ch if ch in "%_\\" and rng.random() < 0.5 else ch)
    if rng.random() < 0.3:
        out.append("%")
    if rng.random() < 0.3:
        out.insert(0, "%")
    return "".join(out) or rng.choice(["%", "_", "a%"])


def unambiguous(names, pattern):
    """Case sensitivity isn't specified"""
    p = pattern.casefold()
    return all(like(n, pattern) == like(n.casefold(), p) for n in names)


def q(name):
    return "`" + name + "`"


def lit(s):
    return "'" + s.replace("\\", "\\\\").replace("'", "''") + "'"


class App(Session):
    def __init__(self):
        super().__init__()
        self.mapping = {}
        self.calls = 0

    async def schema(self):
        return self.mapping

    async def query(self, expression, sql, attrs):
        self.calls += 1
        return [], []


def names(rng, k, ok=lambda n: True):
    pool = [n for n in NAMES if n and ok(n)]
    out, seen = [], set()
    for n in rng.sample(pool, min(k * 2, len(pool))):
        if n.casefold() not in seen and len(out) < k:
            seen.add(n.casefold())
            out.append(n)
    return out


def tables(rng, empty):
    out = {}
    for t in names(rng, rng.choice([0, 1, 2, 4]) if empty else rng.choice([1, 2, 4])):
        n = rng.choice([0, 1, 2, 5, 12]) if empty else rng.choice([1, 2, 5, 12])
        out[t] = {c: rng.choice(TYPES) for c in names(rng, n)}
    return out


def mapping(rng, depth):
    """(mapping, {(catalog, db): {table: {column: type}}})"""
    if depth == 0:
        return {}, {}
    if depth == 2:
        m = tables(rng, False)
        return m, {("def", ""): m}
    dbs = {d: tables(rng, True) for d in names(rng, rng.choice([1, 2, 3]), lambda n: n not in INFO_SCHEMA)}
    if rng.random() < 0.1 and depth == 3:
        dbs["mysql"] = {"my_table": {"c": "INT"}}
    # the depth is that of the deepest entry
    first = next(iter(dbs))
    dbs[first] = dbs[first] or {"t": {"c": "INT"}}
    t = next(iter(dbs[first]))
    dbs[first][t] = dbs[first][t] or {"c": "INT"}
    if depth == 3:
        return dbs, {("def", d): t for d, t in dbs.items()}
    if rng.random() < 0.5:
        return {"def": dbs}, {("def", d): t for d, t in dbs.items()}
    return {"cat": dbs, "cat2": {"other db": {"t": {"x": "INT"}}}}, {**{("cat", d): t for d, t in dbs.items() },
                                                                    ("cat2", "other db"): {"t": {"x": "INT"}}}


class World:
    def __init__(self, seed, depth):
        self.rng = random.Random(seed)
        self.f = Factory(App)
        self.sim = Sim(session_factory=self.f, hang=20)
        self.c = self.sim.login(caps=P.BASE_CAPS | self.rng.choice([0, P.DEPRECATE_EOF]))
        self.s = self.f.sessions[-1]
        self.s.mapping, self.decl = mapping(self.rng, depth)
        # db -> table -> columns, built-in entries included
        self.all = {}
        for (cat, db), ts in list(self.decl.items()) + [(("def", d), t) for d, t in INFO_SCHEMA.items()]:
            self.all.setdefault((cat, db), {}).update(ts)
        self.dbs = {}
        for (_, db), ts in self.all.items():
            self.dbs.setdefault(db, {}).update(ts)

    def __enter__(self):
        return self

    def __exit__(self, *e):
        self.sim.shutdown()

    def rows(self, sql, n=None):
        if self.rng.random() < 0.8 or "?" in sql:
            r = self.c.query(sql)
        else:
            p = self.c.prepare(sql)
            r = self.c.execute(p.stmt_id)
        if self.s.calls:
            raise Violation(f"{sql!r} reached the application")
        if r.kind == "ok":
            return []
        if r.kind != "rows":
            raise Violation(f"{sql!r}: {r.err} (schema {self.s.mapping})")
        return [tuple(x.decode() if isinstance(x, (bytes, bytearray)) else x for x in row[:n]) for row in r.rows]

    def same(self, sql, got, want, ordered=False):
        if (got if ordered else sorted(got, key=repr)) != (list(want) if ordered else sorted(want, key=repr)):
            raise Violation(f"{sql!r}: {got}\nexpected {want}\nschema {self.s.mapping}")

    def like(self, values):
        """A LIKE clause and the values it selects"""
        if self.rng.random() < 0.5:
            return "", list(values)
        for _ in range(20):
            p = pattern_for(self.rng, values)
            if unambiguous(values, p):
                return " LIKE " + lit(p), [v for v in values if like(v, p)]
        return "", list(values)

    # --- the statements
    def databases(self):
        clause, want = self.like(sorted({d for _, d in self.all}))
        sql = self.rng.choice(["SHOW DATABASES", "SHOW SCHEMAS", "show databases"]) + clause
        self.same(sql, self.rows(sql), [(d,) for d in want])

    def tables(self):
        db = self.rng.choice(sorted(self.dbs))
        if db == "":
            return
        clause, want = self.like(sorted(self.dbs[db]))
        full = self.rng.random() < 0.3
        use = self.rng.random() < 0.4
        sql = f"SHOW {'FULL ' if full else ''}TABLES" + ("" if use else self.rng.choice([" FROM ", " IN "]) + q(db)) + clause
        if use:
            self.c.init_db(db.encode())
        got = self.rows(sql)
        if any(len(r) != (2 if full else 1) for r in got):
            raise Violation(f"{sql!r}: {got}")
        self.same(sql, [r[:1] for r in got], [(t,) for t in want])

    def table(self):
        cands = [(d, t) for d, ts in self.dbs.items() for t in ts if d]
        return self.rng.choice(sorted(cands))

    def columns(self):
        db, t = self.table()
        cols = self.dbs[db][t]
        x = self.rng.random()
        if x < 0.5:
            clause, want = self.like(list(cols))
            full = self.rng.random() < 0.3
            use = self.rng.random() < 0.4
            sql = f"SHOW {'FULL ' if full else ''}COLUMNS {self.rng.choice(['FROM', 'IN'])} {q(t)}" + \
                ("" if use else f" {self.rng.choice(['FROM', 'IN'])} {q(db)}") + clause
            if use:
                self.c.init_db(db.encode())
        elif x < 0.75:
            self.c.init_db(db.encode())
            want = list(cols)
            sql = f"{self.rng.choice(['DESCRIBE', 'DESC', 'describe'])} {q(t)}"
        else:
            want = list(cols)
            sql = f"DESCRIBE {q(db)}.{q(t)}"
        self.same(sql, self.rows(sql, 2), [(c, cols[c]) for c in want], True)

    def unknown(self):
        db, t = self.table()
        self.same("x", self.rows(f"SHOW TABLES FROM {q('no such')}"), [])
        self.same("x", self.rows(f"SHOW COLUMNS FROM {q('no such')} FROM {q(db)}"), [])
        self.same("x", self.rows(f"DESCRIBE {q('no such')}.{q(t)}"), [])

    def field_list(self):
        db, t = self.table()
        if "\0" in t:
            return
        self.c.init_db(db.encode())
        cols = self.dbs[db][t]
        want, w = list(cols), ""
        if self.rng.random() < 0.5:
            w = pattern_for(self.rng, cols)
            if not unambiguous(cols, w) or "\\" in w:
                w = ""
            else:
                want = [c for c in cols if like(c, w)]
        r = self.c.field_list(t.encode(), w.encode())
        if r.kind != "fields":
            raise Violation(f"COM_FIELD_LIST {t!r} {w!r}: {r.err}")
        for c in r.columns:
            if not c.has_default:
                raise Violation("column definition without a default")
        self.same(f"COM_FIELD_LIST {db!r} {t!r} {w!r}", [c.name.decode() for c in r.columns], want, True)

    def info(self):
        x = self.rng.randrange(6)
        if x == 0:
            sql = "SELECT catalog_name, schema_name FROM information_schema.schemata"
            self.same(sql, self.rows(sql), list(self.all))
        elif x == 1:
            sql = "SELECT table_catalog, table_schema, table_name FROM information_schema.tables"
            self.same(sql, self.rows(sql), [(c, d, t) for (c, d), ts in self.all.items() for t in ts])
        elif x == 2:
            sql = "SELECT table_catalog, table_schema, table_name, column_name, data_type FROM INFORMATION_SCHEMA.COLUMNS"
            self.same(sql, self.rows(sql), [(c, d, t, col, ty) for (c, d), ts in self.all.items() for t, cols in ts.items() for col, ty in cols.items()])
        elif x == 3:
            db, t = self.table()
            sql = f"SELECT column_name, column_type FROM information_schema.columns WHERE table_schema = {lit(db)} AND table_name = {lit(t)} " \
                  "ORDER BY ordinal_position"
            self.same(sql, self.rows(sql), list(self.dbs[db][t].items()), True)
        elif x == 4:
            db, _ = self.table()
            clause, want = self.like(sorted(self.dbs[db]))
            sql = f"SELECT table_name FROM information_schema.tables WHERE table_schema = {lit(db)}" + (f" AND table_name{clause}" if clause else "")
            self.same(sql, self.rows(sql), [(t,) for t in want])
        else:
            clause, want = self.like(sorted({d for _, d in self.all}))
            sql = "SELECT schema_name FROM information_schema.schemata" + (f" WHERE schema_name{clause}" if clause else "")
            self.same(sql, self.rows(sql), [(d,) for d in want])

    def variables(self):
        every = self.rows("SHOW VARIABLES")
        for _ in range(20):
            p = pattern_for(self.rng, [k for k, _ in every])
            if unambiguous([k for k, _ in every], p):
                break
        else:
            return
        sql = self.rng.choice(["SHOW VARIABLES", "SHOW SESSION VARIABLES", "show variables"]) + " LIKE " + lit(p)
        self.same(sql, self.rows(sql), [(k, v) for k, v in every if like(k, p)])


STEPS = ["databases", "tables", "columns", "unknown", "field_list", "info", "variables"]


def schema(seed, depth):
    with World(seed, depth) as w:
        for step in STEPS:
            for _ in range(3 if step in ("columns", "info", "tables") else 2):
                getattr(w, step)()


def changes(seed):
    """The application's schema may change between statements"""
    with World(seed, 3) as w:
        for i in range(4):
            w2 = World.__new__(World)
            w.s.mapping, w.decl = mapping(w.rng, w.rng.choice([2, 3, 4]))
            w.all, w.dbs = {}, {}
            for (cat, db), ts in list(w.decl.items()) + [(("def", d), t) for d, t in INFO_SCHEMA.items()]:
                w.all.setdefault((cat, db), {}).update(ts)
            for (_, db), ts in w.all.items():
                w.dbs.setdefault(db, {}).update(ts)
            for step in w.rng.sample(STEPS, 3):
                getattr(w, step)()
            del w2


def patterns(seed):
    """LIKE on SHOW VARIABLES / DATABASES / TABLES over dense sets of names"""
    rng = random.Random(seed)
    f = Factory(App)
    alphabet = rng.choice(["ab", "a_b", "a%b", "a\\b", "a.*", "a[^"])
    ns = sorted({"".join(rng.choice(alphabet) for _ in range(rng.randrange(1, 6))) for _ in range(20)})
    with Sim(session_factory=f, hang=20) as sim:
        c = sim.login()
        f.sessions[-1].mapping = {"db": {n: {m: "INT" for m in ns[:5]} for n in ns if "`" not in n}}
        for _ in range(12):
            p = "".join(rng.choice(alphabet + "%_" + ("\\" if rng.random() < 0.3 else "")) for _ in range(rng.randrange(1, 8)))
            if p.endswith("\\"):
                p += "%"
            r = c.query(f"SHOW TABLES FROM db LIKE {lit(p)}")
            if r.kind not in ("rows", "ok"):
                raise Violation(f"{p!r}: {r.err}")
            got = sorted(x[0].decode() for x in r.rows)
            want = sorted(n for n in ns if like(n, p))
            if got != want:
                raise Violation(f"LIKE {p!r} on {ns}: {got}, expected {want}")


SCENARIOS = {"schema": schema, "changes": changes, "patterns": patterns}


def cases(tier, seed):
    quick = tier == "quick"
    for i in range(40 if quick else 1000):
        for depth in (0, 2, 3, 3, 4):
            yield "schema", {"seed": seed * 49979687 + i * 5 + depth, "depth": depth}
        yield "changes", {"seed": seed * 31337 + i}
        yield "patterns", {"seed": seed * 31337 + i}


def _known(table, works):
    """The listing of this table's columns isn't what it should be, while that of another table is"""
    def known():
        f = Factory(App)
        with Sim(session_factory=f, hang=20) as sim:
            c = sim.login()
            f.sessions[-1].mapping = {"db": {table: {"x": "INT"}, works: {"x": "INT"}}}
            c.init_db(b"db")
            return [x.name for x in c.field_list(works.encode()).columns] == [b"x"] and not c.field_list(table.encode()).columns
    return known


KNOWN = {"C16-backtick": (_known("a`b", "ab"), "COM_FIELD_LIST of a table whose name contains a backtick is an error: the name isn't escaped in the SHOW statement"),
         "C16-backslash": (_known("a\\b", "a\\q"), "COM_FIELD_LIST of a table whose name contains one of \\b \\n \\t ... lists nothing: SQLGlot reads an escape there")}
