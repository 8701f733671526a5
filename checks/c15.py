"""C15: Text crosses the wire in the negotiated character sets without corruption."""
import functools
import random

from lib import proto as P
from lib.charsets import CODEC, COLLATIONS, codec_of
from lib.proto import Param, T
from lib.sim import Factory, Session, Sim, Violation
from mysql_mimic import ColumnType, ResultColumn
from mysql_mimic.auth import IdentityProvider, NativePasswordAuthPlugin, User
from mysql_mimic.charset import CharacterSet, Collation
from mysql_mimic.errors import MysqlError

# character sets a client can use (MySQL doesn't allow ucs2, utf16, utf32 there)
WIDE = {"ucs2", "utf16", "utf16le", "utf32"}
CLIENT = sorted(n for n, c in CODEC.items() if c and n not in WIDE and n != "filename" and n != "binary" and n in CharacterSet.__members__)

KNOWN_IDS = {c.value for c in Collation}


@functools.lru_cache(None)
def alphabet(codec):
    """Characters representable in a codec"""
    out = set()
    if codec.startswith("utf") or codec == "gb18030":
        out = {chr(i) for i in list(range(0x20, 0x17F)) + list(range(0x400, 0x450)) + list(range(0x4E00, 0x4E80)) + list(range(0xE000, 0xE010))
               + [0x20AC, 0x2603, 0xFFFD, 0x1F600, 0x10FFFF, 0x10000, 0xD7FF, 0x0301, 0x200B, 0xFEFF]}
    else:
        for i in range(0x20, 256):
            out.add(bytes([i]).decode(codec, "ignore"))
        for i in range(0x80, 256, 3):
            for j in range(0x21, 256, 2):
                s = bytes([i, j]).decode(codec, "ignore")
                if len(s) == 1:
                    out.add(s)
    good = []
    for ch in sorted(out):
        try:
            if len(ch) == 1 and ch.encode(codec).decode(codec) == ch and "\0" not in ch:
                good.append(ch)
        except UnicodeError:
            pass
    return good


def word(rng, codecs, n=None, exclude="`?'\"\\{}\x7f#-/*;"):
    """A string representable in all of the codecs, with as many non-ASCII characters as possible"""
    a = set(alphabet(codecs[0]))
    for c in codecs[1:]:
        b = c
        ok = set()
        for ch in a:
            try:
                if ch.encode(b).decode(b) == ch:
                    ok.add(ch)
            except UnicodeError:
                pass
        a = ok
    a = sorted(x for x in a if x not in exclude)
    high = [x for x in a if ord(x) > 127] or a
    n = n or rng.randrange(1, 12)
    s = "".join(rng.choice(high if rng.random() < 0.7 else a) for _ in range(n))
    for c in codecs:  # stateful encodings
        if s.encode(c).decode(c) != s:
            return "ascii"
    return s


class App(Session):
    def __init__(self):
        super().__init__()
        self.got = []
        self.dbs = []
        self.reply = None

    async def handle_query(self, sql, attrs):
        self.got.append((sql, dict(attrs)))
        if sql.startswith("SET") or sql.startswith("SHOW"):
            return await super().handle_query(sql, attrs)
        if isinstance(self.reply, Exception):
            raise self.reply
        return self.reply

    async def use(self, database):
        self.dbs.append(database)
        await super().use(database)

    async def schema(self):
        return getattr(self, "mapping", {})


class Provider(IdentityProvider):
    def __init__(self):
        self.names = []

    def get_plugins(self):
        return [NativePasswordAuthPlugin()]

    async def get_user(self, username):
        self.names.append(username)
        return User(username, auth_plugin="mysql_native_password")


class World:
    def __init__(self, collation, caps, user, db):
        self.f = Factory(App)
        self.p = Provider()
        self.sim = Sim(session_factory=self.f, identity_provider=self.p, hang=20)
        self.client = codec_of(collation)
        self.results = "utf-8"
        self.kept = []
        c = self.c = self.sim.connect(caps=P.BASE_CAPS | caps)
        c.login(user.encode(self.client), collation=collation, db=db.encode(self.client) if db is not None else None)
        self.s = self.f.sessions[-1]
        if self.p.names != [user]:
            raise Violation(f"user name {user!r} ({self.client}) arrived as {self.p.names}")
        if db is not None and self.s.database != db:
            raise Violation(f"database {db!r} ({self.client}) arrived as {self.s.database!r}")
        if self.s.variables.get("external_user") != user:
            raise Violation("external_user")

    def __enter__(self):
        return self

    def __exit__(self, *e):
        self.sim.shutdown()

    def last(self, sql, attrs, what):
        if self.s.got[-1] != (sql, attrs):
            raise Violation(f"{what}: sent {(sql, attrs)!r} in {self.client}, arrived {self.s.got[-1]!r}")

    # --- the places text appears
    def query(self, rng, attrs=True):
        sql = "q " + word(rng, [self.client])
        a = {}
        enc = None
        if self.c.caps & P.QUERY_ATTRIBUTES and attrs:
            for i in range(rng.randrange(0, 4)):
                a[f"{i}" + word(rng, [self.client])] = word(rng, [self.client], exclude="")
            enc = [Param(T["VAR_STRING"], v.encode(self.client), False, k.encode(self.client)) for k, v in a.items()]
        self.s.reply = None
        r = self.c.query(sql.encode(self.client), enc)
        if r.kind != "ok":
            raise Violation(f"{r.kind} {r.err}")
        self.last(sql, a, "COM_QUERY")

    def init_db(self, rng):
        db = word(rng, [self.client], exclude="")
        self.c.init_db(db.encode(self.client))
        if self.s.dbs[-1:] != [db]:
            raise Violation(f"COM_INIT_DB {db!r} in {self.client} arrived as {self.s.dbs[-1:]}")

    def field_list(self, rng):
        t = "t" + word(rng, [self.client, self.results])
        col = "c" + word(rng, [self.results])
        self.s.mapping = {"x": {t: {col: "INT"}}}
        self.s.database = "x"
        r = self.c.field_list(t.encode(self.client))
        if r.kind != "fields":
            raise Violation(f"COM_FIELD_LIST {t!r} in {self.client}: {r.err}")
        got = [(c.table.decode(self.results), c.name.decode(self.results)) for c in r.columns]
        if got != [(t, col)]:
            raise Violation(f"COM_FIELD_LIST {t!r}, {col!r} ({self.client}, {self.results}): {got}")
        w = "%" + word(rng, [self.client], exclude="`?'\"\\{}\x7f%_;")
        self.c.field_list(t.encode(self.client), w.encode(self.client))
        if w not in self.s.got[-1][0]:
            raise Violation(f"COM_FIELD_LIST wildcard {w!r} arrived in {self.s.got[-1][0]!r}")

    def prepared(self, rng):
        sql = "q " + word(rng, [self.client]) + " ?, ?"
        p = self.c.prepare(sql.encode(self.client))
        if p.n_params != 2:
            raise Violation(f"{p.n_params} parameters")
        self.execute(rng, p, sql)
        self.kept.append((p, sql))

    def again(self, rng):
        """A statement that was prepared earlier, maybe in another character set"""
        if self.kept:
            self.execute(rng, *rng.choice(self.kept))

    def execute(self, rng, p, sql):
        a = word(rng, [self.client], exclude="'\"\\{}")
        b = word(rng, [self.client], exclude="'\"\\{}")
        attrs = {"k" + word(rng, [self.client]): word(rng, [self.client])} if self.c.caps & P.QUERY_ATTRIBUTES else {}
        ty = rng.choice(["VAR_STRING", "VARCHAR", "STRING"])
        self.s.reply = None
        long = rng.random() < 0.4
        if long:
            raw = b.encode(self.client)
            k = rng.randrange(len(raw) + 1)
            self.c.long_data(p.stmt_id, 1, raw[:k])
            self.c.long_data(p.stmt_id, 1, raw[k:])
        r = self.c.execute(p.stmt_id, [Param(T[ty], a.encode(self.client)), Param(T["VAR_STRING"], b.encode(self.client), long_data=long)],
                           [Param(T["VAR_STRING"], v.encode(self.client), False, k.encode(self.client)) for k, v in attrs.items()])
        if r.kind != "ok":
            raise Violation(f"{r.kind} {r.err}")
        want = sql.replace("?", "{}").format(f"'{a}'", f"'{b}'")
        got = self.s.got[-1]
        if got != (want, attrs):
            raise Violation(f"prepared statement in {self.client}: sent {(want, attrs)!r}, arrived {got!r}")

    def result(self, rng):
        cols, row = [], []
        for i in range(rng.randrange(1, 4)):
            cs = rng.choice([n for n, c in CODEC.items() if c and n in CharacterSet.__members__ and n != "binary"])
            cols.append((f"{i}" + word(rng, [self.results], exclude="{}"), cs))
            row.append(word(rng, [CODEC[cs]], rng.choice([1, 5, 130]), exclude=""))
        bare = rng.random() < 0.3
        if bare:
            cols = [(n, "utf8mb4") for n, _ in cols]
            self.s.reply = ([tuple(row)], [n for n, _ in cols])
        else:
            self.s.reply = ([tuple(row)], [ResultColumn(n, rng.choice([ColumnType.VARCHAR, ColumnType.STRING, ColumnType.VAR_STRING, ColumnType.BLOB]),
                                                        CharacterSet[cs]) for n, cs in cols])
        if rng.random() < 0.5:
            r = self.c.query("q")
        else:
            r = self.c.execute(self.c.prepare("q").stmt_id)
        if r.kind != "rows":
            raise Violation(f"{r.kind} {r.err} for {row!r} in {cols}")
        for d, cell, (name, cs), v in zip(r.columns, r.rows[0], cols, row):
            if d.name != name.encode(self.results):
                raise Violation(f"column name {name!r} in {self.results}: {d.name!r}")
            if codec_of(d.charset) != CODEC[cs]:
                raise Violation(f"column of character set {cs}, announced as {COLLATIONS.get(d.charset)}")
            if bytes(cell) != v.encode(CODEC[cs]):
                raise Violation(f"{v!r} in {cs}: {bytes(cell)!r}")

    def error(self, rng):
        msg = word(rng, [self.results], rng.choice([3, 60]), exclude="")
        self.s.reply = rng.choice([MysqlError(msg), ValueError(msg)])
        r = self.c.query("q")
        if r.kind != "err" or r.err.msg != msg.encode(self.results):
            raise Violation(f"error message {msg!r} in {self.results}: {r.err}")

    def kill_error(self, rng):
        # messages of the library itself
        r = self.c.fetch(77, 1)
        if r.kind != "err":
            raise Violation(f"{r.kind}")
        r.err.msg.decode(self.results)

    # --- changes of the character set
    def switch(self, rng):
        how = rng.randrange(4)
        cs = rng.choice(CLIENT)
        if how == 0:
            sql = rng.choice(["SET NAMES {}", "SET NAMES '{}'", "SET NAMES \"{}\""]).format(cs)
            if cs in ("binary",):
                return
            r = self.c.query(sql.encode(self.client))
            if r.kind != "ok":
                raise Violation(f"{sql}: {r.err}")
            self.client = self.results = CODEC[cs]
        elif how == 1:
            sql = rng.choice(["SET CHARACTER SET {}", "SET CHARACTER SET '{}'", "SET CHARSET {}"]).format(cs)
            r = self.c.query(sql.encode(self.client))
            if r.kind != "ok":
                raise Violation(f"{sql}: {r.err}")
            self.client = self.results = CODEC[cs]
        elif how == 2:
            which = rng.choice(["character_set_client", "character_set_results"])
            r = self.c.query(f"SET {which} = '{cs}'".encode(self.client))
            if r.kind != "ok":
                raise Violation(f"SET {which} = '{cs}': {r.err}")
            if which == "character_set_client":
                self.client = CODEC[cs]
            else:
                self.results = CODEC[cs]
        else:
            coll = rng.choice([i for i, (n, _) in COLLATIONS.items() if n in CLIENT and i in KNOWN_IDS and (i > 255 or rng.random() < 0.5)])
            user, db = "u" + word(rng, [self.client]), word(rng, [self.client]) if rng.random() < 0.7 else ""
            hs = self.c.hs
            payload = P.change_user(self.c.caps, user.encode(self.client), b"", db.encode(self.client), coll,
                                    b"mysql_native_password")
            self.c.send(payload, 0)
            self.sim.settle()
            p = self.c.auth_loop(b"")
            if p[0] != 0:
                raise Violation(f"COM_CHANGE_USER failed: {p!r}")
            if self.p.names[-1] != user:
                raise Violation(f"COM_CHANGE_USER user {user!r} in {self.client} arrived as {self.p.names[-1]!r}")
            if self.s.database != db:
                raise Violation(f"COM_CHANGE_USER database {db!r} in {self.client} arrived as {self.s.database!r}")
            self.kept = []
            self.client = codec_of(coll)


STEPS = ["query", "init_db", "field_list", "again", "prepared", "result", "error", "kill_error"]


def every(collation, seed):
    """Each place, in one client character set"""
    rng = random.Random(seed)
    codec = codec_of(collation)
    with World(collation, P.QUERY_ATTRIBUTES | rng.choice([0, P.DEPRECATE_EOF]), "u" + word(rng, [codec]), word(rng, [codec])) as w:
        for step in STEPS:
            for _ in range(2):
                getattr(w, step)(rng)
        w.switch(rng)
        for step in STEPS:
            getattr(w, step)(rng)


def names(charset, seed):
    """Each place, after SET NAMES"""
    rng = random.Random(seed)
    with World(45, P.QUERY_ATTRIBUTES, "user", None) as w:
        for sql in (f"SET NAMES {charset}", f"SET CHARACTER SET {charset}", f"SET character_set_results = '{charset}'"):
            r = w.c.query(sql.encode(w.client))
            if r.kind != "ok":
                raise Violation(f"{sql}: {r.err}")
            w.results = CODEC[charset]
            if "results" not in sql:
                w.client = w.results
            for step in STEPS:
                getattr(w, step)(rng)
            r = w.c.query("SET NAMES DEFAULT".encode(w.client))
            if r.kind != "ok":
                raise Violation(f"SET NAMES DEFAULT: {r.err}")
            w.client = w.results = "utf-8"
            for step in STEPS:
                getattr(w, step)(rng)


def characters(charset):
    """Every character of a character set, as SQL and as result"""
    rng = random.Random(0)
    codec = CODEC[charset]
    with World(45, 0, "user", None) as w:
        w.c.query(f"SET NAMES {charset}" if charset in CLIENT else "SET NAMES utf8mb4")
        if charset in CLIENT:
            w.client = w.results = codec
        a = alphabet(codec)
        for i in range(0, len(a), 500):
            s = "".join(a[i:i + 500])
            if s.encode(codec).decode(codec) != s:
                continue
            if charset in CLIENT:
                w.s.reply = None
                w.c.query(("q " + s).encode(codec))
                w.last("q " + s, {}, "COM_QUERY")
            w.s.reply = ([(s,)], [ResultColumn("a", ColumnType.VARCHAR, CharacterSet[charset])])
            r = w.c.query("q".encode(w.client))
            if bytes(r.rows[0][0]) != s.encode(codec):
                raise Violation(f"result in {charset}: {bytes(r.rows[0][0])[:50]!r}")


def rand(seed):
    rng = random.Random(seed)
    coll = rng.choice([i for i, (n, _) in COLLATIONS.items() if n in CLIENT and i < 256 and i in KNOWN_IDS])
    codec = codec_of(coll)
    with World(coll, rng.choice([0, P.QUERY_ATTRIBUTES, P.DEPRECATE_EOF | P.QUERY_ATTRIBUTES]), word(rng, [codec]),
               rng.choice([None, word(rng, [codec])])) as w:
        for _ in range(16):
            if rng.random() < 0.25:
                w.switch(rng)
            else:
                getattr(w, rng.choice(STEPS))(rng)


SCENARIOS = {"every": every, "names": names, "characters": characters, "rand": rand}


def cases(tier, seed):
    quick = tier == "quick"
    for i, (n, _) in sorted(COLLATIONS.items()):
        if n in CLIENT and i < 256 and i in KNOWN_IDS:
            yield "every", {"collation": i, "seed": seed + i}
    for n in CLIENT:
        yield "names", {"charset": n, "seed": seed}
    for n, c in CODEC.items():
        if not c or n == "binary" or n not in CharacterSet.__members__:
            continue
        yield "characters", {"charset": n}
    for i in range(150 if quick else 4000):
        yield "rand", {"seed": seed * 65537 + i}
