"""C06: prepared-statement parameters are bound as data, never as SQL."""
import itertools
import math
import random
import struct

from sqlglot.dialects import MySQL
from sqlglot.tokens import TokenType

from lib import proto as P
from lib.proto import Param, T
from lib.sim import Factory, Raw, Sim, Violation

INT = {"TINY": 1, "SHORT": 2, "YEAR": 2, "LONG": 4, "INT24": 4, "LONGLONG": 8}
STRS = ["VARCHAR", "VAR_STRING", "STRING", "BLOB", "TINY_BLOB", "MEDIUM_BLOB", "LONG_BLOB"]
ESC = {"0": "\0", "b": "\b", "n": "\n", "r": "\r", "t": "\t", "Z": "\x1a"}

# text fragments of statements: (text, is a placeholder)
FRAGMENTS = [("?", 1)] * 8 + [(x, 0) for x in (
    "SELECT ", "a", " , ", " + ", "'?'", "'a''?b'", "'a\\'?b'", "'\\\\'", '"?"', '"a""?"', '"\\"?"', "`?`", "`a``?`", "`a\\`",
    "'%s'", "'\\1'", "/* ? */", "/* '? */", "-- ? \n", "# ?\n", "(", ")", "''", '""', "\\g<0>", ":x", "@v", " = ", "\u00e9", "\U0001f600 ",
    "'\u00e9?'", "1", "1.5e3", " LIKE ", "b", "{}", "{0}", "%d", "$1", " IN (", "'\n?'", "x'", "'", "'it''s' ", "/", "-", " - ",
    " IS NULL", "\\", "/*", "*/", "--")]
STRINGS = ["", "'", '"', "\\", "\\'", "''", "?", "'?'", "a?b", "\\?", "%s", "\\1", "\\g<0>", "\\g<1>\\n", "\n", "\r\n", "\0", "\t", "\x1a", "\b", "' OR 1=1 -- ",
           "'; DROP TABLE t; --", "\\\\", "\\' OR '?", "`", "/*", "*/", "--", "#", "NULL", "1", "\u00e9", "\u4e2d", "\U0001f4a3", "{}", "%(a)s", "a'b\"c`d",
           "\\n", "\\0", "\\Z", "\\%", "\\_", "%", "_", "'\\", "\\''", "e\u0301", "\x7f", "\x80", "\ufeff", " lead", "trail "]


def read_literal(s: str, i: int):
    """One literal at s[i:]: (kind, value, end)"""
    while i < len(s) and s[i] == " ":
        i += 1
    if s[i] in "'\"":
        q, out, i = s[i], [], i + 1
        while True:
            if i >= len(s):
                raise Violation(f"unterminated literal in {s!r}")
            c = s[i]
            if c == q:
                if s[i + 1:i + 2] == q:
                    out.append(q)
                    i += 2
                    continue
                return "str", "".join(out), i + 1
            if c == "\\":
                n = s[i + 1]
                out.append("\\" + n if n in "%_" else ESC.get(n, n))
                i += 2
                continue
            out.append(c)
            i += 1
    if s[i:i + 4].upper() == "NULL":
        return "null", None, i + 4
    if s[i:i + 4].upper() == "TRUE":
        return "int", 1, i + 4
    if s[i:i + 5].upper() == "FALSE":
        return "int", 0, i + 5
    j = i
    if s[j:j + 1] == "(":  # a parenthesised number is still one operand
        k, v, e = read_literal(s, j + 1)
        while s[e] == " ":
            e += 1
        if s[e] != ")":
            raise Violation(f"bad literal in {s!r}")
        return k, v, e + 1
    while j < len(s) and (s[j] in "+-.eE" or s[j].isdigit()):
        j += 1
    # the longest number
    while j > i:
        t = s[i:j]
        try:
            return ("int", int(t), j) if not set(t) & set(".eE") else ("float", float(t), j)
        except ValueError:
            j -= 1
    raise Violation(f"no literal at {s[i:i + 40]!r} of {s!r}")


def placeholders(sql: str):
    """Positions of the placeholders, by the lexical rules of MySQL"""
    out, i = [], 0
    while i < len(sql):
        c = sql[i]
        if c in "'\"`":
            q = c
            i += 1
            while i < len(sql):
                if sql[i] == "\\" and q != "`":
                    i += 2
                elif sql[i] == q:
                    if sql[i + 1:i + 2] == q:
                        i += 2
                    else:
                        break
                else:
                    i += 1
            i += 1
        elif c == "#" or sql.startswith("-- ", i) or sql.startswith("--\n", i):
            j = sql.find("\n", i)
            i = len(sql) if j < 0 else j + 1
        elif sql.startswith("/*", i):
            j = sql.find("*/", i + 2)
            i = len(sql) if j < 0 else j + 2
        else:
            if c == "?":
                out.append(i)
            i += 1
    return out


def f32(v):
    return struct.unpack("<f", struct.pack("<f", v))[0]


def denotes(kind, got, want) -> bool:
    if want is None:
        return kind == "null"
    if isinstance(want, str):
        return kind == "str" and got == want
    if isinstance(want, float):
        if math.isinf(want) or math.isnan(want):
            return True  # has no literal
        return kind in ("float", "int") and float(got) == want
    return kind == "int" and got == want


def check_sql(template: str, got: str, values: list) -> None:
    """`got` is the template with the i-th placeholder replaced by a literal denoting values[i]"""
    i = g = 0
    for n, pos in enumerate(placeholders(template)):
        part = template[i:pos]
        if got[g:g + len(part)] != part:
            raise Violation(f"the text before parameter {n} changed: {got!r}, prepared {template!r}")
        g += len(part)
        kind, v, e = read_literal(got, g)
        if not denotes(kind, v, values[n]):
            raise Violation(f"parameter {n} became {got[g:e]!r}, the client sent {values[n]!r}: {got!r}")
        i = pos + 1
        # spaces around a literal don't change any token
        while e < len(got) and got[e] == " " and not (template[i:i + 1] == " " and got[e:] == template[i:]):
            if got[e:e + 1] == template[i:i + 1] and got[e:].startswith(template[i:]):
                break
            if n + 1 == len(values) and len(got) - e == len(template) - i:
                break
            if template[i:i + 1] == " ":
                break
            e += 1
        g = e
    if got[g:] != template[i:]:
        raise Violation(f"the text after the last parameter changed: {got!r}, prepared {template!r}")


def tokens(sql):
    return [(t.token_type, t.text) for t in MySQL().tokenize(sql)]


def check_tokens(template: str, got: str, values: list) -> None:
    """No parameter adds, joins or removes tokens, judged by the tokenizer the application uses"""
    if any(isinstance(v, float) and (math.isinf(v) or math.isnan(v)) for v in values):
        return
    a, b = tokens(template), tokens(got)
    j = n = 0
    for typ, text in a:
        if typ == TokenType.PLACEHOLDER:
            v = values[n]
            n += 1
            if isinstance(v, (int, float)) and j < len(b) and b[j][0] == TokenType.DASH:
                j += 1
            if j >= len(b) or b[j][0] not in (TokenType.STRING, TokenType.NUMBER, TokenType.NULL, TokenType.TRUE, TokenType.FALSE):
                raise Violation(f"token {b[j:j + 1]} for parameter {v!r} in {got!r}")
            j += 1
        else:
            if j >= len(b) or b[j] != (typ, text):
                raise Violation(f"token {(typ, text)} became {b[j:j + 1]}: {got!r}, prepared {template!r}")
            j += 1
    if j != len(b):
        raise Violation(f"extra tokens {b[j:]} in {got!r}, prepared {template!r}")


def a_value(rng):
    """(Param, Python value the literal has to denote, long data chunks)"""
    x = rng.random()
    if x < 0.4:
        t = rng.choice(STRS)
        s = rng.choice(STRINGS) if rng.random() < 0.7 else "".join(rng.choice(STRINGS + ["x"] * 9) for _ in range(rng.randrange(6)))
        if rng.random() < 0.03:
            s = (s or "q") * rng.choice([251, 300, 70000])
        return Param(T[t], s.encode()), s, None
    if x < 0.5:
        t = rng.choice(STRS)
        s = "".join(rng.choice(STRINGS) for _ in range(rng.randrange(5)))
        data = s.encode()
        cuts = sorted(rng.randrange(len(data) + 1) for _ in range(rng.randrange(4)))
        chunks = [data[i:j] for i, j in zip([0] + cuts, cuts + [len(data)])]
        return Param(T[t], None, long_data=True), s, chunks
    if x < 0.75:
        t = rng.choice(list(INT))
        n = INT[t]
        u = rng.random() < 0.5
        lo, hi = (0, (1 << 8 * n) - 1) if u else (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1)
        v = rng.choice([lo, hi, 0, 1, lo + 1, hi - 1, rng.randint(lo, hi)] + ([-1, -5] if not u else []))
        return Param(T[t], v, u), v, None
    if x < 0.88:
        if rng.random() < 0.4:
            v = f32(rng.choice([0.0, 1.5, -2.25, 1e10, -1e-10, 3.4e38, rng.uniform(-100, 100)]))
            return Param(T["FLOAT"], v), v, None
        v = rng.choice([0.0, -0.0, 0.1, -1.5, 1e100, 1e16, -1e-7, 5e-324, 1.7976931348623157e308, 1e22, rng.uniform(-1e9, 1e9)])
        return Param(T["DOUBLE"], v), v, None
    if x < 0.92:
        return Param(T["NULL"], None), None, None
    return Param(T[rng.choice(STRS + ["LONG", "DOUBLE"])], None), None, None


def template(rng):
    for _ in range(200):
        s = "".join(rng.choice(FRAGMENTS)[0] for _ in range(rng.randrange(1, 12)))
        # unterminated quotes and comments aren't statements
        if balanced(s):
            return s
    return "SELECT ?"


def balanced(s):
    try:
        t = tokens(s)
    except Exception:  # pylint: disable=broad-except
        return False
    # where MySQL's lexical rules and the application's tokenizer agree
    ps = placeholders(s)
    if sum(1 for k, _ in t if k == TokenType.PLACEHOLDER) != len(ps):
        return False
    marks = MySQL().tokenize(s)
    if [x.start for x in marks if x.token_type == TokenType.PLACEHOLDER] != ps:
        return False
    if any(k == TokenType.HINT for k, _ in t):
        return False
    # a placeholder that touches an identifier or a number isn't one
    for p in ps:
        if p and (s[p - 1].isalnum() or s[p - 1] in "_$@\\:.") or p + 1 < len(s) and (s[p + 1].isalnum() or s[p + 1] in "_$@\\?:."):
            return False
        if s[p - 1:p] in "'\"`" and p or s[p + 1:p + 2] in ("'", '"', "`"):
            return False
        if s[p - 1:p] == "-" or s[p - 1:p] == "+" or s[p - 1:p] == "?":
            return False
    return True


def login(sim, attrs):
    return sim.login("u", caps=P.BASE_CAPS | (P.QUERY_ATTRIBUTES if attrs else 0))


def execute(sim, c, st, sql, vals, attrs=None):
    rec = sim.rec
    n0 = len(rec.calls)
    for i, (_, _, chunks) in enumerate(vals):
        for ch in chunks or ():
            c.long_data(st, i, ch)
    r = c.execute(st, [p for p, _, _ in vals], attrs)
    if r.kind == "err":
        raise Violation(f"execute of {sql!r} with {[v for _, v, _ in vals]!r}: {r.err}")
    calls = [x for x in rec.calls[n0:] if x[0] == "query"]
    if len(calls) != 1:
        raise Violation(f"{len(calls)} queries reached the application")
    return calls[0][1]


class Rec:
    def __init__(self):
        self.calls = []


def new_sim():
    rec = Rec()
    sim = Sim(session_factory=lambda: Raw(log=rec.calls))
    sim.rec = rec
    return sim


def binds(seed: int) -> None:
    rng = random.Random(seed)
    with new_sim() as sim:
        c = login(sim, rng.random() < 0.5)
        stmts = {}
        for _ in range(8):
            if not stmts or rng.random() < 0.5:
                sql = template(rng)
                r = c.prepare(sql)
                n = len(placeholders(sql))
                if r.kind != "prepare" or r.n_params != n:
                    raise Violation(f"{r.n_params} parameters announced for {sql!r}, it has {n} ({r.kind})")
                stmts[r.stmt_id] = sql
            st = rng.choice(list(stmts))
            sql = stmts[st]
            vals = [a_value(rng) for _ in placeholders(sql)]
            attrs = None
            if c.caps & P.QUERY_ATTRIBUTES and rng.random() < 0.3:
                attrs = [Param(T["VAR_STRING"], rng.choice(STRINGS).encode(), name=b"a")]
            got = execute(sim, c, st, sql, vals, attrs)
            values = [v for _, v, _ in vals]
            check_sql(sql, got, values)
            check_tokens(sql, got, values)
            if rng.random() < 0.2:
                c.stmt_reset(st)


def pair(a: int, b: int) -> None:
    """Two string parameters next to each other, and one inside an otherwise quoted statement"""
    with new_sim() as sim:
        c = login(sim, False)
        for sql in ("SELECT ?,?", "SELECT '?', ?, \"?\", ? , `?`", "INSERT INTO t VALUES (?, '\\'', ?) -- ?"):
            st = c.prepare(sql).stmt_id
            vals = [(Param(T["VAR_STRING"], STRINGS[x].encode()), STRINGS[x], None) for x in (a, b)]
            got = execute(sim, c, st, sql, vals)
            check_sql(sql, got, [STRINGS[a], STRINGS[b]])
            check_tokens(sql, got, [STRINGS[a], STRINGS[b]])


def everychar(lo: int) -> None:
    """Every character, alone and between quotes"""
    with new_sim() as sim:
        c = login(sim, False)
        st = c.prepare("SELECT ? , ?").stmt_id
        for cp in range(lo, lo + 128):
            if 0xD800 <= cp < 0xE000:
                continue
            ch = chr(cp)
            s = "'" + ch + "\\" + ch
            vals = [(Param(T["VAR_STRING"], x.encode()), x, None) for x in (ch, s)]
            got = execute(sim, c, st, "SELECT ? , ?", vals)
            check_sql("SELECT ? , ?", got, [ch, s])
            check_tokens("SELECT ? , ?", got, [ch, s])


def widths(name: str) -> None:
    """Integers of every width and signedness, at all boundaries"""
    n = INT[name]
    vals = set()
    for k in range(8 * n + 1):
        for d in (-1, 0, 1):
            vals |= {(1 << k) + d, -(1 << k) + d}
    with new_sim() as sim:
        c = login(sim, False)
        st = c.prepare("SELECT ?-?").stmt_id
        for u in (False, True):
            lo, hi = (0, (1 << 8 * n) - 1) if u else (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1)
            for v in sorted(vals):
                if lo <= v <= hi:
                    p = Param(T[name], v, u)
                    got = execute(sim, c, st, "SELECT ?-?", [(p, v, None)] * 2)
                    check_sql("SELECT ?-?", got, [v, v])
                    check_tokens("SELECT ?-?", got, [v, v])


def counts(n: int, attrs: bool) -> None:
    """Any number of parameters, NULLs anywhere"""
    with new_sim() as sim:
        c = login(sim, attrs)
        sql = "SELECT " + ", ".join(["?"] * n)
        r = c.prepare(sql)
        if r.n_params != n:
            raise Violation(f"{r.n_params} parameters announced, {n} placeholders")
        for k in range(min(n, 20) + 1):
            vals = []
            for i in range(n):
                if (i * 7 + k) % 5 == 0 or i == k:
                    vals.append((Param(T["LONG"], None), None, None))
                elif i % 3:
                    vals.append((Param(T["VAR_STRING"], b"?%d" % i), f"?{i}", None))
                else:
                    vals.append((Param(T["LONG"], i - 3), i - 3, None))
            got = execute(sim, c, r.stmt_id, sql, vals)
            check_sql(sql, got, [v for _, v, _ in vals])


def long_data(seed: int) -> None:
    """Chunks are concatenated per parameter in send order, for the next execution only"""
    rng = random.Random(seed)
    with new_sim() as sim:
        c = login(sim, rng.random() < 0.5)
        sqls = ["SELECT ?, ?, ?", "SELECT ? , '?'"]
        sts = [c.prepare(s).stmt_id for s in sqls]
        for _ in range(6):
            bufs = [dict() for _ in sts]
            for _ in range(rng.randrange(10)):
                k = rng.randrange(2)
                n = len(placeholders(sqls[k]))
                i = rng.randrange(n)
                data = rng.choice(STRINGS).encode() * rng.choice([1, 1, 3])
                # cut characters in half, too
                cut = rng.randrange(len(data) + 1)
                for ch in (data[:cut], data[cut:]):
                    c.long_data(sts[k], i, ch)
                    bufs[k][i] = bufs[k].get(i, b"") + ch
                if rng.random() < 0.1:
                    c.long_data(sts[k], rng.randrange(n, 70), b"x")  # no such parameter
                if rng.random() < 0.1:
                    c.long_data(max(sts) + 5, 0, b"x")  # no such statement
                if rng.random() < 0.1:
                    c.stmt_reset(sts[k])
                    bufs[k] = {}
            for k in rng.sample([0, 1], 2):
                vals = []
                for i in range(len(placeholders(sqls[k]))):
                    if i in bufs[k]:
                        vals.append((Param(T["BLOB"], None, long_data=True), bufs[k][i].decode(), None))
                    else:
                        vals.append((Param(T["VAR_STRING"], b"v%d" % i), f"v{i}", None))
                got = execute(sim, c, sts[k], sqls[k], vals)
                check_sql(sqls[k], got, [v for _, v, _ in vals])


def wide_numbers(seed: int) -> None:
    rng = random.Random(seed)
    with new_sim() as sim:
        c = login(sim, False)
        st = c.prepare("SELECT a-? , ?").stmt_id
        for _ in range(300):
            v = struct.unpack("<d", rng.randbytes(8))[0]
            w = struct.unpack("<f", rng.randbytes(4))[0]
            if not (math.isfinite(v) and math.isfinite(w)):
                continue
            got = execute(sim, c, st, "", [(Param(T["DOUBLE"], v), v, None), (Param(T["FLOAT"], w), w, None)])
            check_sql("SELECT a-? , ?", got, [v, w])
            check_tokens("SELECT a-? , ?", got, [v, w])


def no_params(seed: int) -> None:
    """A statement without placeholders is executed as prepared"""
    rng = random.Random(seed)
    with new_sim() as sim:
        c = login(sim, rng.random() < 0.5)
        for _ in range(10):
            s = template(rng)
            if placeholders(s):
                continue
            st = c.prepare(s).stmt_id
            got = execute(sim, c, st, s, [])
            if got != s:
                raise Violation(f"{got!r} executed, {s!r} prepared")


def after_error(kind: str) -> None:
    """An execution that fails doesn't leave its long data to the next one"""
    with new_sim() as sim:
        c = login(sim, False)
        st = c.prepare("SELECT ?, ?").stmt_id
        c.long_data(st, 0, b"stale" if kind == "type" else b"\xff\xfe")
        bad = T["GEOMETRY"] if kind == "type" else T["LONG"]
        r = c.command(P.com_stmt_execute(c.caps, st, [Param(T["BLOB"], None, long_data=True), Param(T["LONG"], 1)])[:-6]
                      + bytes([bad, 0]) + b"\1\0\0\0", "execute")
        if r.kind != "err":
            raise Violation(f"malformed execute: {r.kind}")
        got = execute(sim, c, st, "SELECT ?, ?", [(Param(T["BLOB"], None, long_data=True), "new", [b"ne", b"w"]),
                                                  (Param(T["LONG"], 1), 1, None)])
        check_sql("SELECT ?, ?", got, ["new", 1])


SCENARIOS = {"after_error": after_error, "binds": binds, "pair": pair, "everychar": everychar, "widths": widths, "counts": counts, "long_data": long_data,
             "wide_numbers": wide_numbers, "no_params": no_params}


def cases(tier, seed):
    n = 1 if tier == "quick" else 10
    for kind in ("type", "charset"):
        yield "after_error", {"kind": kind}
    for name in INT:
        yield "widths", {"name": name}
    for a in (True, False):
        for k in list(range(1, 20)) + [31, 32, 33, 63, 64, 65, 250, 251, 252, 255, 256, 300]:
            yield "counts", {"n": k, "attrs": a}
    for lo in list(range(0, 0x3000 if n == 1 else 0x20000, 128)):
        yield "everychar", {"lo": lo}
    pairs = list(itertools.product(range(len(STRINGS)), repeat=2))
    rng = random.Random(seed)
    if n == 1:
        pairs = rng.sample(pairs, 500)
    for a, b in pairs:
        yield "pair", {"a": a, "b": b}
    base = seed * 15485863
    for i in range(500 * n):
        yield "binds", {"seed": base + i}
        if i % 3 == 0:
            yield "long_data", {"seed": base + i}
        if i % 10 == 0:
            yield "wide_numbers", {"seed": base + i}
            yield "no_params", {"seed": base + i}
