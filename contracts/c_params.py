"""Parameters of prepared statements and query attributes (prepared.py, packets.py)"""
import z3

from contracts.common import abstract_lengths, cap, empty_list, enc, fam_bool, fam_bytes, fam_int, fam_text
from dv import shadow, sym
from dv.core import Skip, Unsupported, term, unit
from dv.shadow import Invariant
from dv.spec import And, Implies, Not, Or, cat, eq, ite, le, length, lenenc, lenstr, les, part, raises, reader, rest, symbolic
from dv.sym import SAccum, SInt, SList, SStr, is_sym

I = z3.IntSort()


# --- placeholders

SKIP = z3.Function("after_quoted_from", I, I)


def int_local(L):
    names = [k for k, x in L._loc.items() if k in L.changed and type(x) in (int, SInt)]
    if len(names) != 1:
        raise Unsupported(f"which local is the position? {names}")
    return names[0]


def code(s, i):
    return sym.wrap(s._at(term(i))) if is_sym(s) else ord(s[i])


def unfold(c, s, quote, i):
    """The specification: where quoted text ends if it goes on at i"""
    n, ch, t = s._len_term(), s._at(term(i)), term(i)
    step = z3.If(z3.And(ch == 92, quote != 96), z3.IntVal(2), z3.IntVal(1))
    c.add(SKIP(t) == z3.If(z3.Or(t >= n, ch == quote), t + 1, SKIP(t + step)))


def _quoted(c, it):
    st = c.state

    def havoc(c, L):
        name = st["pos"] = int_local(L)
        i = c.int("position", 0)
        c.assume(i > st["start"])
        unfold(c, st["sql"], st["quote"], i)
        return {name: i}

    def inv(c, L):
        if "pos" not in st:
            return
        i = getattr(L, st["pos"])
        yield "the position is one of the quoted text", And(eq(sym.wrap(SKIP(term(i))), sym.wrap(SKIP(term(st["start"]) + 1))), i > st["start"])

    return Invariant(havoc, inv, lambda c, L: length(st["sql"]) + 2 - getattr(L, st["pos"]))


def ref_quoted(sql, start):
    i, q = start + 1, sql[start]
    while i < len(sql) and sql[i] != q:
        i += 2 if sql[i] == "\\" and q != "`" else 1
    return i + 1


@unit("C06", "prepared._skip_quoted", loops={"_skip_quoted#0": _quoted}, internal=True)
def skip_quoted(v):
    """Quoted text ends with the first quote that isn't escaped; a backslash escapes, except in identifiers"""
    m = v.mod("prepared")
    if not symbolic():
        sql = v.pick("quote", "'\"`") + v.text("text")
        got, want = m._skip_quoted(sql, 0), ref_quoted(sql, 0)
        v.check("the end of quoted text", got == want or min(got, want) >= len(sql))
        return
    sql = v.text("sql", maxlen=4 if v.bounded else None)
    start = v.int("start", 0)
    v.assume(start < length(sql))
    q = code(sql, start)
    v.assume(Or(q == 39, q == 34, q == 96))
    v.state.update(sql=SStr.of(sql), start=start, quote=term(q))
    got = m._skip_quoted(sql, start)
    if v.bounded:
        i = start + 1
        while i < length(sql) and code(sql, i) != q:
            i = i + (2 if code(sql, i) == 92 and q != 96 else 1)
        want = i + 1
    else:
        want = sym.wrap(SKIP(term(start) + 1))
    v.check("the end of quoted text", Or(eq(got, want), And(got >= length(sql), want >= length(sql))))
    v.check("quoted text isn't empty", got > start)


@unit("C06", "prepared._skip_past", internal=True)
def skip_past(v):
    """Comments end after the first occurrence of what ends them, or with the text"""
    m = v.mod("prepared")
    sql, end = v.text("sql"), v.pick("end", ["\n", "*/"])
    start = v.int("start", 0, None if symbolic() else 10)
    v.assume(start <= length(sql) + 2)
    got = m._skip_past(sql, end, start)
    f = sql.find(end, start)
    v.check("the end of a comment", eq(got, length(sql)) if f < 0 else eq(got, f + len(end)))


def step(v, sql, i, quoted):
    """The specification of one token: (where the next one starts, is it a placeholder?)"""
    ch = code(sql, i)
    if Or(ch == 39, ch == 34, ch == 96):
        return quoted(i), False
    if Or(ch == 35, sql.startswith("--", i)):
        f = sql.find("\n", i)
        return (length(sql) if f < 0 else f + 1), False
    if sql.startswith("/*", i):
        f = sql.find("*/", i + 2)
        return (length(sql) if f < 0 else f + 2), False
    return i + 1, ch == 63


def _scan(c, it):
    st = c.state

    def havoc(c, L):
        name = st["pos"] = int_local(L)
        out = st["out"] = empty_list(L, "positions")
        i = st["i"] = c.int("position", 0)
        st["list"] = SList(c.int("found", 0)._z3, lambda k: fam_int("found", k))
        return {name: i, out: st["list"]}

    def inv(c, L):
        if "pos" not in st:
            yield "scanning begins with the text", eq(getattr(L, int_local(L)), 0)
            return
        i, out = getattr(L, st["pos"]), getattr(L, st["out"])
        if i is st["i"]:
            return
        nxt, param = step(c, st["sql"], st["i"], st["quoted"])
        n = length(st["sql"])
        yield "the next token starts where this one ends", Or(eq(i, nxt), And(i >= n, nxt >= n))
        yield "a placeholder's position is noted, and nothing else", And(out is st["list"], eq(out.tail, [st["i"]] if param else []))

    return Invariant(havoc, inv, lambda c, L: length(st["sql"]) + 2 - getattr(L, st["pos"]),
                     heap=lambda c, L: [getattr(L, st["out"]), getattr(L, st["out"]).tail])


def ref_params(sql):
    out, i = [], 0
    while i < len(sql):
        nxt, param = step(None, sql, i, lambda i: ref_quoted(sql, i))
        if param:
            out.append(i)
        i = nxt
    return out


FRAGMENTS = ["'", '"', "`", "\\", "?", "??", "#", "--", "/*", "*/", "\n", "a", " ", "-", "/", "*", "''", "\\'", "é"]


def template(v):
    return "".join(v.pick("fragment", FRAGMENTS) for _ in range(v.int("n", 0, 12)))


@unit("C06", "prepared.find_params", loops={"find_params#0": _scan}, weight=2)
def find_params(v):
    """Placeholders are the question marks outside of quoted text and comments; by induction over the tokens, for any text"""
    m = v.mod("prepared")
    if not symbolic():
        sql = v.given.pop("sql", None) or template(v)
        v.used["sql"] = sql
        v.check("the placeholders", list(m.find_params(sql)) == ref_params(sql))
        return
    sql = v.text("sql", maxlen=3 if v.bounded else None)
    if v.bounded:
        quoted = lambda i: m._skip_quoted(sql, i)
    else:
        skip = z3.Function("quoted_to", I, I)

        def quoted(i, *a):
            i = a[0] if a else i
            r = sym.wrap(skip(term(i)))
            v.assume(r > i)
            return r
        v.patch(m, "_skip_quoted", quoted)
    v.state.update(sql=SStr.of(sql), quoted=quoted)
    got = m.find_params(sql)
    if v.bounded:
        want, i = [], 0
        while i < length(sql):
            nxt, param = step(v, sql, i, quoted)
            if param:
                want.append(i)
            i = nxt
        v.check("the placeholders", eq(list(got), want))
        return
    v.check("all of the text was scanned", v.state["i"] >= length(sql))
    v.check("the placeholders are those that were found", got is v.state["list"])


# --- literals

def denotes(lit, s):
    """Does a string literal, read as MySQL reads it, give the text s?  For a symbolic text character by character"""
    if not is_sym(lit):
        if not is_sym(s):
            r = read_literal(lit)
            return r is not None and r == s
        lit = SStr.of(lit)
    inside, out = False, []
    ps = lit.pieces
    if not ps or ps[0].const is None or not ps[0].const.startswith("'"):
        return False
    for k, p in enumerate(ps):
        if p.const is not None:
            text = p.const
            if k == 0:
                text, inside = text[1:], True
            if k == len(ps) - 1:
                if not text.endswith("'"):
                    return False
                text = text[:-1]
            d = unescape(text)
            if d is None:
                return False
            out.append(d)
            continue
        mapping, src = (p.tok[1], p.tok[2]) if p.tok is not None and p.tok[0] == "hom" else ({}, SStr([p]))
        if not {"'", "\\"} <= set(mapping) or any(unescape(x) != ch for ch, x in mapping.items()):
            return False
        out.append(src)
    return eq(SStr.cat(out), s)


def unescape(text):
    """The inside of a literal, which must be self-contained"""
    out, i = "", 0
    names = {"0": "\0", "n": "\n", "r": "\r", "t": "\t", "b": "\b", "Z": "\x1a"}
    while i < len(text):
        if text[i] == "\\":
            if i + 1 == len(text) or text[i + 1] in "%_":
                return None
            out += names.get(text[i + 1], text[i + 1])
            i += 2
        elif text[i] == "'":
            if text[i:i + 2] != "''":
                return None
            out += "'"
            i += 2
        else:
            out += text[i]
            i += 1
    return out


def read_literal(lit):
    import sqlglot
    if len(lit) < 2 or lit[0] != "'" or lit[-1] != "'":
        return None
    t = sqlglot.tokenize(lit, read="mysql")
    if len(t) != 1 or t[0].token_type.name != "STRING":
        return None
    return unescape(lit[1:-1])


@unit("C06", "packets._encode_param_as_sql",
      assumes=["str(float) is a number that SQL reads as the same float", "SQL string literals are read as MySQL's manual says (checked against SQLGlot on samples)"], internal=True)
def literal(v):
    """A value becomes a literal that denotes exactly the value"""
    m = v.mod("packets")
    k = v.choose(6, "kind")
    if k == 0:
        s = v.text("value")
        lit = m._encode_param_as_sql(s)
        v.check("a text becomes a string literal that denotes it", denotes(lit, s), lambda: repr((lit, s)))
    elif k == 1:
        n = v.int("value", -(1 << 63), (1 << 64) - 1)
        v.check("an integer becomes its digits", eq(m._encode_param_as_sql(n), sym.fmt_int(n) if symbolic() else str(n)))
    elif k == 2:
        b = bool(v.choose(2, "value"))
        v.check("a boolean becomes a boolean", m._encode_param_as_sql(b) in (("TRUE", "1") if b else ("FALSE", "0")))
    elif k == 3:
        v.check("NULL", m._encode_param_as_sql(None) == "NULL")
    elif symbolic():
        x = shadow.SFloat(z3.Int(v.fresh_name("float")))
        v.abstract = True
        finite = shadow.isfinite_(x)
        e = raises(lambda: v.state.update(lit=m._encode_param_as_sql(x)), v.mod("errors").MysqlError)
        v.check("an infinite float, and only that, is refused", Implies(Not(finite), e is not None) if e is None else Not(finite))
        if e is None:
            v.check("a float becomes its digits", eq(v.state["lit"], x._str()))
    else:
        import struct
        x = struct.unpack("<d", v.bytes("bits", length=8))[0]
        e = raises(lambda: v.state.update(lit=m._encode_param_as_sql(x)), v.mod("errors").MysqlError)
        if x != x or x in (float("inf"), float("-inf")):
            v.check("an infinite float is refused", e is not None)
        else:
            v.check("a float becomes its digits", e is None and float(v.state["lit"]) == x)


# --- replacement

POS = z3.Function("placeholder_at", I, I)


class Val:
    def __init__(self, i):
        self.i = i


def lit_of(i):
    return fam_text("literal", i)


def sticky(x):
    """Could this character become one token with a literal that follows or precedes it?"""
    t = term(x)
    alnum = z3.Or(z3.And(t >= 48, t <= 57), z3.And(t >= 65, t <= 90), z3.And(t >= 97, t <= 122))
    return sym.wrap(z3.Or(alnum, t > 127, *[t == ord(c) for c in "_$@.'\"`"]))


def _fill(c, it):
    st = c.state

    def havoc(c, L):
        out = empty_list(L, "parts")
        end = [k for k in L.changed if type(L._loc.get(k)) is int and L._loc[k] == 0]
        if len(end) != 1:
            raise Unsupported(f"which local is the end? {end}")
        st["it"], st["out"], st["end"] = it, out, end[0]
        st["first"] = not c.choose(2, "later?")
        if st["first"]:
            st["before"] = ""
            return {out: [], end[0]: 0}
        head, last = c.text("text_so_far"), c.text("literal_before")
        c.assume(length(last) > 0)
        acc = SAccum(cat(head, last), last=last)
        st["before"] = acc.total
        e = c.int("end", 0)
        st["e"] = e
        return {out: acc, end[0]: e}

    def inv(c, L):
        k = sym.wrap(term(it.k))
        sql = st["sql"]
        if "out" not in st:
            yield "nothing is written at first", True
            return
        end, out = getattr(L, st["end"]), getattr(L, st["out"])
        if not st.get("assumed"):
            st["assumed"] = True
            if st["first"]:
                yield "first", eq(k, 0)
            else:
                yield "later", And(k > 0, eq(end, sym.wrap(POS(term(k) - 1)) + 1))
            # positions are in order and within the text
            c.add(z3.Implies(term(k) < it.n(), z3.And(POS(term(k)) >= term(end), POS(term(k)) < sql._len_term())))
            c.add(term(end) <= sql._len_term())
            return
        pos = sym.wrap(POS(term(k) - 1))
        yield "the rest of the text begins after the placeholder", eq(end, pos + 1)
        total = out.total if isinstance(out, SAccum) else cat("", *out)
        old = 0 if st["first"] else st["e"]
        before, lit = part(sql, old, pos), lit_of(k - 1)
        yield "the literal is written, with the text before it", Or(*[
            eq(total, cat(st["before"], before, a, lit, b)) for a in ("", " ") for b in ("", " ")])
        # adjacent characters
        prev = cat(st["before"], before)
        lead, trail = z3.BoolVal(False), z3.BoolVal(False)
        if length(prev) > 0:
            p = SStr.of(prev)
            x = p._at(p._len_term() - 1)
            lead = term(Or(sticky(x), And(sym.wrap(x == 45), code(lit, 0) == 45)))
        if pos + 1 < length(sql):
            trail = term(sticky(sql._at(term(pos) + 1)))
        yield "the literal doesn't become part of the token before it", Or(Not(sym.wrap(lead)), *[
            eq(total, cat(st["before"], before, " ", lit, b)) for b in ("", " ")])
        yield "the literal doesn't become part of the token after it", Or(Not(sym.wrap(trail)), *[
            eq(total, cat(st["before"], before, a, lit, " ")) for a in ("", " ")])

    return Invariant(havoc, inv, lambda c, L: sym.wrap(it.n() - term(it.k)), heap=lambda c, L: [getattr(L, st["out"])])


@unit("C06", "packets._replace_params packets._is_token_char", loops={"_replace_params#0": _fill}, weight=4, budget=150, internal=True)
def replace_params(v):
    """Each placeholder is replaced by its literal, and nothing else changes but for blanks next to a literal; any number of them"""
    m = v.mod("packets")
    if not symbolic():
        return _concrete_replace(v, m)
    sql = SStr.of(v.text("sql", maxlen=3 if v.bounded else None))
    if v.bounded:
        raise Unsupported("no bounded check")
    n = v.int("n", 0)
    v.state["sql"] = sql

    def find(s):
        v.check("placeholders of the statement are looked for", eq(s, sql))
        return SList(term(n), lambda i: sym.wrap(POS(term(i))))

    def encode(x):
        v.check("a value of the statement is written", isinstance(x, Val))
        lit = lit_of(x.i)
        v.assume(length(lit) > 0)
        return lit

    v.patch(m, "find_params", find)
    v.patch(m, "_encode_param_as_sql", encode)
    v.abstract = True
    got = m._replace_params(sql, SList(term(n), Val))
    st = v.state
    v.check("every placeholder was replaced", eq(sym.wrap(term(st["it"].k)), n))
    v.check("the text after the last placeholder is kept", eq(got, cat(st["before"], part(sql, 0 if st["first"] else st["e"], None))))


def _concrete_replace(v, m):
    sql = v.given.pop("sql", None) or template(v)
    v.used["sql"] = sql
    n = len(ref_params(sql))
    values = [v.pick("value", ["", "a", "'", "\\", "?", "-1", 1, -1, 0, 1.5, -2.5, None, "\\'", "''", "é", "a'b"]) for _ in range(n)]
    got = m._replace_params(sql, values)
    v.check("the text with the literals in place of the placeholders", bound(sql, ref_params(sql), [m._encode_param_as_sql(x) for x in values], got),
            lambda: repr((sql, values, got)))


def bound(sql, positions, literals, got):
    i = end = 0
    plain = lambda ch: ch != "" and (ch > "\x7f" or ch.isalnum() or ch in "_$@.'\"`")
    for p, lit in zip(positions, literals):
        before = sql[end:p]
        if not got.startswith(before, i):
            return False
        i += len(before)
        prev = got[i - 1:i] if i else ""
        blank = got[i:i + 1] == " "
        if not blank and (plain(prev) or prev == "-" and lit[0] == "-"):
            return False
        i += blank
        if not got.startswith(lit, i):
            return False
        i += len(lit)
        end = p + 1
        if plain(sql[end:end + 1]) and got[i:i + 1] != " ":
            return False
        if got[i:i + 1] == " " and sql[end:end + 1] != " ":
            i += 1
        elif got[i:i + 2] == "  " and sql[end:end + 1] == " " and sql[end:end + 2] != "  ":
            i += 1
    return got[i:] == sql[end:]


# --- decoding

def attributes_on(v):
    """(capabilities, with query attributes?)"""
    C = v.mod("types").Capabilities
    caps = v.flags("capabilities", C)
    return caps, bool(cap(caps, C, "CLIENT_QUERY_ATTRIBUTES"))


@unit("C06 C17", "packets._read_param_type", internal=True)
def param_type(v):
    """The type, then the flags, of which the highest is the sign"""
    m, t = v.mod("packets"), v.mod("types").ColumnType
    typ = v.pick("type", list(t))
    fl = v.int("flags", 0, 255)
    after = v.bytes("after", maxlen=50)
    r = reader(cat(le(int(typ), 1), le(fl, 1), after))
    got = m._read_param_type(r)
    v.check("type and sign", And(eq(got[0], typ), eq(bool(got[1]), bool(fl >= 128))))
    v.check("two bytes are read", eq(rest(r), after))


WIDTH = {"TINY": 1, "SHORT": 2, "YEAR": 2, "LONG": 4, "INT24": 4, "LONGLONG": 8}
STRINGS = ["VARCHAR", "VAR_STRING", "STRING", "BLOB", "TINY_BLOB", "MEDIUM_BLOB", "LONG_BLOB"]


@unit("C06 C15 C17", "packets._read_param_value", weight=2, internal=True)
def param_value(v):
    """The value that the client encoded, with its type's width and sign; exactly its bytes are consumed"""
    abstract_lengths(v)
    m, t = v.mod("packets"), v.mod("types").ColumnType
    cs, after = v.charset("client"), v.bytes("after", maxlen=50)
    typ = v.pick("type", list(t))
    unsigned = bool(v.choose(2, "unsigned?"))
    name = typ.name
    read = lambda data: (lambda r: (m._read_param_value(cs, r, typ, unsigned), rest(r)))(reader(cat(data, after)))
    if name in WIDTH:
        w = WIDTH[name]
        n = v.int("value", 0 if unsigned else -(1 << (8 * w - 1)), (1 << (8 * w)) - 1 if unsigned else (1 << (8 * w - 1)) - 1)
        got, left = read(le(n, w) if unsigned else les(n, w))
        v.check("an integer of the type's width and sign", eq(got, n))
    elif name == "BOOL":
        n = v.int("value", 0, 255)
        got, left = read(le(n, 1))
        v.check("a boolean", eq(got, n))
    elif name in STRINGS:
        s = v.text("value")
        got, left = read(lenstr(enc(v, cs, s)))
        v.check("a text in the client's character set", eq(got, s))
    elif name in ("FLOAT", "DOUBLE"):
        w = 4 if name == "FLOAT" else 8
        if symbolic():
            b = v.int("bits", 0, (1 << (8 * w)) - 1)
            got, left = read(le(b, w))
            f = shadow.F32_VAL if w == 4 else shadow.F64_VAL
            v.check("the float that has these bits", isinstance(got, shadow.SFloat) and eq(sym.wrap(got._z3), sym.wrap(f(term(b)))))
        else:
            import struct
            b = le(v.int("bits", 0, (1 << (8 * w)) - 1), w)
            x = struct.unpack("<f" if w == 4 else "<d", b)[0]
            got, left = read(b)
            v.check("the float that has these bits", got == x or got != got and x != x)
    elif name == "NULL":
        got, left = read(b"")
        v.check("NULL", got is None)
    else:
        v.check("other types are refused", raises(lambda: read(b"\0" * 20), v.mod("errors").MysqlError) is not None)
        return
    v.check("exactly the value is read", eq(left, after))


class GhostBits:
    """Contract of NullBitmap.from_buffer (c_results.null_bitmap)"""

    def __init__(self, v):
        self.v = v

    def from_buffer(self, r, num_bits, offset=0):
        v = self.v
        v.check("the bitmap of parameters has no offset and a bit per parameter", And(eq(offset, 0), eq(num_bits, v.state["n"])))
        v.check("the bitmap comes first", eq(rest(r), cat(v.state["bits"], v.state["data"])))
        r.read((num_bits + 7) // 8)
        return self

    def is_flipped(self, i):
        return fam_bool("null", i)


class Buffers(sym.Symbolic):
    """Long data that was sent, by parameter"""

    def __init__(self, v):
        self.v = v

    def __bool__(self):
        return True

    def _contains(self, i):
        return fam_bool("buffered", i)

    def get(self, i, default=None):
        return self[i] if fam_bool("buffered", i) else default

    def __getitem__(self, i):
        b = sym.SByteArray(enc(self.v, self.v.state["cs"], fam_text("buffer", i)))
        if not fam_bool("buffered", i):
            raise KeyError(i)
        return b


def type_at(v, i):
    t = v.mod("types").ColumnType
    x = fam_int("ptype", i)
    return sym.SEnum(t, term(x))


def is_type(v, x):
    t = v.mod("types").ColumnType
    return Or(*[x == int(y) for y in t])


def pname(v, i):
    return fam_text("pname", i) if v.state["named"] else ""


def _types_loop(c, it):
    st = c.state
    r = st["r"]

    def havoc(c, L):
        st["types"] = empty_list(L, "param_types")
        k = st["k"] = c.int("k", 0)
        st["more"] = bool(c.choose(2, "more?"))
        if st["more"]:
            c.assume(is_type(c, fam_int("ptype", k)))
            item = cat(le(fam_int("ptype", k), 1), le(fam_int("pflags", k, 0, 255), 1))
            if st["named"]:
                item = cat(item, lenstr(enc(c, st["cs"], fam_text("pname", k))))
            st["next"] = cat(c.bytes("types_after"), st["values"])
            r.data = sym.SBytes.of(cat(item, st["next"]))
        else:
            r.data = sym.SBytes.of(st["values"])
        r.pos = 0
        st["tl"] = SList(term(k), lambda i: (pname(c, i), type_at(c, i), fam_int("pflags", i, 0, 255) >= 128))
        return {st["types"]: st["tl"]}

    def inv(c, L):
        if "k" not in st:
            return
        tl = st["tl"]
        if not tl.tail and "seen" not in st:
            st["seen"] = True
            yield "more", And(eq(sym.wrap(term(it.k)), st["k"]), st["more"] == (st["k"] < st["n"]) if st["more"] else st["k"] >= st["n"])
            return
        ok = len(tl.tail) == 1 and type(tl.tail[0]) is tuple and len(tl.tail[0]) == 3 and getattr(L, st["types"]) is tl
        yield "a name, type and sign is noted", ok
        if ok:
            a, b, s = tl.tail[0]
            k = st["k"]
            yield "the name, type and sign are the client's", And(eq(a, pname(c, k)), eq(b, type_at(c, k)), eq(bool(s), bool(fam_int("pflags", k) >= 128)))
        yield "exactly the item is read", st["more"] and eq(rest(r), st["next"])

    return Invariant(havoc, inv, lambda c, L: sym.wrap(it.n() - term(it.k)), heap=lambda c, L: [r, getattr(L, st["types"]), getattr(L, st["types"]).tail])


class ValueOf:
    """What _read_param_value gives for a parameter"""

    def __init__(self, i):
        self.i = i


def value_of(v, i):
    if fam_bool("null", i):
        return None
    if v.state["buffers"] == "some" and fam_bool("buffered", i):
        return fam_text("buffer", i)
    return ValueOf(i)


def same_value(a, b):
    if isinstance(a, ValueOf) or isinstance(b, ValueOf):
        return isinstance(a, ValueOf) and isinstance(b, ValueOf) and eq(a.i, b.i)
    return eq(a, b)


def _values_loop(c, it):
    st = c.state
    r = st["r"]

    def havoc(c, L):
        st["params"] = empty_list(L, "params")
        k = st["vk"] = c.int("k", 0)
        st["vnext"] = c.bytes("values_after") if c.choose(2, "more values?") else st["after"]
        if st["vnext"] is not st["after"]:
            st["vnext"] = cat(st["vnext"], st["after"])
        r.pos = 0
        own = isinstance(value_of(c, k), ValueOf)
        st["own"] = own
        st["vmore"] = bool(c.choose(2, "more?"))
        if st["vmore"]:
            r.data = sym.SBytes.of(cat(fam_bytes("pvalue", k), st["vnext"]) if own else st["vnext"])
        else:
            r.data = sym.SBytes.of(st["after"])
        st["pl"] = SList(term(k), lambda i: (pname(c, i), value_of(c, i)))
        return {st["params"]: st["pl"]}

    def inv(c, L):
        if "vk" not in st:
            return
        pl = st["pl"]
        if not pl.tail and "vseen" not in st:
            st["vseen"] = True
            yield "more", And(eq(sym.wrap(term(it.k)), st["vk"]), (st["vk"] < st["n"]) if st["vmore"] else st["vk"] >= st["n"])
            return
        ok = len(pl.tail) == 1 and type(pl.tail[0]) is tuple and len(pl.tail[0]) == 2 and getattr(L, st["params"]) is pl
        yield "a name and value is noted", ok
        if ok:
            a, b = pl.tail[0]
            yield "the name and value are the client's", And(eq(a, pname(c, st["vk"])), same_value(b, value_of(c, st["vk"])))
        yield "exactly the value is read, unless it is NULL or was sent before", st["vmore"] and eq(rest(r), st["vnext"])

    return Invariant(havoc, inv, lambda c, L: sym.wrap(it.n() - term(it.k)), heap=lambda c, L: [r, getattr(L, st["params"]), getattr(L, st["params"]).tail])


@unit("C06 C17 C15", "packets._read_params", loops={"_read_params#0": _types_loop, "_read_params#1": _values_loop}, weight=4, budget=150, internal=True)
def read_params(v):
    """The i-th parameter has the i-th name and value: NULL, long data that was sent before, or the next value in the packet"""
    m = v.mod("packets")
    if not symbolic():
        return _concrete_params(v, m)
    if v.bounded:
        raise Unsupported("no bounded check")
    abstract_lengths(v)
    caps, named = attributes_on(v)
    n = v.int("n", 1, 65535)
    cs = v.charset("client")
    buffers = v.pick("buffers", ["none", "empty", "some"])
    bits = v.bytes("bits", length=(n + 7) // 8)
    values, after = v.bytes("values"), v.bytes("after", maxlen=50)
    values = cat(values, after)
    types = v.bytes("types")
    data = cat(b"\1", types, values)
    r = reader(cat(bits, data))
    v.abstract = True
    v.state.update(n=n, cs=cs, named=named, bits=bits, data=data, values=values, after=after, r=r, buffers=buffers)
    v.patch(m, "NullBitmap", GhostBits(v))

    def value(client_charset, rd, typ, unsigned):
        k = v.state["vk"]
        v.check("a value is decoded in the client's character set, with its type and sign", And(
            client_charset is cs, rd is r, eq(typ, type_at(v, k)), eq(bool(unsigned), bool(fam_int("pflags", k, 0, 255) >= 128))))
        v.check("only values that aren't NULL and weren't sent before are in the packet", v.state["own"])
        b = fam_bytes("pvalue", k)
        v.check("the next value is read", eq(part(rest(r), 0, length(b)), b))
        rd.read(length(b))
        return ValueOf(k)

    v.patch(m, "_read_param_value", value)
    got = m._read_params(caps, cs, r, n, {"none": None, "empty": {}, "some": Buffers(v)}[buffers])
    v.check("all of the parameters are read", And(got is v.state["pl"], eq(v.state["vk"], n)))
    v.check("what follows is left", eq(rest(r), after))


def _concrete_params(v, m):
    C = v.mod("types").Capabilities
    t = v.mod("types").ColumnType
    named = bool(v.choose(2, "named?"))
    cs = v.charset("client")
    n = v.int("n", 1, 20)
    types, values, want, buffers, bits = b"", b"", [], {}, 0
    for i in range(n):
        name = enc(v, cs, v.text("name", maxlen=300))
        kind = v.choose(5, "kind")
        x = v.int("value", -128, 127)
        s = enc(v, cs, v.text("text", maxlen=300))
        types += (b"\x01\x80" if kind == 3 else b"\x01\0") if kind in (2, 3) else b"\xfd\0"
        if named:
            types += lenstr(name)
        if kind == 0:
            bits |= 1 << i
            value = None
        elif kind == 1:
            buffers[i] = bytearray(s)
            value = cs.decode(s)
        elif kind == 2:
            values += les(x, 1)
            value = x
        elif kind == 3:
            values += bytes([x % 256])
            value = x % 256
        else:
            values += lenstr(s)
            value = cs.decode(s)
        want.append((cs.decode(name) if named else "", value))
    r = reader(bits.to_bytes((n + 7) // 8, "little") + b"\1" + types + values + b"after")
    got = list(m._read_params(C.CLIENT_QUERY_ATTRIBUTES if named else C(0), cs, r, n, buffers))
    v.check("all of the parameters are read", [tuple(x) for x in got] == want, lambda: repr((got, want)))
    v.check("what follows is left", rest(r) == b"after")


@unit("C06 C17", "packets._read_params", internal=True)
def read_no_params(v):
    """Without parameters there is nothing to read"""
    m = v.mod("packets")
    caps, _ = attributes_on(v)
    after = v.bytes("after", maxlen=50)
    r = reader(after)
    v.check("no parameters", And(length(m._read_params(caps, v.charset("client"), r, 0)) == 0, eq(rest(r), after)))


def attribute(v, i):
    """Contract of _read_params for callers: name and value of the i-th"""
    return (fam_text("pname", i), ValueOf(i))


def read_params_stub(v, m, caps, cs, r, block, count, buffers):
    """_read_params by its contract (read_params, read_no_params)"""
    def read(capabilities, client_charset, rd, parameter_count, buffers_=None):
        v.check("parameters are read with the connection's capabilities and character set", And(capabilities is caps, client_charset is cs, rd is r()))
        v.check("as many as there are", eq(parameter_count, count))
        v.check("long data is that of the statement", buffers_ is buffers)
        v.check("parameters are read where they are", eq(part(rest(rd), 0, length(block)), block))
        v.state["read"] = v.state.get("read", 0) + 1
        rd.read(length(block))
        return SList(term(count), lambda i: attribute(v, i))
    v.patch(m, "_read_params", read)


def comp_is(v, x, lo, n):
    """A comprehension of the attributes lo..n"""
    if isinstance(x, dict) and not x:
        return eq(lo, n)
    if not isinstance(x, shadow.SComp) or x.kind != "DictComp":
        return False
    i = v.int("i", 0)
    v.assume(i < n - lo)
    (k, val), cond = x.at(i)
    a, b = attribute(v, i + lo)
    return And(eq(x.n(), n - lo), cond is True, eq(k, a), same_value(val, b))


@unit("C17 C15 C01", "packets.parse_com_query", weight=2)
def query_with_attributes(v):
    """The attributes come first, the rest of the packet is the SQL text"""
    abstract_lengths(v)
    m = v.mod("packets")
    cs = v.charset("client")
    sql = v.text("sql")
    if not symbolic():
        C = v.mod("types").Capabilities
        n = v.int("count", 0, 10)
        kv = [(v.text("name", maxlen=20) + str(i), v.text("value", maxlen=300)) for i in range(n)]
        block = b""
        if n:
            block = bytes((n + 7) // 8) + b"\1" + b"".join(b"\xfd\0" + lenstr(enc(v, cs, k)) for k, _ in kv) + b"".join(lenstr(enc(v, cs, x)) for _, x in kv)
        r = m.parse_com_query(C.CLIENT_QUERY_ATTRIBUTES, cs, lenenc(n) + b"\1" + block + enc(v, cs, sql))
        v.check("the SQL text and the attributes are the client's", r.sql == sql and r.query_attrs == dict(kv))
        return
    caps, named = attributes_on(v)
    v.assume(named)
    count = v.int("count", 0, 65535)
    block = v.bytes("block")
    v.assume(Implies(count == 0, length(block) == 0))
    box = []
    data = cat(lenenc(count), lenenc(v.int("sets", 0, 1)), block, enc(v, cs, sql))

    class AnyReader:
        def __eq__(self, o):
            return True
    real = shadow.BytesIO_._make
    v.patch(shadow.BytesIO_, "_make", staticmethod(lambda x=b"": box.append(real(x)) or box[-1]))
    read_params_stub(v, m, caps, cs, lambda: box[0], block, count, None)
    r = m.parse_com_query(caps, cs, data)
    v.check("the SQL text is the client's", eq(r.sql, sql))
    v.check("the attributes are the client's", comp_is(v, r.query_attrs, 0, count))


@unit("C06 C17", "packets._interpolate_params", weight=2, internal=True)
def interpolate(v):
    """The first parameters are bound, in order; what is left are query attributes"""
    abstract_lengths(v)
    m, e = v.mod("packets"), v.mod("errors")
    if not symbolic():
        return _concrete_execute(v, m)
    caps, named = attributes_on(v)
    cs = v.charset("client")
    n = v.int("num_params", 0, 65535)
    avail = bool(v.choose(2, "count available?"))
    sql, bound_ = v.text("sql"), v.text("bound")
    buffers = v.pick("buffers", [None, {}])
    stmt = v.mod("prepared").PreparedStatement(stmt_id=1, sql=sql, num_params=n, param_buffers=buffers)
    block, after = v.bytes("block"), v.bytes("after", maxlen=10)
    sends_count = named and (n > 0 or avail)
    count = v.int("count", 0, 65535) if sends_count else n
    v.assume(Implies(eq(count, 0), length(block) == 0))
    r = reader(cat(lenenc(count) if sends_count else b"", block, after))
    read_params_stub(v, m, caps, cs, lambda: r, block, count, buffers)

    def replace(s, values):
        v.check("the statement's text is filled in", eq(s, sql))
        i = v.int("j", 0)
        if isinstance(values, (SList, list)) and n > 0:
            v.check("with as many values as it has placeholders", eq(length(values), n))
            v.assume(i < n)
            v.check("the i-th value is the i-th parameter", same_value(values[i], ValueOf(i)))
        else:
            v.check("with as many values as it has placeholders", eq(length(values), n))
        return bound_ if n > 0 else sql

    v.patch(m, "_replace_params", replace)
    err = raises(lambda: v.state.update(got=m._interpolate_params(caps, cs, r, stmt, avail)), e.MysqlError)
    if count < n:
        v.check("too few parameters are an error", err is not None)
        return
    v.check("enough parameters are no error", err is None)
    text, attrs = v.state["got"]
    v.check("the text is the statement's with its parameters bound", eq(text, bound_ if n > 0 else sql))
    v.check("the attributes are what follows the parameters", comp_is(v, attrs, n, count))
    v.check("the statement is unchanged", And(stmt.sql is sql, stmt.num_params is n, stmt.param_buffers is buffers))


def _concrete_execute(v, m):
    C = v.mod("types").Capabilities
    cs = v.charset("client")
    named = bool(v.choose(2, "named?"))
    n, extra = v.int("num_params", 0, 6), v.int("attributes", 0, 3) if named else 0
    avail = bool(extra) or bool(v.choose(2, "count available?"))
    sql = " , ".join(["SELECT 1"] + ["?"] * n)
    kv = [("" if i < n else f"k{i}", v.text("value", maxlen=300)) for i in range(n + extra)]
    total = n + extra
    data = b""
    if named and (n or avail):
        data += lenenc(total)
    if total:
        data += bytes((total + 7) // 8) + b"\1"
        data += b"".join(b"\xfd\0" + (lenstr(k.encode()) if named else b"") for k, _ in kv) + b"".join(lenstr(enc(v, cs, x)) for _, x in kv)
    stmt = v.mod("prepared").PreparedStatement(stmt_id=1, sql=sql, num_params=n)
    text, attrs = m._interpolate_params(C.CLIENT_QUERY_ATTRIBUTES if named else C(0), cs, reader(data), stmt, avail)
    v.check("the text is the statement's with its parameters bound",
            text == " , ".join(["SELECT 1"] + [m._encode_param_as_sql(x) for _, x in kv[:n]]), lambda: repr((text, kv)))
    v.check("the attributes are what follows the parameters", attrs == dict(kv[n:]))


@unit("C06 C11 C17", "packets.parse_com_stmt_execute packets._read_cursor_flags")
def execute(v):
    """The statement the packet names is executed, with a cursor iff the client asked for a read-only one"""
    m = v.mod("packets")
    C = v.mod("types").Capabilities
    caps, cs = v.flags("capabilities", C), v.charset("client")
    sid, fl = v.int("stmt_id", 0, 2 ** 32 - 1), v.int("flags", 0, 15)
    more = v.bytes("more")
    if not symbolic():
        v.patch(m, "_interpolate_params", lambda c, h, r, s, a: (("text", rest(r), a), {"k": "v"}))
    else:
        v.patch(m, "_interpolate_params", lambda c, h, r, s, a: (("text", rest(r), a), {"k": "v"}) if And(c is caps, h is cs, s is stmt) else None)
    stmt = v.mod("prepared").PreparedStatement(stmt_id=1, sql="x", num_params=0)
    asked = []
    r = m.parse_com_stmt_execute(caps, cs, cat(le(sid, 4), le(fl, 1), b"\1\0\0\0", more), lambda i: asked.append(i) or stmt)
    v.check("the statement is the one the packet names", And(len(asked) == 1, eq(asked[0], sid), r.stmt is stmt))
    v.check("a cursor is used iff the client asked for one", eq(bool(r.use_cursor), bool(fl % 2 == 1)))
    v.check("parameters are what follows, with their count if the client says so", And(
        r.sql[0] == "text", eq(r.sql[1], more), eq(bool(r.sql[2]), bool(fl >= 8))))
    v.check("the attributes are those of the packet", r.query_attrs == {"k": "v"})
