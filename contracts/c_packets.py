"""packets.py: what the server's packets consist of, and that the parsers get back what a client put in.

The layouts are written here again from the protocol documentation (payloads only; framing is c_stream)."""
import z3

from contracts.common import (FakeCollation, abstract_lengths, appending, cap, collation, empty_list, enc, fam_bool, fam_bytes, fam_int, fam_text)
from dv import sym
from dv.core import Skip, term, unit
from dv.shadow import Invariant
from dv.spec import And, Implies, Not, Or, cat, eq, ite, le, length, lenenc, lenstr, nulstr, part, raises, reader, rest, symbolic, zeros
from dv.sym import SAccum, SList


def caps_of(v, name="capabilities"):
    return v.flags(name, v.mod("types").Capabilities)


def status_of(v, name="status"):
    return v.flags(name, v.mod("types").ServerStatus, 16)


def has(v, caps, name):
    return cap(caps, v.mod("types").Capabilities, name)


# --- OK, EOF, ERR

@unit("C03", "packets.make_ok")
def ok_packet(v):
    m = v.mod("packets")
    caps, st = caps_of(v), status_of(v)
    eof = v.pick("eof", [False, True])
    rows, last = v.int("affected_rows", 0, 2 ** 64 - 1), v.int("last_insert_id", 0, 2 ** 64 - 1)
    warn = v.int("warnings", 0, 65535)
    fl = v.flags("flags", v.mod("types").ServerStatus, 16)
    got = m.make_ok(capabilities=caps, status_flags=st, eof=eof, affected_rows=rows, last_insert_id=last, warnings=warn, flags=fl)
    want = cat(b"\xfe" if eof else b"\0", lenenc(rows), lenenc(last))
    if has(v, caps, "CLIENT_PROTOCOL_41"):
        want = cat(want, le(st | fl, 2), le(warn, 2))
    elif has(v, caps, "CLIENT_TRANSACTIONS"):
        want = cat(want, le(st | fl, 2))
    v.check("an OK packet has the documented layout", eq(got, want))


@unit("C03", "packets.make_ok")
def ok_packet_defaults(v):
    """An OK that isn't told otherwise reports no rows, no id and no warnings"""
    m = v.mod("packets")
    caps, st = caps_of(v), status_of(v)
    got = m.make_ok(capabilities=caps, status_flags=st)
    want = b"\0\0\0"
    if has(v, caps, "CLIENT_PROTOCOL_41"):
        want = cat(want, le(st, 2), b"\0\0")
    elif has(v, caps, "CLIENT_TRANSACTIONS"):
        want = cat(want, le(st, 2))
    v.check("a plain OK packet has the documented layout", eq(got, want))


@unit("C03 C11", "packets.make_eof")
def eof_packet(v):
    m = v.mod("packets")
    caps, st = caps_of(v), status_of(v)
    warn = v.int("warnings", 0, 65535)
    fl = v.flags("flags", v.mod("types").ServerStatus, 16)
    got = m.make_eof(capabilities=caps, status_flags=st, warnings=warn, flags=fl)
    want = cat(b"\xfe", le(warn, 2), le(st | fl, 2)) if has(v, caps, "CLIENT_PROTOCOL_41") else b"\xfe"
    v.check("an EOF packet has the documented layout", eq(got, want))
    v.check("a client can tell an EOF packet by its length", length(got) < 9)


class Message:
    """Any object an error is reported with"""

    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text

    def _str(self):
        return self.text


@unit("C03 C15", "packets.make_error errors.get_sqlstate",
      assumes=["str() of an exception gives a text; errors='replace' encodes representable text as 'strict' does (CPython)"])
def error_packet(v):
    m, e = v.mod("packets"), v.mod("errors")
    caps, cs = caps_of(v), v.charset("charset")
    text = v.text("message")
    given = v.choose(2, "own code?")
    code = v.pick("code", list(e.ErrorCode)) if not given else v.int("number", 0, 65535)
    if given and symbolic():
        for c in e.ErrorCode:
            v.assume(Not(eq(code, int(c))))
    elif given and code in [int(c) for c in e.ErrorCode]:
        raise Skip()
    got = m.make_error(capabilities=caps, server_charset=cs, msg=text, code=code)
    want = cat(b"\xff", le(int(code) if not given else code, 2))
    if has(v, caps, "CLIENT_PROTOCOL_41"):
        want = cat(want, b"#", STATES.get(int(code), b"HY000") if not given else b"HY000")
    want = cat(want, enc(v, cs, text))
    v.check("an ERR packet has the documented layout, with the code, its SQL state and the message in the character set", eq(got, want))


# https://dev.mysql.com/doc/mysql-errors/8.0/en/server-error-reference.html
STATES = {1040: b"08004", 1045: b"28000", 1043: b"08S01", 1046: b"3D000", 1064: b"42000", 1065: b"42000", 1106: b"42000", 1115: b"42000",
          1047: b"08S01", 1231: b"42000", 1235: b"42000"}


# --- connection phase

def halves(caps):
    """Two bytes each"""
    if symbolic():
        return [le(sym.SFlags(caps.cls, caps.bits[i:i + 16] + [z3.BoolVal(False)] * 16), 2) for i in (0, 16)]
    return [le(int(caps) % 65536, 2), le(int(caps) // 65536, 2)]


@unit("C02 C03 C18", "packets.make_handshake_v10",
      assumes=["the server's version and plugin name contain no NUL"])
def handshake(v):
    """The nonce is split 8 + 12 + NUL; a client puts it together again"""
    m = v.mod("packets")
    caps, st, cs = caps_of(v), status_of(v), v.charset("charset")
    version, plugin = v.text("version", nonul=True), v.text("plugin", nonul=True)
    cid = v.int("connection_id", 0, 2 ** 32 - 1)
    nonce = v.bytes("nonce", length=20, nonul=True)
    data = cat(nonce, b"\0")
    got = m.make_handshake_v10(capabilities=caps, server_charset=cs, server_version=version, connection_id=cid, auth_data=data,
                               status_flags=st, auth_plugin_name=plugin)
    low, high = halves(caps)
    pa = has(v, caps, "CLIENT_PLUGIN_AUTH")
    num = cs.cid if symbolic() else int(cs)
    want = cat(b"\x0a", nulstr(enc(v, cs, version)), le(cid, 4), part(nonce, 0, 8), b"\0", low, le(sym.wrap(num), 1),
               le(st, 2), high, b"\x15" if pa else b"\0", zeros(10), part(nonce, 8, 20), b"\0")
    if pa:
        want = cat(want, nulstr(enc(v, cs, plugin)))
    v.check("the handshake has the documented layout, with the connection's id and nonce", eq(got, want))


@unit("C02 C03", "packets.make_auth_more_data packets.make_auth_switch_request")
def auth_packets(v):
    m = v.mod("packets")
    cs, data = v.charset("charset"), v.bytes("data")
    plugin = v.text("plugin", nonul=True)
    v.check("AuthMoreData has the documented layout", eq(m.make_auth_more_data(data), cat(b"\1", data)))
    v.check("AuthSwitchRequest has the documented layout",
            eq(m.make_auth_switch_request(cs, plugin, data), cat(b"\xfe", nulstr(enc(v, cs, plugin)), data)))


# --- result sets

@unit("C03 C05", "packets.make_column_count")
def column_count(v):
    m = v.mod("packets")
    caps = caps_of(v)
    n = v.int("count", 0, 2 ** 64 - 1)
    got = m.make_column_count(caps, n)
    want = cat(b"\1" if has(v, caps, "CLIENT_OPTIONAL_RESULTSET_METADATA") else b"", lenenc(n))
    v.check("the column count packet has the documented layout", eq(got, want))


def opt_text(v, name):
    return v.text(name, maxlen=1 << 20) if v.choose(2, name + "?") else None


@unit("C03 C05 C15 C16", "packets.make_column_definition_41", budget=200, weight=3)
def column_definition(v):
    """Names are in the results character set; the number is the column's character set"""
    abstract_lengths(v)
    m, t = v.mod("packets"), v.mod("types")
    cs, ccs = v.charset("results"), v.charset("column")
    name = v.text("name", maxlen=1 << 20)
    kw = {}
    which = v.choose(3, "which")
    schema = table = org_table = org_name = None
    if which == 1:
        schema, table = opt_text(v, "schema"), opt_text(v, "table")
        kw = {"schema": schema, "table": table}
    elif which == 2:
        org_table, org_name = opt_text(v, "org_table"), opt_text(v, "org_name")
        kw = {"org_table": org_table, "org_name": org_name}
    typ = v.pick("type", list(t.ColumnType)) if which == 0 else t.ColumnType.VARCHAR
    fl = v.flags("flags", t.ColumnDefinition, 16)
    clen, dec = v.int("column_length", 0, 2 ** 32 - 1), v.int("decimals", 0, 255)
    got = m.make_column_definition_41(server_charset=cs, name=name, character_set=ccs, column_type=typ, flags=fl, column_length=clen,
                                      decimals=dec, **kw)
    empty = lambda s: s is None or length(s) == 0
    s = "" if empty(schema) else schema
    tb = "" if empty(table) else table
    ot = tb if empty(org_table) else org_table
    on = name if empty(org_name) else org_name
    num = sym.wrap(ccs.cid) if symbolic() else int(ccs)
    want = cat(*[lenstr(x) for x in (b"def", enc(v, cs, s), enc(v, cs, tb), enc(v, cs, ot), enc(v, cs, name), enc(v, cs, on))],
               b"\x0c", le(num, 2), le(clen, 4), le(int(typ), 1), le(fl, 2), le(dec, 1), b"\0\0")
    v.check("a column definition has the documented layout", eq(got, want))


@unit("C03 C16", "packets.make_column_definition_41")
def column_definition_default(v):
    """COM_FIELD_LIST adds the column's default"""
    abstract_lengths(v)
    m = v.mod("packets")
    cs = v.charset("results")
    name = v.text("name", maxlen=200)
    default = opt_text(v, "default")
    plain = m.make_column_definition_41(server_charset=cs, name=name)
    got = m.make_column_definition_41(server_charset=cs, name=name, is_com_field_list=True, default=default)
    v.check("the default is appended, NULL as an empty string", eq(got, cat(plain, b"\0" if default is None else lenstr(enc(v, cs, default)))))


class Cell:
    """The value of the row's i-th cell"""

    def __init__(self, i):
        self.i = i


class Column:
    """Contract of ResultColumn: a value that isn't None is encoded by the column (c_results)"""

    def __init__(self, v, i):
        self.v, self.i = v, i

    def _enc(self, value):
        self.v.check("a value is encoded by its own column", isinstance(value, Cell) and eq(value.i, self.i))
        return cell_of(self.i)

    text_encode = binary_encode = _enc

    def text_encoder(self, col, value):
        return self._enc(value)

    binary_encoder = text_encoder


def cell_of(i):
    return fam_bytes("cell", i)


def row_of(v):
    """(row, columns, n, null(i), bytes(i)) for a row of any length"""
    if symbolic():
        n = v.int("n", 0, 3 if v.bounded else 65535)
        row = SList(term(n), lambda i: None if fam_bool("null", i) else Cell(i))
        cols = SList(term(n), lambda i: Column(v, i))
        return row, cols, n
    n = v.int("n", 0, 40)
    cells = [None if v.choose(3, "null") == 0 else v.bytes("cell", maxlen=300) for _ in range(n)]

    class Col:
        type, name, character_set = 15, "c", None

        def __init__(self, b):
            self.b = b

        def text_encode(self, value):
            return self.b

        binary_encode = text_encode

    v.state["cells"] = cells
    shared = object() if v.choose(2, "one value in many columns") else None  # each has its own encoding
    return [None if c is None else shared or object() for c in cells], [Col(c) for c in cells], n


def _text_cell(c, L, k):
    return cat(b"\xfb") if fam_bool("null", k) else lenstr(cell_of(k))


@unit("C03 C05", "packets.make_text_resultset_row", loops={"make_text_resultset_row#0": appending("cell", _text_cell, ["parts"])})
def text_row(v):
    """For a row of any length: NULL is 0xFB, everything else is its text with its length; by induction the cells in order"""
    abstract_lengths(v)
    m = v.mod("packets")
    row, cols, n = row_of(v)
    got = m.make_text_resultset_row(row, cols)
    if symbolic() and not v.bounded:
        v.check("every cell was visited", eq(sym.wrap(term(v.state["it:cell"].k)), n))
        v.check("the row is its cells", eq(got, v.state["acc:cell"][1]))
        return
    want = b""
    if symbolic():
        k = 0
        while n > k:
            want = cat(want, _text_cell(v, None, k))
            k += 1
    else:
        for c in v.state["cells"]:
            want = cat(want, b"\xfb" if c is None else lenstr(c))
    v.check("the row is its cells", eq(got, want))


class GhostBitmap:
    """Contract of NullBitmap (c_results.null_bitmap): a set of positions"""
    v = None

    def __init__(self, n):
        self.n = n
        self.flips = []

    @classmethod
    def new(cls, num_bits, offset=0):
        v = cls.v
        v.check("the bitmap of a row has the offset of binary rows", eq(offset, 2))
        v.check("the bitmap has a bit per column", eq(num_bits, v.state["n"]))
        b = v.state["bitmap"] = cls(num_bits)
        return b

    def flip(self, i):
        self.flips.append(i)

    def __bytes__(self):
        return self._bytes()

    def _bytes(self):
        return self.v.state["bits"]


def _binary_loop(c, it):
    st = c.state

    def havoc(c, L):
        name = empty_list(L, "values", "parts")
        a = SAccum(c.bytes("values_so_far"))
        st["acc"] = (name, a.total)
        st["it"] = it
        st["bitmap"].flips = []
        return {name: a}

    def inv(c, L):
        if "acc" not in st:
            yield "no bit is set at first", not st["bitmap"].flips
            return
        name, before = st["acc"]
        acc, fl = getattr(L, name), st["bitmap"].flips
        if acc.total is before and not fl:
            if not st.get("cut"):
                st["cut"] = True
                return
        k = it.k - 1
        null = fam_bool("null", k)
        yield "NULL and only NULL is in the bitmap", And(Implies(null, len(fl) == 1 and eq(fl[0], k)), Implies(Not(null), len(fl) == 0))
        yield "NULL and only NULL has no value", eq(acc.total, before if null else cat(before, cell_of(k)))

    return Invariant(havoc, inv, lambda c, L: sym.wrap(it.n() - term(it.k)), heap=lambda c, L: [st["bitmap"], st["bitmap"].flips, getattr(L, st["acc"][0])])


@unit("C03 C05 C11", "packets.make_binary_resultrow", loops={"make_binary_resultrow#0": _binary_loop})
def binary_row(v):
    """For a row of any length: the NULL bitmap, then the values that aren't NULL in order"""
    m = v.mod("packets")
    row, cols, n = row_of(v)
    if symbolic():
        v.state["n"] = n
        GhostBitmap.v = v
        v.state["bits"] = v.bytes("bits", length=(n + 9) // 8)
        v.patch(m, "NullBitmap", GhostBitmap)
    got = m.make_binary_resultrow(row, cols)
    if not symbolic():
        cells = v.state["cells"]
        bits = sum(1 << (i + 2) for i, c in enumerate(cells) if c is None)
        v.check("the row is the header, the bitmap and the values", eq(got, b"\0" + bits.to_bytes((n + 9) // 8, "little") + b"".join(c for c in cells if c is not None)))
        return
    if v.bounded:
        want, fl, k = b"", [], 0
        while n > k:
            if fam_bool("null", k):
                fl.append(k)
            else:
                want = cat(want, cell_of(k))
            k += 1
        v.check("NULL and only NULL is in the bitmap", v.state["bitmap"].flips == fl)
        v.check("the row is the header, the bitmap and the values", eq(got, cat(b"\0", v.state["bits"], want)))
        return
    v.check("every cell was visited", eq(sym.wrap(term(v.state["it"].k)), n))
    v.check("the row is the header, the bitmap and the values", eq(got, cat(b"\0", v.state["bits"], v.state["acc"][1])))


@unit("C03 C06", "packets.make_com_stmt_prepare_ok")
def prepare_ok(v):
    m = v.mod("packets")
    sid, np = v.int("stmt_id", 0, 2 ** 32 - 1), v.int("num_params", 0, 65535)
    st = v.mod("prepared").PreparedStatement(stmt_id=sid, sql="", num_params=np)
    v.check("prepare-OK has the documented layout, without columns and with the number of parameters",
            eq(m.make_com_stmt_prepare_ok(st), cat(b"\0", le(sid, 4), b"\0\0", le(np, 2), b"\0\0\0")))


# --- what the client sends

@unit("C06 C11 C15 C13 C16", "packets.parse_com_stmt_send_long_data packets.parse_handle_stmt_fetch packets.parse_com_stmt_reset "
      "packets.parse_com_stmt_close packets.parse_com_init_db packets.parse_com_field_list")
def simple_commands(v):
    m = v.mod("packets")
    sid = v.int("stmt_id", 0, 2 ** 32 - 1)
    k = v.choose(6, "command")
    if k == 0:
        pid, data = v.int("param_id", 0, 65535), v.bytes("data")
        r = m.parse_com_stmt_send_long_data(cat(le(sid, 4), le(pid, 2), data))
        v.check("long data: statement, parameter and data", And(eq(r.stmt_id, sid), eq(r.param_id, pid), eq(r.data, data)))
    elif k == 1:
        n = v.int("num_rows", 0, 2 ** 32 - 1)
        r = m.parse_handle_stmt_fetch(cat(le(sid, 4), le(n, 4)))
        v.check("fetch: statement and number of rows", And(eq(r.stmt_id, sid), eq(r.num_rows, n)))
    elif k == 2:
        v.check("reset: statement", eq(m.parse_com_stmt_reset(le(sid, 4)).stmt_id, sid))
    elif k == 3:
        v.check("close: statement", eq(m.parse_com_stmt_close(le(sid, 4)).stmt_id, sid))
    elif k == 4:
        cs, db = v.charset("client"), v.text("database")
        v.check("init db: the name in the client's character set", eq(m.parse_com_init_db(cs, enc(v, cs, db)), db))
    else:
        cs, table, wild = v.charset("client"), v.text("table", nonul=True), v.text("wildcard")
        r = m.parse_com_field_list(cs, cat(nulstr(enc(v, cs, table)), enc(v, cs, wild)))
        v.check("field list: table and wildcard in the client's character set", And(eq(r.table, table), eq(r.wildcard, wild)))


class Attrs:
    """Contract of _read_connect_attrs (below)"""

    def __init__(self, v, m, block):
        self.v, self.block, self.calls = v, block, []
        self.result = {"some": "attributes"}

    def __call__(self, r, client_charset):
        self.calls.append(client_charset)
        self.v.check("the connection attributes begin where the client put them", eq(part(rest(r), 0, length(self.block)), self.block))
        r.read(length(self.block))
        return self.result


@unit("C01 C02 C15", "packets.parse_handshake_response packets.parse_handshake_response_41", budget=200, weight=5, max_paths=20000)
def handshake_response(v):
    """Under any capabilities of both sides, the user, proof, database and plugin are those the client sent"""
    abstract_lengths(v)
    m = v.mod("packets")
    server, client = caps_of(v, "server"), caps_of(v, "client")
    size = v.int("max_packet_size", 0, 2 ** 32 - 1)
    num, cs = collation(v, m, "collation")
    user, db, plugin = v.text("user", nonul=True), v.text("db", nonul=True), v.text("plugin", nonul=True)
    filler = v.bytes("filler", length=23)
    both = server & client
    head = cat(le(client.value if symbolic() else int(client), 4), le(size, 4), le(num, 1), filler)
    if v.choose(2, "ssl request?"):
        r = m.parse_handshake_response(server, head)
        v.check("a packet that ends after the filler is an SSL request", type(r).__name__ == "SSLRequest")
        v.check("SSL request: capabilities are what both sides have", eq(r.capabilities, both))
        return
    data = cat(head, nulstr(enc(v, cs, user)))
    if has(v, both, "CLIENT_PLUGIN_AUTH_LENENC_CLIENT_DATA"):
        auth = v.bytes("auth", maxlen=1 << 30)
        data = cat(data, lenstr(auth))
    else:
        auth = v.bytes("auth", maxlen=255)
        data = cat(data, le(length(auth), 1), auth)
    if has(v, both, "CLIENT_CONNECT_WITH_DB"):
        data = cat(data, nulstr(enc(v, cs, db)))
    if has(v, both, "CLIENT_PLUGIN_AUTH"):
        data = cat(data, nulstr(enc(v, cs, plugin)))
    attrs = None
    if has(v, both, "CLIENT_CONNECT_ATTRS"):
        if symbolic():
            block = v.bytes("attrs", minlen=1)
            attrs = Attrs(v, m, block)
            v.patch(m, "_read_connect_attrs", attrs)
            want = attrs.result
        else:
            kv = lenstr(enc(v, cs, "program")) + lenstr(enc(v, cs, "x"))
            block, want = lenstr(kv), {"program": "x"}
        data = cat(data, block)
    if has(v, both, "CLIENT_ZSTD_COMPRESSION_ALGORITHM"):
        data = cat(data, v.bytes("zstd", length=1))
    r = m.parse_handshake_response_41(server, data)
    v.check("capabilities are what both sides have", eq(r.capabilities, both))
    v.check("the user name is the client's, in its character set", eq(r.username, user))
    v.check("the proof is the client's", eq(r.auth_response, auth))
    v.check("the character set is that of the client's collation", eq(r.client_charset, cs))
    v.check("the database is the client's, if it sent one", eq(r.database, db if has(v, both, "CLIENT_CONNECT_WITH_DB") else None))
    v.check("the plugin is the client's, if it named one", eq(r.client_plugin, plugin if has(v, both, "CLIENT_PLUGIN_AUTH") else None))
    if has(v, both, "CLIENT_CONNECT_ATTRS"):
        v.check("the attributes are the client's", r.connect_attrs == want)


@unit("C01 C02 C13 C15", "packets.parse_com_change_user", budget=200, weight=5)
def change_user(v):
    """Names are in the character set before the change, the plugin's name in either (it is ASCII)"""
    m = v.mod("packets")
    caps, cs = caps_of(v), v.charset("client")
    user, db = v.text("user", nonul=True), v.text("db", nonul=True)
    data = nulstr(enc(v, cs, user))
    if has(v, caps, "CLIENT_SECURE_CONNECTION"):
        auth = v.bytes("auth", maxlen=255)
        data = cat(data, le(length(auth), 1), auth)
    else:
        auth = v.bytes("auth", nonul=True)
        data = cat(data, nulstr(auth))
    data = cat(data, nulstr(enc(v, cs, db)))
    new, plugin = None, None
    if v.choose(2, "more?"):
        v.assume(has(v, caps, "CLIENT_PROTOCOL_41") if not symbolic() else has(v, caps, "CLIENT_PROTOCOL_41"))
        num, new = collation(v, m, "collation", 65535)
        data = cat(data, le(num, 2))
        if has(v, caps, "CLIENT_PLUGIN_AUTH"):
            plugin = v.text("plugin", nonul=True)
            data = cat(data, nulstr(enc(v, new, plugin)))
        if has(v, caps, "CLIENT_CONNECT_ATTRS"):
            if symbolic():
                attrs = Attrs(v, m, v.bytes("attrs", minlen=1))
                v.patch(m, "_read_connect_attrs", attrs)
                data = cat(data, attrs.block)
            else:
                data = cat(data, b"\0")
    r = m.parse_com_change_user(caps, cs, data)
    v.check("the user name is the client's, in its character set", eq(r.username, user))
    v.check("the proof is the client's", eq(r.auth_response, auth))
    v.check("the database is the client's", eq(r.database, db))
    v.check("the new character set is that of the client's collation, if it sent one", eq(r.client_charset, new))
    v.check("the plugin is the client's, if it named one", eq(r.client_plugin, plugin))


def integers(L):
    return [x for x, y in L._loc.items() if type(y) in (int, sym.SInt)]


def _attrs_loop(c, it):
    st = c.state

    def havoc(c, L):
        k = c.int("k", 0)
        st["k"] = k
        left = c.int("left", 0)
        name = [x for x, y in L._loc.items() if type(y) is dict]
        st["dict"] = name[0]
        st["ghost"] = g = GhostDict()
        tot = integers(L)
        r = st["r"]
        key, value = fam_bytes("key", k), fam_bytes("value", k)
        pair = cat(lenstr(key), lenstr(value))
        more = c.bool("more")
        if more:
            after = c.bytes("pairs_after")
            c.assume(eq(left, length(pair) + length(after)))
            r.data = sym.SBytes.of(cat(pair, after, st["after"]))
            st["next"] = cat(after, st["after"])
        else:
            c.assume(left == 0)
            r.data = sym.SBytes.of(st["after"])
            st["next"] = None
        r.pos = 0
        st["left"] = left
        st["done"] = False
        return {st["dict"]: g, tot[0]: left}

    def inv(c, L):
        if "k" not in st:
            return
        g = st["ghost"]
        if not g.set and not st["done"]:
            st["done"] = True
            return
        yield "one pair is stored per iteration", len(g.set) == 1
        if len(g.set) == 1:
            cs = st["cs"]
            yield "the name and value are the client's, in its character set", And(
                eq(g.set[0][0], cs.decode(fam_bytes("key", st["k"]))), eq(g.set[0][1], cs.decode(fam_bytes("value", st["k"]))))
        yield "a pair was read", st["next"] is not None and eq(rest(st["r"]), st["next"])
        tot = integers(L)
        if st["next"] is not None:
            yield "the remaining length is what is left", Or(*[eq(getattr(L, x), length(st["next"]) - length(st["after"])) for x in tot])

    def variant(c, L):
        tot = integers(L)
        return getattr(L, tot[0])

    return Invariant(havoc, inv, variant, heap=lambda c, L: [st["r"], st["ghost"], st["ghost"].set])


class GhostDict:
    _mutable = True

    def __init__(self):
        self.set = []

    def __setitem__(self, k, x):
        self.set.append((k, x))


@unit("C01 C07", "packets._read_connect_attrs", loops={"_read_connect_attrs#0": _attrs_loop}, internal=True)
def connect_attrs(v):
    """Exactly the attribute block is consumed, for any number of attributes"""
    abstract_lengths(v)
    m = v.mod("packets")
    cs = v.charset("client")
    after = v.bytes("after", maxlen=100)
    if symbolic():
        n = v.int("n", 0, 2 if v.bounded else 1 << 20)
        if v.bounded:
            data, k = b"", 0
            while n > k:
                data = cat(data, lenstr(fam_bytes("key", k)), lenstr(fam_bytes("value", k)))
                k += 1
        else:
            data = v.bytes("pairs")
        r = reader(cat(lenstr(data), after))
        v.state.update(r=r, after=after, cs=cs)
    else:
        data = b"".join(lenstr(enc(v, cs, v.text("key", maxlen=300))) + lenstr(enc(v, cs, v.text("value", maxlen=300))) for _ in range(v.int("n", 0, 4)))
        r = reader(cat(lenstr(data), after))
    m._read_connect_attrs(r, cs)
    v.check("what follows the attributes is left", eq(rest(r), after))


@unit("C01 C15", "packets.parse_com_query")
def query_without_attributes(v):
    """Clients that didn't negotiate query attributes: all of the packet is SQL text in the client's character set"""
    m = v.mod("packets")
    caps, cs = caps_of(v), v.charset("client")
    v.assume(Not(has(v, caps, "CLIENT_QUERY_ATTRIBUTES")))
    sql = v.text("sql")
    r = m.parse_com_query(caps, cs, enc(v, cs, sql))
    v.check("the SQL text is the client's", eq(r.sql, sql))
    v.check("there are no attributes", r.query_attrs == {})


UNIT = query_without_attributes
