"""Reference MySQL client protocol: encoders and a strict decoder.

Written from the protocol documentation, shares no code with /repo.  Every
parser consumes its packet completely and raises ProtocolError otherwise.
"""
from __future__ import annotations

import hashlib
import struct
from dataclasses import dataclass, field
from datetime import date, datetime, timedelta
from typing import Any, List, Optional, Tuple

# --- capabilities ---------------------------------------------------------
LONG_PASSWORD = 1 << 0
CONNECT_WITH_DB = 1 << 3
PROTOCOL_41 = 1 << 9
SSL = 1 << 11
TRANSACTIONS = 1 << 13
SECURE_CONNECTION = 1 << 15
MULTI_STATEMENTS = 1 << 16
MULTI_RESULTS = 1 << 17
PLUGIN_AUTH = 1 << 19
CONNECT_ATTRS = 1 << 20
LENENC_CLIENT_DATA = 1 << 21
SESSION_TRACK = 1 << 23
DEPRECATE_EOF = 1 << 24
OPTIONAL_METADATA = 1 << 25
ZSTD = 1 << 26
QUERY_ATTRIBUTES = 1 << 27

BASE_CAPS = PROTOCOL_41 | SECURE_CONNECTION | PLUGIN_AUTH | TRANSACTIONS | LONG_PASSWORD

# --- commands ---------------------------------------------------------------
(COM_SLEEP, COM_QUIT, COM_INIT_DB, COM_QUERY, COM_FIELD_LIST) = range(5)
COM_DEBUG = 0x0D
COM_PING = 0x0E
COM_CHANGE_USER = 0x11
COM_STMT_PREPARE = 0x16
COM_STMT_EXECUTE = 0x17
COM_STMT_SEND_LONG_DATA = 0x18
COM_STMT_CLOSE = 0x19
COM_STMT_RESET = 0x1A
COM_STMT_FETCH = 0x1C
COM_RESET_CONNECTION = 0x1F

STATUS_CURSOR_EXISTS = 0x40
STATUS_LAST_ROW_SENT = 0x80

# --- types ------------------------------------------------------------------
T = dict(
    DECIMAL=0, TINY=1, SHORT=2, LONG=3, FLOAT=4, DOUBLE=5, NULL=6, TIMESTAMP=7,
    LONGLONG=8, INT24=9, DATE=10, TIME=11, DATETIME=12, YEAR=13, NEWDATE=14,
    VARCHAR=15, BIT=16, BOOL=0xF4, JSON=0xF5, NEWDECIMAL=0xF6, ENUM=0xF7, SET=0xF8,
    TINY_BLOB=0xF9, MEDIUM_BLOB=0xFA, LONG_BLOB=0xFB, BLOB=0xFC, VAR_STRING=0xFD,
    STRING=0xFE, GEOMETRY=0xFF,
)
INT_TYPES = {T["TINY"]: 1, T["SHORT"]: 2, T["YEAR"]: 2, T["LONG"]: 4, T["INT24"]: 4,
             T["LONGLONG"]: 8, T["BOOL"]: 1}
STR_TYPES = {T[k] for k in ("DECIMAL", "VARCHAR", "BIT", "JSON", "NEWDECIMAL", "ENUM", "SET",
                            "TINY_BLOB", "MEDIUM_BLOB", "LONG_BLOB", "BLOB", "VAR_STRING",
                            "STRING", "GEOMETRY")}


class ProtocolError(Exception):
    """The server violated the protocol"""


# --- encoders -----------------------------------------------------------------
def lenenc(i: int) -> bytes:
    if i < 251:
        return struct.pack("<B", i)
    if i < 1 << 16:
        return b"\xfc" + struct.pack("<H", i)
    if i < 1 << 24:
        return b"\xfd" + struct.pack("<I", i)[:3]
    return b"\xfe" + struct.pack("<Q", i)


def lestr(b: bytes) -> bytes:
    return lenenc(len(b)) + b


def frames(payload: bytes, seq: int) -> bytes:
    """Cut a payload into packets"""
    out = []
    while True:
        part, payload = payload[:0xFFFFFF], payload[0xFFFFFF:]
        out.append(struct.pack("<I", len(part) | (seq % 256) << 24) + part)
        seq += 1
        if len(part) < 0xFFFFFF:
            return b"".join(out)


def n_frames(payload_len: int) -> int:
    return payload_len // 0xFFFFFF + 1


def native_scramble(password: bytes, nonce: bytes) -> bytes:
    if not password:
        return b""
    h1 = hashlib.sha1(password).digest()
    h2 = hashlib.sha1(nonce + hashlib.sha1(h1).digest()).digest()
    return bytes(a ^ b for a, b in zip(h1, h2))


def native_auth_string(password: bytes) -> str:
    return hashlib.sha1(hashlib.sha1(password).digest()).hexdigest()


def handshake_response(caps: int, user: bytes, auth: bytes, collation: int = 45, db: Optional[bytes] = None,
                       plugin: Optional[bytes] = None, attrs: Optional[list] = None,
                       max_packet: int = 1 << 24, zstd: int = 3, unsupported: int = 0) -> bytes:
    """unsupported: flags the client announces although the server didn't; they have no effect on the layout"""
    out = [struct.pack("<IIB", caps | unsupported, max_packet, collation), bytes(23), user, b"\0"]
    if caps & LENENC_CLIENT_DATA:
        out.append(lestr(auth))
    else:
        out.append(struct.pack("<B", len(auth)) + auth)
    if caps & CONNECT_WITH_DB:
        out.append((db or b"") + b"\0")
    if caps & PLUGIN_AUTH:
        out.append((plugin or b"mysql_native_password") + b"\0")
    if caps & CONNECT_ATTRS:
        blob = b"".join(lestr(k) + lestr(v) for k, v in attrs or [])
        out.append(lestr(blob))
    if caps & ZSTD:
        out.append(struct.pack("<B", zstd))
    return b"".join(out)


def ssl_request(caps: int, collation: int = 45, max_packet: int = 1 << 24) -> bytes:
    return struct.pack("<IIB", caps | SSL, max_packet, collation) + bytes(23)


def change_user(caps: int, user: bytes, auth: bytes, db: bytes, collation: Optional[int] = None,
                plugin: Optional[bytes] = None, attrs: Optional[list] = None) -> bytes:
    out = [bytes([COM_CHANGE_USER]), user, b"\0"]
    if caps & SECURE_CONNECTION:
        out.append(bytes([len(auth)]) + auth)
    else:
        out.append(auth + b"\0")
    out.append(db + b"\0")
    if collation is not None:
        out.append(struct.pack("<H", collation))
        if caps & PLUGIN_AUTH:
            out.append((plugin or b"mysql_native_password") + b"\0")
        if caps & CONNECT_ATTRS:
            out.append(lestr(b"".join(lestr(k) + lestr(v) for k, v in attrs or [])))
    return b"".join(out)


@dataclass
class Param:
    """A typed parameter or attribute.  value None -> NULL bitmap bit, unless long_data"""
    type: int
    value: Any
    unsigned: bool = False
    name: bytes = b""
    long_data: bool = False

    def encode(self) -> bytes:
        t = self.type
        if t in INT_TYPES:
            n = INT_TYPES[t]
            return (self.value % (1 << (8 * n))).to_bytes(n, "little")
        if t == T["FLOAT"]:
            return struct.pack("<f", self.value)
        if t == T["DOUBLE"]:
            return struct.pack("<d", self.value)
        if t == T["NULL"]:
            return b""
        return lestr(self.value)


def param_block(params: List[Param], named: bool) -> bytes:
    if not params:
        return b""
    bitmap = bytearray((len(params) + 7) // 8)
    for i, p in enumerate(params):
        if p.value is None and not p.long_data:
            bitmap[i // 8] |= 1 << (i % 8)
    out = [bytes(bitmap), b"\1"]
    for p in params:
        out.append(bytes([p.type, 0x80 if p.unsigned else 0]))
        if named:
            out.append(lestr(p.name))
    for p in params:
        if p.value is not None and not p.long_data:
            out.append(p.encode())
    return b"".join(out)


def com_query(caps: int, sql: bytes, attrs: Optional[List[Param]] = None) -> bytes:
    out = [bytes([COM_QUERY])]
    if caps & QUERY_ATTRIBUTES:
        attrs = attrs or []
        out += [lenenc(len(attrs)), lenenc(1), param_block(attrs, True)]
    out.append(sql)
    return b"".join(out)


def com_stmt_execute(caps: int, stmt_id: int, params: List[Param], attrs: Optional[List[Param]] = None,
                     cursor: bool = False, n_stmt_params: Optional[int] = None) -> bytes:
    flags = 1 if cursor else 0
    attrs = attrs or []
    n = len(params) if n_stmt_params is None else n_stmt_params
    out = [bytes([COM_STMT_EXECUTE]), struct.pack("<I", stmt_id)]
    if caps & QUERY_ATTRIBUTES:
        flags |= 8
        out += [bytes([flags]), struct.pack("<I", 1), lenenc(len(params) + len(attrs)),
                param_block(params + attrs, True)]
    else:
        out += [bytes([flags]), struct.pack("<I", 1), param_block(params, False)]
    return b"".join(out)


# --- reader -----------------------------------------------------------------------
class R:
    def __init__(self, data: bytes):
        self.d = data
        self.p = 0

    def take(self, n: int) -> bytes:
        if self.p + n > len(self.d):
            raise ProtocolError(f"packet too short: need {n} bytes at {self.p} of {len(self.d)}: {self.d[:60]!r}")
        v = self.d[self.p:self.p + n]
        self.p += n
        return v

    def uint(self, n: int) -> int:
        return int.from_bytes(self.take(n), "little")

    def lenenc(self) -> int:
        b = self.uint(1)
        if b < 251:
            return b
        if b == 0xFC:
            v = self.uint(2)
            lo = 251
        elif b == 0xFD:
            v = self.uint(3)
            lo = 1 << 16
        elif b == 0xFE:
            v = self.uint(8)
            lo = 1 << 24
        else:
            raise ProtocolError(f"bad length-encoded integer {b:#x}")
        return v

    def lestr(self) -> bytes:
        return self.take(self.lenenc())

    def znull(self) -> bytes:
        e = self.d.find(b"\0", self.p)
        if e < 0:
            raise ProtocolError("missing terminator")
        v = self.d[self.p:e]
        self.p = e + 1
        return v

    def rest(self) -> bytes:
        return self.take(len(self.d) - self.p)

    def left(self) -> int:
        return len(self.d) - self.p

    def end(self, what: str) -> None:
        if self.p != len(self.d):
            raise ProtocolError(f"{len(self.d) - self.p} trailing bytes in {what}: {self.d[:80]!r}")


# --- server packets -----------------------------------------------------------------
@dataclass
class Handshake:
    version: bytes
    thread_id: int
    nonce: bytes
    caps: int
    charset: int
    status: int
    plugin: bytes
    raw: bytes = b""


@dataclass
class Ok:
    affected: int
    last_id: int
    status: int
    warnings: int
    header: int


@dataclass
class Err:
    code: int
    state: bytes
    msg: bytes


@dataclass
class Eof:
    warnings: int
    status: int


@dataclass
class ColDef:
    schema: bytes
    table: bytes
    org_table: bytes
    name: bytes
    org_name: bytes
    charset: int
    length: int
    type: int
    flags: int
    decimals: int
    default: Optional[bytes] = None
    has_default: bool = False


def parse_handshake(p: bytes) -> Handshake:
    r = R(p)
    if r.uint(1) != 10:
        raise ProtocolError(f"not a v10 handshake: {p[:40]!r}")
    version = r.znull()
    thread_id = r.uint(4)
    n1 = r.take(8)
    if r.uint(1) != 0:
        raise ProtocolError("filler after auth-plugin-data-part-1")
    caps = r.uint(2)
    charset = r.uint(1)
    status = r.uint(2)
    caps |= r.uint(2) << 16
    l = r.uint(1)
    if r.take(10) != bytes(10):
        raise ProtocolError("reserved bytes")
    n2 = b""
    if caps & SECURE_CONNECTION:
        n2 = r.take(max(13, l - 8))
    plugin = b""
    if caps & PLUGIN_AUTH:
        plugin = r.znull()
        if l and len(n1 + n2) < l:
            raise ProtocolError("auth data length")
    r.end("handshake")
    return Handshake(version, thread_id, n1 + n2, caps, charset, status, plugin, p)


def parse_ok(p: bytes, caps: int) -> Ok:
    r = R(p)
    h = r.uint(1)
    if h not in (0, 0xFE):
        raise ProtocolError(f"not an OK packet: {p[:20]!r}")
    a, l = r.lenenc(), r.lenenc()
    status = warnings = 0
    if caps & PROTOCOL_41:
        status, warnings = r.uint(2), r.uint(2)
    elif caps & TRANSACTIONS:
        status = r.uint(2)
    if caps & SESSION_TRACK:
        if r.left():
            r.lestr()
            if status & 0x4000:
                r.lestr()
    else:
        r.rest()
    r.end("OK")
    if status & 8:
        raise ProtocolError("SERVER_MORE_RESULTS_EXISTS: the client would wait for another result")
    return Ok(a, l, status, warnings, h)


def parse_err(p: bytes, caps: int) -> Err:
    r = R(p)
    if r.uint(1) != 0xFF:
        raise ProtocolError(f"not an ERR packet: {p[:20]!r}")
    code = r.uint(2)
    state = b""
    if caps & PROTOCOL_41:
        if r.take(1) != b"#":
            raise ProtocolError("sqlstate marker")
        state = r.take(5)
    if code == 0:
        raise ProtocolError("error code 0")
    return Err(code, state, r.rest())


def parse_eof(p: bytes, caps: int) -> Eof:
    r = R(p)
    if r.uint(1) != 0xFE or len(p) >= 9:
        raise ProtocolError(f"not an EOF packet: {p[:20]!r}")
    w = s = 0
    if caps & PROTOCOL_41:
        w, s = r.uint(2), r.uint(2)
    r.end("EOF")
    if s & 8:
        raise ProtocolError("SERVER_MORE_RESULTS_EXISTS: the client would wait for another result")
    return Eof(w, s)


def parse_coldef(p: bytes, caps: int, field_list: bool = False) -> ColDef:
    r = R(p)
    if r.lestr() != b"def":
        raise ProtocolError("catalog")
    schema, table, org_table, name, org_name = (r.lestr() for _ in range(5))
    if r.lenenc() != 0x0C:
        raise ProtocolError("length of fixed fields")
    charset, length, type_, flags, dec = r.uint(2), r.uint(4), r.uint(1), r.uint(2), r.uint(1)
    r.take(2)
    c = ColDef(schema, table, org_table, name, org_name, charset, length, type_, flags, dec)
    if field_list:
        # MySQL sends one length-encoded string: NULL (0xfb) or the default
        c.has_default = True
        if r.left() and r.d[r.p] == 0xFB:
            r.take(1)
        else:
            c.default = r.lestr()
    r.end("column definition")
    return c


def is_err(p: bytes) -> bool:
    return p[:1] == b"\xff"


@dataclass
class Response:
    kind: str  # ok, err, rows, prepare, fields, none
    ok: Optional[Ok] = None
    err: Optional[Err] = None
    columns: List[ColDef] = field(default_factory=list)
    rows: List[Any] = field(default_factory=list)
    status: int = 0
    stmt_id: int = 0
    n_params: int = 0
    partial: bool = False  # ERR after the response began
    raw: List[bytes] = field(default_factory=list)


class Decoder:
    """Strict decoder of the response to one command; feed() returns True once it is complete.

    kind: ok | query | execute | execute_cursor | prepare | fetch | field_list
    """

    def __init__(self, kind: str, caps: int, columns: Optional[List[ColDef]] = None):
        self.kind = kind
        self.caps = caps
        self.r = Response("none")
        self.state = "first"
        self.done = False
        self.left = 0
        if kind == "fetch":
            self.r.kind = "rows"
            self.r.columns = columns or []
            self.state = "rows"
        if kind == "field_list":
            self.r.kind = "fields"
            self.state = "fields"

    def finish(self) -> bool:
        self.done = True
        return True

    def feed(self, p: bytes) -> bool:
        if self.done:
            raise ProtocolError(f"packet after the response was complete: {p[:60]!r}")
        self.r.raw.append(p)
        if not p:
            raise ProtocolError("empty packet") if self.state not in ("rows",) else None
        if is_err(p):
            self.r.err = parse_err(p, self.caps)
            self.r.partial = self.r.kind != "none" and bool(len(self.r.raw) > 1)
            self.r.kind = "err"
            return self.finish()
        return getattr(self, "s_" + self.state)(p)

    # first packet
    def s_first(self, p: bytes) -> bool:
        if self.kind == "ok":
            self.r.kind = "ok"
            if p[0] != 0:
                raise ProtocolError(f"expected OK, got {p[:20]!r}")
            self.r.ok = parse_ok(p, self.caps)
            self.r.status = self.r.ok.status
            return self.finish()
        if self.kind == "prepare":
            r = R(p)
            if r.uint(1) != 0:
                raise ProtocolError(f"expected prepare-OK, got {p[:20]!r}")
            self.r.kind = "prepare"
            self.r.stmt_id = r.uint(4)
            ncols = r.uint(2)
            self.r.n_params = r.uint(2)
            r.take(1)
            r.uint(2)
            if self.caps & OPTIONAL_METADATA and r.left():
                r.uint(1)
            r.end("prepare-OK")
            if ncols:
                raise ProtocolError("prepare-OK announces columns")
            if not self.r.n_params:
                return self.finish()
            self.left = self.r.n_params
            self.state = "pdefs"
            return False
        # query / execute
        if p[0] == 0 and not (self.caps & OPTIONAL_METADATA and len(p) <= 4):
            self.r.kind = "ok"
            self.r.ok = parse_ok(p, self.caps)
            self.r.status = self.r.ok.status
            return self.finish()
        r = R(p)
        meta = 1
        if self.caps & OPTIONAL_METADATA:
            meta = r.uint(1)
            if meta != 1:
                raise ProtocolError(f"metadata_follows {meta}")
        n = r.lenenc()
        r.end("column count")
        if not n:
            raise ProtocolError("column count 0")
        self.r.kind = "rows"
        self.left = n
        self.state = "cdefs"
        return False

    def s_pdefs(self, p: bytes) -> bool:
        parse_coldef(p, self.caps)
        self.left -= 1
        if self.left:
            return False
        if self.caps & DEPRECATE_EOF:
            return self.finish()
        self.state = "peof"
        return False

    def s_peof(self, p: bytes) -> bool:
        parse_eof(p, self.caps)
        return self.finish()

    def s_cdefs(self, p: bytes) -> bool:
        self.r.columns.append(parse_coldef(p, self.caps))
        self.left -= 1
        if not self.left:
            self.state = "rows" if self.caps & DEPRECATE_EOF else "ceof"
            if self.kind == "execute_cursor":
                self.state = "cursor_end"
        return False

    def s_ceof(self, p: bytes) -> bool:
        e = parse_eof(p, self.caps)
        if e.status & STATUS_CURSOR_EXISTS:
            raise ProtocolError("cursor announced without having been requested")
        self.state = "rows"
        return False

    def s_cursor_end(self, p: bytes) -> bool:
        self.term(p)
        if not self.r.status & STATUS_CURSOR_EXISTS:
            raise ProtocolError("no SERVER_STATUS_CURSOR_EXISTS")
        return True

    def term(self, p: bytes) -> bool:
        if self.caps & DEPRECATE_EOF:
            o = parse_ok(p, self.caps)
            if o.header != 0xFE:
                raise ProtocolError("terminator with header 0")
            self.r.ok = o
            self.r.status = o.status
        else:
            self.r.status = parse_eof(p, self.caps).status
        return self.finish()

    def is_term(self, p: bytes) -> bool:
        if not p or p[0] != 0xFE:
            return False
        return len(p) < 0xFFFFFF if self.caps & DEPRECATE_EOF else len(p) < 9

    def s_rows(self, p: bytes) -> bool:
        if self.is_term(p):
            return self.term(p)
        cols = self.r.columns
        binary = self.kind in ("execute", "fetch", "execute_cursor")
        if cols or self.kind != "fetch":
            self.r.rows.append((binary_row if binary else text_row)(p, cols))
        else:
            self.r.rows.append(p)
        return False

    def s_fields(self, p: bytes) -> bool:
        if self.is_term(p):
            return self.term(p)
        self.r.columns.append(parse_coldef(p, self.caps, True))
        return False


def text_row(p: bytes, cols: List[ColDef]) -> List[Optional[bytes]]:
    r = R(p)
    row: List[Optional[bytes]] = []
    for _ in cols:
        if r.left() and r.d[r.p] == 0xFB:
            r.take(1)
            row.append(None)
        else:
            row.append(r.lestr())
    r.end("text row")
    return row


def binary_row(p: bytes, cols: List[ColDef]) -> List[Any]:
    r = R(p)
    if r.uint(1) != 0:
        raise ProtocolError(f"binary row header {p[:10]!r}")
    bitmap = r.take((len(cols) + 7 + 2) // 8)
    row: List[Any] = []
    for i, c in enumerate(cols):
        if bitmap[(i + 2) // 8] >> ((i + 2) % 8) & 1:
            row.append(None)
        else:
            row.append(binary_value(r, c))
    if bitmap[0] & 3:
        raise ProtocolError("reserved null bitmap bits")
    used = len(cols) + 2
    if used % 8 and bitmap[-1] >> (used % 8):
        raise ProtocolError("null bitmap bits beyond the last column")
    r.end("binary row")
    return row


def binary_value(r: R, c: ColDef) -> Any:
    t = c.type
    if t in INT_TYPES:
        n = INT_TYPES[t]
        v = r.uint(n)
        if not c.flags & 0x20 and v >> (8 * n - 1):
            v -= 1 << (8 * n)
        return v
    if t == T["FLOAT"]:
        return struct.unpack("<f", r.take(4))[0]
    if t == T["DOUBLE"]:
        return struct.unpack("<d", r.take(8))[0]
    if t in (T["DATE"], T["DATETIME"], T["TIMESTAMP"]):
        n = r.uint(1)
        if n not in (0, 4, 7, 11):
            raise ProtocolError(f"date length {n}")
        y = mo = d = h = mi = s = us = 0
        if n >= 4:
            y, mo, d = r.uint(2), r.uint(1), r.uint(1)
        if n >= 7:
            h, mi, s = r.uint(1), r.uint(1), r.uint(1)
        if n >= 11:
            us = r.uint(4)
        return ("dt", y, mo, d, h, mi, s, us)
    if t == T["TIME"]:
        n = r.uint(1)
        if n not in (0, 8, 12):
            raise ProtocolError(f"time length {n}")
        if not n:
            return timedelta(0)
        neg, days, h, mi, s = r.uint(1), r.uint(4), r.uint(1), r.uint(1), r.uint(1)
        us = r.uint(4) if n == 12 else 0
        if neg > 1 or h > 23 or mi > 59 or s > 59 or us > 999999:
            raise ProtocolError("time out of range")
        v = timedelta(days=days, hours=h, minutes=mi, seconds=s, microseconds=us)
        return -v if neg else v
    if t in STR_TYPES:
        return r.lestr()
    raise ProtocolError(f"unexpected type {t} in binary row")


def text_value(b: bytes, c: ColDef) -> Any:
    """Decode a text protocol cell into the same shape binary_value returns"""
    t = c.type
    try:
        if t in INT_TYPES:
            if b.strip() != b:
                raise ValueError(b)
            return int(b)
        if t in (T["FLOAT"], T["DOUBLE"]):
            return float(b)
        if t in (T["DATE"], T["DATETIME"], T["TIMESTAMP"]):
            s = b.decode("ascii")
            d, _, tm = s.partition(" ")
            y, mo, dd = d.split("-")
            if len(y) != 4 or len(mo) != 2 or len(dd) != 2:
                raise ValueError(s)
            h = mi = se = us = 0
            if tm:
                hms, _, frac = tm.partition(".")
                hh, mm, ss = hms.split(":")
                if len(hh) != 2 or len(mm) != 2 or len(ss) != 2:
                    raise ValueError(s)
                h, mi, se = int(hh), int(mm), int(ss)
                if frac:
                    us = int(frac.ljust(6, "0"))
                    if len(frac) > 6:
                        raise ValueError(s)
            return ("dt", int(y), int(mo), int(dd), h, mi, se, us)
        if t == T["TIME"]:
            s = b.decode("ascii")
            neg = s.startswith("-")
            hms, _, frac = s.lstrip("-").partition(".")
            hh, mm, ss = hms.split(":")
            if len(mm) != 2 or len(ss) != 2 or not hh.isdigit():
                raise ValueError(s)
            v = timedelta(hours=int(hh), minutes=int(mm), seconds=int(ss),
                          microseconds=int(frac.ljust(6, "0")) if frac else 0)
            return -v if neg else v
    except ValueError as e:
        raise ProtocolError(f"bad text value {b!r} for type {t}: {e}") from e
    return b
