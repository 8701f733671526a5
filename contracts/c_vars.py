"""variables.py: a typed store with read-only variables"""
from datetime import timedelta, timezone

from contracts.common import fam_text
from dv import shadow
from dv.core import Unsupported, put, term, unit
from dv.spec import And, Implies, Not, Or, eq, length, opaque, raises, symbolic
from dv.sym import SList, Symbolic, is_sym


class Opaque:
    """A value of which only its identity is known"""

    def __init__(self, name):
        self.name = name


class Type:
    """A type of variables: some function, which may refuse a value"""

    def __init__(self, refuses=None):
        self.calls, self.refuses, self.value = [], refuses, Opaque("converted")

    def __call__(self, value):
        self.calls.append(value)
        if self.refuses:
            raise self.refuses
        return self.value


class Map(Symbolic):
    """A dict of texts of which nothing is known until it's looked at: an access finds an entry with an equal key, or one that is
    arbitrary (there or not)"""
    __slots__ = ("v", "label", "fresh", "entries")
    _mutable = True

    def __init__(self, v, label, fresh):
        self.v, self.label, self.fresh, self.entries = v, label, fresh, []

    def _entry(self, key):
        for e in self.entries:
            if e[0] is key or bool(eq(e[0], key)):
                return e
        e = [key, self.v.choose(2, f"in the {self.label}?") == 0, None]
        e[2] = self.fresh() if e[1] else None
        self.entries.append(e)
        return e

    def __bool__(self):
        return True

    def _contains(self, key):
        return self._entry(key)[1]

    def get(self, key, default=None):
        e = self._entry(key)
        return e[2] if e[1] else default

    def __getitem__(self, key):
        e = self._entry(key)
        if not e[1]:
            raise KeyError("key")
        return e[2]

    def __setitem__(self, key, value):
        self._entry(key)[1:] = [True, value]

    def pop(self, key, *default):
        e = self._entry(key)
        if not e[1]:
            if default:
                return default[0]
            raise KeyError("key")
        e[1] = False
        return e[2]

    def setdefault(self, key, value):
        e = self._entry(key)
        if not e[1]:
            e[1:] = [True, value]
        return e[2]


def entry(v):
    """A variable: (type, default, dynamic)"""
    return (Type(v.pick("refused?", [None, ValueError("no")])), Opaque("default"), v.choose(2, "read-only?") == 0)


def store(v, m):
    """A store over a schema of any variables, types and defaults, with any values assigned before"""
    if symbolic():
        sch = Map(v, "schema", lambda: entry(v))
        s = m.SessionVariables(m.GlobalVariables(sch))
        s.values = Map(v, "assigned", lambda: Opaque("value"))
        return sch, s
    sch = {k: entry(v) for k in "abc"}
    s = m.SessionVariables(m.GlobalVariables(sch))
    for k in sch:
        if v.choose(2, f"{k} has been assigned"):
            s.values[k] = Opaque(f"value of {k}")
    return sch, s


def a_name(v, what):
    return v.text(what) if symbolic() else v.pick(what, ["a", "A", "b", "B", "c", "nosuch", ""])


def read(s, name):
    """(value, None) or (None, exception)"""
    out = []
    e = raises(lambda: out.append(s.get(name)), Exception)
    return (out[0], None) if e is None else (None, e)


@unit("C14", "variables.Variables.set variables.Variables.get variables.Variables.get_schema variables.SessionVariables.__init__ "
      "variables.GlobalVariables.__init__")
def assign(v):
    """An assignment to a dynamic variable is visible, converted to its type; DEFAULT and NULL restore the default; a read-only or
    unknown variable is an error; whatever isn't assigned keeps its value, all of it if there's an error"""
    m, errors = v.mod("variables"), v.mod("errors")
    sch, s = store(v, m)
    name, other = a_name(v, "name"), a_name(v, "other name")
    key, key2 = name.lower(), other.lower()
    same = bool(eq(key, key2))
    if symbolic():
        # a variable has a value only if the schema has it
        for k in (key, key2):
            if s.values._contains(k) and not sch._contains(k):
                v.assume(False)
    known, known2 = sch.get(key), sch.get(key2)
    before = read(s, other)
    value = v.pick("value", [Opaque("assigned"), m.DEFAULT, None])
    force = v.choose(2, "by the library") == 1
    e = raises(lambda: s.set(name, value, force=True) if force else s.set(name, value), Exception)
    after = read(s, other)
    v.check("an unknown variable can't be read", (known2 is None) == isinstance(before[1], errors.MysqlError) == isinstance(after[1], errors.MysqlError))
    v.check("a known one can", known2 is None or before[1] is None and after[1] is None)
    if e is not None or not same:
        v.check("an error changes nothing, and other variables keep their values", after[0] is before[0])
    if known is None:
        v.check("an unknown variable is an error", isinstance(e, errors.MysqlError))
        return
    type_, default, dynamic = known
    if not (dynamic or force):
        v.check("a read-only variable can't be assigned", isinstance(e, errors.MysqlError))
    elif value is m.DEFAULT or value is None:
        v.check("DEFAULT and NULL restore the default", e is None and (not same or after[0] is default))
    elif type_.refuses:
        v.check("a value that isn't of the type is refused", e is not None)
    else:
        v.check("the value is converted to the variable's type", [x.name for x in type_.calls] == ["assigned"])
        v.check("the assigned value is read back, in any case", e is None and (not same or after[0] is type_.value))


@unit("C14 C08", "variables.Variables.get variables.SessionVariables.schema")
def sessions(v):
    """What one session assigns isn't seen by another, even with shared global variables"""
    m = v.mod("variables")
    sch, s = store(v, m)
    name, other = a_name(v, "name"), a_name(v, "other name")
    theirs, third = m.SessionVariables(s.global_variables), m.SessionVariables(s.global_variables)
    if v.choose(2, "both are new"):
        known = sch.get("a")
        raises(lambda: third.set("a", Opaque("assigned")), Exception)
        v.check("assignments aren't shared", read(theirs, "a")[0] is (known[1] if known else None))
        return
    new = m.SessionVariables(m.GlobalVariables(sch))
    if symbolic():
        theirs.values = Map(v, "assigned by another session", lambda: Opaque("their value"))
        k = other.lower()
        if theirs.values._contains(k) and not sch._contains(k):
            v.assume(False)
    before = [read(x, other)[0] for x in (theirs, new)]
    raises(lambda: s.set(name, v.pick("value", [Opaque("assigned"), None])), Exception)
    v.check("a session's assignments are its own", all(read(x, other)[0] is y for x, y in zip((theirs, new), before)))
    known = sch.get(other.lower())
    v.check("a new session has the defaults", before[1] is (known[1] if known else None))


class Known(Symbolic):
    """The name of variable i, in the order of names"""
    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i


class AnySchema(Symbolic):
    """The variables there are, in no particular order"""
    __slots__ = ()


@unit("C14", "variables.Variables.list", internal=True)
def listing(v):
    """Every variable is listed once, by name, with its value; for any number"""
    m = v.mod("variables")
    if not symbolic() or v.bounded:
        sch = {k: entry(v) for k in "abc"}
        s = m.SessionVariables(m.GlobalVariables(sch))
        for k in sch:
            if v.choose(2, f"{k} has been assigned"):
                s.values[k] = Opaque(f"value of {k}")
        rows = s.list()
        v.check("every variable is listed once, by name", [k for k, _ in rows] == sorted(sch))
        v.check("with its value", all(x is s.get(k) for k, x in rows))
        return
    n, schema = v.int("variables", 0), AnySchema()
    s = m.SessionVariables(m.GlobalVariables())

    def order(x):
        if x is not schema:
            raise Unsupported("what is sorted?")
        return SList(term(n), Known)

    def get(name):
        v.check("the value is that of the variable", isinstance(name, Known))
        return fam_text("value", name.i)
    v.state["stub:sorted"] = order
    v.patch(m.SessionVariables, "schema", schema)
    put(s, "get", get)
    rows = s.list()
    if not isinstance(rows, SList) or rows.tail:
        raise Unsupported("how the list is made")
    v.check("every variable is listed", eq(rows.length(), n))
    i = v.int("i", 0)
    v.assume(i < n)
    row = rows.at(term(i))
    v.check("once, by name", isinstance(row[0], Known) and eq(row[0].i, i))
    v.check("with its value", eq(row[1], fam_text("value", i)))


READ_ONLY = {"version", "version_comment", "external_user", "license", "system_time_zone", "performance_schema"}


@unit("C14 C15", "variables.SYSTEM_VARIABLES variables.Variables.set")
def system(v):
    """The system variables: the read-only ones are refused, every other can be assigned and restored; exhaustive over the table"""
    m, errors = v.mod("variables"), v.mod("errors")
    s = m.SessionVariables(m.GlobalVariables())
    names = sorted(m.SYSTEM_VARIABLES)
    v.check("the read-only variables are part of the table", READ_ONLY <= set(names))
    ok = {int: "7", bool: "ON", str: "text"}
    for name in names:
        type_, default, dynamic = m.SYSTEM_VARIABLES[name]
        v.check(f"{name}: its default is of its type", default is None or m.coerce(type_, default) == default)
        value = {"time_zone": "+01:00"}.get(name, "latin1" if name.startswith("character_set") else ok.get(shadow_type(type_), "text"))
        if name in READ_ONLY:
            v.check(f"{name}: can't be assigned", isinstance(raises(lambda n=name, x=value: s.set(n, x), Exception), errors.MysqlError))
            v.check(f"{name}: keeps its value", s.get(name) == default)
        else:
            v.check(f"{name}: can be assigned", raises(lambda n=name, x=value: s.set(n, x), Exception) is None)
            v.check(f"{name}: has the value assigned", s.get(name) == m.coerce(type_, value))
            s.set(name, m.DEFAULT)
            v.check(f"{name}: has its default again", s.get(name) == default)


def shadow_type(t):
    return getattr(t, "_real", t)


WORDS = ["", *{w2 for w in ("on", "true", "1", "off", "false", "0", "yes", "no", "2", "enable", "none") for w2 in (w, w.upper(), w.title(), " " + w)}]


@unit("C14", "variables.coerce")
def coerce(v):
    """Values are converted to the type: for bool also the words that stand for one, for str also a bool"""
    m, errors = v.mod("variables"), v.mod("errors")
    kind = v.pick("type", ["bool", "str", "int", "other"])
    got = []
    if kind == "other":
        t, x = Type(), Opaque("x")
        v.check("any other type is called", m.coerce(t, x) is t.value and t.calls == [x])
        return
    type_ = {"bool": BOOL(m), "str": STR(m), "int": INT(m)}[kind]
    value = v.pick("value", ["int", "bool", "text"])
    x = {"int": lambda: v.int("x", -(1 << 63), (1 << 64) - 1), "bool": lambda: v.bool("x"), "text": lambda: v.text("x") if symbolic() else v.pick("x", WORDS)}[value]()
    if kind == "int":
        if value == "text":
            return  # int() of Python
        v.check("an integer is kept", eq(m.coerce(type_, x), x if value == "int" else ite_int(x)))
        return
    e = raises(lambda: got.append(m.coerce(type_, x)), Exception)
    if kind == "str":
        v.check("a text is made of any value", e is None)
        if value == "text":
            v.check("a text is kept", eq(got[0], x))
        elif value == "bool":
            v.check("a bool is ON or OFF", eq(got[0], "ON") if x else eq(got[0], "OFF"))
        return
    if value == "text":
        u = x.upper()
        yes, no = Or(*[eq(u, w) for w in ("ON", "TRUE", "1")]), Or(*[eq(u, w) for w in ("OFF", "FALSE", "0")])
        if e is None:
            v.check("a word that stands for a bool", Or(And(yes, eq(got[0], True)), And(no, eq(got[0], False))))
        else:
            v.check("other words are refused", And(isinstance(e, errors.MysqlError), Not(yes), Not(no)))
        return
    v.check("a number is true unless it's 0", e is None and eq(got[0], x != 0 if value == "int" else x))


def ite_int(b):
    return 1 if b else 0


def BOOL(m):
    return m.SYSTEM_VARIABLES["autocommit"][0]


def STR(m):
    return m.SYSTEM_VARIABLES["version"][0]


def INT(m):
    return m.SYSTEM_VARIABLES["wait_timeout"][0]


def code(s, i):
    return shadow.sym.wrap(s._at(term(i))) if is_sym(s) else ord(s[i])


@unit("C14", "variables.parse_timezone variables.timezone_name",
      assumes=["functools.lru_cache is transparent (parse_timezone is a function of its argument)"])
def parse_timezone(v):
    """±HH:MM is that offset (-00:30 is half an hour behind UTC); UTC is UTC; any other text is refused, also in an assignment"""
    m, errors = v.mod("variables"), v.mod("errors")
    if symbolic():
        tz = v.text("tz")
    else:
        tz = v.pick("tz", ["utc", "UTC", "+00:00", "-00:30", "+23:59", "-23:59", "+24:00", "+1:00", "+01:60", "", "+01:00 ", "٠٠:٠٠", "+٠1:00"])
    got = []
    call = v.pick("called by", ["parse_timezone", "assignment"])
    e = raises(lambda: got.append(getattr(m, "parse_timezone" if call == "parse_timezone" else "timezone_name")(tz)), Exception)
    if call == "assignment":
        e2 = raises(lambda: m.parse_timezone(tz), Exception)
        v.check("an assignment is refused if the time zone couldn't be used", (e is None) == (e2 is None))
        if e is None:
            v.check("the value is the text that was assigned", eq(got[0], tz))
        return
    if eq(tz.lower(), "utc"):
        v.check("UTC", e is None and got[0] is timezone.utc)
        return
    six = eq(length(tz), 6)
    if six:
        ch = [code(tz, i) for i in range(6)]
        digit = [And(c >= 48, c <= 57) for c in ch]
        valid = And(Or(ch[0] == 43, ch[0] == 45), digit[1], digit[2], ch[3] == 58, digit[4], digit[5],
                    Or(ch[1] < 50, And(ch[1] == 50, ch[2] < 52)), ch[4] < 54)
    else:
        valid = False
    if e is not None:
        v.check("only what isn't a time zone is refused", And(Not(valid), isinstance(e, errors.MysqlError)))
        return
    v.check("what isn't a time zone is refused", valid)
    if not valid:
        return
    minutes = ((ch[1] - 48) * 10 + ch[2] - 48) * 60 + (ch[4] - 48) * 10 + ch[5] - 48
    off = got[0].utcoffset(None)
    if symbolic():
        us = shadow.sym.wrap(shadow.STimedelta._of(off))
        sign = 1 if ch[0] == 43 else -1
        v.check("the offset is that of the text", eq(us, minutes * 60000000 * sign))
    else:
        v.check("the offset is that of the text", off == timedelta(minutes=minutes * (1 if tz[0] == "+" else -1)))


@unit("C15 C14", "variables.charset_name")
def charset_name(v):
    """Exactly the character sets with a codec can be assigned; exhaustive over the enumeration"""
    import codecs
    m, errors, cs = v.mod("variables"), v.mod("errors"), v.mod("charset").CharacterSet
    for c in cs:
        for name in (c.name, c.name.upper()):
            got = []
            e = raises(lambda n=name: got.append(m.charset_name(n)), Exception)
            try:
                codecs.lookup(c.codec)
                ok = True
            except LookupError:
                ok = False
            v.check(f"{name} is known iff its texts can be converted", (e is None) == ok and (e is None or isinstance(e, errors.MysqlError)))
            v.check(f"{name} is stored in lower case", e is not None or got == [c.name])
    for bad in ("", "nosuch", "__class__", "UTF-8", "utf-8", "name", "latin1 "):
        v.check(f"{bad!r} isn't a character set", isinstance(raises(lambda b=bad: m.charset_name(b), Exception), errors.MysqlError))


__all__ = ["Implies", "opaque"]
