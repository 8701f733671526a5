"""schema.py: LIKE, the catalog's rows, SHOW as a query"""
import z3

from contracts.ghost import Ghostly
from dv import sym
from dv.core import Unsupported, term, unit
from dv.shadow import Invariant, SymIter
from dv.spec import And, Implies, Not, Or, eq, length, raises, run, symbolic
from dv.sym import SBool, SInt, SList, SStr, Symbolic, is_sym, wrap

I, B = z3.IntSort(), z3.BoolSort()

# --- LIKE

CH, WILD = z3.Function("token_char", I, I), z3.Function("token_is_wildcard", I, B)
M = z3.Function("like_matches", I, I, B)  # does the value from v on match the tokens from t on?


def pct(t):
    return z3.And(CH(t) == 37, WILD(t))


def under(t):
    return z3.And(CH(t) == 95, WILD(t))


def unfold(val, nv, nt, v, t):
    """The meaning of LIKE, at one point: % any number of characters, _ exactly one, any other token itself"""
    return M(v, t) == z3.And(v >= 0, v <= nv, t >= 0, t <= nt, z3.If(t == nt, v == nv, z3.If(
        pct(t), z3.Or(M(v, t + 1), M(v + 1, t)),
        z3.And(v < nv, z3.Or(under(t), z3.And(z3.Not(WILD(t)), CH(t) == val(v))), M(v + 1, t + 1)))))


class Token(Symbolic):
    """tokens[t]: (character, is it a wildcard?)"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def parts(self):
        t = self.t
        return SStr([sym.p_fun(lambda i: CH(t), 1, key=("token", sym.simp(t)))]), wrap(WILD(t))

    def __eq__(self, o):
        if isinstance(o, tuple) and len(o) == 2:
            a, b = self.parts()
            return And(a == o[0], b if o[1] is True else Not(b) if o[1] is False else b == o[1])
        return NotImplemented

    def __ne__(self, o):
        return Not(self == o)

    def __getitem__(self, k):
        return self.parts()[k]

    def __iter__(self):
        return iter(self.parts())

    __hash__ = Symbolic.__hash__


def like_tokens(c, L):
    st = c.state

    def havoc(c, L):
        ints = [k for k in L.changed if type(L._loc.get(k)) in (int, SInt)]
        lists = [k for k in L.changed if isinstance(L._loc.get(k), list)]
        if len(ints) != 1 or len(lists) != 1:
            raise Unsupported("which locals are the position and the tokens?")
        st["pos"], st["out"] = ints[0], lists[0]
        i = st["i"] = c.int("position", 0)
        n = c.int("tokens", 0)
        st["tokens"] = SList(term(n), lambda t: Token(term(t)))
        return {ints[0]: i, lists[0]: st["tokens"]}

    def inv(c, L):
        if "pos" not in st:
            return
        i, out = getattr(L, st["pos"]), getattr(L, st["out"])
        p = st["pattern"]
        if i is st["i"]:
            return
        j = st["i"]
        if And(eq(code(p, j), 92), j + 1 < length(p)):
            want, step = (code(p, j + 1), False), 2
        else:
            want, step = (code(p, j), Or(eq(code(p, j), 37), eq(code(p, j), 95))), 1
        yield "the next token starts where this one ends", eq(i, j + step)
        ok = out is st["tokens"] and len(out.tail) == 1
        if ok:
            ch, wild = out.tail[0]
            ok = And(eq(length(ch), 1), eq(code(ch, 0), want[0]), wrap(sym.truth(wild) == sym.truth(want[1])))
        yield "a character, or what a backslash escapes, is a token; % and _ are wildcards", ok
    return Invariant(havoc, inv, lambda c, L: length(st["pattern"]) - getattr(L, st["pos"]),
                     heap=lambda c, L: [getattr(L, st["out"]), getattr(L, st["out"]).tail])


def code(s, i):
    return wrap(SStr.of(s)._at(term(i))) if is_sym(s) or is_sym(i) else ord(s[i])


def like_search(c, L):
    st = c.state

    def setup(L):
        toks = st["tokens"]
        st["n"] = SList(term(toks.base), toks.at, toks.tail)
        nt = st["nt"] = toks._len_term()
        nv = st["nv"] = SStr.of(st["value"])._len_term()
        val = st["val"] = lambda v: SStr.of(st["value"])._at(v)
        t = z3.Int("t")
        c.add(z3.ForAll([t], z3.And(CH(t) >= 0, CH(t) < 0x110000, z3.Implies(WILD(t), z3.Or(CH(t) == 37, CH(t) == 95))), patterns=[CH(t)]))
        st["unfold"] = lambda v, t: c.add(unfold(val, nv, nt, v, t))

    def havoc(c, L):
        v0, t0, rv0, rt0 = st["at"] = tuple(c.int(n) for n in ("v", "t", "resume_v", "resume_t"))
        return {"v": v0, "t": t0, "resume_v": rv0, "resume_t": rt0}

    def inv(c, L):
        if "nt" not in st:
            setup(L)
        v, t, rv, rt = (term(getattr(L, n)) for n in ("v", "t", "resume_v", "resume_t"))
        nv, nt = st["nv"], st["nt"]
        if "at" in st:
            st["phase"] = st.get("phase", 0) + 1
        if st.get("phase", 0) > 1:
            v0, t0, rv0, rt0 = (term(x) for x in st["at"])
            for a, b in ((v0, t0), (v, t), (rv0 + 1, rt0 - 1), (rv + 1, rt - 1)):
                st["unfold"](a, b)
            greedy(c, nv, nt, v0, t0, rv0, rt0)
        yield "positions are within the texts", wrap(z3.And(v >= 0, v <= nv, t >= 0, t <= nt))
        j = z3.Int("j")
        yield "since the last % each token has matched one character", wrap(z3.Implies(rt >= 0, z3.And(
            rt >= 1, rt <= t, pct(rt - 1), rv >= 0, v - rv == t - rt, z3.ForAll([j], z3.Implies(z3.And(j >= rt, j < t), z3.Not(pct(j))), patterns=[WILD(j)]))))
        yield "without a % there is nothing to resume", wrap(z3.Implies(rt < 0, z3.And(rt == -1, rv == 0)))
        yield "the rest matches, or a resumption does, iff all of the value does", wrap(M(0, 0) == z3.Or(M(v, t), z3.And(rt >= 0, M(rv + 1, rt - 1))))

    def variant(c, L):
        return (wrap(st["nv"] + 1 - term(L.resume_v)), wrap(st["nt"] + 1 - term(L.t)))
    return Invariant(havoc, inv, variant)


def greedy(c, nv, nt, v, t, rv, rt):
    """Instance of the lemma like_greedy"""
    c.add(z3.Implies(z3.And(rt >= 1, M(rv + 1, rt - 1), z3.Or(z3.And(t < nt, pct(t)), v == nv)), z3.And(t <= nt, v < nv, M(v, t))))


def last_percents(c, nv, nt, t):
    """Instance of the lemma like_percents"""
    j = z3.Int("j")
    c.add(M(nv, t) == z3.ForAll([j], z3.Implies(z3.And(j >= t, j < nt), pct(j)), patterns=[WILD(j)]))


@unit("C16 C14", "schema.like_match", loops={"like_match#0": like_tokens, "like_match#1": like_search}, weight=2)
def like(v):
    """LIKE matches the whole value, % any number of characters and _ exactly one, a backslash escapes; for all values and patterns"""
    m = v.mod("schema")
    if not symbolic():
        value = v.given.pop("value", None) or "".join(v.pick("c", "ab%_\\") for _ in range(v.int("nv", 0, 6)))
        pattern = v.given.pop("pattern", None) or "".join(v.pick("c", "ab%%__\\") for _ in range(v.int("np", 0, 6)))
        v.used.update(value=value, pattern=pattern)
        v.check("LIKE", m.like_match(value, pattern) == ref_like(value, pattern))
        return
    value, pattern = v.text("value", maxlen=2 if v.bounded else None), v.text("pattern", maxlen=3 if v.bounded else None)
    v.state.update(value=value, pattern=pattern)
    got = m.like_match(value, pattern)
    if v.bounded:
        toks, i = [], 0
        while i < length(pattern):
            if And(eq(code(pattern, i), 92), i + 1 < length(pattern)):
                toks.append((code(pattern, i + 1), False))
                i += 1
            else:
                toks.append((code(pattern, i), bool(Or(eq(code(pattern, i), 37), eq(code(pattern, i), 95)))))
            i += 1
        n = next(k for k in range(5) if eq(length(value), k))
        v.check("LIKE", bool(got) == ref_tokens([code(value, i) for i in range(n)], toks))
        return
    st = v.state
    if "nt" not in st:
        v.check("the value is scanned", False, aux=True)
        return
    a, b = (term(x) for x in st["at"][:2])
    rv, rt = (term(x) for x in st["at"][2:])
    st["unfold"](a, b)
    st["unfold"](rv + 1, rt - 1)
    last_percents(v, st["nv"], st["nt"], b)
    greedy(v, st["nv"], st["nt"], a, b, rv, rt)
    v.check("the answer is whether the value matches", wrap(sym.truth(got) == M(0, 0)))


def ref_tokens(value, toks):
    if not toks:
        return not value
    ch, wild = toks[0]
    if wild and eq(ch, 37):
        return any(ref_tokens(value[i:], toks[1:]) for i in range(len(value) + 1))
    return bool(value) and (wild or bool(eq(ch, value[0]))) and ref_tokens(value[1:], toks[1:])


def ref_like(value, pattern):
    toks, i = [], 0
    while i < len(pattern):
        if pattern[i] == "\\" and i + 1 < len(pattern):
            i += 1
            toks.append((ord(pattern[i]), False))
        else:
            toks.append((ord(pattern[i]), pattern[i] in "%_"))
        i += 1
    return ref_tokens([ord(c) for c in value], toks)


def lemma_context(v):
    nv, nt = z3.Int("nv"), z3.Int("nt")
    v.add(z3.And(nv >= 0, nt >= 0))
    val = z3.Function("value_char", I, I)
    return nv, nt, lambda a, b: v.add(unfold(val, nv, nt, a, b))


@unit("C16 C14", "schema.like_match", internal=True)
def like_greedy(v):
    """Lemma: if tokens without % have matched one character each since the last % (at rt - 1, resumed at rv), any match that resumes
    later implies one from here, provided a % comes next; and there is none if the value ends here.  By induction"""
    if not symbolic():
        return
    nv, nt, uf = lemma_context(v)
    which = v.pick("lemma", ["% means some number of characters", "tokens match one character each", "% absorbs", "greedy"])
    k, t, a, b, w = (z3.Int(n) for n in ("k", "t", "a", "b", "w"))
    some = z3.Function("some_match", I, I, I)
    if which == "% means some number of characters":
        # M(k, t) and pct(t) => M(x, t + 1) for x = some(k, t) >= k; by induction on nv - k, hypothesis at k + 1
        uf(k, t)
        v.add(z3.And(t < nt, pct(t), M(k, t), z3.Implies(z3.And(k + 1 <= nv, M(k + 1, t)), z3.And(some(k + 1, t) >= k + 1, M(some(k + 1, t), t + 1)))))
        x = z3.If(M(k, t + 1), k, some(k + 1, t))
        uf(k + 1, t)
        v.check(which, wrap(z3.And(x >= k, M(x, t + 1))), aux=True)
    elif which == "tokens match one character each":
        # M(k, a) and no % in [a, b) => M(k + b - a, b); by induction on b, hypothesis at b - 1
        uf(k + b - 1 - a, b - 1)
        v.add(z3.And(a <= b, M(k, a), b <= nt))
        v.add(z3.Implies(a <= b - 1, z3.And(M(k + b - 1 - a, b - 1), z3.Not(pct(b - 1)))))
        v.check(which, wrap(M(k + b - a, b)), aux=True)
    elif which == "% absorbs":
        # pct(t), M(w, t), k <= w => M(k, t); by induction on w - k, hypothesis at k + 1
        uf(k, t)
        uf(w, t)
        v.add(z3.And(t < nt, pct(t), M(w, t), 0 <= k, k <= w, z3.Implies(k + 1 <= w, M(k + 1, t))))
        v.check(which, wrap(M(k, t)), aux=True)
    else:
        # the three above, put together
        rv, rt, vv = z3.Int("rv"), z3.Int("rt"), z3.Int("v")
        j = z3.Int("j")
        x = z3.Int("x")
        v.add(z3.And(rt >= 1, rt <= t, t <= nt, pct(rt - 1), rv >= 0, vv - rv == t - rt, vv >= 0, vv <= nv, M(rv + 1, rt - 1), z3.Or(z3.And(t < nt, pct(t)), vv == nv)))
        v.add(z3.ForAll([j], z3.Implies(z3.And(j >= rt, j < t), z3.Not(pct(j))), patterns=[WILD(j)]))
        v.add(z3.And(x >= rv + 1, M(x, rt)))  # the first
        v.add(M(x + t - rt, t))  # the second
        uf(x + t - rt, t)
        v.add(z3.Implies(z3.And(t < nt, pct(t), vv <= x + t - rt), M(vv, t)))  # the third
        v.check(which, wrap(z3.And(t <= nt, vv < nv, M(vv, t))), aux=True)


@unit("C16 C14", "schema.like_match", internal=True)
def like_percents(v):
    """Lemma: the end of the value matches exactly a rest of %s.  By induction"""
    if not symbolic():
        return
    nv, nt, uf = lemma_context(v)
    t, j = z3.Int("t"), z3.Int("j")
    v.add(z3.And(t >= 0, t <= nt))
    uf(nv, t)
    uf(nv + 1, t)
    every = lambda a: z3.ForAll([j], z3.Implies(z3.And(j >= a, j < nt), pct(j)), patterns=[WILD(j)])
    v.add(z3.Implies(t < nt, M(nv, t + 1) == every(t + 1)))
    v.add(z3.Implies(t < nt, every(t) == z3.And(pct(t), every(t + 1))))
    v.check("a rest of %s", wrap(M(nv, t) == every(t)), aux=True)


# --- the declared schema

class Mapping(Ghostly):
    """A dictionary of any size; level 0 maps column names to types"""
    _mutable = False

    def __init__(self, v, level, label):
        self.v, self.level, self.label = v, level, label

    def items(self):
        v, level, label = self.v, self.level, self.label
        n = v.memo["sizes"].setdefault(label, None)
        if n is None:
            n = v.memo["sizes"][label] = v.int("size of " + label, 0)

        def at(i):
            key = (label, str(sym.simp(term(i))))
            memo = v.memo["items"]
            if key not in memo:
                k = len(memo)
                memo[key] = (Name(label, k), Name("type", k) if level == 0 else Mapping(v, level - 1, f"{label}/{k}"))
            return memo[key]
        return SList(term(n), at)


class Name(Ghostly):
    _mutable = False

    def __init__(self, label, k):
        self.label, self.k = label, k

    def __repr__(self):
        return f"{self.label}:{self.k}"


def _columns(c, it):
    st = c.state
    if not isinstance(it, SymIter):
        return None
    depth = st["depth"] = st.get("depth", 0) + 1

    def havoc(c, L):
        lists = [k for k in L.changed if isinstance(L._loc.get(k), (list, SList))]
        if len(lists) != 1:
            raise Unsupported("which local is the result?")
        st["out"] = lists[0]
        st["list"] = SList(term(c.int("columns so far", 0)), lambda i: Name("column so far", i))
        st["phase"] = 0
        return {lists[0]: st["list"]}

    def inv(c, L):
        if "out" not in st:
            yield "there are no columns at first", all(x == [] for x in L._loc.values() if isinstance(x, list))
            return
        out = getattr(L, st["out"])
        if out is not st["list"]:
            yield "the columns are extended", False
            return
        if st["phase"] == 0 and depth < 4 or st.get("done"):
            # nothing is added but by the loop over a table's columns
            yield "each column is added where it belongs", len(out.tail) == 0
        if st["phase"] == 1 and depth == 4:
            ok = len(out.tail) == 1
            if ok:
                col = out.tail[0]
                # the latest item of each level
                last = [x for x in c.memo["items"].values()]
                cat, db, table, column = last[0], last[1], last[2], last[3]
                ok = (col.catalog is cat[0] and col.schema is db[0] and col.table is table[0] and col.name is column[0] and col.type is column[1]
                      and col.is_nullable is True and col.default is None and col.comment is None)
            yield "each column is added once, as it was declared", ok
            st["done"] = True
        st["phase"] = 1 if depth == 4 else 0
    return Invariant(havoc, inv, heap=lambda c, L: [st["list"], st["list"].tail])


@unit("C16", "schema.mapping_to_columns", loops={"*": _columns}, internal=True)
def columns(v):
    """Every declared column becomes one Column, with its names and type, in the order of declaration; for mappings of any size"""
    m = v.mod("schema")
    if not symbolic() or v.bounded:
        sch, want = {}, []
        for c in range(v.choose(3, "catalogs")):
            dbs = sch[f"c{c}"] = {}
            for d in range(v.choose(3, "dbs")):
                tables = dbs[f"d{d}"] = {}
                for t in range(v.choose(2, "tables")):
                    cols = tables[f"t{t}"] = {}
                    for k in range(1 + v.choose(2, "columns")):
                        cols[f"k{k}"] = f"type{k}"
                        want.append((f"c{c}", f"d{d}", f"t{t}", f"k{k}", f"type{k}"))
        v.patch(m, "_normalize_mapping", lambda x: x)
        got = [(x.catalog, x.schema, x.table, x.name, x.type) for x in m.mapping_to_columns(sch)]
        v.check("the columns", got == want)
        return
    v.memo.update(sizes={}, items={})
    given = Name("mapping", 0)
    top = Mapping(v, 3, "catalog")
    if hasattr(m, "_normalize_mapping"):
        def norm(x):
            v.check("the declared mapping is normalised", x is given)
            return top
        v.patch(m, "_normalize_mapping", norm)
    got = m.mapping_to_columns(given)
    v.check("these are the columns", got is v.state["list"])


@unit("C16", "schema._normalize_mapping", internal=True)
def normalize(v):
    """tables, databases or catalogs at the top: the default catalog is def, no database is ''; other shapes are errors.  For any mapping;
    the unit depth says what its depth is"""
    m, errors = v.mod("schema"), v.mod("errors")
    d = v.int("depth", 0)
    given = Name("mapping", 0) if symbolic() else {}
    if not symbolic():
        for _ in range(d - 1):
            given = {"x": given, "y": {}}
        given = given if d else "text"
    elif hasattr(m, "dict_depth"):
        v.patch(m, "dict_depth", lambda x: d if x is given else v.check("the depth of the mapping", False))
    out = []
    ex = raises(lambda: out.append(m._normalize_mapping(given)), Exception)
    if d > 4:
        v.check("deeper mappings are errors", isinstance(ex, errors.MysqlError))
        return
    v.check("all others aren't", ex is None)
    got = out[0]
    if d < 2:
        v.check("no tables", type(got) is dict and len(got) == 0)
    elif eq(d, 2):
        v.check("tables", type(got) is dict and list(got) == ["def"] and list(got["def"]) == [""] and got["def"][""] is given)
    elif eq(d, 3):
        v.check("databases", type(got) is dict and list(got) == ["def"] and got["def"] is given)
    else:
        v.check("catalogs", got is given)


@unit("C16", "utils.dict_depth", internal=True, bounded="3 values per level (any depth)")
def depth(v):
    """The depth of a mapping is one more than that of its deepest value; of anything else 0.  By induction, for up to three values"""
    m = v.mod("utils")
    f = m.dict_depth
    inner = [v.int("depth", 0, 9) for _ in range(v.choose(4, "values"))]
    boxes = [[d] for d in inner]

    class Dict(Ghostly):
        def values(self):
            return boxes
    v.patch(m, "dict_depth", lambda x: x[0])
    got = f(Dict())
    v.check("one more than the deepest value", And(*[got >= d + 1 for d in inner], Or(*[eq(got, d + 1) for d in inner]) if inner else eq(got, 1)))
    v.check("anything else has no depth", f("x") == 0 and f(None) == 0 and f(5) == 0)


# --- SHOW

def conditions(e):
    from sqlglot import expressions as x
    where = e.args.get("where")
    out = []

    def walk(n):
        if isinstance(n, x.And):
            walk(n.this)
            walk(n.expression)
        elif isinstance(n, x.Paren):
            walk(n.this)
        else:
            out.append((type(n).__name__, n.this.sql().lower().strip('"'), n.expression.is_string and n.expression.this))
    if where:
        walk(where.this)
    return sorted(out, key=lambda c: c[:2])


@unit("C16", "schema.show_statement_to_info_schema_query schema._equals schema._matches")
def show(v):
    """SHOW selects, from the catalog's table, the rows of the named table and database, and those whose name is LIKE the pattern"""
    from sqlglot import expressions as x
    m, errors = v.mod("schema"), v.mod("errors")
    kind = v.pick("kind", ["COLUMNS", "TABLES", "DATABASES", "INDEX", "PLUGINS"])
    kind = kind.lower() if v.choose(2, "lower case") else kind
    given = {n: v.text(n) if v.choose(2, n) else None for n in ("target", "db", "like", "selected")}
    target, db, like, selected = given.values()
    for t in (target, db, selected):
        if t is not None:
            v.assume(length(t) > 0)

    class Holder:
        def __init__(self, t):
            self.t = t

    class Node(x.Literal):
        """A literal or an identifier with any text"""
        name = this = property(lambda self: self.args["this"].t)
    node = lambda t: Node(this=Holder(t), is_string=True)
    if symbolic():
        v.patch(x.Literal, "string", node)

    class Statement(x.Show):
        def text(self, key):
            t = {"target": target, "db": db, "like": like, "this": kind}.get(key)
            return "" if t is None else t
        name = property(lambda self: kind)
    e = Statement(this=kind)
    for key, t in (("target", target), ("db", db), ("like", like)):
        if t is not None:
            e.set(key, node(t))
    full = v.choose(2, "full") == 1
    if full:
        e.set("full", True)
    out = []
    ex = raises(lambda: out.append(m.show_statement_to_info_schema_query(e, selected)), Exception)
    k, schema = kind.upper(), db if db is not None else selected
    bad = k == "PLUGINS" or k in ("COLUMNS", "INDEX") and target is None or k == "TABLES" and schema is None
    v.check("an incomplete or unknown SHOW is an error, all others aren't", (ex is not None) == bad and (ex is None or isinstance(ex, errors.MysqlError)))
    if bad:
        return
    name = {"COLUMNS": "column_name", "TABLES": "table_name", "DATABASES": "schema_name", "INDEX": None}[k]
    want = []
    if k in ("COLUMNS", "INDEX"):
        want.append(("EQ", "table_name", target))
    if k != "DATABASES" and schema is not None:
        want.append(("EQ", "table_schema", schema))
    if like is not None and name:
        want.append(("Like", name, like))
    got, want = conditions(out[0]), sorted(want, key=lambda w: w[:2])
    v.check("exactly the rows that were asked for", And(len(got) == len(want), *[And(g[:2] == w[:2], eq(g[2], w[2])) for g, w in zip(got, want)]),
            lambda: repr((got, want)))
    table = {"COLUMNS": "columns", "TABLES": "tables", "DATABASES": "schemata", "INDEX": "statistics"}[k]
    t = list(out[0].find_all(x.Table))
    v.check("of the catalog's table", [(y.db.lower(), y.name.lower()) for y in t] == [("information_schema", table)])
    heads = {"COLUMNS": ["Field", "Type", "Null", "Key", "Default", "Extra"] + (["Collation", "Privileges", "Comment"] if full else []),
             "TABLES": ["Table_name"] + (["Table_type"] if full else []), "DATABASES": ["Database"]}.get(k)
    if heads:
        v.check("its output columns", [c.alias_or_name for c in out[0].expressions] == heads)
        src = [c.this.name.lower() for c in out[0].expressions]
        v.check("their contents", src[0] == name and (k != "COLUMNS" or src[1] == "data_type"))


@unit("C16", "schema._like", internal=True)
def like_null(v):
    """LIKE is NULL if the value or the pattern is; else whether the text of the value matches the pattern.  For any text or integer"""
    m = v.mod("schema")
    asked, answer = [], v.bool("it matches")

    def match(a, b):
        asked.append((a, b))
        return answer
    v.patch(m, "like_match", match)
    kind = v.choose(3, "value")
    a = None if kind == 0 else v.text("value") if kind == 1 else v.pick("value", [0, -1, 5, 2.5, True])
    b = v.text("pattern") if v.choose(2, "pattern") else None
    got = m._like(a, b)
    if a is None or b is None:
        v.check("LIKE is NULL of NULL", got is None)
        return
    v.check("else the match", And(len(asked) == 1, eq(asked[0][0], a if kind == 1 else str(a)), eq(asked[0][1], b), eq(got, answer)))


__all__ = ["Implies", "SBool", "raises", "run"]


# --- the tables of the catalog

@unit("C16", "schema.info_schema_tables", max_paths=20000, bounded="up to 3 columns, of up to 2 catalogs, databases and tables")
def tables(v):
    """COLUMNS has each column once, in the order given within its table; TABLES and SCHEMATA have each table and database once, those
    without members too; nothing else is there but the library's own catalog"""
    m = v.mod("schema")
    builtin = v.mod("constants").INFO_SCHEMA
    own = [("def", db, t, c, ty) for db, ts in builtin.items() for t, cs in ts.items() for c, ty in cs.items()]
    cols = []
    for i in range(v.choose(4, "columns")):
        cat, db, t = v.pick("where", [("def", "a", "t"), ("def", "a", "u"), ("def", "b", "t"), ("z", "a", "t"), ("def", "mysql", "t")])
        cols.append(m.Column(name=f"c{i}", type=f"type{i}", table=t, schema=db, catalog=cat, is_nullable=i != 1, default="dflt" if i == 2 else None,
                             comment="text" if i == 1 else None))
    mapping, declared = v.pick("mapping", [
        (None, {}),
        ({"a": {"t": {"c": "type"}, "bare": {}}, "e": {}}, {"def": {"a": {"t": {}, "bare": {}}, "e": {}}}),
        ({"z": {"a": {"t": {"c": "type"}, "bare": {}}, "y": {"x": {}}, "e": {}}}, {"z": {"a": {"t": {}, "bare": {}}, "y": {"x": {}}, "e": {}}})])
    given = iter(cols) if v.choose(2, "an iterator") else cols
    data = m.info_schema_tables(given, mapping)["information_schema"]

    def rows(name):
        t = data[name]
        return [dict(zip(t.columns, r)) for r in t.rows]
    want = [(c.catalog, c.schema, c.table, c.name, c.type) for c in cols] + own
    got = [(r["table_catalog"], r["table_schema"], r["table_name"], r["column_name"], r["data_type"]) for r in rows("columns")]
    v.check("each column is listed once, with its name and type", sorted(got) == sorted(want))
    by_table = {}
    for r in rows("columns"):
        by_table.setdefault((r["table_catalog"], r["table_schema"], r["table_name"]), []).append(r)
    for k, rs in by_table.items():
        order = [r["column_name"] for r in sorted(rs, key=lambda r: r["ordinal_position"])]
        v.check("the columns of a table are in the order given", order == [w[3] for w in want if w[:3] == k] == [r["column_name"] for r in rs])
    for c in cols:
        r = [r for r in rows("columns") if r["column_name"] == c.name and r["column_type"] == c.type]
        v.check("with what else is known about it", len(r) == 1 and r[0]["is_nullable"] == ("YES" if c.is_nullable else "NO")
                and r[0]["column_default"] == c.default and r[0]["column_comment"] == c.comment)
    every = {w[:3] for w in want} | {(c, d, t) for c, ds in declared.items() for d, ts in ds.items() for t in ts}
    v.check("each table is listed once", sorted((r["table_catalog"], r["table_schema"], r["table_name"]) for r in rows("tables")) == sorted(every))
    dbs = {w[:2] for w in every} | {(c, d) for c, ds in declared.items() for d in ds}
    v.check("each database is listed once", sorted((r["catalog_name"], r["schema_name"]) for r in rows("schemata")) == sorted(dbs))
    v.check("the other catalog tables are there, without rows", all(not t.rows for k, t in data.items() if k not in ("columns", "tables", "schemata")))


@unit("C16", "schema.ensure_info_schema schema.InfoSchema.__init__ schema.InfoSchema.from_mapping schema.InfoSchema.query schema.InfoSchema._preprocess "
      "schema._remove_collate schema._execute", concrete=False,
      assumes=["SQLGlot's optimizer, planner and executor answer a query over the tables they are given as SQL says (with the LIKE they are given)"], bounded="three queries")
def query(v):
    """The query of the catalog is executed over the tables of the declared mapping, without collations, with LIKE as in SQL"""
    import sqlglot
    from sqlglot import expressions as x
    m = v.mod("schema")
    declared, tables_, cols = {"db": {"t": {"a": "INT"}}}, {"information_schema": "tables"}, ["columns"]
    asked = []

    def build(columns_, mapping=None):
        v.check("the tables are those of the mapping, with what has no columns", columns_ is cols and mapping is declared)
        return tables_

    def to_columns(mapping):
        v.check("the columns are those of the mapping", mapping is declared)
        return cols
    v.patch(m, "info_schema_tables", build)
    v.patch(m, "mapping_to_columns", to_columns)
    info = m.ensure_info_schema(declared)
    v.check("an application's own implementation is used as it is", m.ensure_info_schema(info) is info)

    class Executor:
        def __init__(self, env=None, tables=None):
            like_ = (env or {}).get("LIKE")
            v.check("LIKE is that of SQL", like_ is not None and like_("ab", "a_") is True and like_("a.", "a_") is True and like_("xab", "a_") is False
                    and like_(None, "a") is None and like_("a", None) is None)
            v.check("the tables are those of the mapping", tables is tables_)

        def execute(self, plan):
            asked.append(plan)

            class R:
                rows, columns = ["rows"], ["names"]
            return R
    v.patch(m, "PythonExecutor", Executor)
    v.patch(m, "ensure_tables", lambda t, **k: t)
    v.patch(m, "optimize", lambda e, schema=None, **k: e)
    v.patch(m, "Plan", lambda e: e)
    sql = v.pick("query", ["SELECT a FROM t", "SELECT a COLLATE utf8_bin FROM t WHERE b COLLATE x LIKE 'a'", "SELECT a FROM t ORDER BY (a COLLATE utf8_general_ci)"])
    e = sqlglot.parse_one(sql, read="mysql")
    want = sqlglot.parse_one(sql.replace(" COLLATE utf8_bin", "").replace(" COLLATE x", "").replace(" COLLATE utf8_general_ci", ""), read="mysql")
    r = run(info.query(e))
    v.check("its result is the answer", list(r[0]) == ["rows"] and list(r[1]) == ["names"])
    v.check("the query is executed, without collations", len(asked) == 1 and not list(asked[0].find_all(x.Collate)) and asked[0].sql() == want.sql())


NAMES = ["t", "T", "order", "select", "a b", "a.b", "a%b", "a_b", "a'b", 'a"b', "ä", "1", "a;b", "--", "a\\b", "", "/*", "information_schema"]


@unit("C16", "schema.com_field_list_to_show_statement", max_paths=20000, bounded="names from a list of difficult ones")
def field_list(v):
    """COM_FIELD_LIST is SHOW COLUMNS of the table of exactly this name, with exactly this pattern"""
    import sqlglot
    from sqlglot import expressions as x
    m, P = v.mod("schema"), v.mod("packets")
    table = v.pick("table", [n for n in NAMES if n and "\\" not in n])  # known: C16-backtick, C16-backslash
    wild = v.pick("wildcard", [n for n in NAMES if "\\" not in n])
    sql = m.com_field_list_to_show_statement(P.ComFieldList(table=table, wildcard=wild))
    es = [e for e in sqlglot.parse(sql, read="mysql") if e]
    v.check("it's one SHOW statement", len(es) == 1 and isinstance(es[0], x.Show) and es[0].name.upper() == "COLUMNS")
    v.check("of the table", es[0].text("target") == table and not es[0].text("db"))
    like_ = es[0].args.get("like")
    v.check("with the pattern", like_ is None if not wild else like_ is not None and like_.name == wild)


# --- which tables a query reads

@unit("C13 C16", "utils.find_tables utils._is_cte_name", max_paths=20000, bounded="WITH of up to 2 CTEs, on two levels, in a query over up to 2 of them")
def ctes(v):
    """The tables of a query are the names in it that no CTE in scope has"""
    import sqlglot
    from sqlglot import expressions as x
    f = v.mod("utils").find_tables
    real = []

    def ref(scope):
        n = v.pick("table", ["a", "B", "db.a", "c"])
        if "." in n or n.lower() not in scope:
            real.append(n.lower())
        return n
    recursive = v.choose(2, "recursive") == 1
    names = ["a", "b"][:v.choose(3, "CTEs")]
    defs = []
    for i, n in enumerate(names):
        scope = {x.lower() for x in (names if recursive else names[:i])}
        defs.append(f"{n} AS (SELECT 1 FROM {ref(scope)})")
    outer = {n.lower() for n in names}
    main = f"SELECT * FROM {ref(outer)}"
    if v.choose(2, "a subquery"):
        inner = v.choose(2, "with its own CTE")
        s2 = outer | ({"c"} if inner else set())
        w = "WITH c AS (SELECT 2 FROM " + ref(outer) + ") " if inner else ""
        main += f" AS m JOIN ({w}SELECT 3 FROM {ref(s2)}) AS s ON 1 = 1"
    sql = (("WITH RECURSIVE " if recursive else "WITH ") + ", ".join(defs) + " " if defs else "") + main
    e = sqlglot.parse_one(sql, read="mysql")
    got = [(t.text("db") + "." if t.text("db") else "") + t.name for t in f(e)]
    v.check("the tables are those that aren't CTEs", sorted(g.lower() for g in got) == sorted(real), sql)
    v.check("they are the query's own", all(isinstance(t, x.Table) and t.root() is e for t in f(e)))
