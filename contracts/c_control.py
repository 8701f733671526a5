"""control.py: connection ids.

Invariant of LocalControl: the keys of the registry are ids of this server, i.e. server_id % 2**16 in the upper half.  The
registry is a dictionary of any size; pigeonhole (a trusted fact about finite sets): fewer than 65536 keys of one server leave
an id free."""
import asyncio

import z3

from dv import sym
from dv.core import term, unit, put
from dv.shadow import Invariant, replace_everywhere
from dv.spec import And, Implies, Not, Or, eq, length, opaque, raises, run, symbolic

N = 1 << 16


class Conns(dict):
    pass


def control_of(v, n_max=None):
    """A LocalControl in any reachable state"""
    m = v.mod("control")
    sid = v.int("server_id", -(1 << 40), 1 << 40)
    c = m.LocalControl(sid)
    prefix = (sid % N) * N
    c._connection_seq.value = v.int("seq", 0, N - 1)
    if symbolic():
        d = sym.SDict("connection")
        k = z3.Int("k")
        v.add(z3.ForAll([k], z3.Implies(d.has(k), z3.And(k >= term(prefix), k < term(prefix) + N)), patterns=[d.has(k)]))
        v.add(z3.And(d.n <= N))
        free = z3.Int("free")
        v.state["free"] = sym.SInt(free)
        # pigeonhole
        v.add(z3.Implies(d.n < N, z3.And(free >= term(prefix), free < term(prefix) + N, z3.Not(d.has(free)))))
        v.add(z3.Implies(d.n == N, z3.ForAll([k], z3.Implies(z3.And(k >= term(prefix), k < term(prefix) + N), d.has(k)))))
        put(c, "_connections", d)
        if v.bounded:
            v.assume(Or(*[Not(has(d, prefix + (c._connection_seq.value + i) % N)) for i in range(4)], d.n >= N))
    else:
        n = v.choose(4, "size")
        start = c._connection_seq.value
        ids = {0: [], 1: [start, start + 1, start + 2], 2: range(start, start + N - 1), 3: range(N)}[n]
        c._connections.update({prefix + i % N: object() for i in ids})
    return c, prefix


def has(d, k):
    return sym.wrap(d.has(term(k))) if isinstance(d, sym.SDict) else k in d


def frame(v, before, after, k):
    """Both registries have the same ids, except perhaps k"""
    if isinstance(after, sym.SDict):
        j = z3.Int("j")
        e = z3.Int("some_id")
        del j
        return sym.wrap(z3.Implies(e != term(k), before(e) == after.has(e)))
    return before - {k} == set(after) - {k}


def before_of(c):
    return c._connections.has if isinstance(c._connections, sym.SDict) else set(c._connections)


def was(before, k):
    return sym.wrap(before(term(k))) if callable(before) else k in before


def _search(c, it):
    """Every id tried so far is taken; what remains until a free one gets smaller"""
    def havoc(c, L):
        me = L.self
        me._connection_seq.value = c.int("seq_in_loop", 0, N - 1)
        prev = (me._connection_seq.value + N - 1) % N
        c.state["cut"] = True
        return {"connection_id": c.state["prefix"] + prev}

    def inv(c, L):
        me = L.self
        s = me._connection_seq.value
        yield "the counter is in range", And(s >= 0, s < N)
        yield "the candidate is the previous number of the sequence", eq(L.connection_id, c.state["prefix"] + (s + N - 1) % N)

    def variant(c, L):
        return (c.state["free"] - L.connection_id) % N if True else 0

    return Invariant(havoc, inv, variant, heap=lambda c, L: [L.self._connection_seq])


@unit("C18 C10", "control.LocalControl.add control.LocalControl._new_connection_id utils.seq.__next__",
      loops={"LocalControl._new_connection_id#0": _search},
      assumes=["pigeonhole: fewer than 65536 registered ids with the server's prefix leave one free"], internal=True)
def add(v):
    m = v.mod("control")
    c, prefix = control_of(v)
    v.state["prefix"] = prefix
    before, n = before_of(c), length(c._connections)
    conn = opaque("conn")
    r = []
    e = raises(lambda: r.append(run(c.add(conn))), m.TooManyConnections)
    if e is not None:
        v.check("only refused when all ids are in use", n >= N)
        k = prefix
        v.check("a refusal changes nothing", And(length(c._connections) == n, frame(v, before, c._connections, -1)))
        return
    k = r[0]
    v.check("the id is of this server", And(k >= prefix, k < prefix + N))
    v.check("the id is a 32 bit number", And(k >= 0, k < 1 << 32))
    v.check("the id isn't that of a live connection", Not(was(before, k)))
    v.check("the connection is registered under its id", And(has(c._connections, k), c._connections[k] is conn))
    v.check("the other registrations are unchanged", frame(v, before, c._connections, k))
    v.check("there is one more", length(c._connections) == n + 1)


@unit("C18 C10", "control.LocalControl.remove", internal=True)
def remove(v):
    c, prefix = control_of(v)
    before = before_of(c)
    k = v.int("id", -1, 1 << 33)
    run(c.remove(k))
    v.check("the connection isn't registered any more", Not(has(c._connections, k)))
    v.check("the other registrations are unchanged", frame(v, before, c._connections, k))


class Conn:
    def __init__(self):
        self.kills = []

    def kill(self, kind):
        self.kills.append(kind)


@unit("C09 C18", "control.LocalControl.kill", internal=True)
def kill(v):
    """Exactly the addressed connection is asked to end, with the given kind; an unknown id changes nothing"""
    kinds = v.mod("constants").KillKind
    m = v.mod("control")
    kind = v.pick("kind", list(kinds))
    a, b = Conn(), Conn()
    c = m.LocalControl(v.int("server_id", 0, N - 1))
    if symbolic():
        d = sym.SDict("connection")
        x = v.int("a", 0, (1 << 32) - 1)
        y = v.int("b", 0, (1 << 32) - 1)
        v.assume(x != y)
        d[x], d[y] = a, b
        put(c, "_connections", d)
        z = v.int("id", -1, 1 << 33)
        v.assume(Or(z == x, z == y, Not(has(d, z))))
    else:
        x, y = v.int("a", 0, (1 << 32) - 1), v.int("b", 0, (1 << 32) - 1)
        v.assume(x != y)
        c._connections.update({x: a, y: b})
        z = v.int("id", -1, 1 << 33)
        if v.choose(2, "hit"):
            z = x
    run(c.kill(z, kind))
    v.check("the addressed connection is killed once, with the kind", Implies(z == x, a.kills == [kind]))
    v.check("another connection isn't", Implies(z != x, a.kills == []))
    v.check("nor is the second", Implies(z != y, b.kills == []))


@unit("C18", "control.LocalControl.__init__", internal=True)
def init(v):
    m = v.mod("control")
    if v.choose(2, "given?"):
        sid = v.int("server_id", -5, 1 << 20)
        c = m.LocalControl(sid)
        v.check("the server id is the configured one", eq(c.server_id, sid))
    else:
        x = v.int("random", 0, N - 1)

        def randint(a, b):
            v.check("a server id of 16 bits is drawn", And(eq(a, 0), eq(b, N - 1)))
            return x
        v.state["stub:random.randint"] = randint
        c = m.LocalControl()
    v.check("no connection is registered at first", length(c._connections) == 0)
    v.check("connection ids wrap around at 16 bits", eq(c._connection_seq.size, N))
