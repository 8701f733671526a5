"""auth.py: plugins accept exactly what they must. SHA-1 is an unspecified function (trusted: hashlib), no collisions are assumed"""
import hashlib

import z3

from contracts.ghost import Ghostly
from dv import shadow, sym
from dv.core import Skip, Unsupported, term, unit
from dv.spec import And, Implies, Not, Or, cat, eq, length, run, symbolic
from dv.sym import SBytes


def sha1(b):
    return shadow.sha1_(b).digest()


def first(b, n):
    return b[:n]


def xored(a, b, n):
    """Pointwise XOR of the first n bytes"""
    if bool(eq(n, 0)):
        return b""
    if symbolic() and (sym.is_sym(a) or sym.is_sym(b) or sym.is_sym(n)):
        return sym.xor_bytes(SBytes.of(a), SBytes.of(b), sym.simp(term(n)))
    return bytes(x ^ y for x, y in zip(a[:n], b[:n]))


def smaller(a, b):
    return a if bool(a <= b) else b


@unit("C02", "utils.xor")
def xor(v):
    """Byte by byte, as long as the shorter one"""
    a, b = v.bytes("a"), v.bytes("b")
    r = v.mod("utils").xor(a, b)
    n = smaller(length(a), length(b))
    v.check("as long as the shorter", eq(length(r), n))
    v.check("byte by byte", eq(r, xored(first(a, n), first(b, n), n)))


def plugin(v):
    return v.mod("auth").NativePasswordAuthPlugin()


def stored(v, name):
    """The auth string of an account, and the bytes it denotes, or None"""
    kind = v.pick(name, ["none", "empty", "hex", "not hex"])
    if kind == "none":
        return None, b""
    if kind == "empty":
        return "", b""
    if not symbolic():
        b = v.bytes(name + "_bytes")
        return (b.hex(), b) if kind == "hex" and b else ("zz", None)
    if kind == "hex":
        b = v.bytes(name + "_bytes", minlen=1)
        return shadow.SHexText(b), b
    return v.pick("odd", ["zz", "0", "é"]), None


@unit("C02 C07", "auth.NativePasswordAuthPlugin.verify_scramble utils.xor", weight=2)
def verify_scramble(v):
    """Accepted iff SHA1(response XOR SHA1(nonce + stored)) = stored; never raises"""
    s, b = stored(v, "stored")
    data, nonce = v.bytes("data"), v.bytes("nonce")
    r = plugin(v).verify_scramble(s, data, nonce)
    if b is None:
        v.check("an account whose secret is no hash accepts nothing", Not(r))
        return
    key = sha1(cat(nonce, b))
    n = smaller(length(data), 20)
    expected = eq(sha1(xored(first(data, n), first(key, n), n)), b)
    v.check("accepted iff the response proves the secret", And(Implies(r, expected), Implies(expected, r)))
    if s in (None, "") if not symbolic() or not sym.is_sym(s) else False:
        v.check("no secret, nothing accepted", Not(r))


@unit("C02", "auth.NativePasswordAuthPlugin.password_matches auth.NativePasswordAuthPlugin.verify_scramble auth.NativePasswordAuthPlugin.create_auth_string utils.xor", weight=2)
def scramble(v):
    """The scramble of the current or the secondary password is accepted, and whatever is accepted is one (if SHA-1 has no collisions)"""
    m = v.mod("auth")
    p = plugin(v)
    pw, nonce = v.text("password"), v.bytes("nonce")
    user = m.User(name="u")
    try:
        hashed = p.create_auth_string(pw)
        pwb = pw.encode("utf-8")
    except UnicodeError:
        raise Skip() from None
    one = sha1(pwb)
    two = sha1(one)
    which = v.pick("which", ["current", "secondary", "both"])
    other = v.pick("other", [None, ""])
    user.auth_string = other if which == "secondary" else hashed
    user.old_auth_string = other if which == "current" else hashed
    good = xored(one, sha1(cat(nonce, two)), 20)
    if v.choose(2, "the right response?"):
        v.check("the scramble is accepted", p.password_matches(user=user, scramble=good, nonce=nonce))
        return
    if symbolic():
        v.end()  # see verify_scramble and only_the_scramble
    data = v.bytes("data")
    r = p.password_matches(user=user, scramble=data, nonce=nonce)
    if r and (data or user.auth_string):
        v.check("only the scramble is accepted", data[:20] == good)


@unit("C02", "", concrete=False)
def only_the_scramble(v):
    """Lemma: if SHA-1 has no collisions, what proves SHA1(SHA1(password)) (see verify_scramble) is SHA1(password), so each byte of
    the response is that of the scramble"""
    data, key, one = (v.int(n, 0, 255) for n in ("response", "key", "sha1_of_password"))
    x = lambda a, b: sym.wrap(sym.xor_fn(term(a), term(b)))
    v.add(term(eq(x(data, key), one)))
    v.check("the response is the scramble", eq(data, x(one, key)))


@unit("C02", "auth.NativePasswordAuthPlugin.password_matches auth.NativePasswordAuthPlugin.empty_password_quickpath", concrete=False)
def password_matches(v):
    """Accepted iff it proves the current or the secondary secret, or is empty for an account without secret"""
    m, p = v.mod("auth"), plugin(v)
    a, b = v.pick("current", [None, "", "aa"]), v.pick("secondary", [None, "", "bb"])
    data, nonce = v.bytes("data"), v.bytes("nonce")
    proves = {x: v.bool(f"proves {x}") if x else False for x in {a, b}}

    def verify(self, auth_string, scramble, nonce_):
        v.check("the response is verified under the nonce", And(scramble is data, nonce_ is nonce))
        return proves[auth_string]
    v.patch(m.NativePasswordAuthPlugin, "verify_scramble", verify)
    r = p.password_matches(user=m.User(name="u", auth_string=a, old_auth_string=b), scramble=data, nonce=nonce)
    r = r if sym.is_sym(r) else bool(r)
    expected = Or(proves[a], proves[b], And(eq(length(data), 0), not a))
    v.check("accepted iff a secret is proved", And(Implies(r, expected), Implies(expected, r)))


@unit("C02", "utils.nonce", concrete=False)
def nonce(v):
    """20 bytes without NUL, each drawn afresh from the system's randomness"""
    u = v.mod("utils")
    draws = []

    class SystemRandom(Ghostly):
        def choice(self, seq):
            v.check("from letters and digits", len(seq) >= 10 and all(48 <= c <= 122 for c in seq))
            x = v.int("draw", values=sorted(set(seq)))
            draws.append(x)
            return x
    v.state["stub:random.SystemRandom"] = lambda *a: SystemRandom()
    a = u.nonce(20)
    v.check("20 bytes", eq(length(a), 20))
    v.check("each is drawn afresh", And(len(draws) == 20, *[eq(a[i], draws[i]) for i in range(20)]))
    v.check("none is NUL", And(*[Not(eq(a[i], 0)) for i in range(20)]))
    u.nonce(20)
    v.check("nothing is reused", len(draws) == 40)


def info(v, **k):
    m = v.mod("auth")
    user = m.User(name=v.text("account"), auth_string="aa")
    f = dict(username=v.text("username"), data=v.bytes("data"), user=user, connect_attrs={}, client_plugin_name=None, handshake_auth_data=None, handshake_plugin_name="x")
    f.update(k)
    return m.AuthInfo(**f)


@unit("C01 C02", "auth.NativePasswordAuthPlugin.auth auth.AuthPlugin.start", concrete=False)
def native(v):
    """A proof is checked once, under the nonce that was sent for it: a new one, or that of the handshake if it was this plugin's"""
    m, u, p = v.mod("auth"), v.mod("utils"), plugin(v)
    issued, asked = [], []

    def nonce(n):
        v.check("20 bytes", n == 20)
        issued.append(v.bytes("nonce", length=20, nonul=True))
        return issued[-1]
    v.patch(u, "nonce", nonce)
    verdict = v.bool("matches")

    def matches(self, user, scramble, nonce):
        asked.append((user, scramble, nonce))
        return verdict
    v.patch(m.NativePasswordAuthPlugin, "password_matches", matches)
    how = v.pick("begins", ["handshake", "switch", "reuse", "another plugin", "no handshake data"])
    if how in ("handshake", "switch"):
        i = None
    else:
        old = v.bytes("old", length=20, nonul=True)
        data = cat(old, b"\0")
        i = info(v, handshake_plugin_name=v.text("plugin") if how == "another plugin" else p.name, handshake_auth_data=None if how == "no handshake data" else data)
        if how == "another plugin":
            v.assume(Not(eq(i.handshake_plugin_name, p.name)))
    d, state = shadow.drive(p.start(i))
    if how == "reuse":
        v.check("no new nonce", not issued)
        used = old
    else:
        v.check("a new nonce", len(issued) == 1 and not asked)
        v.check("the nonce is sent, then NUL", eq(d, cat(issued[0], b"\0")))
        used = issued[0]
        i = info(v)
        d = shadow.drive(state.asend(i))
    v.check("one proof", len(asked) == 1)
    v.check("the proof is for the account, by the client, under the nonce", And(asked[0][0] is i.user, asked[0][1] is i.data, eq(asked[0][2], used)))
    if isinstance(d, m.Success):
        v.check("accepted only with a proof", verdict)
        v.check("the account's name", d.authenticated_as is i.user.name)
    else:
        v.check("refused only without", And(isinstance(d, m.Forbidden), Not(verdict)))


@unit("C01 C02", "auth.AbstractClearPasswordAuthPlugin.auth", concrete=False)
def clear(v):
    """Accepts exactly as the application's check of what was transmitted"""
    m = v.mod("auth")
    asked = []
    who = v.pick("check", [None, "somebody", ""])

    class Plugin(m.AbstractClearPasswordAuthPlugin):
        async def check(self, username, password):
            asked.append((username, password))
            return who
    p = Plugin()
    pw = v.bytes("password", nonul=True)
    i = info(v, data=cat(pw, b"\0", v.bytes("rest")))
    try:
        if v.choose(2, "after a filler?"):
            d, state = shadow.drive(p.start(None))
            v.check("nothing is decided without the client", isinstance(d, bytes) and not asked)
            d = shadow.drive(state.asend(i))
        else:
            d, state = shadow.drive(p.start(i))
    except UnicodeError:
        v.check("a password that's no text isn't accepted", not asked)
        return
    v.check("the application's check is asked once", len(asked) == 1)
    v.check("about this user", asked[0][0] is i.username)
    v.check("and the transmitted password", eq(asked[0][1].encode("utf-8"), pw))
    if who is None:
        v.check("refused if the check refuses", isinstance(d, m.Forbidden))
    else:
        v.check("accepted as whom the check says", isinstance(d, m.Success) and d.authenticated_as is who)


@unit("C01 C02", "auth.NoLoginAuthPlugin.auth auth.AuthPlugin.auth", concrete=False)
def no_login(v):
    """Never accepts"""
    m = v.mod("auth")
    p = v.pick("plugin", [m.NoLoginAuthPlugin, m.AuthPlugin])()
    d, state = shadow.drive(p.start(None if v.choose(2, "filler?") else info(v)))
    for _ in range(3):
        v.check("not accepted", not isinstance(d, m.Success))
        if isinstance(d, m.Forbidden):
            break
        d = shadow.drive(state.asend(info(v)))
    v.check("refused", isinstance(d, m.Forbidden))


class PluginName(sym.Symbolic):
    """The name of a plugin, or the one wanted: two are equal or not"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return sym.wrap(self.t == o.t) if isinstance(o, PluginName) else False

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = sym.Symbolic.__hash__


@unit("C01 C02", "auth.IdentityProvider.get_user auth.IdentityProvider.get_plugins auth.SimpleIdentityProvider.get_user auth.AbstractClearPasswordAuthPlugin.check")
def providers(v):
    """What comes with the library: no account at all, or those that are asked for, which are never other accounts"""
    m = v.mod("auth")
    name, password = v.text("name"), v.text("password")
    p = m.IdentityProvider()
    v.check("no account", run(p.get_user(name)) is None)
    ps = list(p.get_plugins())
    v.check("passwords, or no login", [type(x) for x in ps] == [m.NativePasswordAuthPlugin, m.NoLoginAuthPlugin])
    u = run(m.SimpleIdentityProvider().get_user(name))
    v.check("the account of that name", eq(u.name, name))
    v.check("which needs what it says", u.auth_plugin == m.NativePasswordAuthPlugin.name and not u.auth_string and not u.old_auth_string)

    class Clear(m.AbstractClearPasswordAuthPlugin):
        name = "clear"
    r = run(Clear().check(name, password))
    v.check("nobody is let in as somebody else", r is None or eq(r, name))


@unit("C02", "auth.IdentityProvider.get_plugin auth.IdentityProvider.get_default_plugin")
def get_plugin(v):
    """The first plugin of that name, or None; the default is the first; for any number of plugins with any names"""
    m = v.mod("auth")

    class P(Ghostly):
        _mutable = False

        def __init__(self, i, name):
            self.i, self.name = i, name

    if symbolic():
        n = v.int("plugins", 1)
        names = z3.Function("name of plugin", z3.IntSort(), z3.IntSort())
        ps = sym.SList(term(n), lambda i: P(sym.wrap(i), PluginName(names(term(i)))))
        name = PluginName(term(v.int("wanted")))
    else:
        ps = [P(i, v.pick("name", ["a", "b", "c", "A", ""])) for i in range(v.int("plugins", 1, 6))]
        n, name = len(ps), v.pick("wanted", ["a", "b", "c", "A", ""])

    class Provider(m.IdentityProvider):
        def get_plugins(self):
            return ps
    pr = Provider()
    v.check("the default is the first", eq(pr.get_default_plugin().i, 0))
    r = pr.get_plugin(name)
    i = v.int("position", 0, None if symbolic() else 5)
    if not i < n:
        return
    if r is None:
        v.check("None only if no plugin has the name", Not(ps[i].name == name))
        return
    v.check("it has the name", And(r.name == name, r.i < n))
    if i < r.i:
        v.check("none before it has", Not(ps[i].name == name))


@unit("C01 C02", "auth.KerberosAuthPlugin.auth auth.KerberosAuthPlugin.__init__",
      assumes=["gssapi: SecurityContext.step accepts a token iff it is the client's for this service, and initiator_name is who sent it; names of services "
               "and realms are ASCII"])
def kerberos(v):
    """Accepted iff GSSAPI accepts what the client sent for this service, as the principal it names, which is the claimed one; for all
    principals, claims and tokens"""
    import sys
    import types
    m = v.mod("auth")
    principal = v.text("principal") if symbolic() else v.pick("principal", ["alice@REALM", "alice", "bob@REALM", "alice@X@Y", "", "@R", "bob@alice"])
    claimed = v.text("claimed") if symbolic() else v.pick("claimed", ["alice", "bob", "a", "alice@REALM"])
    v.assume(length(claimed) > 0)
    token = v.bytes("token", maxlen=None if symbolic() else 20)
    refused = v.choose(2, "is the token refused?") == 1
    st = {"accepted": 0, "creds": None}

    class GSSError(Exception):
        pass

    class Context:
        complete = True

        def __init__(self, usage=None, creds=None):
            st["creds"] = (usage, creds)

        def step(self, data):
            v.check("what the client sent is judged, as this service", And(eq(data, token), st["creds"] == (
                "accept", ("creds", "accept", ("name", "svc@REALM")))))
            if refused:
                raise GSSError("refused")
            st["accepted"] += 1

        @property
        def initiator_name(self):
            v.check("the name is asked for when the token was accepted", st["accepted"] == 1)
            return principal

    g, ge = types.ModuleType("gssapi"), types.ModuleType("gssapi.exceptions")
    g.Credentials = lambda usage=None, name=None: ("creds", usage, name)
    g.Name = lambda n, *a: ("name", n)
    g.SecurityContext, ge.GSSError, g.exceptions = Context, GSSError, ge
    for f in (g.Credentials, g.Name):
        f._dv_ok__ = True
    old = {k: sys.modules.get(k) for k in ("gssapi", "gssapi.exceptions")}
    sys.modules.update({"gssapi": g, "gssapi.exceptions": ge})
    try:
        p = m.KerberosAuthPlugin("svc", "REALM")

        def info(data):
            return m.AuthInfo(username=claimed, data=data, user=m.User(claimed), connect_attrs={}, client_plugin_name="x",
                              handshake_auth_data=None, handshake_plugin_name="x")
        started = v.choose(2, "with what the handshake had") == 1
        gen = p.auth(info(b"early") if started else None)
        first = run(gen.__anext__())
        if not started:
            v.check("no proof is needed yet", first == b"")
            first = run(gen.asend(info(b"later")))
        v.check("the service is announced", first == b"\3\0svc\5\0REALM")
        got = run(gen.asend(info(token)))
    finally:
        for k, x in old.items():
            if x is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = x
    at_ = principal.find("@")
    who = principal if at_ < 0 else principal[:at_]
    if isinstance(got, m.Success):
        v.check("accepted only if the token is, from the user who is claimed", And(not refused, eq(who, claimed)))
        v.check("the user is the one GSSAPI names", eq(got.authenticated_as, who))
    else:
        v.check("refused only if the token is, or is another's", And(isinstance(got, m.Forbidden), Or(refused, Not(eq(who, claimed)))))
