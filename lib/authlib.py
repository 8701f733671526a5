"""Identity providers with a reference model of who may log in with what"""
from __future__ import annotations

import random
from typing import Any, Callable, Dict, List, Optional

from lib import proto as P
from mysql_mimic.auth import (AbstractClearPasswordAuthPlugin, AuthPlugin, Forbidden, IdentityProvider,
                              NativePasswordAuthPlugin, NoLoginAuthPlugin, Success, User)

CONFIGS: list = []


class Account:
    def __init__(self, name: str, plugin: Optional[str], password: Optional[str] = None, old: Optional[str] = None,
                 identity: Optional[str] = None):
        self.name = name
        self.plugin = plugin  # None: the default plugin
        self.password = password
        self.old = old
        self.identity = name if identity is None else identity

    def native_user(self) -> User:
        return User(
            name=self.name,
            auth_plugin=self.plugin,
            auth_string=P.native_auth_string(self.password.encode()) if self.password else None,
            old_auth_string=P.native_auth_string(self.old.encode()) if self.old else None,
        )


def native_ok(acc: Account, nonce: bytes, data: bytes) -> bool:
    if not acc.password and not data:
        return True
    for pw in (acc.password, acc.old):
        if pw and data[:20] == P.native_scramble(pw.encode(), nonce.rstrip(b"\0")):
            return True
    return False


class Clear(AbstractClearPasswordAuthPlugin):
    name = "clear"

    def __init__(self, cfg: "Config"):
        self.cfg = cfg

    async def check(self, username: str, password: str) -> Optional[str]:
        self.cfg.maybe_break("check", username)
        a = self.cfg.users.get(username)
        if a and a.password is not None and a.password == password:
            return a.identity
        return None


class TwoStep(AuthPlugin):
    """Wants the password, then the password again"""

    name = "two_step"
    client_plugin_name = "two_step_client"

    def __init__(self, cfg: "Config"):
        self.cfg = cfg

    async def auth(self, auth_info: Any = None) -> Any:
        if not auth_info:
            auth_info = yield b"first" * 4 + b"\0"
        a = self.cfg.users.get(auth_info.username)
        one = auth_info.data
        auth_info = yield b"again"
        self.cfg.maybe_break("auth", auth_info.username)
        want = (a.password or "").encode() + b"\0" if a else None
        if a and a.name == auth_info.username and one == want and auth_info.data == want:
            yield Success(a.identity)
        else:
            yield Forbidden("two_step says no")


class AnyClient(AuthPlugin):
    """Works with every client plugin; looks at nothing but the user name"""

    name = "any"

    def __init__(self, cfg: "Config"):
        self.cfg = cfg

    async def auth(self, auth_info: Any = None) -> Any:
        if not auth_info:
            auth_info = yield b"0" * 20 + b"\0"
        self.cfg.maybe_break("auth", auth_info.username)
        if auth_info.username.startswith("any"):
            yield Success(self.cfg.users[auth_info.username].identity)
        else:
            yield Forbidden()


class Provider(IdentityProvider):
    def __init__(self, cfg: "Config"):
        self.cfg = cfg

    def get_plugins(self) -> Any:
        return self.cfg.plugin_list()

    async def get_user(self, username: str) -> Optional[User]:
        self.cfg.maybe_break("get_user", username)
        a = self.cfg.users.get(username)
        if not a:
            return User(name=username, auth_plugin="two_step") if username == "broken" else None
        return a.native_user()


class Config:
    def __init__(self, order: List[str], users: List[Account], cached: bool):
        self.order = order
        self.users: Dict[str, Account] = {u.name: u for u in users}
        self.cached: Optional[list] = None
        self.use_cache = cached
        self.broken: Optional[tuple] = None
        self.provider = Provider(self)

    def plugin_list(self) -> list:
        if self.use_cache and self.cached is not None:
            return self.cached
        make: Dict[str, Callable] = {
            "mysql_native_password": NativePasswordAuthPlugin,
            "mysql_no_login": NoLoginAuthPlugin,
            "clear": lambda: Clear(self),
            "two_step": lambda: TwoStep(self),
            "any": lambda: AnyClient(self),
        }
        self.cached = [make[k]() for k in self.order]
        return self.cached

    def break_at(self, where: str, when: Callable) -> None:
        self.broken = (where, when)
        if where != "get_user":
            self.users["broken"] = Account("broken", {"check": "clear", "auth": "any"}[where], "pw")

    def maybe_break(self, where: str, name: str) -> None:
        if self.broken and self.broken[0] == where and self.broken[1](name):
            raise ValueError("broken provider")

    def plugin_of(self, acc: Account) -> str:
        return acc.plugin if acc.plugin in self.order else self.order[0]

    def may_be(self, identity: str) -> bool:
        return any(a.identity == identity and self.plugin_of(a) != "mysql_no_login" for a in self.users.values())

    def pick(self, rng: random.Random) -> Optional[Account]:
        if rng.random() < 0.1:
            return None
        return rng.choice(list(self.users.values()))

    def any_good(self) -> Account:
        return self.users["plain"]

    def entitled(self, acc: Optional[Account], plugin: bytes, nonce: bytes, data: bytes) -> bool:
        """May this response, made for this challenge, be accepted for the account?"""
        if acc is None:
            return False
        p = self.plugin_of(acc)
        if p == "mysql_native_password":
            return native_ok(acc, nonce, data)
        if p == "clear":
            # the packet must be NUL terminated; what follows is not part of the password
            return acc.password is not None and b"\0" in data and data.split(b"\0")[0] == acc.password.encode()
        if p == "two_step":
            return data == (acc.password or "").encode() + b"\0"
        if p == "any":
            return acc.name.startswith("any")
        return False

    def respond(self, kind: str, rng: random.Random, acc: Optional[Account], plugin: bytes, nonce: bytes,
                answer: Callable) -> bytes:
        p = self.plugin_of(acc) if acc else ""
        if plugin == b"more" and p == "mysql_native_password":
            plugin = b"mysql_native_password"
        nonce = nonce.rstrip(b"\0")
        if p == "two_step" and kind != "good":
            plugin = b"clear"
        return answer(kind, rng, acc, nonce, plugin)

    def login(self, c: Any, acc: Account) -> None:
        """Log in with the right credentials, whatever the server asks for"""
        hs = c.hs or c.greet()
        c.caps = c.want_caps & hs.caps
        p = self.plugin_of(acc)
        pw = (acc.password or "").encode()
        client = {"mysql_native_password": b"mysql_native_password", "clear": b"mysql_clear_password",
                  "two_step": b"two_step_client", "any": b"x"}[p]
        data = P.native_scramble(pw, hs.nonce.rstrip(b"\0")) if p == "mysql_native_password" else pw + b"\0"
        c.send(P.handshake_response(c.caps, acc.name.encode(), data, 45, None, client))
        c.sim.settle()
        for _ in range(4):
            r = c.expect()
            if r[0] == 0:
                c.quiet()
                return
            if r[0] == 0xFF:
                raise P.ProtocolError(f"login of {acc.name} with the right credentials failed: {r!r}")
            if r[0] == 0xFE:
                x = P.R(r)
                x.take(1)
                name, nonce = x.znull(), x.rest()
            else:
                name, nonce = client, r[1:]
            c.send(P.native_scramble(pw, nonce.rstrip(b"\0")) if name == b"mysql_native_password" else pw + b"\0")
            c.sim.settle()


Users = Dict[str, Account]


def config(rng: random.Random, reachable: bool = False) -> Config:
    order = ["mysql_native_password", "mysql_no_login", "clear", "two_step", "any"]
    rng.shuffle(order)
    if rng.random() < 0.4:
        order.remove("mysql_native_password")
        order.insert(0, "mysql_native_password")
    users = [
        Account("plain", "mysql_native_password", rng.choice([None, "pw", "p\u00e4ss"])),
        Account("two", "mysql_native_password", "new", "old"),
        Account("empty", "mysql_native_password"),
        Account("clr", "clear", rng.choice(["pw", "", "\u00fcber pw"])),
        Account("proxy", "clear", "pw", identity="the proxied"),
        Account("steps", "two_step", "pw"),
        Account("any1", "any"),
        Account("anyproxy", "any", identity="somebody"),
        Account("anyguest", "any", identity=""),
        Account("guest", "clear", "pw", identity=""),
        Account("locked", "mysql_no_login"),
        Account("lockedpw", "mysql_no_login", "pw"),
        Account("gone", "no_such_plugin", "pw"),
        Account("dflt", None, "pw"),
    ]
    return Config(order, users, rng.random() < 0.5)
