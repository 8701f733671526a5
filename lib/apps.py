"""An application whose results are described by the SQL text itself

    {'c': columns, 'r': rows, 's': source, 'e': error, 'n': declared how} ...
"""
from __future__ import annotations

import ast
import asyncio
from typing import Any, List, Optional

from lib.sim import Session
from mysql_mimic import ColumnType, ResultColumn, ResultSet
from mysql_mimic.errors import ErrorCode, MysqlError


class AIter:
    """An async iterable that isn't a generator"""

    def __init__(self, rows: Any):
        self.rows = iter(rows)

    def __aiter__(self) -> "AIter":
        return self

    async def __anext__(self) -> Any:
        try:
            return next(self.rows)
        except StopIteration:
            raise StopAsyncIteration() from None


class Weird(Exception):
    def __str__(self) -> str:
        return "weird \u2603 \U0001f4a5 \ud800"


ERRORS = {
    "my": lambda: MysqlError("my error", ErrorCode.PARSE_ERROR),
    "code1146": lambda: MysqlError("no such table", 1146),
    "code1": lambda: MysqlError("one", 1),
    "code65535": lambda: MysqlError("many", 65535),
    "plain": lambda: MysqlError("plain"),
    "value": lambda: ValueError("value error"),
    "empty": Exception,
    "key": lambda: KeyError("k"),
    "weird": Weird,
    "long": lambda: Exception("x" * 70000),
    "assert": AssertionError,
    "timeout": lambda: asyncio.TimeoutError(),
    "stop": lambda: StopIteration(),
    "closed": lambda: ConnectionResetError("the app's own connection"),
    "eof": lambda: EOFError(),
    "os": lambda: OSError(5, "io"),
    "incomplete": lambda: asyncio.IncompleteReadError(b"x", 3),
}
SOURCES = ["list", "tuple", "gen", "agen", "slowagen", "aiter", "rs_list", "rs_agen", "iter"]


def cell(i: int, j: int, w: int = 0) -> str:
    return f"{i},{j}" + "." * w


def spec_result(spec: dict) -> Any:
    """spec: c columns, r rows, s source, e error name, at row index of the error (-1: before), n names|typed, w width"""
    c, r, s = spec.get("c", 1), spec.get("r", 1), spec.get("s", "list")
    err, at, w = spec.get("e"), spec.get("at", -1), spec.get("w", 0)
    if err and at < 0:
        raise ERRORS[err]()
    if spec.get("none"):
        return None

    def rows() -> Any:
        for i in range(r):
            if err and i == at:
                raise ERRORS[err]()
            yield tuple(cell(i, j, w) for j in range(c))

    async def arows() -> Any:
        for row in rows():
            if s == "slowagen":
                await asyncio.sleep(0)
            yield row

    src: Any
    if s in ("agen", "slowagen", "rs_agen"):
        src = arows()
    elif s == "aiter":
        src = AIter(rows())
    elif s in ("gen",):
        src = rows()
    elif s == "iter":
        src = map(tuple, rows())
    elif s == "tuple":
        src = tuple(rows())
    else:
        src = list(rows())
    names: List[Any] = [f"c{j}" for j in range(c)]
    if spec.get("n", "names") == "typed" or s.startswith("rs_"):
        names = [ResultColumn(x, ColumnType.VARCHAR) for x in names]
    if s.startswith("rs_"):
        return ResultSet(src, names)
    return src, names


def parse_spec(sql: str) -> Optional[dict]:
    if not sql.startswith("{"):
        return None
    return ast.literal_eval(sql[:sql.index("}") + 1])


class SpecApp(Session):
    SCHEMA = {"db": {"t": {"a": "INT", "b": "TEXT"}, "u": {"x": "INT"}}}

    def __init__(self, log: Optional[list] = None) -> None:
        super().__init__()
        self.calls: list = [] if log is None else log
        self.pending: list = []

    async def handle_query(self, sql: str, attrs: dict) -> Any:
        self.calls.append(("query", sql))
        spec = parse_spec(sql)
        if spec is None:
            return await super().handle_query(sql, attrs)
        if spec.get("y"):
            for _ in range(spec["y"]):
                await asyncio.sleep(0)
        if spec.get("wait"):
            f = asyncio.get_running_loop().create_future()
            self.pending.append(f)
            await f
        return spec_result(spec)

    async def schema(self) -> Any:
        return self.SCHEMA

    async def init(self, connection: Any) -> None:
        await super().init(connection)
        self.calls.append(("init",))

    async def close(self) -> None:
        await super().close()
        self.calls.append(("close",))
