"""Regular expressions over symbolic texts: a pattern without unbounded repetition stands for a finite set of sequences of
character classes, in the order in which Python tries them"""
import re as real_re
import re._constants as sc  # type: ignore
import re._parser as sre  # type: ignore
import sys
from typing import Any, Dict, List, Tuple

import z3

from dv.core import Unsupported, ctx, term
from dv.sym import SInt, SStr, Symbolic, is_sym, num, wrap

Ranges = Tuple[Tuple[int, int], ...]
_CLASS: Dict[Tuple[str, int], Ranges] = {}
LIMIT = 2000


def by_regex(cls: str, flags: int) -> Ranges:
    """The characters of a class such as \\d, according to Python itself"""
    key = (cls, flags & (real_re.ASCII | real_re.IGNORECASE | real_re.DOTALL))
    if key not in _CLASS:
        p = real_re.compile(cls, key[1])
        out: List[List[int]] = []
        for i in range(sys.maxunicode + 1):
            if p.fullmatch(chr(i)):
                if out and out[-1][1] == i - 1:
                    out[-1][1] = i
                else:
                    out.append([i, i])
        _CLASS[key] = tuple((a, b) for a, b in out)
    return _CLASS[key]


CATEGORY = {sc.CATEGORY_DIGIT: r"\d", sc.CATEGORY_NOT_DIGIT: r"\D", sc.CATEGORY_SPACE: r"\s", sc.CATEGORY_NOT_SPACE: r"\S",
            sc.CATEGORY_WORD: r"\w", sc.CATEGORY_NOT_WORD: r"\W"}


def char_class(op: Any, av: Any, flags: int) -> Ranges:
    if op is sc.LITERAL:
        if flags & real_re.IGNORECASE:
            return by_regex(real_re.escape(chr(av)), flags)
        return ((av, av),)
    if op is sc.ANY:
        return by_regex(".", flags)
    if op is sc.NOT_LITERAL:
        return by_regex("[^" + real_re.escape(chr(av)) + "]", flags)
    if op is sc.IN:
        if flags & real_re.IGNORECASE or av and av[0][0] is sc.NEGATE:
            raise Unsupported("a character class of a regular expression")
        out: List[Tuple[int, int]] = []
        for o, a in av:
            if o is sc.LITERAL:
                out.append((a, a))
            elif o is sc.RANGE:
                out.append(a)
            elif o is sc.CATEGORY:
                out.extend(by_regex(CATEGORY[a], flags))
            else:
                raise Unsupported("a character class of a regular expression")
        return tuple(out)
    raise Unsupported(f"a regular expression with {op}")


Alt = Tuple[Tuple[Ranges, ...], Tuple[Tuple[int, int, int], ...]]  # characters; (group, start, end)


def expand(items: Any, flags: int) -> List[Alt]:
    alts: List[Alt] = [((), ())]
    for op, av in items:
        if op is sc.SUBPATTERN:
            group, add, drop, sub = av
            inner = expand(sub, (flags | add) & ~drop)
            opts = [(cs, gs + (((group, 0, len(cs)),) if group is not None else ())) for cs, gs in inner]
        elif op is sc.BRANCH:
            opts = [x for sub in av[1] for x in expand(sub, flags)]
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            if hi is sc.MAXREPEAT or hi > 20:
                raise Unsupported("a regular expression with unbounded repetition")
            once = expand(sub, flags)
            rep: Dict[int, List[Alt]] = {0: [((), ())]}
            for n in range(1, hi + 1):
                rep[n] = [join(a, b) for a in rep[n - 1] for b in once]
            order = range(hi, lo - 1, -1) if op is sc.MAX_REPEAT else range(lo, hi + 1)
            opts = [x for n in order for x in rep[n]]
        else:
            opts = [((char_class(op, av, flags),), ())]
        alts = [join(a, b) for a in alts for b in opts]
        if len(alts) > LIMIT:
            raise Unsupported("a regular expression with too many alternatives")
    return alts


def join(a: Alt, b: Alt) -> Alt:
    n = len(a[0])
    return a[0] + b[0], a[1] + tuple((g, s + n, e + n) for g, s, e in b[1])


class SPattern:
    """A compiled pattern"""

    def __init__(self, p: Any):
        self._p = p

    def __getattr__(self, name: str) -> Any:
        return getattr(self._p, name)

    def _match(self, s: SStr, whole: bool) -> Any:
        c = ctx()
        n = s._len_term()
        for cs, groups in expand(sre.parse(self._p.pattern, self._p.flags & ~real_re.UNICODE if self._p.flags & real_re.ASCII else self._p.flags), self._p.flags):
            size = n == len(cs) if whole else n >= len(cs)
            conds = [size] + [z3.Or([z3.And(s._at(z3.IntVal(i)) >= a, s._at(z3.IntVal(i)) <= b) for a, b in r] or [z3.BoolVal(False)])
                              for i, r in enumerate(cs)]
            if c.branch(z3.And(conds)):
                return SMatch(self._p, s, (0, len(cs)), {g: (a, b) for g, a, b in groups})
        return None

    def fullmatch(self, s: Any, *a: Any) -> Any:
        return self._match(s, True) if is_sym(s) and not a else self._p.fullmatch(s, *a)

    def match(self, s: Any, *a: Any) -> Any:
        return self._match(s, False) if is_sym(s) and not a else self._p.match(s, *a)

    def _no(self, name: str) -> Any:
        def f(*a: Any, **k: Any) -> Any:
            if any(is_sym(x) for x in a):
                raise Unsupported(f"Pattern.{name}")
            return getattr(self._p, name)(*a, **k)
        f._dv_ok__ = True  # type: ignore[attr-defined]
        return f

    @property
    def search(self) -> Any:
        return self._no("search")

    @property
    def sub(self) -> Any:
        return self._no("sub")

    @property
    def findall(self) -> Any:
        return self._no("findall")


class SMatch(Symbolic):
    __slots__ = ("p", "s", "spans")

    def __init__(self, p: Any, s: SStr, whole: Tuple[int, int], spans: Dict[int, Tuple[int, int]]):
        self.p, self.s, self.spans = p, s, {**spans, 0: whole}

    def __bool__(self) -> bool:
        return True

    def group(self, *names: Any) -> Any:
        out = []
        for g in names or (0,):
            span = self.spans.get(self.p.groupindex[g] if isinstance(g, str) else g)
            out.append(None if span is None else self.s[span[0]:span[1]])
        return out[0] if len(out) == 1 else tuple(out)

    def __getitem__(self, g: Any) -> Any:
        return self.group(g)

    def groups(self) -> Any:
        return tuple(self.group(i) for i in range(1, self.p.groups + 1))

    def groupdict(self) -> Any:
        return {k: self.group(k) for k in self.p.groupindex}


def compile_(p: Any, flags: Any = 0) -> SPattern:
    return p if isinstance(p, SPattern) else SPattern(real_re.compile(p, flags))


def _fn(name: str) -> Any:
    def f(p: Any, s: Any, flags: Any = 0) -> Any:
        return getattr(compile_(p, flags), name)(s)
    f._dv_ok__ = True  # type: ignore[attr-defined]
    return f


def digits(s: SStr) -> Any:
    """int() of a text of a few characters that are all known to be ASCII digits"""
    c, total = ctx(), z3.IntVal(0)
    n = num(s._len_term())
    if n is None:
        n = next((k for k in range(1, 7) if c.entails(s._len_term() == k)), None)
    if n is None or not 0 < n <= 18:
        raise Unsupported("int() of a text")
    for i in range(n):
        d = s._at(z3.IntVal(i))
        if not c.entails(z3.And(d >= 48, d <= 57)):
            if c.entails(z3.Or([z3.And(d >= a, d <= b) for a, b in by_regex(r"\d", 0)])):
                # a digit of another script: of some value
                other = z3.Int(c.fresh_name("digit"))
                c.add(z3.And(other >= 0, other <= 9))
                total = total * 10 + other
                continue
            raise Unsupported("int() of a text that may have other characters")
        total = total * 10 + (d - 48)
    return SInt(total)


OVERRIDES = {"compile": compile_, "fullmatch": _fn("fullmatch"), "match": _fn("match")}
__all__ = ["OVERRIDES", "SMatch", "SPattern", "digits", "term", "wrap"]
