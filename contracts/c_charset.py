"""charset.py: the tables from collation ids to character sets to codecs, exhaustively, against independent tables"""
import codecs
import sys

from contracts.ghost import Ghostly
from dv.core import unit
from lib.charsets import CODEC, COLLATIONS

SAME = {"utf8": "utf8", "utf8mb3": "utf8"}  # two names of the same character set


class Text(Ghostly):
    """Some text, or bytes: converted by a codec"""

    def __init__(self):
        self.calls = []

    def _convert(self, how, a, kw):
        self.calls.append((how, (list(a) + [kw[k] for k in ("encoding", "errors") if k in kw])))
        return "converted"

    def encode(self, *a, **kw):
        return self._convert("encode", a, kw)

    def decode(self, *a, **kw):
        return self._convert("decode", a, kw)


@unit("C15", "charset.CharacterSet.encode charset.CharacterSet.decode charset.CharacterSet.codec")
def convert(v):
    """Texts and bytes are converted with the codec of the character set, strictly: what has no representation is an error"""
    cs = v.mod("charset").CharacterSet
    for c in cs:
        for how in ("encode", "decode"):
            t = Text()
            r = getattr(c, how)(t)
            v.check(f"{c.name}: {how} converts once", r == "converted" and len(t.calls) == 1 and t.calls[0][0] == how)
            v.check(f"{c.name}: {how} uses its codec, strictly", t.calls[0][1] in ([c.codec], [c.codec, "strict"]))


@unit("C15", "charset.Collation.charset charset.Collation.codec charset.CharacterSet.default_collation")
def collations(v):
    """A collation id stands for the character set that it has in MySQL"""
    m = v.mod("charset")
    for c in m.Collation:
        want = COLLATIONS.get(c.value)
        if want is None:
            continue
        name = SAME.get(want[0], want[0])
        v.check(f"{c.value} is a collation of {name}", c.charset is m.CharacterSet[name])
        v.check(f"{c.value} is {want[1]}", c.name.replace("utf8mb3", "utf8") == want[1].replace("utf8mb3", "utf8"))
        v.check(f"the codec of {c.name} is that of {name}", c.codec == m.CharacterSet[name].codec)
    common = {i for i, (cs, _) in COLLATIONS.items() if CODEC.get(cs) and i < 256 and i in (
        8, 33, 45, 46, 255, 224, 11, 63, 28, 1, 51, 26, 9, 13, 12, 24, 19, 95, 83, 47, 65)}
    v.check("the usual collations are known", common <= {c.value for c in m.Collation})
    for cs in m.CharacterSet:
        d = cs.default_collation
        v.check(f"the default collation of {cs.name} is one of its own", d.charset is cs)


@unit("C15 C05", "charset.CharacterSet.codec charset.CODECS", budget=60,
      assumes=["the codecs of Python convert a text character by character (none of them keeps state)"])
def characters(v):
    """Every character that a character set has arrives as its MySQL code, and back; exhaustive over characters and character sets"""
    m = v.mod("charset")
    for cs in m.CharacterSet:
        want = CODEC.get(cs.name)
        if want is None:
            continue
        try:
            info = codecs.lookup(cs.codec)
        except LookupError:
            info = None
        v.check(f"{cs.name} has a codec", info is not None)
        v.check(f"{cs.name} has MySQL's codes", info.name == codecs.lookup(want).name or same(cs.name, info.name, want))
        for word in ("", "a", "Zz 09_%'\"\\"):
            v.check(f"{cs.name}: {word!r} arrives and comes back",
                    cs.encode(word) == word.encode(want) and cs.decode(word.encode(want)) == word)


def same(name, a, b):
    for i in range(sys.maxunicode + 1):
        if 0xD800 <= i < 0xE000 or 0x80 <= i < 0xA0 and name == "latin1":
            continue
        ch = chr(i)
        try:
            x = ch.encode(b)
        except UnicodeError:
            continue
        try:
            if ch.encode(a) != x or x.decode(b) == ch and x.decode(a) != ch:
                return False
        except UnicodeError:
            return False
    return True


