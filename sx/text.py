"""Methods of symbolic text and bytes that work character by character.

Case mappings and character classes of Unicode are turned into runs (first, last, step) and become z3
expressions over the character, so nothing is enumerated.
"""
import z3
from . import core
from .core import (SymStr, _Seq, Unsupported, mkstr, mkbool, mkcell, cellbits, scells, bcells, c_eqcells, c_eqbits,
                   c_or, c_and, c_not, to_z3, expr_bits, widen, _isint, CELL0)

_MAPS = {}
_CLASSES = {}


def _runs(points):
    """sorted points as (first, last, step) with step 1 or 2"""
    out = []
    for p in points:
        if out:
            a, b, s = out[-1]
            if s == 0 and p - b in (1, 2):
                out[-1] = (a, p, p - b)
                continue
            if s and p - b == s:
                out[-1] = (a, p, s)
                continue
        out.append((p, p, 0))
    return [(a, b, s or 1) for a, b, s in out]


def _map(name, limit):
    """({delta: runs}, {char: text} of characters that become several)"""
    m = _MAPS.get((name, limit))
    if m is None:
        by, special = {}, {}
        f = getattr(str, name)
        for i in range(limit):
            if 0xD800 <= i < 0xE000:
                continue
            s = f(chr(i))
            if len(s) != 1:
                special[i] = s
            elif ord(s) != i:
                by.setdefault(ord(s) - i, []).append(i)
        m = _MAPS[name, limit] = {d: _runs(v) for d, v in by.items()}, special
    return m


def _class(name, limit):
    m = _CLASSES.get((name, limit))
    if m is None:
        f = getattr(str, name)
        m = _CLASSES[name, limit] = _runs([i for i in range(limit) if f(chr(i))])
    return m


def _in(x, runs):
    w = x.size()
    out = []
    for a, b, s in runs:
        if a >= 1 << w:
            continue
        if a == b:
            out.append(x == a)
            continue
        c = [z3.UGE(x, a), z3.ULE(x, min(b, (1 << w) - 1))]
        if s == 2:
            c.append(z3.Extract(0, 0, x) == (a & 1))
        out.append(z3.And(*c))
    return z3.Or(*out) if out else z3.BoolVal(False)


def _limit(n):
    return min(1 << n, 0x110000)


def _cond(b):
    """condition of a z3 truth value"""
    bit = expr_bits(z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))
    return c_eqbits(bit, (1,))


def mapped(c, name):
    """cells of the mapped character"""
    if c < CELL0:
        return tuple(map(ord, getattr(str, name)(chr(c))))
    nib = core.cell_nibble(c)
    if nib is not None and name in ("lower", "casefold"):
        return (c,)
    bits = cellbits(c)
    if nib is not None or core._lt_const(c, 128):
        n = 7
    else:
        n = min(len(bits), 21)
    by, special = _map(name, _limit(n))
    bits = widen(bits, 0, n)[:n]
    x = to_z3(bits)
    for k in special:
        if core.E.decide(c_eqbits(bits, tuple((k >> i) & 1 for i in range(n)))):
            return tuple(map(ord, special[k]))
    d = z3.BitVecVal(0, 22)
    for delta, runs in by.items():
        d = z3.If(_in(x, runs), z3.BitVecVal(delta & 0x3fffff, 22), d)
    out = expr_bits(z3.ZeroExt(22 - n, x) + d)
    return (mkcell(out[:8 if n == 7 else 21]),)


def belongs(c, name):
    """condition that the character is in the class"""
    if c < CELL0:
        return getattr(str, name)(chr(c))
    bits = cellbits(c)
    if core.cell_nibble(c) is not None:
        n = 7
    elif len(bits) > 8:
        n = 7 if core._lt_const(c, 128) else min(len(bits), 21)
    else:
        n = 8
    return _cond(_in(to_z3(widen(bits, 0, n)[:n]), _class(name, _limit(n))))


def _each(name):
    def f(self):
        out = ()
        for c in self.cells:
            out += mapped(c, name)
        return mkstr(out)
    return f


def _all(name):
    def f(self):
        return mkbool(c_and([belongs(c, name) for c in self.cells]))
    return f


def capitalize(self):
    out = mapped(self.cells[0], "title")
    for c in self.cells[1:]:
        out += mapped(c, "lower")
    return mkstr(out)


def isascii(self):
    return all(core._lt_const(c, 128) for c in self.cells)


def islower(self):
    return mkbool(c_and([c_or([belongs(c, "islower") for c in self.cells])]
                        + [c_not(c_or([belongs(c, "isupper"), belongs(c, "istitle")])) for c in self.cells]))


def isupper(self):
    return mkbool(c_and([c_or([belongs(c, "isupper") for c in self.cells])]
                        + [c_not(c_or([belongs(c, "islower"), c_and([belongs(c, "istitle"), c_not(belongs(c, "isupper"))])]))
                           for c in self.cells]))


# ---------------------------------------------------------------- text and bytes
def _cells(x):
    r = scells(x)
    return r if r is not None else (core.byte_cell(x),) if _isint(x) else bcells(x)


def _new(self, cells):
    return mkstr(tuple(cells)) if isinstance(self, SymStr) else self._mk(tuple(cells))


def rfind(self, sub, start=0, end=None):
    pc = _cells(sub)
    cells = tuple(self.cells)
    start, end, _ = slice(start, end).indices(len(cells))
    for i in range(end - len(pc), start - 1, -1):
        if core.E.decide(c_eqcells(cells[i:i + len(pc)], pc)):
            return i
    return -1


def rindex(self, sub, *a):
    r = self.rfind(sub, *a)
    if r < 0:
        raise ValueError("substring not found")
    return r


def count(self, sub, start=0, end=None):
    pc = _cells(sub)
    if not pc:
        raise Unsupported("count of an empty string")
    n, i = 0, slice(start, end).indices(len(self.cells))[0]
    while True:
        i = self.find(sub, i, end)
        if i < 0:
            return n
        n += 1
        i += len(pc)


def replace(self, old, new, count=-1):
    pc, nc = _cells(old), _cells(new)
    if not pc:
        raise Unsupported("replace of an empty string")
    cells = tuple(self.cells)
    out, pos = (), 0
    while count:
        i = self.find(old, pos)
        if i < 0:
            break
        out += cells[pos:i] + nc
        pos = i + len(pc)
        count -= 1
    return _new(self, out + cells[pos:])


def partition(self, sep):
    i = self.find(sep)
    if i < 0:
        e = _new(self, ())
        return (self, e, e)
    return (self[:i], sep, self[i + len(sep):])


def rpartition(self, sep):
    i = self.rfind(sep)
    if i < 0:
        e = _new(self, ())
        return (e, e, self)
    return (self[:i], sep, self[i + len(sep):])


def rsplit(self, sep=None, maxsplit=-1):
    if sep is None:
        raise Unsupported("rsplit()")
    out, s = [], self
    while maxsplit:
        i = s.rfind(sep) if len(s) else -1
        if i < 0:
            break
        out.insert(0, s[i + len(sep):])
        s = s[:i]
        maxsplit -= 1
    return [s] + out


def removeprefix(self, p):
    return self[len(p):] if self.startswith(p) else self


def removesuffix(self, p):
    return self[:len(self) - len(p)] if len(p) and self.endswith(p) else self


def ljust(self, n, fill=None):
    return self if n <= len(self) else _new(self, tuple(self.cells) + (_cells(fill) if fill is not None else (32,)) * (n - len(self)))


def rjust(self, n, fill=None):
    return self if n <= len(self) else _new(self, (_cells(fill) if fill is not None else (32,)) * (n - len(self)) + tuple(self.cells))


def _bmap(cells, lo, hi, d):
    out = []
    for c in cells:
        if c < CELL0:
            out.append(c + d if lo <= c <= hi else c)
            continue
        if d > 0 and core.cell_nibble(c) is not None:
            out.append(c)
            continue
        x = to_z3(cellbits(c)[:8])
        out.append(mkcell(expr_bits(x + z3.If(z3.And(z3.UGE(x, lo), z3.ULE(x, hi)), z3.BitVecVal(d & 255, 8), z3.BitVecVal(0, 8)))))
    return out


def _ball(f):
    tab = [i for i in range(256) if f(bytes([i]))]
    runs = _runs(tab)

    def g(self):
        cs = [(c in tab) if c < CELL0 else _cond(_in(to_z3(cellbits(c)[:8]), runs)) for c in self.cells]
        return bool(cs) and mkbool(c_and(cs))
    return g


def _missing(kind):
    def f(self, name):
        if name.startswith("__") or not hasattr(kind, name):
            raise AttributeError("'%s' object has no attribute '%s'" % (kind.__name__, name))
        raise Unsupported("%s of symbolic %s" % (name, kind.__name__))
    return f


for _n in ("lower", "upper", "casefold", "swapcase"):
    setattr(SymStr, _n, _each(_n))
for _n in ("isalpha", "isdigit", "isdecimal", "isnumeric", "isalnum", "isspace", "isprintable"):
    setattr(SymStr, _n, _all(_n))
for _f in (capitalize, isascii, islower, isupper, rfind, rindex, count, replace, partition, rpartition, rsplit, removeprefix,
           removesuffix, ljust, rjust):
    setattr(SymStr, _f.__name__, _f)
SymStr.__le__ = lambda self, o: core.sym_not(self.__gt__(o))
SymStr.__ge__ = lambda self, o: core.sym_not(self.__lt__(o))
SymStr.__getattr__ = _missing(str)
for _f in (rfind, rindex, count, replace, partition, rpartition, rsplit, removeprefix, removesuffix):
    setattr(_Seq, _f.__name__, _f)
_Seq.lower = lambda self: self._mk(_bmap(self.cells, 65, 90, 32))
_Seq.upper = lambda self: self._mk(_bmap(self.cells, 97, 122, -32))
_Seq.isascii = lambda self: mkbool(c_and([c < 128 if c < CELL0 else c_eqbits(cellbits(c)[7:8], (0,)) for c in self.cells]))
for _n in ("isalpha", "isdigit", "isalnum", "isspace"):
    setattr(_Seq, _n, _ball(getattr(bytes, _n)))
core.SymBytes.__getattr__ = _missing(bytes)
core.SymByteArray.__getattr__ = _missing(bytearray)
for _n in ("casefold", "swapcase", "capitalize", "isalpha", "isdigit", "isdecimal", "isnumeric", "isalnum", "isspace", "isascii",
           "isprintable", "islower", "isupper", "rfind", "rindex", "count", "replace", "partition", "rpartition", "rsplit",
           "removesuffix", "ljust", "rjust", "__le__", "__ge__"):
    setattr(core.TokStr, _n, core._viatext(_n))
for _n in ("rfind", "rindex", "count", "replace", "partition", "rsplit", "ljust", "rjust", "__le__", "__ge__", "index"):
    setattr(core.TokBytes, _n, core._viatext(_n))
