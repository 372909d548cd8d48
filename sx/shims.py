"""Builtins as seen by the code under test."""
import builtins
import re
import sys
from . import core
from .core import (SymInt, SymBool, SymBytes, SymByteArray, SymStr, SymDict, SymSet,
                   EngineSignal, Unsupported, bcells, scells, mkbytes, mkstr, byte_cell,
                   mkint, cellbits, cell_nibble)


def _meta(real, syms, name):
    class Meta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, real) or type(o) in syms

        def __subclasscheck__(cls, c):
            return c is cls or builtins.issubclass(c, real) or c in syms

        def __eq__(cls, o):
            return o is cls or o is real

        def __hash__(cls):
            return hash(real)

        def __repr__(cls):
            return "<class '%s'>" % name

        def __or__(cls, o):
            return (cls, o)

        def __getitem__(cls, item):
            return cls
    Meta.__name__ = "type"
    return Meta


class Bytes(metaclass=_meta(bytes, (SymBytes,), "bytes")):
    def __new__(cls, x=b"", *a, **kw):
        if isinstance(x, SymStr):
            if not a and not kw:
                raise TypeError("string argument without an encoding")
            return x.encode(*a, **kw)
        if a or kw:
            return bytes(x, *a, **kw)
        return mkbytes(tuple(_tocells(x)))

    @staticmethod
    def fromhex(s):
        return mkbytes(fromhex(s))

    @staticmethod
    def hex(b, *a):
        return b.hex(*a)

    @staticmethod
    def join(sep, parts):
        return method(sep, "join", parts)

    @staticmethod
    def maketrans(a, b):
        return bytes.maketrans(a, b)

    @staticmethod
    def decode(b, *a, **k):
        return b.decode(*a, **k)

    @staticmethod
    def startswith(b, *a):
        return method(b, "startswith", *a)


def _tocells(x):
    c = bcells(x)
    if c is not None:
        return c
    if isinstance(x, str) or isinstance(x, SymStr):
        raise TypeError("string argument without an encoding")
    if type(x) is SymInt:
        n = x.__index__()
        return (0,) * n
    if isinstance(x, int):
        if x < 0:
            raise ValueError("negative count")
        return (0,) * x
    if hasattr(type(x), "__bytes__"):
        return bcells(x.__bytes__())
    return [byte_cell(v) for v in x]


_WS = (32, 9, 10, 11, 12, 13)


def hexnib(c):
    """nibble bits of a hex character cell; ValueError if it is none"""
    n = cell_nibble(c)
    if n is not None:
        return n
    if c >= core.CELL0:
        b = cellbits(c)
        ch = mkint(b)
        if ch >= 48 and ch <= 57:
            return core.widen(b[:4], 0, 4)
        if (ch >= 97 and ch <= 102) or (ch >= 65 and ch <= 70):
            v = (ch & 0xF) + 9
            return core.widen(core.intbits(v)[0], 0, 4)[:4]
    raise ValueError("non-hexadecimal number found in fromhex() arg")


def fromhex(s):
    cells = scells(s)
    if cells is None:
        raise TypeError("fromhex() argument must be str, not %s" % type(s).__name__)
    out = []
    i = 0
    n = len(cells)
    while i < n:
        c = cells[i]
        if c < core.CELL0:
            if c in _WS:
                i += 1
                continue
        elif cell_nibble(c) is None and any(bool(mkint(cellbits(c)) == w) for w in _WS):
            i += 1
            continue
        hi = hexnib(c)
        if i + 1 >= n:
            raise ValueError("non-hexadecimal number found in fromhex() arg at position %d" % i)
        lo = hexnib(cells[i + 1])
        out.append(core.mkcell(tuple(lo) + tuple(hi)))
        i += 2
    return tuple(out)


class ByteArray(metaclass=_meta(bytearray, (SymByteArray,), "bytearray")):
    def __new__(cls, x=b"", *a, **kw):
        if a or kw:
            return SymByteArray(bytes(x, *a, **kw)) if isinstance(x, str) else SymByteArray(bcells(x.encode(*a, **kw)))
        return SymByteArray(_tocells(x))

    @staticmethod
    def fromhex(s):
        return SymByteArray(fromhex(s))


class Int(metaclass=_meta(int, (SymInt,), "int")):
    def __new__(cls, x=0, base=None):
        if base is None:
            if isinstance(x, SymInt):
                return x
            if isinstance(x, SymBool):
                return int(bool(x))
            if isinstance(x, (SymStr, SymBytes)):
                raise Unsupported("int of symbolic decimal text")
            return int(x)
        if isinstance(x, (SymStr, SymBytes, SymByteArray)):
            cells = tuple(x.cells)
            if base != 16:
                raise Unsupported("int(symbolic text, %r)" % base)
            if cells[:2] == (48, 120):
                cells = cells[2:]
            if not cells:
                raise ValueError("invalid literal for int()")
            bits = ()
            for c in cells:
                bits = tuple(hexnib(c)) + bits
            return mkint(bits)
        if isinstance(x, (bytearray,)):
            x = bytes(x)
        return int(x, base)

    @staticmethod
    def from_bytes(b, byteorder="big", *, signed=False):
        cells = bcells(b)
        if cells is None:
            cells = tuple(byte_cell(v) for v in b)
        if max(cells, default=0) < core.CELL0:
            return int.from_bytes(bytes(cells), byteorder, signed=signed)
        if signed:
            raise Unsupported("int.from_bytes(signed)")
        if byteorder == "big":
            cells = cells[::-1]
        bits = ()
        for c in cells:
            bits += cellbits(c)
        return mkint(bits)

    @staticmethod
    def to_bytes(x, *a, **k):
        return x.to_bytes(*a, **k)

    @staticmethod
    def bit_length(x):
        return x.bit_length()


class Str(metaclass=_meta(str, (SymStr,), "str")):
    def __new__(cls, x="", *a, **kw):
        if isinstance(x, SymStr):
            return x
        if a or kw:
            if isinstance(x, (SymBytes, SymByteArray, core.TokBytes)):
                return x.decode(*a, **kw)
            return str(x, *a, **kw)
        return core.wraptext(str(x))

    @staticmethod
    def join(sep, parts):
        return method(sep, "join", parts)

    @staticmethod
    def encode(s, *a, **k):
        return s.encode(*a, **k)

    @staticmethod
    def lower(s):
        return s.lower()

    @staticmethod
    def upper(s):
        return s.upper()

    @staticmethod
    def format(s, *a, **k):
        return core.wraptext(s.format(*a, **k))


class Dict(metaclass=_meta(dict, (SymDict,), "dict")):
    def __new__(cls, *a, **kw):
        return SymDict(*a, **kw)

    @staticmethod
    def fromkeys(it, v=None):
        return SymDict.fromkeys(it, v)


class Set(metaclass=_meta(set, (SymSet,), "set")):
    def __new__(cls, it=()):
        return SymSet(it)


class FrozenSet(metaclass=_meta(frozenset, (SymSet,), "frozenset")):
    def __new__(cls, it=()):
        return SymSet(it)


class Bool(metaclass=_meta(bool, (SymBool,), "bool")):
    def __new__(cls, x=False):
        return bool(x)


_TYPEMAP = {bytes: Bytes, SymBytes: Bytes, bytearray: ByteArray, SymByteArray: ByteArray,
            int: Int, SymInt: Int, str: Str, SymStr: Str, dict: Dict, SymDict: Dict,
            set: Set, SymSet: Set, bool: Bool, SymBool: Bool}


class _TypeMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, type)

    def __call__(cls, *a, **kw):
        if len(a) == 1 and not kw:
            t = type(a[0])
            return _TYPEMAP.get(t, t)
        return type(*a, **kw)

    def __eq__(cls, o):
        return o is cls or o is type

    def __hash__(cls):
        return hash(type)


class Type(metaclass=_TypeMeta):
    pass


def sx_dict(*pairs):
    d = SymDict()
    for p in pairs:
        if p[0]:
            d.update(p[1])
        else:
            d[p[1]] = p[2]
    return d


def sx_in(x, c):
    if type(c) in (dict, set, frozenset) and not core.is_conc(x):
        return any(bool(e == x) for e in c)
    if isinstance(c, (bytes, bytearray)):
        if isinstance(x, (SymInt,)):
            return any(bool(x == e) for e in c)
        if isinstance(x, (SymBytes, SymByteArray)):
            return SymBytes(tuple(c)).find(x) >= 0 if len(c) else False
    if isinstance(c, str) and isinstance(x, SymStr):
        return SymStr(tuple(map(ord, c))).find(x) >= 0 if c else False
    return x in c


def sx_force(x):
    return bool(x) if isinstance(x, SymBool) else x


_SYMT = (SymBytes, SymByteArray, SymStr, SymInt, core.TokBytes)


def _deepsym(x):
    if isinstance(x, _SYMT):
        return True
    if isinstance(x, (list, tuple)):
        return any(_deepsym(y) for y in x)
    return False


def method(obj, name, *args, **kw):
    t = type(obj)
    if t is bytes or t is str or t is bytearray:
        if name == "join" and args and not isinstance(args[0], (list, tuple)):
            args = (list(args[0]),) + args[1:]
        if name != "format" and _deepsym(args):
            sym = SymStr(tuple(map(ord, obj))) if t is str else (
                SymBytes(tuple(obj)) if t is bytes else SymByteArray(obj))
            r = getattr(sym, name, None)
            if r is None:
                raise Unsupported("%s.%s with symbolic arguments" % (t.__name__, name))
            return r(*args, **kw)
        if t is str:
            return core.wraptext(getattr(obj, name)(*args, **kw))
    elif t is dict and args and not core.is_conc(args[0]) and name in ("get", "pop", "setdefault"):
        for k in obj:
            if bool(k == args[0]):
                return getattr(obj, name)(k, *args[1:], **kw)
        if name == "setdefault":
            raise Unsupported("symbolic key in real dict")
        if name == "pop" and len(args) == 1:
            raise KeyError(args[0])
        return args[1] if len(args) > 1 else None
    return getattr(obj, name)(*args, **kw)


_PERCENT = re.compile(r"%(?:\(\w+\))?([#0\- +]*)(\d*)(?:\.\d+)?([a-zA-Z%])")


def sx_mod(a, b):
    if isinstance(a, bytes) and _deepsym(b):
        raise Unsupported("bytes % symbolic")
    if type(a) is str:
        args = b if type(b) is tuple else (b,)
        if any(type(x) is SymInt for x in args) and "%(" not in a:
            # numbers are turned into text here, C code would need their value
            specs = list(_PERCENT.finditer(a))
            used = [m for m in specs if m[3] != "%"]
            if len(used) == len(args):
                out = a
                args = list(args)
                for j in reversed(range(len(used))):
                    m = used[j]
                    if type(args[j]) is SymInt and m[3] in "xXdi" and not set(m[1]) - set("#0"):
                        spec = m[1] + m[2] + m[3].replace("i", "d")
                        args[j] = format(args[j], "" if spec == "d" else spec)
                        out = out[:m.start()] + "%s" + out[m.end():]
                a, b = out, tuple(args)
        return core.wraptext(a % b)
    return a % b


def sx_reraise():
    e = sys.exc_info()[1]
    if isinstance(e, EngineSignal):
        raise e


def sx_hash(x):
    t = type(x)
    h = t.__hash__ if hasattr(t, "__hash__") else None
    if isinstance(h, type(sx_hash)):
        r = h(x)
        if isinstance(r, SymInt):
            return r
        if isinstance(r, SymBool):
            return int(bool(r))
        if not isinstance(r, int):
            raise TypeError("__hash__ method should return an integer")
        return hash(r) if False else r
    if t is int:
        return x
    if t is SymInt:
        return x
    return hash(x)


def sx_ord(x):
    if isinstance(x, (SymStr, SymBytes)):
        if len(x) != 1:
            raise TypeError("ord() expected a character")
        return core.cellint(x.cells[0])
    return ord(x)


def sx_chr(x):
    if isinstance(x, SymInt):
        if len(x.bits) <= 8 and x.sign == 0:
            return mkstr((core.mkcell(core.widen(x.bits, 0, 8)),))
        return chr(x.__index__())
    return chr(x)


def sx_hex(x):
    return format(x, "#x") if type(x) is SymInt else hex(x)


def sx_item(base, i):
    if type(i) is SymInt and i.sign == 0 and type(base) in (str, bytes, bytearray, list, tuple) and 0 < len(base) <= 256:
        if type(base) is str or all(type(x) is int and x >= 0 for x in base):
            return core.pick_item(base, i)
    return base[i]


class View(SymBytes):
    """what memoryview() gives: the bytes as they are now (nothing is written through it)"""
    __slots__ = ()

    def tobytes(self, order="C"):
        return mkbytes(self.cells)

    def tolist(self):
        return list(self)

    def _mk(self, cells):
        return View(tuple(cells))

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    @property
    def nbytes(self):
        return len(self.cells)


def sx_memoryview(x):
    cells = bcells(x)
    if cells is None:
        raise TypeError("memoryview: a bytes-like object is required, not '%s'" % type(x).__name__)
    return View(cells)


def sx_sorted(it, *, key=None, reverse=False):
    return sorted(it, key=key, reverse=reverse)


def sx_isinstance(o, c):
    return isinstance(o, c)


def sx_getattr(o, name, *d):
    return getattr(o, name, *d)


def make_builtins(world):
    b = dict(vars(builtins))
    b.update({
        "bytes": Bytes, "bytearray": ByteArray, "int": Int, "str": Str, "dict": Dict,
        "set": Set, "frozenset": FrozenSet, "bool": Bool, "type": Type, "hash": sx_hash,
        "ord": sx_ord, "chr": sx_chr, "print": lambda *a, **k: None,
        "__sx_dict__": sx_dict, "__sx_dictof__": lambda g: SymDict(g), "__sx_set__": SymSet,
        "__sx_in__": sx_in, "__sx_force__": sx_force, "__sx_method__": method, "__sx_mod__": sx_mod,
        "hex": sx_hex, "memoryview": sx_memoryview, "__sx_item__": sx_item,
        "__sx_reraise__": sx_reraise, "__sx_text__": core.wraptext,
        "repr": lambda x: core.wraptext(repr(x)), "format": lambda x, s="": core.wraptext(format(x, s)),
    })

    def forbidden(name):
        def f(*a, **k):
            raise Unsupported(name)
        return f
    for n in ("eval", "exec", "compile", "input", "breakpoint"):
        b[n] = forbidden(n)
    from . import stubs
    b["open"] = stubs.vfs_open
    return b
