"""Model of the rlp library (version 5, pure Python) over symbolic bytes.

The same rules as rlp.codec / rlp.sedes, written over cells so that symbolic
lengths do not multiply paths.  The model is compared with the real library on
every sample path (observed values)."""
import types
from collections.abc import Sequence
from . import core
from .core import (bcells, mkbytes, mkcell, cellbits, CELL0, SymInt, SymBool, SymByteArray,
                   SymBytes, SymStr, c_lt, c_eqbits, widen)


class RLPException(Exception):
    pass


class EncodingError(RLPException):
    def __init__(self, message, obj=None):
        super().__init__(message)
        self.obj = obj


class DecodingError(RLPException):
    def __init__(self, message, rlp=None):
        super().__init__(message)
        self.rlp = rlp


class SerializationError(RLPException):
    def __init__(self, message, obj=None):
        super().__init__(message)
        self.obj = obj


class ListSerializationError(SerializationError):
    def __init__(self, message=None, obj=None, element_exception=None, index=None):
        super().__init__(message or "element", obj)
        self.index = index
        self.element_exception = element_exception


class DeserializationError(RLPException):
    def __init__(self, message, serial=None):
        super().__init__(message)
        self.serial = serial


class ListDeserializationError(DeserializationError):
    def __init__(self, message=None, serial=None, element_exception=None, index=None):
        super().__init__(message or "element", serial)
        self.index = index
        self.element_exception = element_exception


def _atomic(x):
    return isinstance(x, (bytes, bytearray, SymBytes, SymByteArray))


def _isstr(x):
    return isinstance(x, (str, SymStr))


def _isseq(x):
    return isinstance(x, (list, tuple)) or (isinstance(x, Sequence) and not _isstr(x)
                                            and not _atomic(x))


def is_sedes(o):
    return hasattr(o, "serialize") and hasattr(o, "deserialize")


# ------------------------------------------------------------------ encoding
def _prefix(n, off):
    if n < 56:
        return (off + n,)
    s = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return (off + 55 + len(s),) + tuple(s)


def lt_const(c, k):
    """decide: byte cell < k"""
    if c < CELL0:
        return c < k
    b = cellbits(c)
    return core.E.decide(c_lt(widen(b, 0, 8), tuple((k >> i) & 1 for i in range(8))))


def _raw(item):
    c = bcells(item)
    if c is not None:
        if len(c) == 1 and lt_const(c[0], 128):
            return c
        return _prefix(len(c), 128) + c
    if _isseq(item):
        out = ()
        for x in item:
            out += _raw(x)
        return _prefix(len(out), 192) + out
    raise EncodingError("Cannot encode object of type " + type(item).__name__, item)


def int_bytes(x):
    """minimal big-endian bytes of a non-negative integer"""
    if isinstance(x, int):
        return x.to_bytes((x.bit_length() + 7) // 8, "big")
    core.HASH.topbyte(x.bits)
    n = (len(x.bits) + 7) // 8
    bits = widen(x.bits, 0, 8 * n)
    while n:
        top = bits[8 * n - 8:8 * n]
        if max(top) < 2:
            if any(top):
                break
        elif not core.E.decide(c_eqbits(top, (0,) * 8)):
            break
        n -= 1
    return mkbytes(tuple(mkcell(bits[i:i + 8]) for i in range(8 * n - 8, -1, -8)))


class Binary:
    def __init__(self, min_length=None, max_length=None, allow_empty=False):
        self.min_length = min_length or 0
        self.max_length = float("inf") if max_length is None else max_length
        self.allow_empty = allow_empty

    @classmethod
    def fixed_length(cls, length, allow_empty=False):
        return cls(length, length, allow_empty=allow_empty)

    @classmethod
    def is_valid_type(cls, obj):
        return _atomic(obj)

    def is_valid_length(self, n):
        return self.min_length <= n <= self.max_length or (self.allow_empty and n == 0)

    def serialize(self, obj):
        if not _atomic(obj):
            raise SerializationError("Object is not a serializable", obj)
        if not self.is_valid_length(len(obj)):
            raise SerializationError("Object has invalid length", obj)
        return obj

    def deserialize(self, serial):
        if not _atomic(serial):
            raise DeserializationError("Objects of this type cannot be deserialized", serial)
        if not self.is_valid_length(len(serial)):
            raise DeserializationError("invalid length", serial)
        return serial


class Boolean:
    def serialize(self, obj):
        if isinstance(obj, SymBool):
            obj = bool(obj)
        if not isinstance(obj, bool):
            raise SerializationError("Can only serialize integers", obj)
        return b"\x01" if obj else b""

    def deserialize(self, serial):
        if serial == b"":
            return False
        if serial == b"\x01":
            return True
        raise DeserializationError("Invalid serialized boolean.", serial)


class BigEndianInt:
    def __init__(self, length=None):
        self.length = length

    def serialize(self, obj):
        if isinstance(obj, (bool, SymBool)) or not isinstance(obj, (int, SymInt)):
            raise SerializationError("Can only serialize integers", obj)
        if self.length is not None and obj >= 256 ** self.length:
            raise SerializationError("Integer too large", obj)
        if obj < 0:
            raise SerializationError("Cannot serialize negative integers", obj)
        s = int_bytes(obj)
        if self.length is not None:
            return b"\x00" * max(0, self.length - len(s)) + s
        return s

    def deserialize(self, serial):
        if self.length is not None and len(serial) != self.length:
            raise DeserializationError("Invalid serialization (wrong size)", serial)
        if self.length is None and len(serial) > 0 and serial[0:1] == b"\x00":
            raise DeserializationError("Invalid serialization (not minimal length)", serial)
        c = bcells(serial)
        if c is None:
            # the real function hands a list to int.from_bytes
            if len(serial) == 0:
                return 0
            c = tuple(core.byte_cell(x) for x in serial)
        bits = ()
        for x in c[::-1]:
            bits += widen(cellbits(x), 0, 8)
        return core.mkint(bits)


class Text:
    def __init__(self, min_length=None, max_length=None, allow_empty=False, encoding="utf8"):
        self.encoding = encoding

    @classmethod
    def is_valid_type(cls, obj):
        return _isstr(obj)

    def serialize(self, obj):
        if not _isstr(obj):
            raise SerializationError("Object is not a serializable", obj)
        return obj.encode(self.encoding)

    def deserialize(self, serial):
        if not _atomic(serial):
            raise DeserializationError("Objects of this type cannot be deserialized", serial)
        try:
            return serial.decode(self.encoding)
        except UnicodeDecodeError:
            raise DeserializationError("cannot be decoded", serial)


class List(list):
    def __init__(self, elements=None, strict=True):
        super().__init__()
        self.strict = strict
        if elements:
            for e in elements:
                if is_sedes(e):
                    self.append(e)
                elif isinstance(e, (list, tuple)):
                    self.append(List(e))
                else:
                    raise TypeError("Instances of List must only contain sedes objects")

    def serialize(self, obj):
        if not _isseq(obj):
            raise ListSerializationError("Can only serialize sequences", obj)
        if self.strict and len(self) != len(obj):
            raise ListSerializationError("length", obj)
        out = []
        for i, (e, s) in enumerate(zip(obj, self)):
            try:
                out.append(s.serialize(e))
            except SerializationError as x:
                raise ListSerializationError(obj=obj, element_exception=x, index=i)
        return out

    def deserialize(self, serial):
        if not _isseq(serial):
            raise ListDeserializationError("Can only deserialize sequences", serial)
        if self.strict and len(serial) != len(self):
            raise ListDeserializationError("length", serial)
        out = []
        for i, (s, e) in enumerate(zip(self, serial)):
            try:
                out.append(s.deserialize(e))
            except DeserializationError as x:
                raise ListDeserializationError(serial=serial, element_exception=x, index=i)
        return tuple(out)


class CountableList:
    def __init__(self, element_sedes, max_length=None):
        self.element_sedes = element_sedes
        self.max_length = max_length

    def serialize(self, obj):
        if not _isseq(obj):
            raise ListSerializationError("Can only serialize sequences", obj)
        if self.max_length is not None and len(obj) > self.max_length:
            raise ListSerializationError("Too many elements", obj=obj)
        out = []
        for i, e in enumerate(obj):
            try:
                out.append(self.element_sedes.serialize(e))
            except SerializationError as x:
                raise ListSerializationError(obj=obj, element_exception=x, index=i)
        return out

    def deserialize(self, serial):
        if not _isseq(serial):
            raise ListDeserializationError("Can only deserialize sequences", serial=serial)
        out = []
        for i, e in enumerate(serial):
            if self.max_length is not None and i >= self.max_length:
                raise ListDeserializationError("Too many elements", serial=serial)
            try:
                out.append(self.element_sedes.deserialize(e))
            except DeserializationError as x:
                raise ListDeserializationError(serial=serial, element_exception=x, index=i)
        return tuple(out)


class _Raw:
    @staticmethod
    def serializable(o):
        return _atomic(o) or (_isseq(o) and all(_Raw.serializable(x) for x in o))

    @staticmethod
    def serialize(o):
        if not _Raw.serializable(o):
            raise SerializationError("Can only serialize nested lists of strings", o)
        return o

    @staticmethod
    def deserialize(s):
        return s


binary = Binary()
boolean = Boolean()
big_endian_int = BigEndianInt()
text = Text()
raw = _Raw()


def infer_sedes(obj):
    if is_sedes(obj.__class__):
        return obj.__class__
    if isinstance(obj, (bool, SymBool)):
        return boolean
    if isinstance(obj, (int, SymInt)) and obj >= 0:
        return big_endian_int
    if _atomic(obj):
        return binary
    if _isseq(obj):
        return List([infer_sedes(x) for x in obj])
    if _isstr(obj):
        return text
    raise TypeError("Did not find sedes handling type " + type(obj).__name__)


def encode(obj, sedes=None, infer_serializer=True, cache=True):
    if sedes:
        item = sedes.serialize(obj)
    elif _atomic(obj):
        item = obj
    elif infer_serializer:
        item = infer_sedes(obj).serialize(obj)
    else:
        item = obj
    if isinstance(item, (bytearray, SymByteArray)) and len(item) == 1 and lt_const(bcells(item)[0], 128):
        return item
    return mkbytes(_raw(item))


# ------------------------------------------------------------------ decoding
def _cint(c):
    return core.cellint(c)


def _consume(d, i, limit, wrap):
    """item at position i of the cells d; positions past limit are an error"""
    n = len(d)
    if i >= n:
        raise DecodingError("RLP string too short")
    b0 = d[i]
    room = limit - i - 1
    if lt_const(b0, 128):
        return wrap((b0,)), i + 1
    if lt_const(b0, 184):
        # short string
        if b0 >= CELL0:
            if room < 55 and not lt_const(b0, 128 + room + 1):
                raise DecodingError("too short")
            k = core.E.pick(widen(cellbits(b0), 0, 8)) - 128
        else:
            k = b0 - 128
        if k > room:
            raise DecodingError("too short")
        if k == 1 and lt_const(d[i + 1], 128):
            raise DecodingError("Encoded as short string although single byte was possible")
        return wrap(d[i + 1:i + 1 + k]), i + 1 + k
    if lt_const(b0, 192) or not lt_const(b0, 248):
        lst = not lt_const(b0, 192)
        base = 247 if lst else 183
        if room < 1:
            raise DecodingError("too short")
        ll = (core.E.pick(widen(cellbits(b0), 0, 8)) if b0 >= CELL0 else b0) - base
        if core.E.decide(core.c_eqcells((d[i + 1],), (0,))):
            raise DecodingError("Length starts with zero bytes")
        lp = d[i + 1:i + 1 + ll]
        if len(lp) < ll:
            raise DecodingError("too short")
        bits = ()
        for x in lp[::-1]:
            bits += widen(cellbits(x), 0, 8)
        v = core.mkint(bits)
        if v < 56:
            raise DecodingError("Long prefix used for short item")
        s = i + 1 + ll
        if v > limit - s:
            raise DecodingError("too short")
        v = v.__index__()
        if not lst:
            return wrap(d[s:s + v]), s + v
        return _items(d, s, s + v, wrap), s + v
    if b0 >= CELL0:
        if room < 55 and not lt_const(b0, 192 + room + 1):
            raise DecodingError("too short")
        k = core.E.pick(widen(cellbits(b0), 0, 8)) - 192
    else:
        k = b0 - 192
    if k > room:
        raise DecodingError("too short")
    return _items(d, i + 1, i + 1 + k, wrap), i + 1 + k


def _items(d, i, end, wrap):
    out = []
    while i < end:
        x, i = _consume(d, i, end, wrap)
        out.append(x)
    return out


def decode(rlp, sedes=None, strict=True, recursive_cache=False, **kwargs):
    d = bcells(rlp)
    if d is None:
        raise DecodingError("Can only decode RLP bytes", rlp)
    wrap = SymByteArray if isinstance(rlp, (bytearray, SymByteArray)) else mkbytes
    if len(d) == 0:
        raise DecodingError("RLP string too short", rlp)
    if not strict:
        raise core.Unsupported("rlp.decode(strict=False)")
    item, end = _consume(d, 0, len(d), wrap)
    if end != len(d):
        raise DecodingError("RLP string ends with superfluous bytes", rlp)
    if sedes:
        return sedes.deserialize(item, **kwargs)
    return item


def make():
    m = types.ModuleType("rlp")
    m.__path__ = []
    ex = types.ModuleType("rlp.exceptions")
    for c in (RLPException, EncodingError, DecodingError, SerializationError,
              ListSerializationError, DeserializationError, ListDeserializationError):
        setattr(ex, c.__name__, c)
        setattr(m, c.__name__, c)
    s = types.ModuleType("rlp.sedes")
    s.binary, s.boolean, s.big_endian_int, s.text, s.raw = binary, boolean, big_endian_int, text, raw
    s.List, s.CountableList, s.Binary, s.Boolean, s.BigEndianInt, s.Text = (
        List, CountableList, Binary, Boolean, BigEndianInt, Text)
    c = types.ModuleType("rlp.codec")
    for x in (m, c):
        x.encode, x.decode, x.infer_sedes = encode, decode, infer_sedes
    m.exceptions, m.sedes, m.codec = ex, s, c
    return {"rlp": m, "rlp.exceptions": ex, "rlp.sedes": s, "rlp.codec": c}
