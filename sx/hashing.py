"""Ideal hash functions: a digest is an opaque value; two digests of the same
function are equal exactly when the hashed data are equal; a digest is never
equal to data that is not itself a digest of the same data.  Digests of concrete
data are the real ones."""
import ast
import json
import re
import hashlib as _hashlib
from . import core
from .core import Atom, CELL0, CELLBITS, SHIFT, MAXW, ATOMS, bcells, mkcell

try:
    from Crypto.Hash import keccak as _keccak
except ImportError:
    _keccak = None

TOKEN = re.compile(b"\xee\x80\x80[0-9]+\xee\x80\x81")
SIZES = {"keccak256": 32, "sha256": 32, "sha512": 64, "md5": 16, "sha1": 20, "sha224": 28,
         "sha384": 48, "sha3_256": 32, "sha3_224": 28, "sha3_384": 48, "sha3_512": 64,
         "keccak224": 28, "keccak384": 48, "keccak512": 64, "blake2b": 64, "blake2s": 32}


def real_digest(alg, data):
    if alg.startswith("keccak"):
        h = _keccak.new(digest_bits=int(alg[6:]))
        h.update(data)
        return h.digest()
    return getattr(_hashlib, alg)(data).digest()


class Hashes:
    def __init__(self):
        self.atoms = {}     # (alg, pre) -> atom
        self.known = {}     # (alg, digest) -> pre cells
        self.bydig = {}     # digest -> alg list
        self.unitcache = {}
        self.hexof = {}     # atom id -> cells of the digest as text
        self.memo = {}      # pair of atom ids -> condition, for the known digests
        self.memofor = None, 0
        self.nknown = 0

    def digest(self, alg, cells):
        """cells of the digest of the data given by cells"""
        if not cells or max(cells) < CELL0:
            data = bytes(cells)
            # a digest that ends in 0xee before empty branch slots looks like the start of a token
            if core.E is not None and core.E.tokens and TOKEN.search(data):
                return self._tok(alg, data)
            d = real_digest(alg, data)
            if (alg, cells) not in self.known.get(d, ()):
                self.known.setdefault(d, []).append((alg, cells))
                self.nknown += 1
            return tuple(d)
        fixed = core.known_bytes(cells) if core.E is not None and core.E.uf else None
        if fixed is not None:
            return self.digest(alg, tuple(fixed))
        return self._atom(alg, cells)

    def _tok(self, alg, data):
        """data contains text tokens: keep it structured"""
        return self._atom(alg, ("struct",) + tuple(core.toksegs(data.decode("utf-8"))))

    def eqtext(self, a, b):
        return eq_units(units_of(core.toksegs(a)), units_of(core.toksegs(b)))

    def json_str(self, cells):
        from . import stubs
        return stubs.json_str(cells)

    def _atom(self, alg, pre):
        a = self.atoms.get((alg, pre))
        if a is None:
            a = Atom("%s_%d" % (alg, len(ATOMS)), SIZES[alg] * 8, "hash", info=(alg, pre))
            n = SIZES[alg]
            b = a.bits()
            cells = tuple(mkcell(b[8 * i:8 * i + 8]) for i in range(n))[::-1]
            self.atoms[(alg, pre)] = a
            self.cells_of = getattr(self, "cells_of", {})
            self.cells_of[a.id] = cells
        return self.cells_of[a.id]

    def at(self, cells, i):
        """hash atom whose digest starts at position i of cells, or None"""
        c = cells[i]
        if c < CELL0:
            return None
        b = CELLBITS[c - CELL0][0]
        if b < 2:
            return None
        a = ATOMS[(b - 2) >> SHIFT]
        if a.kind != "hash":
            return None
        dc = self.cells_of[a.id]
        if cells[i:i + len(dc)] == dc:
            return a
        return None

    def hexat(self, cells, i):
        """hash atom whose digest as lower-case hexadecimal text starts at position i"""
        if cells[i] < CELL0:
            return None
        nib = core.cell_nibble(cells[i])
        if nib is None or nib[0] < 2:
            return None
        a = ATOMS[(nib[0] - 2) >> SHIFT]
        if a.kind != "hash":
            return None
        n = a.width // 4
        if len(cells) - i < n:
            return None
        t = self.hexof.get(a.id)
        if t is None:
            t = ()
            for c in self.cells_of[a.id]:
                b = core.cellbits(c)
                t += (core.hexcell(b[4:]), core.hexcell(b[:4]))
            self.hexof[a.id] = t
        return a if cells[i:i + n] == t else None

    def match(self, xs, ys, i):
        a = self.at(xs, i)
        b = self.at(ys, i)
        if a is None and b is None:
            a = self.hexat(xs, i)
            b = self.hexat(ys, i)
            if a is None and b is None:
                return None
            if a is not None and b is not None:
                return (self.preeq(a, b), a.width // 4) if a.width == b.width else None
            if a is None:
                a, ys = b, xs
            n = a.width // 4
            other = ys[i:i + n]
            if len(other) == n and max(other) < CELL0:
                try:
                    d = bytes.fromhex(bytes(other).decode("ascii"))
                except ValueError:
                    return False, n
                if d.hex().encode() != bytes(other):
                    return False, n
                alg, pre = a.info
                for kalg, kpre in self.known.get(d, ()):
                    if kalg == alg:
                        return self.preq(pre, kpre), n
                return False, n
            return None
        if a is not None and b is not None:
            if a.width != b.width:
                return None
            return self.preeq(a, b), a.width // 8
        if a is None:
            a, xs, ys = b, ys, xs
        n = a.width // 8
        other = ys[i:i + n]
        if len(other) == n and max(other) < CELL0:
            other = bytes(other)
            self.fresh()
            r = self.memo.get((a.id, other))
            if r is None:
                r = self.eqknown(a, other)
                self.keep((a.id, other), r)
            return r, n
        return None

    def eqknown(self, a, other):
        alg, pre = a.info
        for kalg, kpre in self.known.get(other, ()):
            if kalg == alg:
                return self.preq(pre, kpre)
        return False

    def fresh(self):
        """the same digests are compared again and again; one that becomes known, and
        another path, may change the answer"""
        if self.memofor[0] is not self.known or self.memofor[1] != self.nknown:
            self.memo = {}
            self.memofor = self.known, self.nknown

    def keep(self, k, r):
        if self.memofor[0] is self.known and self.memofor[1] == self.nknown:
            self.memo[k] = r

    def topbyte(self, bits):
        """a digest used as a number of minimal length: its first byte is assumed not to be zero"""
        if len(bits) > 100 and bits[0] > 1:
            a = ATOMS[(bits[0] - 2) >> SHIFT]
            if a.kind == "hash" and a.width <= len(bits) and bits[:a.width] == a.bits() and not any(bits[a.width:]):
                core.E.assume(core.c_not(core.c_eqbits(bits[a.width - 8:a.width], (0,) * 8)))

    def eqint(self, xs, ys):
        """a whole digest read as a number, compared with a constant; None if it is not that"""
        for u, v in ((xs, ys), (ys, xs)):
            if u[0] > 1 and v[0] < 2 and max(v) < 2:
                a = ATOMS[(u[0] - 2) >> SHIFT]
                if a.kind != "hash" or a.width > len(u) or u[:a.width] != a.bits():
                    return None
                if any(u[a.width:]):
                    return None
                n = sum(b << i for i, b in enumerate(v))
                if n >> a.width:
                    return False
                alg, pre = a.info
                for kalg, kpre in self.known.get(n.to_bytes(a.width // 8, "big"), ()):
                    if kalg == alg:
                        return self.preq(pre, kpre)
                return False
        return None

    def preeq(self, a, b):
        if a is b:
            return True
        if a.info[0] != b.info[0]:
            return False
        k = (a.id, b.id) if a.id < b.id else (b.id, a.id)
        self.fresh()
        r = self.memo.get(k)
        if r is None:
            r = self.preq(a.info[1], b.info[1])
            self.keep(k, r)
        return r

    def preq(self, p, q):
        """condition that two preimages are the same"""
        sp = len(p) > 0 and p[0] == "struct"
        sq = len(q) > 0 and q[0] == "struct"
        if not sp and not sq:
            if len(p) != len(q):
                return False
            return core.c_eqcells(p, q)
        return eq_units(self.units(p), self.units(q))

    def units(self, pre):
        u = self.unitcache.get(pre)
        if u is None:
            if pre and pre[0] == "struct":
                u = units_of(pre[1:])
            else:
                fixed = pre if max(pre, default=0) < CELL0 else core.known_bytes(pre)
                if fixed is None:
                    raise core.Unsupported("comparing formatted text with plain bytes")
                try:
                    u = units_of((("lit", bytes(fixed).decode("utf-8")),))
                except UnicodeDecodeError:
                    u = [("c", -1)]         # no text at all
            if pre and pre[0] == "struct":
                self.unitcache[pre] = u
        return u

    def axiom(self, a, b):
        """(digest a == digest b) <=> (preimages equal), as a condition"""
        if a.info[0] != b.info[0] or a.width != b.width:
            return None
        eq = core.c_eqbits(a.bits(), b.bits())
        pe = self.preeq(a, b)
        if pe is True:
            return eq
        if pe is False:
            return core.c_not(eq)
        return core.c_or([core.c_and([eq, pe]), core.c_and([core.c_not(eq), core.c_not(pe)])])


# Texts made by formatting values are compared by their parts: the repr of a byte
# string (or of a text) tells where it ends and determines the value, an integer ends
# where the digits end, other characters stand for themselves.
def lex(text):
    """literal text as units ("c", code), ("r", cells), ("q", cells)"""
    out = []
    i, n = 0, len(text)
    while i < n:
        ch = text[i]
        k = 1 if ch == "b" and i + 1 < n and text[i + 1] in "'\"" else 0
        if k or ch in "'\"":
            q = text[i + k]
            j = i + k + 1
            while j < n and text[j] != q:
                j += 2 if text[j] == "\\" else 1
            if j < n:
                try:
                    v = ast.literal_eval(text[i:j + 1])
                    canon = repr(v) == text[i:j + 1]
                except (SyntaxError, ValueError):
                    canon = False
                if canon:
                    out.append(("r", tuple(v)) if k else ("q", tuple(map(ord, v))))
                    i = j + 1
                    continue
        out.append(("c", ord(ch)))
        i += 1
    return out


def units_of(segs):
    out = []
    for s in segs:
        if s[0] == "lit":
            out += lex(s[1])
        elif s[1] == "s":
            out += [("c", c) for c in s[2]]
        else:
            out.append((s[1],) + tuple(s[2:]))
    return out


def _jsonlit(u, k):
    """JSON string that starts at unit k: (cells, next unit); None if there is none"""
    text = ""
    m = k
    while m < len(u):
        if u[m][0] == "q" and max(u[m][1], default=0) < CELL0:
            text += repr("".join(map(chr, u[m][1])))
        elif u[m][0] == "r" and max(u[m][1], default=0) < CELL0:
            text += repr(bytes(u[m][1]))
        elif u[m][0] == "c" and 0 <= u[m][1] < CELL0:
            text += chr(u[m][1])
        elif u[m][0] == "c" and u[m][1] < 0:
            return None, None
        else:
            raise core.Unsupported("comparing JSON text with symbolic text")
        m += 1
        if text[0] != '"':
            return None, None
        if len(text) > 1 and text[-1] == '"':
            try:
                v = json.loads(text)
            except ValueError:
                continue
            if json.dumps(v) != text:
                return None, None
            return tuple(map(ord, v)), m
    return None, None


def _digit(u):
    return u[0] == "i" or u[0] == "c" and 48 <= u[1] <= 57


def eq_units(p, q):
    conds = []
    i = j = 0
    while i < len(p) and j < len(q):
        x, y = p[i], q[j]
        if x[0] == y[0]:
            i += 1
            j += 1
            if x[0] == "i":
                for u, k in ((p, i), (q, j)):
                    if k < len(u) and (_digit(u[k]) or u[k][0] == "c" and u[k][1] >= CELL0):
                        raise core.Unsupported("comparing digits that run together")
                conds.append(core.cond(core.SymInt(x[1], x[2]) == core.SymInt(y[1], y[2])))
            elif len(x[1:]) == 1 and isinstance(x[1], tuple):
                if len(x[1]) != len(y[1]):
                    return False
                conds.append(core.c_eqcells(x[1], y[1]))
            else:
                conds.append(core.c_eqcells((x[1],), (y[1],)) if x[1] >= 0 and y[1] >= 0 else False)
            if conds[-1] is False:
                return False
            continue
        if x[0] == "i" or y[0] == "i":
            u, k, z = (q, j, x) if x[0] == "i" else (p, i, y)
            text = ""
            m = k
            while m < len(u) and u[m][0] == "c" and (48 <= u[m][1] <= 57 or (m == k and u[m][1] == 45)):
                text += chr(u[m][1])
                m += 1
            if m < len(u) and (u[m][0] == "i" or u[m][0] == "c" and u[m][1] >= CELL0):
                raise core.Unsupported("comparing digits that run together")
            if not text.strip("-") or str(int(text)) != text:
                return False
            conds.append(core.cond(core.SymInt(z[1], z[2]) == int(text)))
            if conds[-1] is False:
                return False
            if x[0] == "i":
                i, j = i + 1, m
            else:
                i, j = m, j + 1
            continue
        if x[0] == "j" or y[0] == "j":
            z, u, k = (x, q, j) if x[0] == "j" else (y, p, i)
            if u[k][0] in "ri":
                return False
            v, m = _jsonlit(u, k)
            if v is None:
                return False
            if len(v) != len(z[1]):
                return False
            conds.append(core.c_eqcells(v, z[1]))
            if conds[-1] is False:
                return False
            if x[0] == "j":
                i, j = i + 1, m
            else:
                i, j = m, j + 1
            continue
        # a quoted value against something else: its first characters are known
        z, u, k = (x, q, j) if y[0] == "c" else (y, p, i) if x[0] == "c" else (None, None, None)
        if z is None:
            return False                # b'..' against '..'
        c = u[k][1]
        if c >= CELL0:
            raise core.Unsupported("comparing quoted with plain text")
        if z[0] == "r":
            if c != 98:
                return False
            if k + 1 < len(u) and u[k + 1][0] in "cq":
                if u[k + 1][0] == "c" and u[k + 1][1] < CELL0 and u[k + 1][1] not in (34, 39):
                    return False
                raise core.Unsupported("comparing quoted with plain text")
            return False
        if c not in (34, 39):
            return False
        raise core.Unsupported("comparing quoted with plain text")
    if i < len(p) or j < len(q):
        return False
    return core.c_and(conds)


def render(pre, cells):
    """bytes of formatted text; cells() gives the bytes of symbolic cells"""
    out = ""
    for s in pre[1:]:
        if s[0] == "lit":
            out += s[1]
        elif s[1] == "r":
            out += repr(bytes(cells(s[2])))
        elif s[1] == "j":
            out += json.dumps("".join(map(chr, cells(s[2]))))
        elif s[1] in "sq":
            t = "".join(map(chr, cells(s[2])))
            out += t if s[1] == "s" else repr(t)
        else:
            raise core.Unsupported("formatted number")
    return out.encode("utf-8")


HASHES = Hashes()
core.HASH = HASHES


def digest(alg, data):
    cells = bcells(data)
    if cells is None:
        raise TypeError("object supporting the buffer API required")
    return core.mkbytes(HASHES.digest(alg, cells))
