"""The interface harnesses are written against.  SymCtx runs a harness
symbolically, ConcCtx (concctx.py) runs the same harness on the untouched
package with concrete inputs."""
from . import core, hashing, text
from .core import (CELL0, CELLBITS, ATOMS, SHIFT, MAXW, SymInt, SymBytes, SymByteArray, SymStr,
                   SymBool, SymDict, SymSet, Violation, Infeasible, Unsupported, mkbytes, mkcell,
                   mkint, mkstr, cellbits, c_eqbits, c_not, c_and, c_or, cond)

# alphabets of nibbles/bytes that need no assumption: name -> (bits, function)
NIB = {
    "0f": (1, lambda b: (b[0],) * 4),                 # 0, 15
    "01": (1, lambda b: (b[0], 0, 0, 0)),
    "01ef": (2, lambda b: (b[0], b[1], b[1], b[1])),  # 0, 1, 14, 15
    "full": (4, lambda b: tuple(b)),
    "5": (0, lambda b: (1, 0, 1, 0)),
    "0": (0, lambda b: (0, 0, 0, 0)),
    "f": (0, lambda b: (1, 1, 1, 1)),
    "3b": (1, lambda b: (1, 1, 0, b[0])),             # 3, 11
}


class SymCtx:
    symbolic = True

    def __init__(self, engine):
        self.e = engine

    # -- inputs
    def _reg(self, name, spec):
        assert name not in self.e.inputs, name
        self.e.inputs[name] = spec

    def bytes(self, name, n):
        cells = tuple(mkcell(core.var("%s.%d" % (name, i), 8).bits()) for i in range(n))
        self._reg(name, ("bytes", cells))
        return mkbytes(cells)

    def nibs(self, name, spec):
        """list of nibbles; spec is a list of alphabet names or values"""
        out = []
        for i, s in enumerate(spec):
            if isinstance(s, int):
                out.append(s)
                continue
            w, f = NIB[s]
            b = core.var("%s.%d" % (name, i), w).bits() if w else ()
            out.append(mkint(f(b)))
        self._reg(name, ("nibs", tuple(core.widen(core.intbits(x)[0], 0, 4) for x in out)))
        return out

    def key(self, name, spec):
        """byte string given by nibble alphabets (an even number of them)"""
        n = self.nibs(name, spec)
        return self.pack(n)

    @staticmethod
    def pack(n):
        cells = []
        for i in range(0, len(n), 2):
            cells.append(core.byte_cell(n[i] * 16 + n[i + 1]))
        return mkbytes(tuple(cells))

    def int(self, name, lo, hi):
        w = max(1, (hi - lo).bit_length())
        b = core.var(name, w).bits()
        self._reg(name, ("int", b, lo))
        x = mkint(b)
        if hi - lo != (1 << w) - 1:
            self.assume(x <= hi - lo)
        return x + lo

    def choice(self, name, seq):
        """one element of seq, all of them explored"""
        seq = list(seq)
        assert seq, "no choice"
        if len(seq) == 1:
            return seq[0]
        return seq[self.int(name, 0, len(seq) - 1).__index__()]

    def flag(self, name):
        return self.choice(name, [False, True])

    def text(self, name, n, lo=0, hi=0x10FFFF):
        """str of n code points in lo..hi without surrogates"""
        w = hi.bit_length()
        cells = []
        for i in range(n):
            c = mkcell(core.widen(core.var("%s.%d" % (name, i), w).bits(), 0, max(8, w)))
            v = mkint(cellbits(c))
            if hi != (1 << w) - 1:
                self.assume(v <= hi)
            if lo:
                self.assume(v >= lo)
            if hi >= 0xD800:
                self.assume((v < 0xD800) | (v > 0xDFFF))
            cells.append(c)
        self._reg(name, ("text", tuple(cells)))
        return mkstr(tuple(cells))

    def seckey(self, name, alg="keccak256", depth=1, nibs=("3b", "01"), n=4, fixed=None):
        """n-byte string used through its digest only; the digests of all such
        strings differ within their first `depth` bytes or are equal, and their first
        nibbles are taken from the given alphabets; or the given string"""
        if fixed is not None:
            cells = tuple(fixed)
            nibs = ()
        else:
            cells = tuple(mkcell(core.var("%s.%d" % (name, i), 8).bits()) for i in range(n))
            self._reg(name, ("seckey", cells, alg, depth))
        me = hashing.HASHES.digest(alg, cells)
        conds = []
        for i, a in enumerate(nibs):
            if a == "full":
                continue
            b = cellbits(me[i // 2])
            b = b[4:8] if i % 2 == 0 else b[:4]
            w, f = NIB[a]
            probes = [f(tuple((x >> j) & 1 for j in range(w))) for x in range(1 << w)]
            conds.append(c_or([c_eqbits(b, tuple(p)) for p in probes]))
        for c in conds:
            self.e.assume(c)
        for oc, oalg, od in self.e.seckeys:
            if oalg == alg and not (fixed is not None and (not oc or max(oc) < CELL0)):
                d = min(depth, od)
                same = core.c_eqcells(cells, oc) if len(cells) == len(oc) else False
                ob = hashing.HASHES.digest(alg, oc)
                pre = c_eqbits(sum((cellbits(x) for x in me[:d]), ()),
                               sum((cellbits(x) for x in ob[:d]), ()))
                self.e.assume(c_or([same, c_not(pre)]))
                # nor do two digests agree in their last 8 bytes
                suf = c_eqbits(sum((cellbits(x) for x in me[-8:]), ()),
                               sum((cellbits(x) for x in ob[-8:]), ()))
                self.e.assume(c_or([same, c_not(suf)]))
        self.e.seckeys.append((cells, alg, depth))
        return mkbytes(cells)

    # -- logic
    def assume(self, x):
        self.e.assume(cond(x))

    def check(self, x, msg):
        st = self.e.stats
        st.checks += 1
        c = cond(x)
        if c is True:
            st.trivial += 1
            return
        if c is False:
            raise Violation(msg)
        st.checks_solver += 1
        if not self.e.decide(c):
            raise Violation(msg)

    def fail(self, msg):
        raise Violation(msg)

    def all(self, xs):
        out = []
        for x in xs:
            c = cond(x)
            if c is False:
                return False
            out.append(c)
        return core.mkbool(c_and(out))

    def any(self, xs):
        return core.mkbool(c_or([cond(x) for x in xs]))

    def no(self, x):
        return core.sym_not(x)

    def distinct(self, xs):
        """assume pairwise different"""
        xs = list(xs)
        for i in range(len(xs)):
            for j in range(i):
                self.assume(self.no(xs[i] == xs[j]))

    def stop(self):
        raise Infeasible()

    def call(self, f, *a, **k):
        """(value, None) or (None, exception)"""
        try:
            return f(*a, **k), None
        except Exception as e:
            return None, e

    def cover(self, tag):
        self.e.covered.add(tag)

    def observe(self, label, v):
        self.e.observed.append((label, v))

    def mutable(self, x):
        """a bytearray with the content of x"""
        return SymByteArray(list(core.bcells(x)))

    def cat(self, *parts):
        out = ()
        for p in parts:
            out += core.bcells(p)
        return mkbytes(out)

    def setbyte(self, x, i, v):
        c = list(core.bcells(x))
        c[i] = core.byte_cell(v)
        return mkbytes(tuple(c))

    def xor(self, x, name):
        """x with any non-zero pattern of changed bits"""
        d = self.bytes(name, len(x))
        xc, dc = core.bcells(x), core.bcells(d)
        self.e.assume(c_not(core.c_eqcells(dc, (0,) * len(dc))))
        return mkbytes(tuple(core.byte_cell(core.cellint(a) ^ core.cellint(b)) for a, b in zip(xc, dc)))

    def within(self, part, text):
        """concrete text occurs in a text"""
        return part in "".join(s[1] for s in core.toksegs(text)) if isinstance(text, str) else text.find(part) >= 0

    def fields(self, doc):
        return list(doc.keys())

    def readings(self, v):
        """byte strings that a saved text may stand for"""
        out = []
        if isinstance(v, (str, SymStr)):
            r, x = self.call(v.encode)
            if x is None:
                out.append(r)
            from . import shims
            r, x = self.call(shims.fromhex, v)
            if x is None:
                out.append(mkbytes(r))
        return out

    def parser(self):
        """what the key parser raises for a text it cannot parse becomes a variable"""
        self.e.stub["anyparser"] = True

    def ismutable(self, x):
        return isinstance(x, (bytearray, SymByteArray))

    def clock(self, lo, hi, dst=False):
        """set the clock to any moment of 1971-2098 and the local zone to any offset of
        lo..hi minutes; gives the moment"""
        from . import moment
        y = self.int("year", 1971, 2098)
        mo = self.int("month", 1, 12)
        d = self.int("day", 1, 31)
        h, mi, s = self.int("hour", 0, 23), self.int("minute", 0, 59), self.int("second", 0, 59)
        us = self.int("microsecond", 0, 999999)
        z = self.int("offset", lo, hi)
        long = self.any([mo == m for m in (1, 3, 5, 7, 8, 10, 12)])
        self.assume(self.any([d <= 28, self.all([d <= 30, self.no(mo == 2)]), long,
                              self.all([mo == 2, d <= 29, y % 4 == 0])]))
        self.e.stub["clock"] = (y, mo, d, h, mi, s, us)
        self.e.stub["zone"] = (z, 1 if dst else 0)
        return moment.moment(y, mo, d, h, mi, s, us, moment.Zone(z))

    def freeze(self):
        """time stands still from now on"""
        self.e.stub["frozen"] = True

    def rezone(self, lo, hi):
        """another local zone, and the same local time in it; gives that moment"""
        from . import moment
        z = self.int("offset3", lo, hi)
        self.e.stub["zone"] = (z, 0)
        return moment.moment(*self.e.stub["clock"], moment.Zone(z))

    def travel(self, lo, hi):
        """another local zone from now on"""
        self.e.stub["zone"] = (self.int("offset2", lo, hi), 0)

    def same_second(self, a, b):
        from . import moment
        return moment.same(a, b)

    def tmpdir(self):
        return "/vfs"

    def cleanup(self):
        pass

    def keypair(self, cls, *a, **k):
        kp = cls(*a, _generate_keys=False, **k)
        kp.generate_keypair(1024)
        return kp


# ---------------------------------------------------------------- concretising
class Concretiser:
    """concrete inputs and values from the solver's model of the current path"""

    def __init__(self, engine):
        self.e = engine
        self.sub = {}       # seckey model value -> real value
        self._find_seckeys()
        self.over = {}      # representative bit -> bit of a digest
        self.open = set()
        self.done = {}      # digests already computed

    def use_digests(self):
        """give inputs that the path equates with (parts of) digests the real digest; False if there are none"""
        e = self.e
        atoms = [a.id for a in hashing.HASHES.atoms.values()] + list(core.HEXOF)
        for aid in atoms:
            for b in ATOMS[aid].bits():
                r = e.find(b)
                if r > 1 and r not in self.over:
                    self.over[r] = b
        if not self.over:
            return False
        for spec in e.inputs.values():
            if spec[0] in ("bytes", "text"):
                for c in spec[1]:
                    if c >= CELL0:
                        for b in cellbits(c):
                            if b > 1 and self.over.get(e.find(b), b) != b:
                                return True
        return False

    def plausible(self):
        """False if a decision of the path about a digest does not hold for the
        real digest of the same input: no run of these inputs takes the path"""
        e = self.e
        for entry in e.log[:e.pos]:
            atoms = set()
            core.cond_atoms(entry[1], atoms)
            if any(ATOMS[a].kind == "hash" for a in atoms):
                v = self.holds(entry[1])
                if v is not None and v != entry[2]:
                    return False
        return True

    def holds(self, c):
        """truth of a condition for the real digests; None if that is not known"""
        if c is True or c is False:
            return c
        t = c[0]
        if t == "eq":
            return all(self.bits((a,)) == self.bits((b,)) for a, b in c[1])
        if t == "lt":
            return self.bits(c[1]) < self.bits(c[2])
        if t in ("not", "and", "or"):
            vs = [self.holds(d) for d in ([c[1]] if t == "not" else c[1])]
            if None in vs:
                return None
            return not vs[0] if t == "not" else all(vs) if t == "and" else any(vs)
        return None

    def _model_bytes(self, cells):
        return bytes(self.e.bits_val(cellbits(c)) for c in cells)

    def _find_seckeys(self):
        e = self.e
        self.secvars = {}
        used = set()
        for cells, alg, depth in e.seckeys:
            if not cells or max(cells) < CELL0:
                continue
            v = self._model_bytes(cells)
            if (v, alg) not in self.sub:
                dig = hashing.HASHES.digest(alg, cells)
                # the digest as the path sees it
                want = bytes(e.bits_val(cellbits(c)) for c in dig[:depth])
                i = 0
                while True:
                    w = i.to_bytes(len(cells), "big")
                    if w not in used and hashing.real_digest(alg, w)[:depth] == want:
                        break
                    i += 1
                    if i > 3000000:
                        raise Unsupported("no preimage found")
                used.add(w)
                self.sub[(v, alg)] = w
            w = self.sub[(v, alg)]
            for c, x in zip(cells, w):
                self.secvars[c] = x

    def cell(self, c):
        if c < CELL0:
            return c
        if c in self.secvars:
            return self.secvars[c]
        return None

    def cells(self, cells):
        """list of ints; raises Unsupported when the value is not determined by
        the inputs (random numbers of the stubs)"""
        out = []
        i = 0
        n = len(cells)
        while i < n:
            c = cells[i]
            if c < CELL0:
                out.append(c)
                i += 1
                continue
            a = hashing.HASHES.at(cells, i)
            if a is not None:
                d = self.digest(a)
                out.extend(d)
                i += len(d)
                continue
            out.append(self.one(c))
            i += 1
        return out

    def digest(self, a):
        d = self.done.get(a.id)
        if d is None:
            alg, pre = a.info
            if pre and pre[0] == "struct":
                d = hashing.real_digest(alg, hashing.render(pre, self.cells))
            else:
                d = hashing.real_digest(alg, bytes(self.cells(pre)))
            self.done[a.id] = d
        return d

    def one(self, c):
        x = self.cell(c)
        if x is not None:
            return x
        return self.bits(CELLBITS[c - CELL0])

    def bits(self, bits):
        v = 0
        for i, b in enumerate(bits):
            if b > 1:
                a = ATOMS[(b - 2) >> SHIFT]
                idx = (b - 2) & (MAXW - 1)
                if a.kind == "hash":
                    d = int.from_bytes(self.digest(a), "big")
                    x = (d >> idx) & 1
                elif a.id in core.HEXOF:
                    ch = ord("0123456789abcdef"[self.bits(core.HEXOF[a.id])])
                    x = (ch >> idx) & 1
                elif a.kind == "var":
                    if "#" in a.name:
                        raise Unsupported("random value")
                    if self.over and b not in self._secbits():
                        d = self.over.get(self.e.find(b), b)
                        if d != b:
                            if d in self.open:
                                raise Unsupported("digest of itself")
                            self.open.add(d)
                            try:
                                v |= self.bits((d,)) << i
                            finally:
                                self.open.discard(d)
                            continue
                    x = (self.e.atom_val(a.id) >> idx) & 1
                    if b in self._secbits():
                        x = self._secbits()[b]
                else:
                    x = (self.e.atom_val(a.id) >> idx) & 1
                b = x
            v |= b << i
        return v

    def _secbits(self):
        if not hasattr(self, "_sb"):
            self._sb = {}
            for c, x in self.secvars.items():
                for i, b in enumerate(cellbits(c)):
                    self._sb[b] = (x >> i) & 1
        return self._sb

    def inputs(self):
        out = {}
        for name, spec in self.e.inputs.items():
            t = spec[0]
            if t in ("bytes", "seckey"):
                out[name] = bytes(self.cells(spec[1])).hex()
            elif t == "text":
                out[name] = "".join(chr(x) for x in self.cells(spec[1]))
            elif t == "nibs":
                out[name] = [self.bits(b) for b in spec[1]]
            elif t == "int":
                out[name] = self.bits(spec[1]) + spec[2]
        return out

    def value(self, v):
        """JSON-able form of a value, comparable with concctx.norm"""
        if isinstance(v, (SymBytes, SymByteArray, bytes, bytearray)):
            return ["b", bytes(self.cells(core.bcells(v))).hex()]
        if isinstance(v, SymStr):
            return ["s", "".join(chr(x) for x in self.cells(v.cells))]
        if isinstance(v, str):
            if core.TOK0 in v:
                raise Unsupported("formatted text")
            return ["s", v]
        if isinstance(v, SymBool):
            return self.e.eval(self.e.canon(v.c))
        if isinstance(v, bool) or v is None or isinstance(v, int):
            return v
        if isinstance(v, SymInt):
            return self.bits(v.bits) - (self.bits((v.sign,)) << len(v.bits))
        if isinstance(v, BaseException):
            return ["exc"]
        if isinstance(v, (list, tuple)):
            return [self.value(x) for x in v]
        if isinstance(v, (dict, SymDict)):
            return ["d"] + [[self.value(k), self.value(x)] for k, x in v.items()]
        if isinstance(v, type):
            return ["t", v.__name__]
        return ["o", type(v).__name__]
