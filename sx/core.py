"""Symbolic execution core: bit-level symbolic values, path exploration, z3.

Everything a symbolic run computes is kept at bit level.  A *bit* is a Python
int: 0 or 1 for constants, otherwise a code naming (atom, index).  An *atom* is
a bit-vector known to the solver: an input variable, a hash digest, a random
value of a stub, or the result of an arithmetic expression.  Shifts, masks,
concatenation and disjoint additions only move bits around, so byte/nibble code
stays in a canonical form and needs no solver; everything else becomes a z3
term.  Branching on a symbolic condition forks the path (decide()).
"""
import re
import time
import z3

# ---------------------------------------------------------------- signals
class EngineSignal(BaseException):
    """Never visible to the code under test."""
class Infeasible(EngineSignal):
    pass
class Unsupported(EngineSignal):
    pass
class PathTimeout(EngineSignal):
    pass
class Violation(EngineSignal):
    def __init__(self, msg):
        BaseException.__init__(self, msg)
        self.msg = msg
class NonDeterministic(EngineSignal):
    pass

# ---------------------------------------------------------------- atoms, bits
SHIFT = 9
MAXW = 1 << SHIFT


class Atom:
    __slots__ = ("id", "name", "width", "kind", "z", "info", "base")

    def __init__(self, name, width, kind, z=None, info=None):
        assert width <= MAXW
        self.id = len(ATOMS)
        self.name = name
        self.width = width
        self.kind = kind
        self.z = z if z is not None else z3.BitVec(name, width)
        self.info = info
        self.base = 2 + (self.id << SHIFT)
        ATOMS.append(self)

    def bits(self):
        b = self.base
        return tuple(range(b, b + self.width))


ATOMS = []
_VARS = {}
_EXPRS = {}


def var(name, width, kind="var"):
    a = _VARS.get((name, width))
    if a is None:
        a = _VARS[(name, width)] = Atom(name, width, kind)
    return a


def expr_atom(e):
    """Atom standing for a z3 bit-vector expression."""
    k = e.get_id()
    a = _EXPRS.get(k)
    if a is None:
        a = _EXPRS[k] = Atom("e%d" % k, e.size(), "expr", z=e)
    return a


def bit_atom(code):
    return ATOMS[(code - 2) >> SHIFT]


def expr_bits(e):
    """bits (LSB first) of a z3 bit-vector expression"""
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        v = e.as_long()
        return tuple((v >> i) & 1 for i in range(e.size()))
    return expr_atom(e).bits()


_Z = {}


def to_z3(bits):
    """z3 expression for bits (LSB first)"""
    e = _Z.get(bits)
    if e is not None:
        return e
    parts = []  # MSB first at the end
    i = 0
    n = len(bits)
    while i < n:
        b = bits[i]
        j = i + 1
        if b < 2:
            v = b
            while j < n and bits[j] < 2:
                v |= bits[j] << (j - i)
                j += 1
            parts.append(z3.BitVecVal(v, j - i))
        else:
            a = (b - 2) >> SHIFT
            lo = (b - 2) & (MAXW - 1)
            while j < n and bits[j] == b + (j - i) and lo + (j - i) < ATOMS[a].width:
                j += 1
            at = ATOMS[a]
            if lo == 0 and j - i == at.width:
                parts.append(at.z)
            else:
                parts.append(z3.Extract(lo + j - i - 1, lo, at.z))
        i = j
    parts.reverse()
    e = parts[0] if len(parts) == 1 else z3.Concat(*parts)
    _Z[bits] = e
    return e


# ---------------------------------------------------------------- cells
CELL0 = 0x200000
CELLBITS = []
_CELLIDX = {}
HEXOF = {}  # atom id of a hex character -> nibble bits


def mkcell(bits):
    """cell for the bits (LSB first, >= 8 of them): a constant or an interned id"""
    n = len(bits)
    while n > 8 and bits[n - 1] == 0:
        n -= 1
    bits = bits[:n]
    if max(bits) < 2:
        v = 0
        for i, b in enumerate(bits):
            v |= b << i
        return v
    c = _CELLIDX.get(bits)
    if c is None:
        c = _CELLIDX[bits] = CELL0 + len(CELLBITS)
        CELLBITS.append(bits)
    return c


_CONSTBITS = {}


def cellbits(c):
    if c >= CELL0:
        return CELLBITS[c - CELL0]
    b = _CONSTBITS.get(c)
    if b is None:
        b = tuple((c >> i) & 1 for i in range(max(8, c.bit_length())))
        _CONSTBITS[c] = b
    return b


def hexcell(nib):
    """cell of the lowercase hex character of a nibble (4 bits)"""
    if max(nib) < 2:
        v = nib[0] | nib[1] << 1 | nib[2] << 2 | nib[3] << 3
        return ord("0123456789abcdef"[v])
    key = ("hex",) + nib
    a = _VARS.get(key)
    if a is None:
        n = z3.ZeroExt(4, to_z3(nib))
        e = z3.If(z3.ULT(n, 10), n + 48, n + 87)
        a = _VARS[key] = Atom("hex%d" % len(ATOMS), 8, "expr", z=e)
        HEXOF[a.id] = nib
    return mkcell(a.bits())


def cell_nibble(c):
    """nibble bits if the cell is known to be a hex character, else None"""
    if c < CELL0:
        ch = chr(c)
        if ch in "0123456789abcdefABCDEF":
            v = int(ch, 16)
            return tuple((v >> i) & 1 for i in range(4))
        return None
    b = CELLBITS[c - CELL0]
    a = (b[0] - 2) >> SHIFT if b[0] > 1 else -1
    nib = HEXOF.get(a)
    if nib is not None and b == ATOMS[a].bits():
        return nib
    return None


# ---------------------------------------------------------------- conditions
ZCONDS = {}


def c_z(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    k = e.get_id()
    ZCONDS[k] = e
    return ("z", k)


def c_not(c):
    if c is True:
        return False
    if c is False:
        return True
    if c[0] == "not":
        return c[1]
    return ("not", c)


def c_and(cs):
    out = []
    pairs = {}
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        if c[0] == "eq":
            for p in c[1]:
                pairs[p] = None
        elif c[0] == "and":
            for d in c[1]:
                if d[0] == "eq":
                    for p in d[1]:
                        pairs[p] = None
                else:
                    out.append(d)
        else:
            out.append(c)
    if pairs:
        out.append(("eq", tuple(pairs)))
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ("and", tuple(out))


def c_or(cs):
    out = []
    for c in cs:
        if c is False:
            continue
        if c is True:
            return True
        if c[0] == "or":
            out.extend(c[1])
        else:
            out.append(c)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return ("or", tuple(out))


def c_eqbits(xs, ys):
    if len(xs) > 100 and HASH is not None:
        r = HASH.eqint(xs, ys)
        if r is not None:
            return r
    pairs = {}
    for a, b in zip(xs, ys):
        if a == b:
            continue
        if a < 2 and b < 2:
            return False
        pairs[(a, b) if a < b else (b, a)] = None
    if not pairs:
        return True
    return ("eq", tuple(pairs))


def c_lt(xs, ys):
    """unsigned xs < ys, equal widths (LSB first)"""
    n = len(xs)
    while n and xs[n - 1] == ys[n - 1]:
        n -= 1
    if n == 0:
        return False
    xs = xs[:n]
    ys = ys[:n]
    a, b = xs[-1], ys[-1]
    if a < 2 and b < 2:
        return a < b
    if b == 1 and not any(ys[:-1]):
        # ys is a power of two
        return ("eq", ((0, a),))
    if max(xs) < 2 and not any(xs):
        return c_not(c_eqbits(xs, ys))
    return ("lt", xs, ys)


def bits_const(bits):
    v = 0
    for i, b in enumerate(bits):
        v |= b << i
    return v


def c_eqcells(xs, ys):
    """equality of two cell tuples of the same length (hash digests reduced to
    their preimages)"""
    if xs == ys:
        return True
    conds = []
    i = 0
    n = len(xs)
    px = []
    py = []
    while i < n:
        a = xs[i]
        b = ys[i]
        if a == b:
            i += 1
            continue
        if a < CELL0 and b < CELL0:
            return False
        r = HASH.match(xs, ys, i) if HASH is not None else None
        if r is not None:
            c, k = r
            if c is False:
                return False
            conds.append(c)
            i += k
            continue
        na = cell_nibble(a)
        if na is not None and (a >= CELL0 or b >= CELL0):
            nb = cell_nibble(b)
            if nb is not None and not (a < CELL0 and chr(a) in "ABCDEF") and not (
                b < CELL0 and chr(b) in "ABCDEF"
            ):
                px.extend(na)
                py.extend(nb)
                i += 1
                continue
            if a >= CELL0 and b < CELL0:
                return False
        elif b >= CELL0 and a < CELL0 and cell_nibble(b) is not None:
            return False
        ba = cellbits(a)
        bb = cellbits(b)
        m = max(len(ba), len(bb))
        px.extend(ba)
        py.extend(bb)
        px.extend((0,) * (m - len(ba)))
        py.extend((0,) * (m - len(bb)))
        i += 1
    c = c_eqbits(px, py)
    if c is False:
        return False
    conds.append(c)
    return c_and(conds)


HASH = None  # set by hashing.py

_CZ = {}


def cond_z3(c):
    if c is True:
        return z3.BoolVal(True)
    if c is False:
        return z3.BoolVal(False)
    e = _CZ.get(c)
    if e is not None:
        return e
    t = c[0]
    if t == "eq":
        xs = tuple(p[0] for p in c[1])
        ys = tuple(p[1] for p in c[1])
        e = to_z3(ys) == to_z3(xs)
    elif t == "lt":
        e = z3.ULT(to_z3(c[1]), to_z3(c[2]))
    elif t == "not":
        e = z3.Not(cond_z3(c[1]))
    elif t == "and":
        e = z3.And(*[cond_z3(d) for d in c[1]])
    elif t == "or":
        e = z3.Or(*[cond_z3(d) for d in c[1]])
    else:
        e = ZCONDS[c[1]]
    _CZ[c] = e
    return e


def cond_atoms(c, out):
    if c is True or c is False:
        return
    t = c[0]
    if t == "eq":
        for a, b in c[1]:
            if a > 1:
                out.add((a - 2) >> SHIFT)
            if b > 1:
                out.add((b - 2) >> SHIFT)
    elif t == "lt":
        for b in c[1] + c[2]:
            if b > 1:
                out.add((b - 2) >> SHIFT)
    elif t == "not":
        cond_atoms(c[1], out)
    elif t in ("and", "or"):
        for d in c[1]:
            cond_atoms(d, out)


# ---------------------------------------------------------------- engine
class Stats:
    FIELDS = ("paths", "completed", "infeasible", "decisions", "forks", "queries",
              "sat", "unsat", "unknown", "checks", "checks_solver", "trivial",
              "unsupported", "timeouts", "solver_s")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)


class Engine:
    """Depth-first exploration of all paths of a function by re-execution."""

    def __init__(self, query_timeout_ms=20000):
        self.solver = z3.SolverFor("QF_BV")
        self.solver.set("timeout", query_timeout_ms)
        self.stats = Stats()
        self.log = []
        self.pos = 0
        self.nscopes = 0
        self.model = None
        self.modelvals = {}
        self.unsupported_reasons = {}
        self.covered = set()
        self.reset_path()

    # -- path state
    def reset_path(self):
        self.uf = {}
        self.decided = {}
        self.pos = 0
        self.inputs = {}
        self.fresh = 0
        self.tokens = []
        self.tokidx = {}
        self.observed = []
        self.path_notes = []
        self.incomplete = False
        self.seckeys = []
        self.live_hash = []
        self.stub = {}
        if HASH is not None:
            HASH.known = {}

    def find(self, b):
        uf = self.uf
        p = uf.get(b)
        if p is None:
            return b
        while True:
            q = uf.get(p)
            if q is None:
                break
            uf[b] = q
            b, p = p, q
        return p

    def canon(self, c):
        if c is True or c is False:
            return c
        uf = self.uf
        t = c[0]
        if t == "eq":
            if not uf:
                return c
            find = self.find
            pairs = {}
            changed = False
            for a, b in c[1]:
                if a in uf:
                    a = find(a)
                    changed = True
                if b in uf:
                    b = find(b)
                    changed = True
                if a == b:
                    continue
                if a < 2 and b < 2:
                    return False
                pairs[(a, b) if a < b else (b, a)] = None
            if not changed:
                return c
            if not pairs:
                return True
            return ("eq", tuple(pairs))
        if t == "lt":
            if not uf:
                return c
            f = self.find
            return c_lt(tuple(map(f, c[1])), tuple(map(f, c[2])))
        if t == "not":
            return c_not(self.canon(c[1]))
        if t == "and":
            return c_and([self.canon(d) for d in c[1]])
        if t == "or":
            return c_or([self.canon(d) for d in c[1]])
        return c

    def learn(self, c, val):
        """record what a decided condition says about bits"""
        if val is False:
            if c[0] == "not":
                self.learn(c[1], True)
            elif c[0] == "or":
                for d in c[1]:
                    self.learn(d, False)
            return
        t = c[0]
        if t == "eq":
            find = self.find
            for a, b in c[1]:
                a = find(a)
                b = find(b)
                if a == b:
                    continue
                if a > b:
                    a, b = b, a
                self.uf[b] = a  # constants have the smallest codes
        elif t == "and":
            for d in c[1]:
                self.learn(d, True)
        elif t == "not":
            self.learn(c[1], False)

    # -- model
    def atom_val(self, aid):
        v = self.modelvals.get(aid)
        if v is None:
            v = self.modelvals[aid] = self.model.eval(
                ATOMS[aid].z, model_completion=True).as_long()
        return v

    def bits_val(self, bits):
        v = 0
        for i, b in enumerate(bits):
            if b < 2:
                v |= b << i
            else:
                v |= ((self.atom_val((b - 2) >> SHIFT) >> ((b - 2) & (MAXW - 1))) & 1) << i
        return v

    def bit_val(self, b):
        if b < 2:
            return b
        return (self.atom_val((b - 2) >> SHIFT) >> ((b - 2) & (MAXW - 1))) & 1

    def eval(self, c):
        if c is True or c is False:
            return c
        t = c[0]
        if t == "eq":
            bv = self.bit_val
            for a, b in c[1]:
                if bv(a) != bv(b):
                    return False
            return True
        if t == "lt":
            return self.bits_val(c[1]) < self.bits_val(c[2])
        if t == "not":
            return not self.eval(c[1])
        if t == "and":
            return all(self.eval(d) for d in c[1])
        if t == "or":
            return any(self.eval(d) for d in c[1])
        return z3.is_true(self.model.eval(ZCONDS[c[1]], model_completion=True))

    def set_model(self, m):
        self.model = m
        self.modelvals = {}

    def check(self):
        st = self.stats
        st.queries += 1
        t = time.perf_counter()
        r = self.solver.check()
        st.solver_s += time.perf_counter() - t
        if r == z3.sat:
            st.sat += 1
        elif r == z3.unsat:
            st.unsat += 1
        else:
            st.unknown += 1
        return r

    # -- decisions
    def _axioms(self, c):
        """injectivity axioms for digests the solver is about to see"""
        s = set()
        cond_atoms(c, s)
        for aid in sorted(s):
            a = ATOMS[aid]
            if a.kind == "hash" and aid not in self.live_hash:
                others = list(self.live_hash)
                self.live_hash.append(aid)
                for o in others:
                    ax = HASH.axiom(a, ATOMS[o])
                    if ax is not None:
                        self.assume(ax)

    def decide(self, c):
        c = self.canon(c)
        if c is True or c is False:
            return c
        if c[0] == "not":
            return not self.decide(c[1])
        v = self.decided.get(c)
        if v is not None:
            return v
        self._axioms(c)
        if self.pos < len(self.log):
            e = self.log[self.pos]
            if e[0] == "as" or e[1] != c:
                raise NonDeterministic(repr((e, c))[:300])
            self.pos += 1
            val = e[2]
        else:
            st = self.stats
            st.decisions += 1
            val = self.eval(c)
            z = cond_z3(c)
            s = self.solver
            s.push()
            s.add(z3.Not(z) if val else z)
            r = self.check()
            alt = s.model() if r == z3.sat else None
            s.pop()
            if alt is None:
                if r == z3.unknown:
                    self.incomplete = True
                    s.push()
                    self.nscopes += 1
                    s.add(z if val else z3.Not(z))
                    self.log.append(["br", c, val, None])
                else:
                    self.log.append(["fo", c, val, None])
            else:
                st.forks += 1
                s.push()
                self.nscopes += 1
                s.add(z if val else z3.Not(z))
                self.log.append(["br", c, val, alt])
            self.pos += 1
        self.decided[c] = val
        self.learn(c, val)
        return val

    def assume(self, c):
        c = self.canon(c)
        if c is True:
            return
        if c is False:
            raise Infeasible()
        v = self.decided.get(c)
        if v is not None:
            if not v:
                raise Infeasible()
            return
        self._axioms(c)
        if self.pos < len(self.log):
            e = self.log[self.pos]
            if e[0] != "as" or e[1] != c:
                raise NonDeterministic(repr((e, c))[:300])
            self.pos += 1
        else:
            s = self.solver
            s.push()
            self.nscopes += 1
            s.add(cond_z3(c))
            self.log.append(["as", c, True, None])
            self.pos += 1
            if not self.eval(c):
                r = self.check()
                if r != z3.sat:
                    raise Infeasible()
                self.set_model(s.model())
        self.decided[c] = True
        self.learn(c, True)

    def pick(self, bits, sign=0):
        """concrete value of an integer, forking over all feasible ones"""
        n = 0
        while True:
            fb = tuple(map(self.find, bits))
            fs = self.find(sign) if sign > 1 else sign
            if max(fb + (fs,)) < 2:
                v = bits_const(fb)
                return v - (fs << len(fb))
            if self.pos < len(self.log):
                # replay: the logged condition tells which value was tried
                p = self.pos
                while p < len(self.log) - 1 and self.log[p][0] == "as":
                    p += 1
                e = self.log[p]
                if e[0] == "as" or e[1][0] != "eq":
                    raise NonDeterministic("pick")
                want = {}
                for a, b in e[1][1]:
                    if a < 2:
                        want[b] = a
                vals = tuple(b if b < 2 else want.get(b, 0) for b in fb)
                sv = fs if fs < 2 else want.get(fs, 0)
            else:
                vals = tuple(map(self.bit_val, fb))
                sv = self.bit_val(fs)
            if self.decide(c_eqbits(fb + (fs,), vals + (sv,))):
                v = bits_const(vals)
                return v - (sv << len(vals))
            n += 1
            if n > 300:
                raise Unsupported("too many values for a concrete integer")

    # -- exploration
    def backtrack(self):
        """flip the last open decision; False when the tree is exhausted"""
        while self.log:
            e = self.log.pop()
            if e[0] == "br" or e[0] == "as":
                self.solver.pop()
                self.nscopes -= 1
            if e[0] == "br" and e[3] is not None:
                c, val, alt = e[1], e[2], e[3]
                self.solver.push()
                self.nscopes += 1
                z = cond_z3(c)
                self.solver.add(z3.Not(z) if val else z)
                self.log.append(["br", c, not val, None])
                self.set_model(alt)
                return True
        return False

    def restart(self):
        while self.nscopes:
            self.solver.pop()
            self.nscopes -= 1
        self.solver.reset()
        self.log = []
        r = self.check()
        self.set_model(self.solver.model())

    def newvar(self, prefix, width):
        """fresh variable of a stub (deterministic name within a path)"""
        self.fresh += 1
        return var("%s#%d" % (prefix, self.fresh), width)


E = None  # current engine


def set_engine(e):
    global E
    E = e


# ---------------------------------------------------------------- values
class SymBool:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return E.decide(self.c)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(c_or([c_and([self.c, o.c]), c_and([c_not(self.c), c_not(o.c)])]))
        if o is True or o is False or o == 1 or o == 0:
            return mkbool(self.c if o else c_not(self.c))
        return False

    def __ne__(self, o):
        return sym_not(self == o)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(c_and([self.c, cond(o)]))
        return int(bool(self)) & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(c_or([self.c, cond(o)]))
        return int(bool(self)) | o
    __ror__ = __or__

    def __xor__(self, o):
        return sym_not(self == o)
    __rxor__ = __xor__

    def __invert__(self):
        return ~int(bool(self))

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __repr__(self):
        return repr(bool(self))


def mkbool(c):
    return c if c is True or c is False else SymBool(c)


def cond(x):
    """condition of a truth value"""
    if isinstance(x, SymBool):
        return x.c
    return bool(x)


def sym_not(x):
    return mkbool(c_not(cond(x)))


def mkint(bits, sign=0):
    n = len(bits)
    while n and bits[n - 1] == sign:
        n -= 1
    bits = bits[:n]
    if sign < 2 and (n == 0 or max(bits) < 2):
        return bits_const(bits) - (sign << n)
    return SymInt(bits, sign)


def intbits(x):
    """(bits, sign) of an int or SymInt"""
    if isinstance(x, SymInt):
        return x.bits, x.sign
    x = int(x)
    n = x.bit_length()
    return tuple((x >> i) & 1 for i in range(n)), 1 if x < 0 else 0


def widen(bits, sign, n):
    return bits + (sign,) * (n - len(bits))


def _isint(o):
    return isinstance(o, (int, SymInt)) or isinstance(o, SymBool)


def _coerce(o):
    if isinstance(o, SymBool):
        return int(bool(o))
    return o


class SymInt:
    __slots__ = ("bits", "sign")

    def __init__(self, bits, sign=0):
        self.bits = bits
        self.sign = sign

    # comparisons
    def __eq__(self, o):
        if not _isint(o):
            return NotImplemented if not isinstance(o, float) else self.__index__() == o
        xb, xs = self.bits, self.sign
        yb, ys = intbits(_coerce(o))
        n = max(len(xb), len(yb))
        return mkbool(c_eqbits(widen(xb, xs, n) + (xs,), widen(yb, ys, n) + (ys,)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def _lt(self, o, swap=False):
        xb, xs = self.bits, self.sign
        yb, ys = intbits(_coerce(o))
        n = max(len(xb), len(yb))
        x = widen(xb, xs, n)
        y = widen(yb, ys, n)
        if xs == 0 and ys == 0:
            if n == 0:
                return False
            return mkbool(c_lt(y, x) if swap else c_lt(x, y))
        a = to_z3(x + (xs,))
        b = to_z3(y + (ys,))
        return mkbool(c_z(b < a if swap else a < b))

    def __lt__(self, o):
        if not _isint(o):
            return NotImplemented if not isinstance(o, float) else self.__index__() < o
        return self._lt(o)

    def __gt__(self, o):
        if not _isint(o):
            return NotImplemented if not isinstance(o, float) else self.__index__() > o
        return self._lt(o, True)

    def __le__(self, o):
        r = self.__gt__(o)
        return r if r is NotImplemented else sym_not(r)

    def __ge__(self, o):
        r = self.__lt__(o)
        return r if r is NotImplemented else sym_not(r)

    # bitwise
    def _bitop(self, o, f, zf):
        if not _isint(o):
            return NotImplemented
        xb, xs = self.bits, self.sign
        yb, ys = intbits(_coerce(o))
        n = max(len(xb), len(yb))
        out = []
        for a, b in zip(widen(xb, xs, n) + (xs,), widen(yb, ys, n) + (ys,)):
            r = f(a, b)
            if r is None:
                r = expr_bits(zf(to_z3((a,)), to_z3((b,))))[0]
            out.append(r)
        return mkint(tuple(out[:-1]), out[-1])

    def __and__(self, o):
        return self._bitop(o, lambda a, b: 0 if a == 0 or b == 0 else b if a == 1 else a if b == 1 or a == b else None,
                           lambda a, b: a & b)
    __rand__ = __and__

    def __or__(self, o):
        return self._bitop(o, lambda a, b: 1 if a == 1 or b == 1 else b if a == 0 else a if b == 0 or a == b else None,
                           lambda a, b: a | b)
    __ror__ = __or__

    def __xor__(self, o):
        return self._bitop(o, lambda a, b: b if a == 0 else a if b == 0 else 0 if a == b else None,
                           lambda a, b: a ^ b)
    __rxor__ = __xor__

    def __invert__(self):
        return self ^ -1

    def __lshift__(self, o):
        if not _isint(o):
            return NotImplemented
        n = o.__index__()
        if n < 0:
            raise ValueError("negative shift count")
        return mkint((0,) * n + self.bits, self.sign)

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        if not _isint(o):
            return NotImplemented
        n = o.__index__()
        if n < 0:
            raise ValueError("negative shift count")
        return mkint(self.bits[n:], self.sign)

    def __rrshift__(self, o):
        return o >> self.__index__()

    # arithmetic
    def __add__(self, o):
        if isinstance(o, float):
            return self.__index__() + o
        if not _isint(o):
            return NotImplemented
        xb, xs = self.bits, self.sign
        yb, ys = intbits(_coerce(o))
        n = max(len(xb), len(yb))
        if xs == 0 and ys == 0:
            x = widen(xb, 0, n)
            y = widen(yb, 0, n)
            if all(a == 0 or b == 0 for a, b in zip(x, y)):
                return mkint(tuple(a if b == 0 else b for a, b in zip(x, y)))
            return mkint(expr_bits(to_z3(x + (0,)) + to_z3(y + (0,))))
        x = widen(xb, xs, n + 2)
        y = widen(yb, ys, n + 2)
        r = expr_bits(to_z3(x) + to_z3(y))
        return mkint(r[:-1], r[-1])
    __radd__ = __add__

    def __neg__(self):
        n = len(self.bits) + 2
        r = expr_bits(-to_z3(widen(self.bits, self.sign, n)))
        return mkint(r[:-1], r[-1])

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self < 0 else self

    def __sub__(self, o):
        if isinstance(o, float):
            return self.__index__() - o
        if not _isint(o):
            return NotImplemented
        xb, xs = self.bits, self.sign
        yb, ys = intbits(_coerce(o))
        n = max(len(xb), len(yb)) + 2
        r = expr_bits(to_z3(widen(xb, xs, n)) - to_z3(widen(yb, ys, n)))
        return mkint(r[:-1], r[-1])

    def __rsub__(self, o):
        if not _isint(o):
            return NotImplemented if not isinstance(o, float) else o - self.__index__()
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, float):
            return self.__index__() * o
        if not _isint(o):
            if hasattr(o, "__len__"):
                return o * self.__index__()
            return NotImplemented
        o = _coerce(o)
        if isinstance(o, int):
            if o == 0:
                return 0
            if o > 0 and o & (o - 1) == 0:
                return self << (o.bit_length() - 1)
        xb, xs = self.bits, self.sign
        yb, ys = intbits(o)
        n = len(xb) + len(yb) + 2
        r = expr_bits(to_z3(widen(xb, xs, n)) * to_z3(widen(yb, ys, n)))
        if xs == 0 and ys == 0:
            return mkint(r)
        return mkint(r[:-1], r[-1])
    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, float):
            return self.__index__() // o
        if not _isint(o):
            return NotImplemented
        o = _coerce(o)
        if isinstance(o, int) and o > 0 and o & (o - 1) == 0:
            return self >> (o.bit_length() - 1)
        if isinstance(o, int) and o > 0 and self.sign == 0:
            yb, _ = intbits(o)
            n = max(len(self.bits), len(yb))
            return mkint(expr_bits(z3.UDiv(to_z3(widen(self.bits, 0, n)), z3.BitVecVal(o, n))))
        return self.__index__() // (o if isinstance(o, int) else o.__index__())

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __mod__(self, o):
        if isinstance(o, float):
            return self.__index__() % o
        if not _isint(o):
            return NotImplemented
        o = _coerce(o)
        if isinstance(o, int) and o > 0 and o & (o - 1) == 0:
            return self & (o - 1)
        if isinstance(o, int) and o > 0 and self.sign == 0:
            yb, _ = intbits(o)
            n = max(len(self.bits), len(yb))
            return mkint(expr_bits(z3.URem(to_z3(widen(self.bits, 0, n)), z3.BitVecVal(o, n))))
        return self.__index__() % (o if isinstance(o, int) else o.__index__())

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            return NotImplemented
        return o % self.__index__()

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        return self.__index__() / o

    def __rtruediv__(self, o):
        return o / self.__index__()

    def __pow__(self, o, m=None):
        return pow(self.__index__(), o, m)

    def __rpow__(self, o):
        return o ** self.__index__()

    def __index__(self):
        return E.pick(self.bits, self.sign)
    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __bool__(self):
        r = self.__eq__(0)
        return not (r if isinstance(r, bool) else E.decide(r.c))

    def __hash__(self):
        return hash(self.__index__())

    def bit_length(self):
        if self.sign != 0:
            return self.__index__().bit_length()
        HASH.topbyte(self.bits)
        n = len(self.bits)
        while n:
            b = self.bits[n - 1]
            if b == 1 or (b > 1 and not E.decide(c_eqbits((b,), (0,)))):
                break
            n -= 1
        return n

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        if signed or self.sign != 0:
            if signed:
                return self.__index__().to_bytes(length, byteorder, signed=signed)
            if self < 0:
                raise OverflowError("can't convert negative int to unsigned")
        length = length.__index__()
        bits = self.bits
        hi = bits[8 * length:]
        if hi and not E.decide(c_eqbits(hi, (0,) * len(hi))):
            raise OverflowError("int too big to convert")
        bits = widen(bits[:8 * length], 0, 8 * length)
        cells = tuple(mkcell(bits[i:i + 8]) for i in range(0, 8 * length, 8))
        if byteorder == "big":
            cells = cells[::-1]
        return mkbytes(cells)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return token("i", self)
    __str__ = __repr__

    def __format__(self, spec):
        if spec:
            m = _HEXSPEC.match(spec)
            if m and self.sign == 0 and (not m[3] or m[2]):
                return hextext(self.bits, int(m[3] or 0), m[4] == "X", "0" + m[4] if m[1] else "")
            return format(self.__index__(), spec)
        return token("i", self)


_HEXSPEC = re.compile(r"^(#?)(0?)(\d*)([xX])$")


def hextext(bits, width, upper=False, prefix=""):
    """hexadecimal text of an unsigned number, filled up with zeros"""
    n = (len(bits) + 3) // 4
    bits = widen(bits, 0, 4 * n)
    width = max(1, width - len(prefix))
    while n > width and E.decide(c_eqbits(bits[4 * n - 4:4 * n], (0, 0, 0, 0))):
        n -= 1
    n = max(n, width)
    bits = widen(bits[:4 * n], 0, 4 * n)
    cells = []
    for i in range(4 * n - 4, -4, -4):
        nib = bits[i:i + 4]
        if upper:
            x = z3.ZeroExt(4, to_z3(nib))
            cells.append(mkcell(expr_bits(z3.If(z3.ULT(x, 10), x + 48, x + 55))))
        else:
            cells.append(hexcell(nib))
    s = mkstr(tuple(map(ord, prefix)) + tuple(cells))
    return str(s)


# ---------------------------------------------------------------- text tokens
TOK0 = "\ue000"
TOK1 = "\ue001"


def token(kind, obj):
    """real text standing for the (symbolic) text of obj"""
    if kind == "i":
        key = ("i", obj.bits, obj.sign)
    else:
        key = (kind, obj.cells)
    i = E.tokidx.get(key)
    if i is None:
        i = E.tokidx[key] = len(E.tokens)
        E.tokens.append(key)
    return TokStr("%s%d%s" % (TOK0, i, TOK1))


def wraptext(x):
    """text that may hold tokens"""
    if type(x) is str and TOK0 in x:
        return TokStr(x)
    return x


def toksegs(x):
    """("lit", text) and ("tok", kind, ...) parts of text with tokens"""
    segs = []
    for i, part in enumerate(str.split(x, TOK0)):
        if i == 0:
            segs.append(("lit", part))
        else:
            num, rest = part.split(TOK1)
            segs.append(("tok",) + E.tokens[int(num)])
            segs.append(("lit", rest))
    return segs


class TokStr(str):
    """text made by formatting symbolic values: parts of it are tokens"""

    def expand(self):
        out = ()
        for s in toksegs(self):
            if s[0] == "lit":
                out += tuple(map(ord, s[1]))
            elif s[1] == "s":
                out += s[2]
            elif s[1] == "j":
                out += HASH.json_str(s[2])
            else:
                raise Unsupported("text of a symbolic value")
        return mkstr(out)

    def __eq__(self, o):
        if isinstance(o, SymStr):
            o = str(o)
        if not isinstance(o, str):
            return NotImplemented
        if str.__eq__(self, o):
            return True
        return mkbool(HASH.eqtext(self, o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __hash__(self):
        raise Unsupported("hash of symbolic text")

    def __add__(self, o):
        if isinstance(o, SymStr):
            o = str(o)
        if not isinstance(o, str):
            return NotImplemented
        return TokStr(str.__add__(self, o))

    def __radd__(self, o):
        if isinstance(o, SymStr):
            o = str(o)
        if not isinstance(o, str):
            return NotImplemented
        return TokStr(str.__add__(o, self))

    def __str__(self):
        return self

    def __repr__(self):
        return repr(self.expand())

    def __format__(self, spec):
        if spec:
            return format(self.expand(), spec)
        return str.__str__(self)

    def encode(self, encoding="utf-8", errors="strict"):
        if encoding.lower().replace("_", "-") not in ("utf-8", "utf8"):
            return self.expand().encode(encoding, errors)
        return TokBytes(str.encode(self))

    def __bool__(self):
        return True

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _viatext(name):
    def f(self, *a, **k):
        return getattr(self.expand(), name)(*a, **k)
    return f


for _n in ("__len__", "__getitem__", "__iter__", "__contains__", "__lt__", "__gt__", "__mul__", "find", "index",
           "startswith", "endswith", "join", "split", "lower", "upper", "strip", "lstrip", "rstrip", "zfill",
           "removeprefix"):
    setattr(TokStr, _n, _viatext(_n))


def _nottext(name):
    def f(self, *a, **k):
        raise Unsupported("%s of symbolic text" % name)
    return f


for _n in ("__le__", "__ge__", "__rmul__", "replace", "count", "rfind", "rindex", "partition", "rpartition", "title",
           "capitalize", "casefold", "swapcase", "ljust", "rjust", "center", "translate", "splitlines", "rsplit",
           "isdigit", "isalpha", "isalnum", "isascii", "isspace", "isupper", "islower", "isnumeric", "isdecimal",
           "isidentifier", "isprintable", "istitle", "expandtabs", "removesuffix", "__mod__"):
    setattr(TokStr, _n, _nottext(_n))


class TokBytes(bytes):
    """UTF-8 of text with tokens"""

    def text(self):
        return TokStr(bytes.decode(self, "utf-8"))

    def decode(self, encoding="utf-8", errors="strict"):
        if encoding.lower().replace("_", "-") in ("utf-8", "utf8"):
            return self.text()
        return self.expand().decode(encoding, errors)

    def expand(self):
        return self.text().expand().encode()

    def __eq__(self, o):
        if isinstance(o, TokBytes):
            return self.text() == o.text()
        if type(o) is bytes:
            try:
                return self.text() == o.decode("utf-8")
            except UnicodeDecodeError:
                return False
        return self.expand() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __hash__(self):
        raise Unsupported("hash of symbolic text")

    def __repr__(self):
        return repr(self.expand())

    def __add__(self, o):
        if isinstance(o, TokBytes):
            return TokBytes(bytes.__add__(self, o))
        return self.expand() + o

    def __radd__(self, o):
        return o + self.expand()

    def __bool__(self):
        return True


for _n in ("__len__", "__getitem__", "__iter__", "__contains__", "__lt__", "__gt__", "__mul__", "find", "startswith",
           "endswith", "join", "split", "hex", "lower", "upper", "strip"):
    setattr(TokBytes, _n, _viatext(_n))
for _n in ("__le__", "__ge__", "replace", "count", "rfind", "index", "rindex", "partition", "ljust", "rjust", "rsplit"):
    setattr(TokBytes, _n, _nottext(_n))


def pick_item(table, i):
    """table[i] of a table of small constants at a symbolic index"""
    n = len(table)
    if not bool(i < n):
        raise IndexError("index out of range")
    nums = list(map(ord, table)) if type(table) is str else list(table)
    w = max(8, max(nums).bit_length())
    k = max(1, (n - 1).bit_length())
    bits = widen(i.bits[:k], 0, k)
    if type(table) is str and table[:16] == "0123456789abcdef" and k == 4:
        return mkstr((hexcell(bits),))
    x = to_z3(bits)
    e = z3.BitVecVal(nums[-1], w)
    for j in range(n - 1):
        e = z3.If(x == j, z3.BitVecVal(nums[j], w), e)
    out = expr_bits(e)
    return mkstr((mkcell(out),)) if type(table) is str else mkint(out)


# ---------------------------------------------------------------- bytes
def mkbytes(cells):
    if not cells or max(cells) < CELL0:
        return bytes(cells)
    return SymBytes(cells)


def bcells(x):
    """cells of bytes-like x, or None"""
    if type(x) is TokBytes:
        return bcells(x.expand())
    if isinstance(x, (bytes, bytearray)):
        return tuple(x)
    if isinstance(x, (SymBytes, SymByteArray)):
        return tuple(x.cells)
    if isinstance(x, memoryview):
        return tuple(x)
    return None


def cellint(c):
    if c < CELL0:
        return c
    return mkint(CELLBITS[c - CELL0])


def byte_cell(x):
    """cell of an integer 0..255, ValueError otherwise"""
    if isinstance(x, SymInt):
        if x.sign != 0 and x < 0:
            raise ValueError("bytes must be in range(0, 256)")
        hi = x.bits[8:]
        if hi and not E.decide(c_eqbits(hi, (0,) * len(hi))):
            raise ValueError("bytes must be in range(0, 256)")
        return mkcell(widen(x.bits[:8], 0, 8))
    if isinstance(x, SymBool):
        return int(bool(x))
    if not hasattr(x, "__index__"):
        raise TypeError("'%s' object cannot be interpreted as an integer" % type(x).__name__)
    x = x.__index__()
    if not 0 <= x < 256:
        raise ValueError("bytes must be in range(0, 256)")
    return x


def c_ltcells(xs, ys):
    """lexicographic xs < ys as a condition"""
    res = len(xs) < len(ys)
    for a, b in reversed(list(zip(xs, ys))):
        ab = cellbits(a)
        bb = cellbits(b)
        n = max(len(ab), len(bb))
        ab = widen(ab, 0, n)
        bb = widen(bb, 0, n)
        lt = c_lt(ab, bb)
        eq = c_eqbits(ab, bb)
        res = c_or([lt, c_and([eq, res])])
    return res


class _Seq:
    """common part of SymBytes, SymByteArray (cells are bytes)"""
    __slots__ = ()

    def __len__(self):
        return len(self.cells)

    def _mk(self, cells):
        return mkbytes(tuple(cells))

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*[x if x is None else x.__index__() for x in (i.start, i.stop, i.step)])
            return self._mk(self.cells[i])
        return cellint(self.cells[i])

    def __iter__(self):
        i = 0
        while i < len(self.cells):
            yield cellint(self.cells[i])
            i += 1

    def __eq__(self, o):
        oc = bcells(o)
        if oc is None:
            return NotImplemented
        if len(oc) != len(self.cells):
            return False
        return mkbool(c_eqcells(tuple(self.cells), oc))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __lt__(self, o):
        oc = bcells(o)
        if oc is None:
            return NotImplemented
        return mkbool(c_ltcells(tuple(self.cells), oc))

    def __gt__(self, o):
        oc = bcells(o)
        if oc is None:
            return NotImplemented
        return mkbool(c_ltcells(oc, tuple(self.cells)))

    def __le__(self, o):
        r = self.__gt__(o)
        return r if r is NotImplemented else sym_not(r)

    def __ge__(self, o):
        r = self.__lt__(o)
        return r if r is NotImplemented else sym_not(r)

    def __add__(self, o):
        oc = bcells(o)
        if oc is None:
            return NotImplemented
        return self._mk(tuple(self.cells) + oc)

    def __radd__(self, o):
        oc = bcells(o)
        if oc is None:
            return NotImplemented
        cells = oc + tuple(self.cells)
        if isinstance(o, (bytearray, SymByteArray)):
            return SymByteArray(list(cells))
        return mkbytes(cells)

    def __mul__(self, n):
        return self._mk(tuple(self.cells) * n.__index__())
    __rmul__ = __mul__

    def __contains__(self, x):
        if _isint(x):
            if isinstance(x, SymInt):
                return any(bool(cellint(c) == x) for c in self.cells)
            if not 0 <= x < 256:
                raise ValueError("byte must be in range(0, 256)")
            return any(bool(cellint(c) == x) for c in self.cells)
        return self.find(x) >= 0

    def hex(self, sep=None, bytes_per_sep=1):
        if sep is not None:
            raise Unsupported("hex with separator")
        out = []
        for c in self.cells:
            b = cellbits(c)
            out.append(hexcell(b[4:8]))
            out.append(hexcell(b[0:4]))
        return mkstr(tuple(out))

    def decode(self, encoding="utf-8", errors="strict"):
        e = encoding.lower().replace("_", "-")
        cells = tuple(self.cells)
        if e in ("latin-1", "latin1", "iso-8859-1"):
            return mkstr(cells)
        if errors != "strict":
            raise Unsupported("decode errors=" + errors)
        if e == "ascii":
            for i, c in enumerate(cells):
                if not _lt_const(c, 0x80):
                    raise UnicodeDecodeError("ascii", b"?", 0, 1, "symbolic")
            return mkstr(cells)
        if e not in ("utf-8", "utf8"):
            raise Unsupported("decode " + encoding)
        return utf8_decode(cells)

    def startswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(bool(self.startswith(q, start, end)) for q in p)
        pc = bcells(p)
        if pc is None:
            raise TypeError("startswith first arg must be bytes or a tuple of bytes")
        s = tuple(self.cells)[start:end]
        if len(pc) > len(s):
            return False
        return mkbool(c_eqcells(s[:len(pc)], pc))

    def endswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(bool(self.endswith(q, start, end)) for q in p)
        pc = bcells(p)
        if pc is None:
            raise TypeError("endswith first arg must be bytes or a tuple of bytes")
        s = tuple(self.cells)[start:end]
        if len(pc) > len(s):
            return False
        return mkbool(c_eqcells(s[len(s) - len(pc):], pc))

    def find(self, sub, start=0, end=None):
        pc = (byte_cell(sub),) if _isint(sub) else bcells(sub)
        if pc is None:
            raise TypeError("argument should be integer or bytes-like object")
        cells = tuple(self.cells)
        n = len(cells)
        start, end, _ = slice(start, end).indices(n)
        for i in range(start, end - len(pc) + 1):
            if E.decide(c_eqcells(cells[i:i + len(pc)], pc)):
                return i
        return -1

    def index(self, sub, start=0, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def count(self, sub):
        n = i = 0
        step = max(1, 1 if _isint(sub) else len(sub))
        while True:
            i = self.find(sub, i)
            if i < 0 or i > len(self.cells):
                return n
            n += 1
            i += step

    def lstrip(self, chars=b" \t\n\r\x0b\f"):
        cells = tuple(self.cells)
        i = 0
        while i < len(cells) and cellint(cells[i]) in SeqView(bcells(chars)):
            i += 1
        return self._mk(cells[i:])

    def rstrip(self, chars=b" \t\n\r\x0b\f"):
        cells = tuple(self.cells)
        i = len(cells)
        while i and cellint(cells[i - 1]) in SeqView(bcells(chars)):
            i -= 1
        return self._mk(cells[:i])

    def strip(self, chars=b" \t\n\r\x0b\f"):
        return self.lstrip(chars).rstrip(chars)

    def rjust(self, n, fill=b" "):
        k = max(0, n - len(self.cells))
        return self._mk(bcells(fill) * k + tuple(self.cells))

    def ljust(self, n, fill=b" "):
        k = max(0, n - len(self.cells))
        return self._mk(tuple(self.cells) + bcells(fill) * k)

    def removeprefix(self, p):
        return self._mk(tuple(self.cells)[len(p):]) if self.startswith(p) else self

    def removesuffix(self, p):
        return self._mk(tuple(self.cells)[:len(self.cells) - len(p)]) if len(p) and self.endswith(p) else self

    def join(self, parts):
        out = None
        sep = tuple(self.cells)
        for p in parts:
            pc = bcells(p)
            if pc is None:
                raise TypeError("sequence item: expected a bytes-like object")
            out = pc if out is None else out + sep + pc
        return self._mk(out or ())

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported("bytes.split()")
        out = []
        pos = 0
        while maxsplit != 0:
            i = self.find(sep, pos)
            if i < 0:
                break
            out.append(self._mk(tuple(self.cells)[pos:i]))
            pos = i + len(sep)
            maxsplit -= 1
        out.append(self._mk(tuple(self.cells)[pos:]))
        return out


class SeqView:
    def __init__(self, cells):
        self.cells = cells

    def __contains__(self, x):
        return any(bool(x == c) for c in self.cells)


class SymBytes(_Seq):
    __slots__ = ("cells",)

    def __init__(self, cells):
        self.cells = cells

    def __hash__(self):
        fixed = known_bytes(self.cells)
        if fixed is not None:
            return hash(fixed)
        raise Unsupported("hash of symbolic bytes")

    def __bool__(self):
        return True

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return token("r", self)
    __str__ = __repr__

    def __format__(self, spec):
        return token("r", self)

    def __bytes__(self):
        raise Unsupported("bytes() of symbolic bytes in C code")


def known_bytes(cells):
    """bytes value if the path fixes every bit"""
    out = []
    for c in cells:
        if c >= CELL0:
            v = 0
            for i, b in enumerate(CELLBITS[c - CELL0]):
                b = E.find(b)
                if b > 1:
                    return None
                v |= b << i
            c = v
        out.append(c)
    return bytes(out)


class SymByteArray(_Seq):
    """bytearray (mutable), symbolic or not"""
    __slots__ = ("cells", "__weakref__")

    def __init__(self, cells=()):
        self.cells = list(cells)

    __hash__ = None

    def _mk(self, cells):
        return SymByteArray(cells)

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            vc = bcells(v)
            self.cells[i] = vc if vc is not None else [byte_cell(x) for x in v]
        else:
            self.cells[i] = byte_cell(v)

    def __delitem__(self, i):
        del self.cells[i]

    def __iadd__(self, o):
        oc = bcells(o)
        if oc is None:
            raise TypeError("can't concat")
        self.cells.extend(oc)
        return self

    def append(self, v):
        self.cells.append(byte_cell(v))

    def extend(self, o):
        oc = bcells(o)
        self.cells.extend(oc if oc is not None else [byte_cell(x) for x in o])

    def pop(self, i=-1):
        return cellint(self.cells.pop(i))

    def insert(self, i, v):
        self.cells.insert(i, byte_cell(v))

    def reverse(self):
        self.cells.reverse()

    def clear(self):
        self.cells.clear()

    def copy(self):
        return SymByteArray(self.cells)

    def __copy__(self):
        return SymByteArray(self.cells)

    def __deepcopy__(self, memo):
        return SymByteArray(self.cells)

    def __bool__(self):
        return len(self.cells) > 0

    def __repr__(self):
        x = mkbytes(tuple(self.cells))
        return "bytearray(%r)" % (x,)
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


def _lt_const(c, k):
    """decide cell < k"""
    if c < CELL0:
        return c < k
    b = cellbits(c)
    if cell_nibble(c) is not None:
        return ord("f") < k
    n = max(len(b), k.bit_length())
    return E.decide(c_lt(widen(b, 0, n), tuple((k >> i) & 1 for i in range(n))))


def utf8_decode(cells):
    out = []
    i = 0
    n = len(cells)

    def bad():
        raise UnicodeDecodeError("utf-8", b"?", 0, 1, "invalid (symbolic)")

    def cont(c):
        return not _lt_const(c, 0x80) and _lt_const(c, 0xC0)

    while i < n:
        c = cells[i]
        if _lt_const(c, 0x80):
            out.append(c)
            i += 1
            continue
        if _lt_const(c, 0xC2) or not _lt_const(c, 0xF5):
            bad()
        if _lt_const(c, 0xE0):
            k, lead = 1, 5
        elif _lt_const(c, 0xF0):
            k, lead = 2, 4
        else:
            k, lead = 3, 3
        if i + k >= n:
            bad()
        cs = cells[i + 1:i + 1 + k]
        for d in cs:
            if not cont(d):
                bad()
        bits = cellbits(c)[:lead]
        for d in cs:
            bits = cellbits(d)[:6] + bits
        v = mkint(bits)
        if k == 2 and (bool(v < 0x800) or (bool(v >= 0xD800) and bool(v < 0xE000))):
            bad()
        if k == 3 and (bool(v < 0x10000) or bool(v > 0x10FFFF)):
            bad()
        out.append(mkcell(widen(bits, 0, max(8, len(bits)))))
        i += k + 1
    return mkstr(tuple(out))


# ---------------------------------------------------------------- str
def mkstr(cells):
    if not cells or max(cells) < CELL0:
        return "".join(map(chr, cells))
    return SymStr(cells)


def scells(x):
    if type(x) is TokStr:
        return scells(x.expand())
    if isinstance(x, str):
        return tuple(map(ord, x))
    if isinstance(x, SymStr):
        return x.cells
    return None


class SymStr:
    __slots__ = ("cells",)

    def __init__(self, cells):
        self.cells = cells

    def __len__(self):
        return len(self.cells)

    def __bool__(self):
        return True

    def __eq__(self, o):
        oc = scells(o)
        if oc is None:
            return NotImplemented
        if len(oc) != len(self.cells):
            return False
        return mkbool(c_eqcells(self.cells, oc))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __lt__(self, o):
        return mkbool(c_ltcells(self.cells, scells(o)))

    def __gt__(self, o):
        return mkbool(c_ltcells(scells(o), self.cells))

    def __hash__(self):
        raise Unsupported("hash of symbolic str")

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*[x if x is None else x.__index__() for x in (i.start, i.stop, i.step)])
            return mkstr(self.cells[i])
        return mkstr((self.cells[i],))

    def __iter__(self):
        for c in self.cells:
            yield mkstr((c,))

    def __add__(self, o):
        oc = scells(o)
        if oc is None:
            return NotImplemented
        return mkstr(self.cells + oc)

    def __radd__(self, o):
        oc = scells(o)
        if oc is None:
            return NotImplemented
        return mkstr(oc + self.cells)

    def __mul__(self, n):
        return mkstr(self.cells * n.__index__())
    __rmul__ = __mul__

    def __contains__(self, o):
        return self.find(o) >= 0

    def find(self, sub, start=0, end=None):
        pc = scells(sub)
        if pc is None:
            raise TypeError("must be str")
        start, end, _ = slice(start, end).indices(len(self.cells))
        for i in range(start, end - len(pc) + 1):
            if E.decide(c_eqcells(self.cells[i:i + len(pc)], pc)):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def startswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(bool(self.startswith(q, start, end)) for q in p)
        pc = scells(p)
        if pc is None:
            raise TypeError("startswith first arg must be str or a tuple of str")
        s = self.cells[start:end]
        return len(pc) <= len(s) and mkbool(c_eqcells(s[:len(pc)], pc))

    def endswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(bool(self.endswith(q, start, end)) for q in p)
        pc = scells(p)
        s = self.cells[start:end]
        return len(pc) <= len(s) and mkbool(c_eqcells(s[len(s) - len(pc):], pc))

    def removeprefix(self, p):
        return mkstr(self.cells[len(p):]) if self.startswith(p) else self

    def join(self, parts):
        out = None
        for p in parts:
            pc = scells(p)
            if pc is None:
                raise TypeError("sequence item: expected str instance")
            out = pc if out is None else out + self.cells + pc
        return mkstr(out or ())

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported("str.split()")
        out = []
        pos = 0
        while maxsplit != 0:
            i = self.find(sep, pos)
            if i < 0:
                break
            out.append(mkstr(self.cells[pos:i]))
            pos = i + len(sep)
            maxsplit -= 1
        out.append(mkstr(self.cells[pos:]))
        return out

    def lower(self):
        out = []
        for c in self.cells:
            if c < CELL0:
                s = chr(c).lower()
                if len(s) != 1:
                    raise Unsupported("lower")
                out.append(ord(s))
            elif cell_nibble(c) is not None:
                out.append(c)
            else:
                if not _lt_const(c, 128):
                    raise Unsupported("lower of non-ASCII")
                if not _lt_const(c, 65) and _lt_const(c, 91):
                    out.append(mkcell(widen((mkint(cellbits(c)) + 32).bits, 0, 8)))
                else:
                    out.append(c)
        return mkstr(tuple(out))

    def upper(self):
        out = []
        for c in self.cells:
            if c < CELL0:
                s = chr(c).upper()
                if len(s) != 1:
                    raise Unsupported("upper")
                out.append(ord(s))
            else:
                if not _lt_const(c, 128):
                    raise Unsupported("upper of non-ASCII")
                if not _lt_const(c, 97) and _lt_const(c, 123):
                    r = mkint(cellbits(c)) - 32
                    out.append(mkcell(widen(r.bits, 0, 8)) if isinstance(r, SymInt) else r)
                else:
                    out.append(c)
        return mkstr(tuple(out))

    _WS = " \t\n\r\x0b\f\x1c\x1d\x1e\x1f\x85\xa0"

    def lstrip(self, chars=None):
        cs = tuple(map(ord, chars or self._WS))
        i = 0
        while i < len(self.cells) and any(E.decide(c_eqcells((self.cells[i],), (x,))) for x in cs):
            i += 1
        return mkstr(self.cells[i:])

    def rstrip(self, chars=None):
        cs = tuple(map(ord, chars or self._WS))
        i = len(self.cells)
        while i and any(E.decide(c_eqcells((self.cells[i - 1],), (x,))) for x in cs):
            i -= 1
        return mkstr(self.cells[:i])

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars) if len(self.cells) else self

    def zfill(self, n):
        return mkstr((48,) * max(0, n - len(self.cells)) + self.cells)

    def encode(self, encoding="utf-8", errors="strict"):
        e = encoding.lower().replace("_", "-")
        out = []
        for c in self.cells:
            if e in ("latin-1", "latin1") and c >= CELL0 and len(cellbits(c)) <= 8:
                out.append(c)
                continue
            if _lt_const(c, 0x80):
                out.append(c)
                continue
            if e in ("ascii", "us-ascii", "latin-1", "latin1", "iso-8859-1"):
                if e[0] in "li" and _lt_const(c, 0x100):
                    out.append(c if c < CELL0 else mkcell(cellbits(c)[:8]))
                elif errors == "replace":
                    out.append(63)
                elif errors != "ignore":
                    if errors != "strict":
                        raise Unsupported("encode with " + errors)
                    raise UnicodeEncodeError(e, "?", 0, 1, "symbolic")
                continue
            if e not in ("utf-8", "utf8"):
                raise Unsupported("encode " + encoding)
            if c < CELL0:
                out.extend(chr(c).encode())
                continue
            b = widen(cellbits(c), 0, 21)
            if _lt_const(c, 0x800):
                out.append(mkcell(b[6:11] + (0, 1, 1)))
                out.append(mkcell(b[:6] + (0, 1)))
            elif _lt_const(c, 0x10000):
                if not _lt_const(c, 0xD800) and _lt_const(c, 0xE000):
                    if errors in ("replace", "ignore"):
                        out.extend(b"?" if errors == "replace" else b"")
                        continue
                    if errors != "strict":
                        raise Unsupported("encode with " + errors)
                    raise UnicodeEncodeError("utf-8", "?", 0, 1, "surrogates not allowed")
                out.append(mkcell(b[12:16] + (0, 1, 1, 1)))
                out.append(mkcell(b[6:12] + (0, 1)))
                out.append(mkcell(b[:6] + (0, 1)))
            else:
                out.append(mkcell(b[18:21] + (0, 1, 1, 1, 1)))
                out.append(mkcell(b[12:18] + (0, 1)))
                out.append(mkcell(b[6:12] + (0, 1)))
                out.append(mkcell(b[:6] + (0, 1)))
        return mkbytes(tuple(out))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return token("q", self)

    def __str__(self):
        return token("s", self)

    def __format__(self, spec):
        return token("s", self)


# ---------------------------------------------------------------- containers
def hkey(k):
    """hashable key that is equal for syntactically identical values, or None"""
    t = type(k)
    if t is bytes or t is str or t is int or t is bool:
        return (t, k) if t is not bool else (int, int(k))
    if t is SymBytes:
        return ("b", k.cells)
    if t is SymStr:
        return ("s", k.cells)
    if t is SymInt:
        return ("i", k.bits, k.sign)
    if t is tuple:
        ks = tuple(hkey(x) for x in k)
        if None in ks:
            return None
        return ("t",) + ks
    if t is SymByteArray or t is bytearray or t is list or t is dict:
        raise TypeError("unhashable type")
    try:
        hash(k)
    except EngineSignal:
        return None
    return ("o", id(k)) if type(k).__eq__ is object.__eq__ else None


def is_conc(k):
    t = type(k)
    if t is tuple:
        return all(is_conc(x) for x in k)
    return t in (bytes, str, int, bool, float, type(None)) or isinstance(k, type)


class SymDict:
    """dict whose keys may be symbolic; insertion order kept"""

    def __init__(self, *args, **kw):
        self._keys = []
        self._vals = []
        self._idx = {}
        self._nsym = 0
        self._ver = 0
        if args:
            self.update(*args)
        if kw:
            self.update(kw)

    def _find(self, k):
        h = hkey(k)
        if h is not None:
            i = self._idx.get(h)
            if i is not None:
                return i
            if self._nsym == 0 and is_conc(k) and type(k) is not float:
                return -1
        conc = is_conc(k)
        for i, e in enumerate(self._keys):
            if conc and h is not None and is_conc(e):
                continue
            r = e == k
            if r is False:
                continue
            if r is NotImplemented:
                continue
            if r is True or bool(r):
                return i
        return -1

    def _reindex(self):
        self._idx = {}
        for i, k in enumerate(self._keys):
            h = hkey(k)
            if h is not None:
                self._idx[h] = i

    def __getitem__(self, k):
        i = self._find(k)
        if i < 0:
            if hasattr(type(self), "__missing__"):
                return self.__missing__(k)
            raise KeyError(k)
        return self._vals[i]

    def __setitem__(self, k, v):
        i = self._find(k)
        if i >= 0:
            self._vals[i] = v
            return
        h = hkey(k)
        if h is not None:
            self._idx[h] = len(self._keys)
        if not is_conc(k):
            self._nsym += 1
        self._keys.append(k)
        self._vals.append(v)
        self._ver += 1

    def __delitem__(self, k):
        i = self._find(k)
        if i < 0:
            raise KeyError(k)
        if not is_conc(self._keys[i]):
            self._nsym -= 1
        del self._keys[i]
        del self._vals[i]
        self._ver += 1
        self._reindex()

    def __contains__(self, k):
        return self._find(k) >= 0

    def __len__(self):
        return len(self._keys)

    def __bool__(self):
        return len(self._keys) > 0

    def _iter(self, what):
        n = len(self._keys)
        v = self._ver
        i = 0
        while True:
            if len(self._keys) != n:
                raise RuntimeError("dictionary changed size during iteration")
            if self._ver != v:
                raise RuntimeError("dictionary keys changed during iteration")
            if i >= n:
                return
            yield (self._keys[i] if what == 0 else self._vals[i] if what == 1
                   else (self._keys[i], self._vals[i]))
            i += 1

    def __iter__(self):
        return self._iter(0)

    def __reversed__(self):
        return iter(list(reversed(self._keys)))

    def keys(self):
        return DictView(self, 0)

    def values(self):
        return DictView(self, 1)

    def items(self):
        return DictView(self, 2)

    def get(self, k, d=None):
        i = self._find(k)
        return d if i < 0 else self._vals[i]

    _NO = object()

    def pop(self, k, d=_NO):
        i = self._find(k)
        if i < 0:
            if d is SymDict._NO:
                raise KeyError(k)
            return d
        v = self._vals[i]
        if not is_conc(self._keys[i]):
            self._nsym -= 1
        del self._keys[i]
        del self._vals[i]
        self._ver += 1
        self._reindex()
        return v

    def popitem(self):
        if not self._keys:
            raise KeyError("popitem(): dictionary is empty")
        k = self._keys[-1]
        return k, self.pop(k)

    def setdefault(self, k, d=None):
        i = self._find(k)
        if i >= 0:
            return self._vals[i]
        self[k] = d
        return d

    def update(self, *args, **kw):
        for o in args:
            if hasattr(o, "keys"):
                for k in o.keys():
                    self[k] = o[k]
            else:
                for k, v in o:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def clear(self):
        self._keys.clear()
        self._vals.clear()
        self._idx.clear()
        self._nsym = 0
        self._ver += 1

    def copy(self):
        d = SymDict()
        d._keys = list(self._keys)
        d._vals = list(self._vals)
        d._idx = dict(self._idx)
        d._nsym = self._nsym
        return d
    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        d = SymDict()
        memo[id(self)] = d
        for k, v in zip(self._keys, self._vals):
            d[k] = copy.deepcopy(v, memo)
        return d

    def __or__(self, o):
        d = self.copy()
        d.update(o)
        return d

    def __ror__(self, o):
        d = SymDict(o)
        d.update(self)
        return d

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        if not isinstance(o, (dict, SymDict)):
            return NotImplemented
        if len(o) != len(self):
            return False
        for k in self._keys:
            if k not in o:
                return False
            if not (self[k] == o[k]):
                return False
        return True

    __hash__ = None

    @classmethod
    def fromkeys(cls, it, v=None):
        d = SymDict()
        for k in it:
            d[k] = v
        return d

    def __repr__(self):
        return "{%s}" % ", ".join("%r: %r" % kv for kv in zip(self._keys, self._vals))


class DictView:
    def __init__(self, d, what):
        self.d = d
        self.what = what

    def __iter__(self):
        return self.d._iter(self.what)

    def __reversed__(self):
        return iter(list(self)[::-1])

    def __len__(self):
        return len(self.d)

    def __contains__(self, x):
        if self.what == 0:
            return x in self.d
        return any(bool(x == y) for y in self)

    def __eq__(self, o):
        if self.what == 1:
            return self is o
        return len(self) == len(o) and all(x in o for x in self)

    __hash__ = None

    def __and__(self, o):
        return SymSet(x for x in self if x in o)

    def __or__(self, o):
        return SymSet(list(self) + list(o))

    def __sub__(self, o):
        return SymSet(x for x in self if x not in o)

    def __repr__(self):
        return "dict_%s([%s])" % (("keys", "values", "items")[self.what],
                                  ", ".join(map(repr, self)))


class SymSet:
    def __init__(self, it=()):
        self._d = SymDict()
        for x in it:
            self._d[x] = True

    def add(self, x):
        self._d[x] = True

    def discard(self, x):
        self._d.pop(x, None)

    def remove(self, x):
        del self._d[x]

    def pop(self):
        return self._d.popitem()[0]

    def clear(self):
        self._d.clear()

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def copy(self):
        return SymSet(self)
    __copy__ = copy

    def __contains__(self, x):
        return x in self._d

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    def __bool__(self):
        return len(self._d) > 0

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset, SymSet)):
            return NotImplemented
        return len(self) == len(o) and all(x in o for x in self)

    __hash__ = None

    def __or__(self, o):
        return SymSet(list(self) + list(o))

    def __and__(self, o):
        return SymSet(x for x in self if x in o)

    def __sub__(self, o):
        return SymSet(x for x in self if x not in o)

    def __xor__(self, o):
        return (self - o) | (SymSet(o) - self)

    union = __or__
    intersection = __and__
    difference = __sub__

    def issubset(self, o):
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    __le__ = issubset
    __ge__ = issuperset

    def __repr__(self):
        return "{%s}" % ", ".join(map(repr, self))


def is_sym(x):
    return isinstance(x, (SymInt, SymBytes, SymStr, SymBool)) or (
        isinstance(x, SymByteArray))
