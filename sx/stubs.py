"""Models of the libraries pymt uses, over symbolic values.

Hashes, ciphers, signatures and random numbers are ideal (see the classes);
text and container libraries are modelled exactly.  The models answer real
values for concrete data wherever they can."""
import collections as _collections
import datetime as _dt
import functools as _functools
import json as _json
import os as _os
import types
from collections.abc import Sequence, MutableMapping, MutableSet, MutableSequence
from . import core, hashing, rlpmodel
from .core import (bcells, scells, mkbytes, mkstr, mkcell, cellbits, CELL0, SymBytes,
                   SymByteArray, SymStr, SymInt, SymBool, SymDict, SymSet, Unsupported,
                   c_eqcells, c_and, widen)

Sequence.register(SymBytes)
Sequence.register(SymStr)
MutableSequence.register(SymByteArray)
MutableMapping.register(SymDict)
MutableSet.register(SymSet)

FORBIDDEN = {"subprocess", "socket", "ctypes", "multiprocessing", "shutil", "tempfile",
             "sqlite3", "asyncio", "signal", "requests", "urllib", "mmap"}


def mod(_name, **kw):
    m = types.ModuleType(_name)
    m.__dict__.update(kw)
    return m


def fresh_bytes(prefix, n):
    out = []
    for i in range(n):
        out.append(mkcell(core.E.newvar(prefix, 8).bits()))
    return tuple(out)


def fresh_random(prefix, n):
    """random bytes: long ones never repeat"""
    c = fresh_bytes(prefix, n)
    if n >= 8:
        for o in core.E.stub.get("fresh", ()):
            if len(o) == n:
                core.E.assume(core.c_not(c_eqcells(o, c)))
        core.E.stub.setdefault("fresh", []).append(c)
    return c


def need_bytes(x, what="data"):
    c = bcells(x)
    if c is None:
        if isinstance(x, (str, SymStr)):
            raise TypeError("Object type <class 'str'> cannot be passed to C code")
        raise TypeError("Object type %s cannot be passed to C code" % type(x))
    return c


# ------------------------------------------------------------------ hashes
class HashObj:
    def __init__(self, alg, data=None, final=False):
        self.alg = alg
        self.cells = ()
        self.final = final        # update after digest refused
        self.done = False
        self.name = alg
        self.digest_size = hashing.SIZES[alg]
        self.block_size = 64
        if data is not None:
            self.update(data)

    def update(self, data):
        if self.final and self.done:
            raise TypeError("You can only call 'digest' or 'hexdigest' on this object")
        # formatted text keeps its parts
        self.cells += tuple(bytes.__iter__(data)) if type(data) is core.TokBytes else need_bytes(data)
        return self

    def digest(self, length=None):
        self.done = True
        return mkbytes(hashing.HASHES.digest(self.alg, self.cells))

    def hexdigest(self, length=None):
        return self.digest().hex()

    def copy(self):
        h = HashObj(self.alg, None, self.final)
        h.cells = self.cells
        return h

    def new(self, data=None):
        return HashObj(self.alg, data, self.final)


class HashMod:
    """module-like Crypto.Hash.X"""

    def __init__(self, alg, final=False):
        self.alg = alg
        self.final = final
        self.digest_size = hashing.SIZES[alg]
        self.block_size = 64
        for n in ("SHA256Hash", "SHA512Hash", "SHA1Hash", "MD5Hash", "SHA3_256_Hash"):
            setattr(self, n, HashObj)

    def new(self, data=None, **kw):
        return HashObj(self.alg, data, self.final)


class KeccakMod:
    Keccak_Hash = HashObj

    def new(self, data=None, digest_bytes=None, digest_bits=None, update_after_digest=False):
        if digest_bytes is not None and digest_bits is not None:
            raise TypeError("Only one digest parameter must be provided")
        if digest_bytes is None and digest_bits is None:
            raise TypeError("Digest size (bits, bytes) not provided")
        bits = digest_bits if digest_bits is not None else digest_bytes * 8
        if bits not in (224, 256, 384, 512):
            raise ValueError("'digest_bits' must be: 224, 256, 384 or 512")
        return HashObj("keccak%d" % bits, data, not update_after_digest)


def hashlib_new(alg):
    def f(data=b"", *, usedforsecurity=True, string=None):
        if isinstance(data, (str, SymStr)):
            raise TypeError("Strings must be encoded before hashing")
        if bcells(data) is None:
            raise TypeError("object supporting the buffer API required")
        return HashObj(alg, data)
    f.__name__ = "openssl_" + alg
    return f


# ------------------------------------------------------------------ ciphers
def eqc(a, b):
    """condition: two byte sequences are equal"""
    return c_eqcells(tuple(a), tuple(b)) if len(a) == len(b) else False


class AesObj:
    """Ideal cipher.  Authenticated modes: decrypt_and_verify gives back the
    plaintext exactly for a (key, nonce, header, ciphertext, tag) that was produced by
    encryption and raises otherwise.  Other modes: a stream cipher without any
    integrity."""
    AEAD = ("EAX", "GCM", "CCM", "OCB", "SIV")

    def __init__(self, modname, key, nonce, mac_len=16):
        self.mode = modname
        self.key = key
        self._nonce = nonce
        self.mac_len = mac_len
        self.header = ()
        self.last = None

    @property
    def nonce(self):
        return mkbytes(self._nonce)
    iv = IV = nonce

    def update(self, data):
        self.header += need_bytes(data)
        return self

    def encrypt(self, pt, output=None):
        p = need_bytes(pt)
        if self.mode in ("CBC", "ECB") and len(p) % 16:
            raise ValueError("Data must be padded to 16 byte boundary in %s mode" % self.mode)
        ct = self._find_enc(p)
        if ct is None:
            ct = fresh_random("ct", len(p))
            # encryption under one key and nonce is injective
            for m, k, n, q, rc in core.E.stub.get("aes", ()):
                if m == self.mode and len(rc) == len(ct) and len(ct) < 8:
                    core.E.assume(core.c_not(c_and([eqc(k, self.key), eqc(n, self._nonce), eqc(rc, ct)])))
            core.E.stub.setdefault("aes", []).append((self.mode, self.key, self._nonce, p, ct))
        self.last = (ct, p)
        return mkbytes(ct)

    def _all(self, n, *conds):
        """all of the conditions hold; for long data decided one by one"""
        if n <= 200:
            return core.E.decide(c_and(list(conds)))
        return all(core.E.decide(x) for x in conds)

    def _find_enc(self, p):
        for m, k, n, q, ct in core.E.stub.get("aes", ()):
            if m == self.mode and len(p) == len(q) and self._all(
                    len(p), eqc(k, self.key), eqc(n, self._nonce), eqc(p, q)):
                return ct
        return None

    def _tag(self, ct):
        for m, k, n, h, c, t in core.E.stub.get("mac", ()):
            if m == self.mode and len(c) == len(ct) and len(t) == self.mac_len and self._all(
                    len(c), eqc(k, self.key), eqc(n, self._nonce), eqc(h, self.header), eqc(c, ct)):
                return t
        t = fresh_random("tag", self.mac_len)
        core.E.stub.setdefault("mac", []).append(
            (self.mode, self.key, self._nonce, self.header, ct, t))
        return t

    def digest(self):
        if self.mode not in self.AEAD:
            raise AttributeError("digest")
        return mkbytes(self._tag(self.last[0] if self.last else ()))

    def hexdigest(self):
        return self.digest().hex()

    def encrypt_and_digest(self, pt, output=None):
        if self.mode not in self.AEAD:
            raise AttributeError("encrypt_and_digest")
        ct = self.encrypt(pt)
        return ct, self.digest()

    def decrypt(self, ct, output=None):
        c = need_bytes(ct)
        if self.mode in ("CBC", "ECB") and len(c) % 16:
            raise ValueError("Data must be padded to 16 byte boundary in %s mode" % self.mode)
        stream = self.mode in ("EAX", "GCM", "CCM", "CTR", "OFB")
        for m, k, n, p, rc in core.E.stub.get("aes", ()):
            if m != self.mode or not core.E.decide(c_and([eqc(k, self.key), eqc(n, self._nonce)])):
                continue
            if len(rc) == len(c) and core.E.decide(eqc(rc, c)):
                self.last = (c, p)
                return mkbytes(p)
            if stream:
                k = min(len(c), len(rc))
                out = []
                for i in range(k):
                    x = (core.cellint(p[i]) ^ core.cellint(rc[i])) ^ core.cellint(c[i])
                    out.append(core.byte_cell(x))
                self.last = (c, None)
                return mkbytes(tuple(out) + fresh_bytes("garbage", len(c) - k))
        self.last = (c, None)
        return mkbytes(fresh_bytes("garbage", len(c)))

    def verify(self, tag):
        if self.mode not in self.AEAD:
            raise AttributeError("verify")
        t = need_bytes(tag)
        ct = self.last[0] if self.last else ()
        ok = False
        if len(t) == self.mac_len:
            for m, k, n, h, c, rt in core.E.stub.get("mac", ()):
                if m == self.mode and len(rt) == len(t) and len(c) == len(ct) and self._all(
                        len(c), eqc(k, self.key), eqc(n, self._nonce), eqc(h, self.header), eqc(rt, t), eqc(c, ct)):
                    ok = True
                    break
        if not ok:
            raise ValueError("MAC check failed")

    def hexverify(self, tag):
        from . import shims
        self.verify(mkbytes(shims.fromhex(tag)))

    def decrypt_and_verify(self, ct, tag, output=None):
        if self.mode not in self.AEAD:
            raise AttributeError("decrypt_and_verify")
        c = need_bytes(ct)
        need_bytes(tag)
        self.last = (c, None)
        self.verify(tag)
        return self.decrypt(ct)


class AesMod:
    MODE_ECB, MODE_CBC, MODE_CFB, MODE_OFB, MODE_CTR = 1, 2, 3, 5, 6
    MODE_CCM, MODE_EAX, MODE_SIV, MODE_GCM, MODE_OCB = 8, 9, 10, 11, 12
    block_size = 16
    key_size = (16, 24, 32)
    NAMES = {1: "ECB", 2: "CBC", 3: "CFB", 5: "OFB", 6: "CTR", 8: "CCM", 9: "EAX", 10: "SIV",
             11: "GCM", 12: "OCB"}

    def new(self, key, mode, *args, **kw):
        k = need_bytes(key)
        name = self.NAMES.get(mode)
        if name is None:
            raise ValueError("Mode not supported")
        if len(k) not in ((32, 48, 64) if name == "SIV" else (16, 24, 32)):
            raise ValueError("Incorrect AES key length (%d bytes)" % len(k))
        nonce = None
        if args:
            nonce = args[0]
        for n in ("nonce", "iv", "IV"):
            if n in kw:
                nonce = kw[n]
        if name == "ECB":
            nc = ()
        elif nonce is None:
            size = {"CTR": 8, "CCM": 11, "OCB": 15}.get(name, 16)
            nc = fresh_random("nonce", size)
        else:
            nc = need_bytes(nonce)
            if name in ("EAX", "GCM") and len(nc) == 0:
                raise ValueError("Nonce cannot be empty")
            if name in ("CBC", "CFB", "OFB") and len(nc) != 16:
                raise ValueError("Incorrect IV length")
            if name == "CTR" and len(nc) > 15:
                raise ValueError("Nonce is too long")
            if name == "OCB" and not 1 <= len(nc) <= 15:
                raise ValueError("Nonce must be at most 15 bytes long")
            if name == "CCM" and not 7 <= len(nc) <= 13:
                raise ValueError("Length of parameter 'nonce' must be in the range 7..13 bytes")
        mac_len = kw.get("mac_len", 16)
        if not 2 <= mac_len <= 16:
            raise ValueError("'mac_len' must be at least 2 and not larger than 16")
        return AesObj(name, k, nc, mac_len)


# ------------------------------------------------------------------ RSA / ECC


class RsaKey:
    """key pair number `kid`; private part present or not"""

    def __init__(self, kid, private, kind="RSA", bits=2048):
        self.kid = kid
        self.private = private
        self.kind = kind
        self.bits = bits
        self.n = 1000003 + 2 * kid
        self.e = 65537

    def has_private(self):
        return self.private

    def public_key(self):
        return RsaKey(self.kid, False, self.kind, self.bits)
    publickey = public_key

    def can_sign(self):
        return True

    def can_encrypt(self):
        return True

    def size_in_bits(self):
        return self.bits

    def size_in_bytes(self):
        return self.bits // 8

    @property
    def d(self):
        if not self.private:
            raise AttributeError("No private exponent available for public keys")
        return 7 + self.kid

    def __eq__(self, o):
        return isinstance(o, RsaKey) and (self.kid, self.private, self.kind) == (
            o.kid, o.private, o.kind)

    def __ne__(self, o):
        return not self == o

    def export_key(self, format="PEM", passphrase=None, pkcs=1, protection=None, **kw):
        if isinstance(passphrase, (str, SymStr)):
            passphrase = passphrase.encode("latin-1")
        if format not in ("PEM", "DER", "OpenSSH"):
            raise ValueError("Unknown key format '%s'." % format)
        enc = self.private and passphrase is not None and len(passphrase) > 0
        if enc and format == "DER" and pkcs == 1:
            raise ValueError("PKCS#1 private key cannot be encrypted")
        regs = core.E.stub.setdefault("exports", {})
        rec = (self.kind, self.kid, self.private, passphrase if enc else None)
        what = "PUBLIC KEY" if not self.private else (
            "ENCRYPTED PRIVATE KEY" if enc else "RSA PRIVATE KEY")
        num = len(regs) if enc else 0
        for t, r in regs.items():
            if r == rec and not enc:
                num = r[1]
        body = "%sSX%dK%dV%dE%d" % (self.kind, self.bits, self.kid, int(self.private), num)
        if format == "PEM":
            text = ("-----BEGIN %s-----\n%s\n-----END %s-----" % (what, body, what)).encode()
        else:
            text = ("%s %s" % (format, body)).encode()
        regs[text] = rec + (self.bits,)
        if self.kind == "ECC" and format == "PEM":
            return text.decode()
        return text
    exportKey = export_key


def import_key(extern_key, passphrase=None, kind="RSA", **kw):
    if isinstance(extern_key, (str, SymStr)):
        extern_key = extern_key.encode()
    k = need_bytes(extern_key)
    if isinstance(passphrase, (str, SymStr)):
        passphrase = passphrase.encode("latin-1")
    for text, (rkind, kid, private, pw, bits) in core.E.stub.get("exports", {}).items():
        if rkind != kind or len(text) != len(k):
            continue
        if not core.E.decide(c_eqcells(tuple(text), k)):
            continue
        if pw is None:
            return RsaKey(kid, private, kind, bits)
        if passphrase is None or len(passphrase) == 0:
            raise ValueError("PEM is encrypted, but no passphrase available")
        a, b = bcells(pw), bcells(passphrase)
        if max(len(a), len(b)) <= 64:
            # the key is derived with HMAC-SHA1, which fills the passphrase up with zeros
            n = max(len(a), len(b))
            a, b = a + (0,) * (n - len(a)), b + (0,) * (n - len(b))
        if len(a) == len(b) and core.E.decide(c_eqcells(a, b)):
            return RsaKey(kid, private, kind, bits)
        raise ValueError("RSA key format is not supported")
    # anything else: how the real parser refuses depends on the text
    w = core.E.pick(core.E.newvar("parse", 2).bits()) if core.E.stub.get("anyparser") else 0
    if w == 1:
        raise IndexError("list index out of range")
    if w == 2:
        raise TypeError("a bytes-like object is required")
    raise ValueError("RSA key format is not supported")


def generate(bits, randfunc=None, e=65537):
    if bits < 1024:
        raise ValueError("RSA modulus length must be >= 1024")
    n = core.E.stub["nkeys"] = core.E.stub.get("nkeys", 0) + 1
    return RsaKey(n, True, "RSA", bits)


def ecc_generate(curve="P-256", **kw):
    n = core.E.stub["nkeys"] = core.E.stub.get("nkeys", 0) + 1
    k = RsaKey(n, True, "ECC")
    return k


class Pkcs15:
    def __init__(self, key):
        self.key = key

    def can_sign(self):
        return self.key.has_private()

    def sign(self, h):
        if not self.key.private:
            raise TypeError("This is not a private key")
        d = bcells(h.digest())
        for kid, alg, dg, sig in core.E.stub.get("sigs", ()):
            if kid == self.key.kid and alg == h.alg and core.E.decide(eqc(dg, d)):
                return mkbytes(sig)
        sig = fresh_bytes("sig", self.key.size_in_bytes())
        for r in core.E.stub.get("sigs", ()):
            if len(r[3]) == len(sig):
                core.E.assume(core.c_not(c_eqcells(r[3], sig)))
        core.E.stub.setdefault("sigs", []).append((self.key.kid, h.alg, d, sig))
        return mkbytes(sig)

    def verify(self, h, signature):
        s = need_bytes(signature)
        d = bcells(h.digest())
        for kid, alg, dg, sig in core.E.stub.get("sigs", ()):
            if kid == self.key.kid and alg == h.alg and len(s) == len(sig) and \
                    core.E.decide(eqc(sig, s)) and core.E.decide(eqc(dg, d)):
                return None
        raise ValueError("Invalid signature")


class Oaep:
    def __init__(self, key, *a, **kw):
        self.key = key

    def can_encrypt(self):
        return True

    def can_decrypt(self):
        return self.key.private

    def encrypt(self, msg):
        m = need_bytes(msg)
        ct = fresh_bytes("oaep", self.key.size_in_bytes())
        for r in core.E.stub.get("oaep", ()):
            if len(r[1]) == len(ct):
                core.E.assume(core.c_not(c_eqcells(r[1], ct)))
        core.E.stub.setdefault("oaep", []).append((self.key.kid, ct, m))
        return mkbytes(ct)

    def decrypt(self, ct):
        c = need_bytes(ct)
        if not self.key.private:
            raise TypeError("This is not a private key")
        if len(c) != self.key.size_in_bytes():
            raise ValueError("Ciphertext with incorrect length.")
        for kid, rc, m in core.E.stub.get("oaep", ()):
            if kid == self.key.kid and core.E.decide(eqc(rc, c)):
                return mkbytes(m)
        raise ValueError("Incorrect decryption.")


def get_random_bytes(n):
    return mkbytes(fresh_random("rnd", n))


# ------------------------------------------------------------------ json
_ESC = {0x22: '\\"', 0x5C: "\\\\", 0x0A: "\\n", 0x0D: "\\r", 0x09: "\\t", 0x0C: "\\f", 0x08: "\\b"}


def _u(bits):
    return (0x5C, 0x75) + tuple(core.hexcell(bits[i:i + 4]) for i in (12, 8, 4, 0))


def json_str(cells, ascii_=True):
    out = [0x22]
    for c in cells:
        if c < CELL0:
            if c in _ESC:
                out.extend(map(ord, _ESC[c]))
            elif c < 0x20 or (ascii_ and c > 0x7E):
                out.extend(map(ord, _json.dumps(chr(c))[1:-1]))
            else:
                out.append(c)
            continue
        if core.cell_nibble(c) is not None:
            out.append(c)
            continue
        b = cellbits(c)
        x = core.mkint(b)
        if len(b) > 8 and not core._lt_const(c, 0x10000):
            if not ascii_:
                out.append(c)
                continue
            v = core.intbits(x - 0x10000)[0]
            v = widen(v, 0, 20)
            hi = v[10:20] + (0, 1, 1, 0, 1, 1)
            lo = v[0:10] + (1, 1, 1, 0, 1, 1)
            hi = v[10:20] + (0, 0, 0, 1, 1, 0, 1, 1)[2:]
            hi = tuple(v[10:20]) + tuple((0xD800 >> i) & 1 for i in range(10, 16))
            lo = tuple(v[0:10]) + tuple((0xDC00 >> i) & 1 for i in range(10, 16))
            out.extend(_u(hi))
            out.extend(_u(lo))
            continue
        if not core._lt_const(c, 0x7F):
            if ascii_:
                out.extend(_u(widen(b, 0, 16)[:16]))
            else:
                out.append(c)
            continue
        if core._lt_const(c, 0x20):
            hit = False
            for k in (0x0A, 0x0D, 0x09, 0x0C, 0x08):
                if core.E.decide(c_eqcells((c,), (k,))):
                    out.extend(map(ord, _ESC[k]))
                    hit = True
                    break
            if not hit:
                out.extend(_u(widen(b, 0, 16)[:16]))
            continue
        if core.E.decide(c_eqcells((c,), (0x22,))):
            out.extend((0x5C, 0x22))
        elif core.E.decide(c_eqcells((c,), (0x5C,))):
            out.extend((0x5C, 0x5C))
        else:
            out.append(c)
    out.append(0x22)
    return tuple(out)


def _plainjson(cells):
    """characters that JSON leaves as they are, known without asking"""
    return all(c < CELL0 and c < 0x7F and c >= 0x20 and c not in (34, 92)
               or c >= CELL0 and core.cell_nibble(c) is not None for c in cells)


MARK = "@@sx-%d@@"


def json_dumps(obj, *, default=None, ensure_ascii=True, **kw):
    toks = []

    def conv(o):
        if isinstance(o, bool) or o is None or isinstance(o, (int, float)):
            return o
        if isinstance(o, SymBool):
            return bool(o)
        if isinstance(o, SymInt):
            return o.__index__()
        c = scells(o)
        if c is not None:
            if max(c, default=0) < CELL0:
                return "".join(map(chr, c))
            toks.append(c)
            return MARK % (len(toks) - 1)
        if isinstance(o, (dict, SymDict)):
            return {conv(k): conv(v) for k, v in o.items()}
        if isinstance(o, (list, tuple)):
            return [conv(v) for v in o]
        if isinstance(o, (SymBytes, SymByteArray, SymSet)) or default is None:
            raise TypeError("Object of type %s is not JSON serializable" % type(o).__name__)
        return conv(default(o))
    text = _json.dumps(conv(obj), ensure_ascii=ensure_ascii, **kw)
    if not toks:
        return text
    if not ensure_ascii or all(map(_plainjson, toks)):
        out = ()
        for i, c in enumerate(toks):
            head, text = text.split('"' + MARK % i + '"', 1)
            out += tuple(map(ord, head)) + json_str(c, ensure_ascii)
        return mkstr(out + tuple(map(ord, text)))
    for i, c in enumerate(toks):
        text = text.replace('"' + MARK % i + '"', str.__str__(core.token("j", SymStr(c))))
    return core.TokStr(text)


def _todict(o):
    if isinstance(o, dict):
        d = SymDict()
        for k, v in o.items():
            d[k] = _todict(v)
        return d
    if isinstance(o, list):
        return [_todict(x) for x in o]
    return o


JSONDecodeError = _json.JSONDecodeError


def json_loads(s, **kw):
    if isinstance(s, (bytes, bytearray, SymBytes, SymByteArray)):
        s = s.decode("utf-8")
    if type(s) is core.TokStr:
        segs = core.toksegs(s)
        if all(x[0] == "lit" or x[1] == "j" for x in segs):
            toks = [x[2] for x in segs if x[0] == "tok"]
            n = iter(range(len(toks)))
            v = _json.loads("".join(x[1] if x[0] == "lit" else '"' + MARK % next(n) + '"' for x in segs), **kw)
            marks = {MARK % i: mkstr(c) for i, c in enumerate(toks)}

            def back(o):
                if isinstance(o, str):
                    return marks.get(o, o)
                if isinstance(o, dict):
                    d = SymDict()
                    for k, x in o.items():
                        d[back(k)] = back(x)
                    return d
                return [back(x) for x in o] if isinstance(o, list) else o
            return back(v)
    c = scells(s)
    if c is None:
        raise TypeError("the JSON object must be str, bytes or bytearray, not " + type(s).__name__)
    if max(c, default=0) < CELL0:
        return _todict(_json.loads("".join(map(chr, c)), **kw))
    v, i = _jval(c, _ws(c, 0))
    i = _ws(c, i)
    if i != len(c):
        raise JSONDecodeError("Extra data", "", i)
    return v


def _is(c, i, ch):
    if i >= len(c):
        return False
    x = c[i]
    k = ord(ch)
    return x == k if x < CELL0 else core.E.decide(c_eqcells((x,), (k,)))


def _ws(c, i):
    while i < len(c) and any(_is(c, i, w) for w in " \t\n\r"):
        i += 1
    return i


def _jstr(c, i):
    out = []
    n = len(c)
    while True:
        if i >= n:
            raise JSONDecodeError("Unterminated string starting at", "", i)
        if _is(c, i, '"'):
            return mkstr(tuple(out)), i + 1
        if _is(c, i, "\\"):
            i += 1
            if i >= n:
                raise JSONDecodeError("Unterminated string starting at", "", i)
            for a, b in (('"', '"'), ("\\", "\\"), ("/", "/"), ("b", "\b"), ("f", "\f"), ("n", "\n"),
                         ("r", "\r"), ("t", "\t")):
                if _is(c, i, a):
                    out.append(ord(b))
                    i += 1
                    break
            else:
                if not _is(c, i, "u"):
                    raise JSONDecodeError("Invalid \\escape", "", i)
                v, i = _juni(c, i + 1)
                x = core.mkint(v)
                if bool(x >= 0xD800) and bool(x < 0xDC00) and _is(c, i, "\\") and _is(c, i + 1, "u"):
                    w, j = _juni(c, i + 2)
                    y = core.mkint(w)
                    if bool(y >= 0xDC00) and bool(y < 0xE000):
                        z = ((x - 0xD800) << 10) + (y - 0xDC00) + 0x10000
                        out.append(z if isinstance(z, int) else mkcell(widen(z.bits, 0, 21)))
                        i = j
                        continue
                out.append(mkcell(v))
            continue
        x = c[i]
        if x < CELL0:
            if x < 0x20:
                raise JSONDecodeError("Invalid control character at", "", i)
        elif core.cell_nibble(x) is None and core._lt_const(x, 0x20):
            raise JSONDecodeError("Invalid control character at", "", i)
        out.append(x)
        i += 1


def _juni(c, i):
    from . import shims
    if i + 4 > len(c):
        raise JSONDecodeError("Invalid \\uXXXX escape", "", i)
    bits = ()
    for j in range(i, i + 4):
        try:
            bits = tuple(shims.hexnib(c[j])) + bits
        except ValueError:
            raise JSONDecodeError("Invalid \\uXXXX escape", "", i)
    return bits, i + 4


def _jval(c, i):
    if i >= len(c):
        raise JSONDecodeError("Expecting value", "", i)
    if _is(c, i, '"'):
        return _jstr(c, i + 1)
    if _is(c, i, "{"):
        d = SymDict()
        i = _ws(c, i + 1)
        if _is(c, i, "}"):
            return d, i + 1
        while True:
            if not _is(c, i, '"'):
                raise JSONDecodeError("Expecting property name enclosed in double quotes", "", i)
            k, i = _jstr(c, i + 1)
            i = _ws(c, i)
            if not _is(c, i, ":"):
                raise JSONDecodeError("Expecting ':' delimiter", "", i)
            v, i = _jval(c, _ws(c, i + 1))
            d[k] = v
            i = _ws(c, i)
            if _is(c, i, "}"):
                return d, i + 1
            if not _is(c, i, ","):
                raise JSONDecodeError("Expecting ',' delimiter", "", i)
            i = _ws(c, i + 1)
    if _is(c, i, "["):
        out = []
        i = _ws(c, i + 1)
        if _is(c, i, "]"):
            return out, i + 1
        while True:
            v, i = _jval(c, i)
            out.append(v)
            i = _ws(c, i)
            if _is(c, i, "]"):
                return out, i + 1
            if not _is(c, i, ","):
                raise JSONDecodeError("Expecting ',' delimiter", "", i)
            i = _ws(c, i + 1)
    j = i
    while j < len(c) and c[j] < CELL0 and chr(c[j]) not in ",]} \t\r\n":
        j += 1
    if j < len(c) and c[j] >= CELL0:
        raise Unsupported("json literal from symbolic text")
    t = "".join(map(chr, c[i:j]))
    try:
        return _json.loads(t), j
    except ValueError:
        raise JSONDecodeError("Expecting value", "", i)


# ------------------------------------------------------------------ files, os
class VFile:
    def __init__(self, path, mode):
        self.path = path
        self.mode = mode
        self.closed = False
        fs = vfs()
        self.text = "b" not in mode
        if "r" in mode:
            if path not in fs:
                raise FileNotFoundError(2, "No such file or directory", path)
        elif "x" in mode and path in fs:
            raise FileExistsError(17, "File exists", path)
        elif "w" in mode or "x" in mode:
            fs[path] = b""
        elif "a" in mode:
            fs.setdefault(path, b"")
        else:
            raise Unsupported("open mode " + mode)
        self.pos = 0

    def write(self, x):
        if not isinstance(x, (str, SymStr) if self.text else (bytes, bytearray, SymBytes, SymByteArray)):
            raise TypeError("write() argument must be %s" % ("str" if self.text else "bytes"))
        fs = vfs()
        add = x.encode("utf-8") if self.text else x
        old = fs[self.path]
        if "r" in self.mode:
            if "+" not in self.mode:
                raise OSError("not writable")
            # over what is there
            o, a = (x.expand() if type(x) is core.TokBytes else x for x in (old, add))
            at = len(o) if self.pos > len(o) else self.pos
            fs[self.path] = o[:at] + a + o[at + len(a):]
            self.pos = at + len(a)
            return len(x)
        if type(old) is core.TokBytes or type(add) is core.TokBytes:
            if type(old) is bytes or type(add) is bytes:
                fs[self.path] = core.TokBytes(bytes.__add__(old, add))
                return None
        fs[self.path] = old + add
        return None if type(x) is core.TokStr else len(x)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def read(self, n=-1):
        c = vfs()[self.path]
        if n is not None and n >= 0:
            raise Unsupported("partial read")
        if self.pos:
            c = c[self.pos:]
        self.pos = len(c) if type(c) is bytes else 1 << 40
        return c.decode("utf-8") if self.text else c

    def readline(self):
        raise Unsupported("readline")

    def seek(self, n, whence=0):
        if whence or n:
            raise Unsupported("seek")
        self.pos = 0
        return 0

    def truncate(self, n=None):
        if n or (n is None and self.pos):
            raise Unsupported("truncate")
        vfs()[self.path] = b""
        return 0

    def fileno(self):
        return 3

    @property
    def name(self):
        return self.path

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def vfs():
    return core.E.stub.setdefault("vfs", {})


def vfs_open(file, mode="r", *a, **k):
    if hasattr(type(file), "__fspath__"):
        file = file.__fspath__()
    if not isinstance(file, str):
        raise Unsupported("open(%r)" % type(file))
    return VFile(file, mode)


def make_os():
    p = types.ModuleType("os.path")
    for n in ("join", "basename", "dirname", "splitext", "normpath", "abspath", "isabs", "split",
              "expanduser", "sep"):
        setattr(p, n, getattr(_os.path, n))
    p.isfile = lambda f: getattr(f, "p", f) in vfs()
    p.exists = lambda f: getattr(f, "p", f) in vfs() or getattr(f, "p", f) in ("/", _os.getcwd())
    p.isdir = lambda f: f in ("/", _os.getcwd(), "/tmp")

    def remove(f):
        if f not in vfs():
            raise FileNotFoundError(2, "No such file or directory", f)
        del vfs()[f]

    def rename(a, b):
        if a not in vfs():
            raise FileNotFoundError(2, "No such file or directory", a)
        vfs()[b] = vfs().pop(a)
    return mod("os", path=p, getcwd=_os.getcwd, urandom=get_random_bytes, sep="/", linesep="\n",
               environ={}, getenv=lambda k, d=None: d, remove=remove, unlink=remove, rename=rename,
               replace=rename, makedirs=lambda *a, **k: None, mkdir=lambda *a, **k: None,
               fsync=lambda f: None, PathLike=_os.PathLike, fspath=_os.fspath, name="posix",
               getpid=lambda: 1, chmod=lambda *a: None), p


class VPath:
    """pathlib.Path on the symbolic file system"""

    def __init__(self, *parts):
        self.p = _os.path.join(*[_os.fspath(x) for x in parts]) if parts else "."

    def __fspath__(self):
        return self.p

    __str__ = __fspath__

    def __repr__(self):
        return "PosixPath(%r)" % self.p

    def __truediv__(self, o):
        return VPath(self.p, o)

    def __eq__(self, o):
        return isinstance(o, VPath) and self.p == o.p

    def __hash__(self):
        return hash(self.p)

    @property
    def parent(self):
        return VPath(_os.path.dirname(self.p) or ".")

    @property
    def name(self):
        return _os.path.basename(self.p)

    @property
    def suffix(self):
        return _os.path.splitext(self.p)[1]

    def with_suffix(self, x):
        return VPath(_os.path.splitext(self.p)[0] + x)

    def with_name(self, x):
        return VPath(_os.path.join(_os.path.dirname(self.p), x))

    @classmethod
    def cwd(cls):
        return cls(_os.getcwd())

    def resolve(self, strict=False):
        return VPath(_os.path.abspath(self.p))

    absolute = resolve

    def expanduser(self):
        return VPath(_os.path.expanduser(self.p))

    def is_file(self):
        return self.p in vfs()

    def is_dir(self):
        return self.p in ("/", _os.getcwd(), "/tmp")

    def exists(self):
        return self.is_file() or self.is_dir()

    def open(self, mode="r", *a, **k):
        return vfs_open(self.p, mode, *a, **k)

    def read_text(self, encoding=None, errors=None):
        with self.open("r", encoding=encoding) as f:
            return f.read()

    def read_bytes(self):
        with self.open("rb") as f:
            return f.read()

    def write_text(self, x, encoding=None, errors=None, newline=None):
        if not isinstance(x, (str, SymStr)):
            raise TypeError("data must be str, not %s" % type(x).__name__)
        with self.open("w", encoding=encoding) as f:
            return f.write(x)

    def write_bytes(self, x):
        with self.open("wb") as f:
            return f.write(x)

    def unlink(self, missing_ok=False):
        if self.p in vfs():
            del vfs()[self.p]
        elif not missing_ok:
            raise FileNotFoundError(2, "No such file or directory", self.p)

    def rename(self, o):
        if self.p not in vfs():
            raise FileNotFoundError(2, "No such file or directory", self.p)
        vfs()[_os.fspath(o)] = vfs().pop(self.p)
        return VPath(_os.fspath(o))

    replace = rename

    def mkdir(self, *a, **k):
        pass

    def touch(self, *a, **k):
        vfs().setdefault(self.p, b"")

    def chmod(self, m):
        pass


# ------------------------------------------------------------------ functools & co
def _lru(maxsize=128, typed=False):
    def deco(f):
        d = SymDict()

        @_functools.wraps(f)
        def g(*a, **k):
            key = (a, tuple(sorted(k.items()))) if k else a
            for x in a:
                if isinstance(x, (list, dict, SymDict, SymByteArray, bytearray, set, SymSet)):
                    raise TypeError("unhashable type: '%s'" % type(x).__name__)
            if key in d:
                v = d.pop(key)
                d[key] = v
                return v
            v = f(*a, **k)
            d[key] = v
            if maxsize is not None and len(d) > maxsize:
                for first in d:
                    break
                d.pop(first)
            return v
        g.cache_clear = d.clear
        g.cache_info = lambda: None
        g.__wrapped__ = f
        return g
    if callable(maxsize):
        f, maxsize = maxsize, 128
        return deco(f)
    return deco


def make_functools():
    m = types.ModuleType("functools")
    m.__dict__.update({k: v for k, v in vars(_functools).items() if not k.startswith("__")})
    m.lru_cache = _lru
    m.cache = _lru(None) if False else (lambda f: _lru(None)(f))
    return m


class OrderedDict(SymDict):
    def move_to_end(self, k, last=True):
        v = self.pop(k)
        if last:
            self[k] = v
        else:
            items = list(self.items())
            self.clear()
            self[k] = v
            self.update(items)

    def popitem(self, last=True):
        if not len(self):
            raise KeyError("dictionary is empty")
        k = self._keys[-1 if last else 0]
        return k, self.pop(k)


class DefaultDict(SymDict):
    def __init__(self, factory=None, *a, **k):
        super().__init__(*a, **k)
        self.default_factory = factory

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self[k] = self.default_factory()
        return v


class Counter(SymDict):
    def __init__(self, it=()):
        super().__init__()
        for x in it:
            self[x] = self.get(x, 0) + 1

    def __missing__(self, k):
        return 0


class UserDict(SymDict):
    @property
    def data(self):
        return self


def make_collections():
    m = types.ModuleType("collections")
    m.__dict__.update({k: v for k, v in vars(_collections).items() if not k.startswith("__")})
    m.__path__ = []
    m.OrderedDict, m.defaultdict, m.Counter, m.UserDict = OrderedDict, DefaultDict, Counter, UserDict
    return m


# ------------------------------------------------------------------ time
def _tick():
    n = core.E.stub["now"] = core.E.stub.get("now", 0) + 1
    return n


# ------------------------------------------------------------------ uuid
class FakeUuid:
    def __init__(self, n):
        self.int = n
        self.hex = "%032x" % n
        self.bytes = n.to_bytes(16, "big")

    def __str__(self):
        h = self.hex
        return "-".join((h[:8], h[8:12], h[12:16], h[16:20], h[20:]))


def uuid4():
    n = core.E.stub["uuid"] = core.E.stub.get("uuid", 0) + 1
    return FakeUuid((0x1234567890AB4DEF8000000000000000 + n))


# ------------------------------------------------------------------ binascii
def make_binascii():
    import binascii
    from . import shims

    def unhex(x):
        if isinstance(x, (SymBytes, SymByteArray, bytes, bytearray)):
            x = mkstr(bcells(x))
        try:
            return mkbytes(shims.fromhex(x))
        except ValueError as e:
            raise binascii.Error(str(e))
    h = lambda x, *a: x.hex().encode()
    return mod("binascii", hexlify=h, b2a_hex=h, unhexlify=unhex, a2b_hex=unhex, Error=binascii.Error,
               crc32=binascii.crc32)


class VBytesIO:
    """io.BytesIO / io.StringIO over symbolic contents"""

    def __init__(self, data=b""):
        self.data = data if isinstance(data, (str, SymStr)) else mkbytes(bcells(data))
        self.pos = 0

    def read(self, n=-1):
        end = len(self.data) if n is None or n < 0 else self.pos + n
        r = self.data[self.pos:end]
        self.pos += len(r)
        return r

    def write(self, x):
        if not isinstance(x, (str, SymStr)):
            x = mkbytes(bcells(x))
        self.data = self.data[:self.pos] + x + self.data[self.pos + len(x):]
        self.pos += len(x)
        return len(x)

    def getvalue(self):
        return self.data

    getbuffer = getvalue

    def seek(self, n, whence=0):
        self.pos = (0, self.pos, len(self.data))[whence] + n
        return self.pos

    def tell(self):
        return self.pos

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def compare_digest(a, b):
    if isinstance(a, (str, SymStr)) != isinstance(b, (str, SymStr)):
        raise TypeError("unsupported operand types(s) or combination of types")
    if not isinstance(a, (str, SymStr)) and (bcells(a) is None or bcells(b) is None):
        raise TypeError("a bytes-like object is required")
    r = a == b
    return r if r is not NotImplemented else False


def make_stubs():
    s = dict(rlpmodel.make())
    sha256, sha512, kec = HashMod("sha256"), HashMod("sha512"), KeccakMod()
    ch = mod("Crypto.Hash", SHA256=sha256, SHA512=sha512, keccak=kec, SHA1=HashMod("sha1"),
             MD5=HashMod("md5"), SHA3_256=HashMod("sha3_256"), SHA384=HashMod("sha384"),
             SHA224=HashMod("sha224"), SHA3_512=HashMod("sha3_512"))
    aes = AesMod()
    oaep = mod("Crypto.Cipher.PKCS1_OAEP", new=lambda key, *a, **k: Oaep(key, *a, **k))
    cc = mod("Crypto.Cipher", AES=aes, PKCS1_OAEP=oaep)
    rsa = mod("Crypto.PublicKey.RSA", generate=generate, import_key=import_key, importKey=import_key,
              RsaKey=RsaKey)
    ecc = mod("Crypto.PublicKey.ECC", generate=ecc_generate,
              import_key=lambda k, passphrase=None, **kw: import_key(k, passphrase, "ECC"))
    cp = mod("Crypto.PublicKey", RSA=rsa, ECC=ecc)
    p15 = mod("Crypto.Signature.pkcs1_15", new=lambda key: Pkcs15(key))
    cs = mod("Crypto.Signature", pkcs1_15=p15)
    cr = mod("Crypto.Random", get_random_bytes=get_random_bytes)
    c = mod("Crypto", Hash=ch, Cipher=cc, PublicKey=cp, Signature=cs, Random=cr)
    for m in (c, ch, cc, cp, cs, cr):
        m.__path__ = []
    s.update({"Crypto": c, "Crypto.Hash": ch, "Crypto.Cipher": cc, "Crypto.PublicKey": cp,
              "Crypto.Signature": cs, "Crypto.Random": cr, "Crypto.Hash.SHA256": sha256,
              "Crypto.Hash.SHA512": sha512, "Crypto.Hash.keccak": kec, "Crypto.Cipher.AES": aes,
              "Crypto.Cipher.PKCS1_OAEP": oaep, "Crypto.PublicKey.RSA": rsa,
              "Crypto.PublicKey.ECC": ecc, "Crypto.Signature.pkcs1_15": p15})
    hl = {a: hashlib_new(a) for a in ("sha256", "md5", "sha1", "sha224", "sha384", "sha512",
                                      "sha3_256", "sha3_224", "sha3_384", "sha3_512")}

    def hl_new(name, data=b"", **k):
        f = hl.get(name.lower().replace("-", "_"))
        if f is None:
            raise ValueError("unsupported hash type " + name)
        return f(data)
    s["hashlib"] = mod("hashlib", new=hl_new, algorithms_available=set(hl), algorithms_guaranteed=set(hl),
                       **hl)
    s["json"] = mod("json", dumps=json_dumps, loads=json_loads, JSONDecodeError=JSONDecodeError,
                    dump=lambda o, f, **k: f.write(json_dumps(o, **k)) and None,
                    load=lambda f, **k: json_loads(f.read(), **k), JSONEncoder=_json.JSONEncoder)
    s["os"], s["os.path"] = make_os()
    s["functools"] = make_functools()
    s["collections"] = make_collections()
    s["collections.abc"] = __import__("collections.abc").abc
    s["binascii"] = make_binascii()
    import uuid as _uuid
    s["uuid"] = mod("uuid", uuid4=uuid4, uuid1=uuid4, UUID=FakeUuid, uuid3=_uuid.uuid3, uuid5=_uuid.uuid5,
                    **{"NAMESPACE_" + n: getattr(_uuid, "NAMESPACE_" + n) for n in ("DNS", "URL", "OID", "X500")})
    from . import moment
    s["datetime"] = moment.make_datetime()
    s["time"] = moment.make_time(_tick)
    s["secrets"] = mod("secrets", token_bytes=lambda n=32: get_random_bytes(n),
                       compare_digest=compare_digest)
    s["hmac"] = mod("hmac", compare_digest=compare_digest)
    s["pathlib"] = mod("pathlib", Path=VPath, PurePath=VPath, PosixPath=VPath, PurePosixPath=VPath)
    import io
    s["io"] = mod("io", BytesIO=VBytesIO, StringIO=lambda x="": VBytesIO(x), TextIOWrapper=io.TextIOWrapper,
                  open=vfs_open)
    s["random"] = mod("random", choice=lambda x: x[0], randint=lambda a, b: a, random=lambda: 0.5,
                      shuffle=lambda x: None)
    return s
