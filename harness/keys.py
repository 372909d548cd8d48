"""Harnesses for key pairs and the cryptographic helpers (C27-C33)."""
import hashlib
import json
import os
from Crypto.Hash import keccak, SHA256, SHA512
from Crypto.Cipher import PKCS1_OAEP
from Crypto.PublicKey import RSA
from pymt.keypairs import RsaKeyPair, RsaAuthKeyPair, RsaEncKeyPair
from pymt.utils.utils import Utils
from pymt.utils.hash import keccak_hash, keccak_hash_list

KINDS = {"full": RsaKeyPair, "auth": RsaAuthKeyPair, "enc": RsaEncKeyPair}
LAST = 0x10FFFF


def password(ctx, name, n):
    """text of n characters; "l": Latin-1 without NUL, "a": ASCII, else all of Unicode"""
    if isinstance(n, (list, tuple)):
        n, what = n
        # no NUL: keys derived with HMAC are the same with and without trailing ones
        return ctx.text(name, n, *{"l": (1, 255), "a": (0, 127)}[what])
    return ctx.text(name, n)


def blob(ctx, name, n):
    """n symbolic bytes; of 1000 and more, the first and last ones and some in between, the others fixed"""
    if n < 1000:
        return ctx.bytes(name, n)
    fixed = (name + ":%d;" * 5000 % tuple(range(5000))).encode()[:n]
    r, at = [], 0
    for i in sorted({0, n // 2, 1024, 4094, n - 3}):
        if at <= i <= n - 3:
            r += [fixed[at:i], ctx.bytes("%s@%d" % (name, i), 3)]
            at = i + 3
    return ctx.cat(*r, fixed[at:])


def same(ctx, a, b):
    return ctx.all([len(a) == len(b), a == b]) if len(a) == len(b) else False


def altered(ctx, x, what, name, n=1):
    """x changed: xor with any non-zero pattern, bytes removed, inserted or appended"""
    if what == "xor":
        return ctx.xor(x, name)
    if what == "drop":
        if len(x) < n:
            ctx.stop()
        i = ctx.choice(name + "at", spots(len(x) - n + 1))
        return ctx.cat(x[:i], x[i + n:])
    if what == "cut":
        if len(x) < n:
            ctx.stop()
        return x[:len(x) - n]
    if what == "insert":
        i = ctx.choice(name + "at", spots(len(x) + 1))
        return ctx.cat(x[:i], ctx.bytes(name + "new", n), x[i:])
    if what == "append":
        return ctx.cat(x, ctx.bytes(name + "new", n))
    if what == "none":
        return x[:0]
    if what == "any":
        return ctx.bytes(name + "any", n)
    raise KeyError(what)


def spots(n):
    """positions tried: all of them for short data"""
    return list(range(n)) if n <= 40 else sorted(set([0, 1, 15, 16, 17, 31, 32, 33, n // 2, n - 2, n - 1]) & set(range(n)))


# ------------------------------------------------------------------ C27
def secret(ctx, n, pw, ops=("same",), pw2=None, m=1):
    data = blob(ctx, "data", n)
    p = password(ctx, "password", pw)
    e, x = ctx.call(Utils.encrypt, data, p)
    ctx.check(x is None, "data cannot be encrypted")
    ctx.check(isinstance(e, bytes), "encrypted data is not bytes")
    what = ctx.choice("what", list(ops))
    ctx.cover(what)
    if what == "same":
        d, x = ctx.call(Utils.decrypt, e, p)
        ctx.check(x is None, "the right password is refused")
        ctx.check(same(ctx, d, data), "decrypting gives other data")
        # a second message under the same password
        data2 = blob(ctx, "data2", n)
        f, x = ctx.call(Utils.encrypt, data2, p)
        ctx.check(x is None, "data cannot be encrypted")
        d, x = ctx.call(Utils.decrypt, f, p)
        ctx.check(x is None, "the right password is refused for a second message")
        ctx.check(same(ctx, d, data2), "decrypting a second message gives other data")
        d, x = ctx.call(Utils.decrypt, e, p)
        ctx.check(x is None, "the right password is refused later")
        ctx.check(same(ctx, d, data), "decrypting later gives other data")
    elif what == "password":
        q = password(ctx, "other", pw if pw2 is None else pw2)
        if len(p) == len(q):
            ctx.assume(ctx.no(p == q))
        d, x = ctx.call(Utils.decrypt, e, q)
        ctx.check(x is not None, "another password is accepted")
        d, x = ctx.call(Utils.decrypt, e, p)
        ctx.check(x is None, "the right password is refused after a wrong one")
        ctx.check(same(ctx, d, data), "decrypting after a wrong attempt gives other data")
    elif what == "mix":
        # the framing parts of two messages exchanged
        data2 = blob(ctx, "data2", n)
        f = Utils.encrypt(data2, p)
        cut = ctx.choice("cut", [c for c in (16, 32) if c <= len(e)])
        mixed = ctx.cat(e[:cut], f[cut:])
        # messages that are alike in one of the parts are the same message as far as this goes
        ctx.assume(ctx.no(mixed == e))
        ctx.assume(ctx.no(mixed == f))
        d, x = ctx.call(Utils.decrypt, mixed, p)
        ctx.check(x is not None, "a message made of two is accepted")
    else:
        y = altered(ctx, e, what, "alt", m)
        if len(y) == len(e) and what != "xor":
            ctx.assume(ctx.no(y == e))
        d, x = ctx.call(Utils.decrypt, y, p)
        ctx.check(x is not None, "altered data is accepted")


# ------------------------------------------------------------------ C28
def signature(ctx, n, ops, kinds=("full", "auth"), m=1, n2=None):
    data = blob(ctx, "data", n)
    kind = ctx.choice("kind", list(kinds))
    other = ctx.choice("verifier", list(kinds))
    a = ctx.keypair(KINDS[kind])
    b = ctx.keypair(KINDS[other])
    s, x = ctx.call(a.sign, data)
    ctx.check(x is None, "data cannot be signed")
    ctx.check(isinstance(s, bytes), "the signature is not bytes")
    what = ctx.choice("what", list(ops))
    ctx.cover(what)

    def ok(v, x, msg):
        ctx.check(x is None, msg + ": verifying fails")
        ctx.check(v == True, msg)

    def bad(v, x, msg):
        ctx.check(x is None, msg + ": raises instead of returning false")
        ctx.check(v == False, msg)
    if what != "same" and ctx.flag("before"):
        # it has been accepted before
        ok(*ctx.call(a.signature_valid, data, s), "the signer rejects its signature")
        ok(*ctx.call(b.signature_valid, data, s, a.public_key), "another pair rejects the signature")
    if what == "same":
        ok(*ctx.call(a.signature_valid, data, s), "the signer rejects its signature")
        ok(*ctx.call(a.signature_valid, data, s, a.public_key), "the signer rejects its signature with its key given")
        ok(*ctx.call(b.signature_valid, data, s, a.public_key), "another pair rejects the signature")
        t = a.sign(data)
        ok(*ctx.call(b.signature_valid, data, t, a.public_key), "another pair rejects a second signature")
        data2 = blob(ctx, "data2", n)
        u = a.sign(data2)
        ok(*ctx.call(a.signature_valid, data2, u), "the signer rejects the signature of other data")
        ok(*ctx.call(a.signature_valid, data, s), "the signer rejects its signature later")
    elif what == "data":
        data2 = blob(ctx, "data2", n if n2 is None else n2)
        if len(data2) == n:
            ctx.assume(ctx.no(data2 == data))
        bad(*ctx.call(a.signature_valid, data2, s), "a signature of other data is accepted")
        bad(*ctx.call(b.signature_valid, data2, s, a.public_key), "a signature of other data is accepted by another pair")
        # even once that data has been signed
        u = a.sign(data2)
        bad(*ctx.call(a.signature_valid, data, u), "a signature of other data is accepted")
        bad(*ctx.call(a.signature_valid, data2, s, a.public_key), "a signature of other data is accepted")
    elif what == "key":
        bad(*ctx.call(b.signature_valid, data, s), "a signature made with another key is accepted by default")
        bad(*ctx.call(a.signature_valid, data, s, b.public_key), "a signature made with another key is accepted")
        bad(*ctx.call(b.signature_valid, data, s, b.public_key), "a signature made with another key is accepted")
        t = b.sign(data)
        bad(*ctx.call(a.signature_valid, data, t), "a signature made with another key is accepted by default")
        bad(*ctx.call(b.signature_valid, data, t, a.public_key), "a signature made with another key is accepted")
        ok(*ctx.call(a.signature_valid, data, t, b.public_key), "a signature is rejected with its key given")
    elif what == "nokey":
        # something that is no key at all in the place of the key
        junk = ctx.bytes("junk", m)
        for v in (a, b):
            r, x = ctx.call(v.signature_valid, data, s, junk)
            ctx.check(x is not None or r == False, "a signature is accepted for something that is no key")
    else:
        y = altered(ctx, s, what, "alt", m)
        if len(y) == len(s) and what != "xor":
            ctx.assume(ctx.no(y == s))
        bad(*ctx.call(a.signature_valid, data, y), "an altered signature is accepted")
        bad(*ctx.call(b.signature_valid, data, y, a.public_key), "an altered signature is accepted by another pair")


# ------------------------------------------------------------------ C29
PARTS = ["enc_session_key", "nonce", "tag", "ciphertext", "signature"]


def message(ctx, n, ops, kinds=("full", "enc"), m=1, parts=None):
    data = blob(ctx, "data", n)
    sk = ctx.choice("sender", list(kinds))
    rk = ctx.choice("receiver", list(kinds))
    s = ctx.keypair(KINDS[sk])
    r = ctx.keypair(KINDS[rk])
    e, x = ctx.call(s.encrypt, data, r.public_key)
    ctx.check(x is None, "a message cannot be encrypted")
    ctx.check(isinstance(e, bytes), "the message is not bytes")
    what = ctx.choice("what", list(ops))
    ctx.cover(what)
    if what == "same":
        d, x = ctx.call(r.decrypt, e, s.public_key)
        ctx.check(x is None, "the receiver cannot decrypt")
        ctx.check(same(ctx, d, data), "the receiver gets other data")
        if n > 500:
            return
        data2 = blob(ctx, "data2", n)
        f = s.encrypt(data2, r.public_key)
        d, x = ctx.call(r.decrypt, f, s.public_key)
        ctx.check(x is None, "the receiver cannot decrypt a second message")
        ctx.check(same(ctx, d, data2), "the receiver gets other data from a second message")
        d, x = ctx.call(r.decrypt, e, s.public_key)
        ctx.check(x is None, "the receiver cannot decrypt later")
        ctx.check(same(ctx, d, data), "the receiver gets other data later")
    elif what == "self":
        e = s.encrypt(data, s.public_key)
        d, x = ctx.call(s.decrypt, e, s.public_key)
        ctx.check(x is None, "a message to oneself cannot be decrypted")
        ctx.check(same(ctx, d, data), "a message to oneself has other data")
        d, x = ctx.call(r.decrypt, e, s.public_key)
        ctx.check(x is not None, "another party decrypts a message to oneself")
        d, x = ctx.call(s.decrypt, e, r.public_key)
        ctx.check(x is not None, "a message to oneself is believed to be of another sender")
    elif what == "receiver":
        o = ctx.keypair(KINDS[ctx.choice("third", list(kinds))])
        d, x = ctx.call(o.decrypt, e, s.public_key)
        ctx.check(x is not None, "another private key decrypts the message")
        d, x = ctx.call(s.decrypt, e, s.public_key)
        ctx.check(x is not None, "the sender's private key decrypts the message")
    elif what == "sender":
        o = ctx.keypair(KINDS[ctx.choice("third", list(kinds))])
        d, x = ctx.call(r.decrypt, e, o.public_key)
        ctx.check(x is not None, "another sender is believed")
        d, x = ctx.call(r.decrypt, e, r.public_key)
        ctx.check(x is not None, "the receiver is believed to be the sender")
        # once more, after that party has sent something itself
        f = o.encrypt(data, r.public_key)
        d, x = ctx.call(r.decrypt, e, o.public_key)
        ctx.check(x is not None, "another sender is believed")
        d, x = ctx.call(r.decrypt, f, s.public_key)
        ctx.check(x is not None, "another sender is believed")
        d, x = ctx.call(r.decrypt, f, o.public_key)
        ctx.check(x is None, "the receiver cannot decrypt")
        d, x = ctx.call(r.decrypt, f, s.public_key)
        ctx.check(x is not None, "another sender is believed after the right one")
    elif what == "nokey":
        # something that is no key at all in the place of the sender's or receiver's key
        junk = ctx.bytes("junk", m)
        own = s.encrypt(data, s.public_key)
        for v, f in ((r, e), (s, own)):
            d, x = ctx.call(v.decrypt, f, junk)
            ctx.check(x is not None, "something that is no key is believed to be the sender")
        d, x = ctx.call(s.encrypt, data, junk)
        ctx.check(x is not None, "a message is encrypted for something that is no key")
    elif what == "mix":
        # a part of another message of the same sender to the same receiver
        data2 = blob(ctx, "data2", n)
        f = s.encrypt(data2, r.public_key)
        a, b = json.loads(e.decode()), json.loads(f.decode())
        part = ctx.choice("part", parts or PARTS)
        if part not in a:
            ctx.stop()
        ctx.assume(ctx.no(a[part] == b[part]))
        a[part] = b[part]
        d, x = ctx.call(r.decrypt, json.dumps(a).encode(), s.public_key)
        ctx.check(x is not None, "a message made of two is accepted")
    elif what == "lost":
        a = json.loads(e.decode())
        part = ctx.choice("part", parts or PARTS)
        if part not in a:
            ctx.stop()
        del a[part]
        d, x = ctx.call(r.decrypt, json.dumps(a).encode(), s.public_key)
        ctx.check(x is not None, "a message without one of its parts is accepted")
    else:
        a = json.loads(e.decode())
        part = ctx.choice("part", parts or PARTS)
        if part not in a:
            ctx.stop()
        old = bytes.fromhex(a[part])
        new = altered(ctx, old, what, "alt", m)
        if len(new) == len(old) and what != "xor":
            ctx.assume(ctx.no(new == old))
        a[part] = new.hex()
        d, x = ctx.call(r.decrypt, json.dumps(a).encode(), s.public_key)
        ctx.check(x is not None, "a message with an altered part is accepted")


# ------------------------------------------------------------------ C30
def saved(ctx, kind, nick, pw, via="string", what="same", pw2=None, load=None):
    cls = KINDS[kind]
    nickname = ctx.text("nickname", nick) if isinstance(nick, int) else nick
    p = password(ctx, "passphrase", pw)
    kp = ctx.keypair(cls, nickname)
    nickname = kp.nickname
    public = kp.public_key
    if via in ("file", "over"):
        path = os.path.join(ctx.tmpdir(), "key.json")
        if via == "over":
            # there is an earlier, longer file
            old = ctx.keypair(cls, "old" * 30)
            r, x = ctx.call(old.to_key_file, path, p)
            ctx.check(x is None, "a key pair cannot be saved")
        r, x = ctx.call(kp.to_key_file, path, p)
        ctx.check(x is None, "the key pair cannot be saved")
        with open(path) as f:
            text = f.read()
    else:
        text, x = ctx.call(kp.to_key_string, p)
        ctx.check(x is None, "the key pair cannot be saved")

    def load_it(c, q):
        if via in ("file", "over"):
            return ctx.call(c.from_key_file, path, q)
        return ctx.call(c.from_key_string, text, q)
    ctx.cover(what)
    if what == "same":
        c = KINDS[load] if load else cls
        got, x = load_it(c, p)
        ctx.check(x is None, "the saved key pair cannot be loaded")
        ctx.check(isinstance(got, c), "the loaded key pair is of another kind")
        ctx.check(got.public_key == public, "the loaded key pair has another public key")
        ctx.check(got.nickname == nickname, "the loaded key pair has another nickname")
        ctx.check(kp.public_key == public and kp.nickname == nickname, "saving changed the key pair")
        if c is cls:
            ctx.check(got == kp, "the loaded key pair is not equal")
            ctx.check(hash(got) == hash(kp), "the loaded key pair has another hash")
        # its private key is the same
        data = ctx.bytes("data", 3)
        full = RsaKeyPair(nickname="x", _generate_keys=False)
        full._key_pair = got._key_pair
        s, x = ctx.call(full.sign, data)
        ctx.check(x is None, "the loaded key pair has no private key")
        ctx.check(full.signature_valid(data, s, public) == True, "the loaded key pair has another private key")
        # and once more: what was loaded can be saved and loaded
        text2, x = ctx.call(got.to_key_string, p)
        ctx.check(x is None, "a loaded key pair cannot be saved")
        again, x = ctx.call(c.from_key_string, text2, p)
        ctx.check(x is None, "a key pair saved twice cannot be loaded")
        ctx.check(again.public_key == public, "a key pair saved twice has another public key")
        ctx.check(again.nickname == nickname, "a key pair saved twice has another nickname")
    elif what == "passphrase":
        q = password(ctx, "other", pw if pw2 is None else pw2)
        if len(p) == len(q):
            ctx.assume(ctx.no(p == q))
        got, x = load_it(cls, q)
        ctx.check(x is not None, "another passphrase is accepted")
        got, x = load_it(cls, p)
        ctx.check(x is None, "the passphrase is refused after a wrong one")
        ctx.check(got.public_key == public, "the loaded key pair has another public key")
    elif what == "nul":
        got, x = load_it(cls, p + "\0" * ctx.choice("zeros", [1, 2]))
        ctx.check(x is not None, "the passphrase with NUL characters after it is accepted")
    elif what == "secret":
        doc = json.loads(text)
        for fmt in ("PEM", "DER"):
            plain = kp._key_pair.export_key(format=fmt)
            if isinstance(plain, bytes):
                # compared with concrete texts only: all forms of the key are concrete
                ctx.check(not ctx.within(plain.hex(), text), "the private key is saved unencrypted")
        for name in ctx.fields(doc):
            v = doc[name]
            if name == "nickname":
                continue
            for form in (v, v[2:] if len(v) > 2 else v):
                for raw in ctx.readings(form):
                    k, x = ctx.call(RSA.import_key, raw)
                    ctx.check(x is not None or not k.has_private(), "the private key is saved unencrypted")
                    k, x = ctx.call(RSA.import_key, raw, passphrase="")
                    ctx.check(x is not None or not k.has_private(), "the private key is saved under an empty passphrase")


# ------------------------------------------------------------------ C31
def jobs(ctx, kind, n):
    data = blob(ctx, "data", n)
    a = ctx.keypair(KINDS[kind])
    o = ctx.keypair(RsaKeyPair)
    sig = o.sign(data)
    msg = o.encrypt(data, a.public_key)
    # the pair with all abilities and the same keys
    f = RsaKeyPair(nickname="f", _generate_keys=False)
    f._key_pair = a._key_pair
    op = ctx.choice("op", ["sign", "verify", "verify-given", "encrypt", "decrypt", "own"])
    ctx.cover(op)
    signs = kind in ("full", "auth")
    crypts = kind in ("full", "enc")
    if op == "sign":
        s, x = ctx.call(a.sign, data)
        if signs:
            ctx.check(x is None, "data cannot be signed")
            ctx.check(o.signature_valid(data, s, a.public_key) == True, "the signature is not valid")
        else:
            ctx.check(x is not None, "an encryption key pair signs")
    elif op in ("verify", "verify-given"):
        if op == "verify":
            if signs:
                own = a.sign(data)
            else:
                own = f.sign(data)
            v, x = ctx.call(a.signature_valid, data, own)
        else:
            v, x = ctx.call(a.signature_valid, data, sig, o.public_key)
        if signs:
            ctx.check(x is None and v == True, "a good signature is not accepted")
        else:
            ctx.check(x is not None, "an encryption key pair verifies")
    elif op == "encrypt":
        e, x = ctx.call(a.encrypt, data, o.public_key)
        if crypts:
            ctx.check(x is None, "a message cannot be encrypted")
            d, x = ctx.call(o.decrypt, e, a.public_key)
            ctx.check(x is None, "the message cannot be decrypted")
            ctx.check(same(ctx, d, data), "the message has other data")
        else:
            ctx.check(x is not None, "an authentication key pair encrypts")
    elif op == "own":
        # a message or signature of the pair itself, with its own key given
        v, x = ctx.call(a.signature_valid, data, f.sign(data), a.public_key)
        if signs:
            ctx.check(x is None and v == True, "a good signature is not accepted")
        else:
            ctx.check(x is not None, "an encryption key pair verifies")
        d, x = ctx.call(a.decrypt, f.encrypt(data, a.public_key), a.public_key)
        if crypts:
            ctx.check(x is None, "a message cannot be decrypted")
            ctx.check(same(ctx, d, data), "the message has other data")
        else:
            ctx.check(x is not None, "an authentication key pair decrypts")
        d, x = ctx.call(a.encrypt, data, a.public_key)
        ctx.check((x is None) == crypts, "a key pair encrypts that should not, or the other way round")
        d, x = ctx.call(a.sign, data)
        ctx.check((x is None) == signs, "a key pair signs that should not, or the other way round")
    else:
        d, x = ctx.call(a.decrypt, msg, o.public_key)
        if crypts:
            ctx.check(x is None, "a message cannot be decrypted")
            ctx.check(same(ctx, d, data), "the message has other data")
        else:
            ctx.check(x is not None, "an authentication key pair decrypts")


# ------------------------------------------------------------------ C32
def keccaks(ctx, lens):
    items = [ctx.bytes("i%d" % i, n) for i, n in enumerate(lens)]
    whole = ctx.cat(b"", *items)
    want = keccak.new(digest_bits=256)
    want.update(whole)
    d, x = ctx.call(keccak_hash, whole)
    ctx.check(x is None, "data cannot be hashed")
    ctx.check(d == want.digest(), "not the Keccak-256 digest")
    ctx.check(isinstance(d, bytes) and len(d) == 32, "not 32 bytes")
    h, x = ctx.call(keccak_hash, whole, hexdigest=True)
    ctx.check(x is None, "data cannot be hashed to text")
    ctx.check(h == d.hex().encode(), "the text is not that of the digest")
    l, x = ctx.call(keccak_hash_list, items)
    ctx.check(x is None, "a list cannot be hashed")
    ctx.check(l == d, "hashing a list is not hashing the concatenation")
    m, x = ctx.call(keccak_hash_list, items, hexdigest=True)
    ctx.check(x is None, "a list cannot be hashed to text")
    ctx.check(m == h, "the text for a list is not that of the digest")
    ctx.check(keccak_hash(whole, False) == d, "hexdigest=False is not the digest")
    ctx.check(keccak_hash_list(tuple(items)) == d, "hashing a tuple is not hashing the concatenation")
    ctx.check(all([a == b for a, b in zip(items, [ctx.cat(b"", i) for i in items])]), "the list was changed")
    ctx.cover("hashed")


def twohash(ctx, n, m):
    """two data, two digests"""
    a, b = ctx.bytes("a", n), ctx.bytes("b", m)
    eq = same(ctx, a, b)
    for f in (lambda x: keccak_hash(x), lambda x: keccak_hash_list([x]), lambda x: Utils.hash_data(x),
              lambda x: Utils.hash_data(x, type="sha512")):
        he = f(a) == f(b)
        ctx.check(ctx.any([ctx.all([eq, he]), ctx.no(ctx.any([eq, he]))]), "digests are equal for different data or not for equal")
    ctx.cover("hashed")


def hashes(ctx, n):
    data = blob(ctx, "data", n)
    for name in ("sha256", "sha512"):
        want = getattr(hashlib, name)(data)
        for f in ((lambda **k: Utils.hash_data(data, type=name, **k)),
                  (lambda **k: getattr(Utils, name)(data, **k))):
            h, x = ctx.call(f)
            ctx.check(x is None, "data cannot be hashed")
            ctx.check(isinstance(h, bytes), "the digest is not bytes")
            ctx.check(h == want.hexdigest().encode(), "not the digest of the named hash")
            h, x = ctx.call(f, finalize=True)
            ctx.check(h == want.hexdigest().encode(), "not the digest of the named hash")
            o, x = ctx.call(f, finalize=False)
            ctx.check(x is None, "no hash object")
            ctx.check(o.digest() == want.digest(), "the hash object has another digest")
            ctx.check(o.hexdigest() == want.hexdigest(), "the hash object has another text")
    ctx.check(Utils.hash_data(data) == Utils.sha256(data), "the default is not SHA-256")
    # a hash object can go on
    more = ctx.bytes("more", 2)
    o = Utils.hash_data(data, finalize=False)
    o.update(more)
    ctx.check(o.digest() == hashlib.sha256(ctx.cat(data, more)).digest(), "the hash object has seen other data")
    ctx.cover("hashed")


def badhash(ctx, what):
    """unknown algorithms and other types are refused"""
    data = ctx.bytes("data", 3)
    if what == "name":
        n = ctx.text("name", ctx.choice("length", [0, 1, 5, 6, 7]), 0, 127)
        for known in ("sha256", "sha512"):
            if len(n) == len(known):
                ctx.assume(ctx.no(n == known))
        h, x = ctx.call(Utils.hash_data, data, type=n)
        ctx.check(x is not None, "an unknown algorithm is accepted")
        n = ctx.choice("other", ["SHA-1", "sha1", "md5", "sha384", "sha3_256", "keccak", "sha256 ", "sha-512", "",
                                 None, 256, b"sha256"])
        h, x = ctx.call(Utils.hash_data, data, type=n)
        ctx.check(x is not None, "an unknown algorithm is accepted")
        h, x = ctx.call(Utils.hash_data, data, finalize=False, type=n)
        ctx.check(x is not None, "an unknown algorithm is accepted")
    else:
        b = ctx.choice("bad", [None, 5, 1.5, "text", True, [b"k"], (b"k",), {"k": 1}, "bytearray"])
        if b == "bytearray":
            b = ctx.mutable(data)
        fin = ctx.flag("finalize")
        for name in ("sha256", "sha512"):
            h, x = ctx.call(Utils.hash_data, b, finalize=fin, type=name)
            ctx.check(x is not None, "a value that is not bytes is hashed")
            h, x = ctx.call(getattr(Utils, name), b, finalize=fin)
            ctx.check(x is not None, "a value that is not bytes is hashed")
        # (None stands for no data in the constructors of hash objects, so it says nothing about this helper)
        if b is not None and not isinstance(b, (list, tuple, str)) and not ctx.ismutable(b):
            h, x = ctx.call(keccak_hash, b)
            ctx.check(x is not None, "a value that is not bytes is hashed")
    ctx.cover("refused")


# ------------------------------------------------------------------ C33
def rsakey(ctx, form, n=0):
    """form: what the key text is"""
    ctx.parser()
    k = RSA.generate(1024)
    if form == "public":
        text, pub, priv = k.publickey().export_key(), True, False
    elif form == "public-der":
        text, pub, priv = k.publickey().export_key(format="DER"), True, False
    elif form == "private":
        text, pub, priv = k.export_key(), False, True
    elif form == "private-der":
        text, pub, priv = k.export_key(format="DER"), False, True
    elif form == "private-pkcs8":
        text, pub, priv = k.export_key(pkcs=8), False, True
    elif form == "encrypted":
        text, pub, priv = k.export_key(passphrase="secret"), False, False
    elif form == "pair":
        kp = ctx.keypair(RsaKeyPair)
        text, pub, priv = kp.public_key, True, False
    elif form == "made":
        text, pub, priv = Utils.generate_rsa_keypair() if ctx.symbolic else k.export_key(), False, True
    elif form == "any":
        text, pub, priv = ctx.bytes("text", n), False, False
    elif form == "cut":
        text, pub, priv = k.export_key(), False, False
        text = text[:ctx.choice("at", [0, 1, 10, 40, len(text) - 40, len(text) // 2])]
    elif form == "ecc":
        text, pub, priv = Utils.generate_ecc_key(), False, False
    kind = ctx.choice("kind", ["public", "private", None])
    flag = ctx.choice("raise", [False, True, None])
    kw = {}
    if kind is not None:
        kw["key_type"] = kind
    if flag is not None:
        kw["raise_exeptions"] = flag
    v, x = ctx.call(Utils.rsa_key_valid, text, **kw)
    want = priv if kind == "private" else pub
    ctx.cover(form)
    if pub or priv:
        ctx.check(x is None, "a key that can be parsed makes the check fail")
        ctx.check(v == want, "a key is classified wrongly")
    elif flag == True:
        ctx.check(x is not None, "a key that cannot be parsed is not reported by raising")
    else:
        ctx.check(x is None, "a key that cannot be parsed makes the check fail")
        ctx.check(v == False, "a key that cannot be parsed is accepted")


# ------------------------------------------------------------------ C38
def twin_of(ctx, a, kind):
    """a key pair of the given kind with the keys and the nickname of another"""
    b, x = ctx.call(KINDS[kind].from_key_string, a.to_key_string("pw"), "pw")
    ctx.check(x is None, "a saved key pair cannot be loaded as another kind")
    return b


def identity(ctx, kinds, nick, nick2, keys=("same", "other")):
    """C38: when two key pairs are the same"""
    ka, kb = ctx.choice("kind", list(kinds)), ctx.choice("kind2", list(kinds))
    na, nb = ctx.text("nick", nick), ctx.text("nick2", nick2)
    key = ctx.choice("key", list(keys))
    a = ctx.keypair(KINDS[ka], nickname=na)
    if key == "same":
        b = twin_of(ctx, a, kb)
        b.nickname = nb
    else:
        b = ctx.keypair(KINDS[kb], nickname=nb)
    ctx.check(ctx.all([a.nickname == na, b.nickname == nb]), "a key pair has another nickname")
    want = ctx.all([ka == kb, key == "same", same(ctx, na, nb)])
    for x, y, name in ((a, b, "=="), (b, a, "== the other way round")):
        eq = x == y
        ne = x != y
        ctx.check(ctx.any([ctx.all([eq, want]), ctx.no(ctx.any([eq, want]))]), "%s does not say whether two key pairs are the same" % name)
        ctx.check(ctx.any([ctx.all([ne, eq]), ctx.no(ctx.any([ne, eq]))]) == False, "!= is not the opposite of ==")
    if want == True:
        ctx.cover("equal")
        ctx.check(hash(a) == hash(b), "equal key pairs have different hashes")
    else:
        ctx.cover("different")
    ctx.check(a == a, "a key pair is not equal to itself")
    ctx.check(ctx.all([hash(a) == hash(a)]), "a key pair has different hashes")
    for o in (None, 5, na, a.public_key, a.public_key_string, Utils):
        ctx.check(ctx.no(a == o), "a key pair equals something else")
    ctx.check((a.public_key == b.public_key) == (key == "same"), "the public keys do not belong to the keys")
    # the same after a change
    then = ctx.choice("then", ["rename", "generate"])
    if then == "rename":
        b.nickname = na
        alike = ka == kb and key == "same"
    else:
        a.generate_keypair(1024)
        ctx.check(ctx.no(a == b), "a key pair with a new key equals one with the old key")
        b = twin_of(ctx, a, kb)
        b.nickname = na
        alike = ka == kb
    ctx.cover(then)
    for x, y in ((a, b), (b, a)):
        ctx.check((x == y) == alike, "after a change == does not say whether two key pairs are the same")
    if alike:
        ctx.check(hash(a) == hash(b), "after a change equal key pairs have different hashes")


def nameless(ctx, kinds, n):
    """C38: key pairs made without a nickname"""
    kps = [ctx.keypair(KINDS[ctx.choice("kind%d" % i, list(kinds))]) for i in range(n)]
    for i in range(n):
        ctx.check(isinstance(kps[i].nickname, str) and len(kps[i].nickname) > 0, "a key pair has no nickname")
        for j in range(i):
            ctx.check(kps[i].nickname != kps[j].nickname, "two key pairs made without a nickname have the same one")
            ctx.check(kps[i].public_key != kps[j].public_key, "two generated key pairs have the same key")
            ctx.check(ctx.no(kps[i] == kps[j]), "two generated key pairs are equal")
    ctx.cover("made")


def guarded(ctx, kind, nick):
    """C38: the public key cannot be replaced, and text forms hold no secret"""
    n = ctx.text("nick", nick)
    a = ctx.keypair(KINDS[kind], nickname=n)
    o = ctx.keypair(KINDS[kind])
    public, text = a.public_key, a.public_key_string
    ctx.check(text.encode() == public, "the two forms of the public key differ")
    h = hash(a)
    what = ctx.choice("what", ["public_key", "public_key_string", "-public_key", "-public_key_string", "-nickname",
                               "badnick", "badlength", "text", "again", "rename"])
    ctx.cover(what)
    if what in ("public_key", "public_key_string"):
        r, x = ctx.call(setattr, a, what, getattr(o, what))
        ctx.check(x is not None, "the public key can be replaced")
    elif what[:1] == "-":
        r, x = ctx.call(delattr, a, what[1:])
        ctx.check(x is not None, "a part of a key pair can be deleted")
    elif what == "badnick":
        r, x = ctx.call(KINDS[kind], nickname=ctx.choice("bad", [5, b"x", ["x"], 1.5, True]), _generate_keys=False)
        ctx.check(x is not None, "a nickname of another type is accepted")
    elif what == "badlength":
        r, x = ctx.call(a.generate_keypair, ctx.choice("bad", ["1024", None, 10.5, b"1024"]))
        ctx.check(x is not None, "a key length of another type is accepted")
    elif what == "text":
        plain = a._key_pair.export_key()
        # base64 lines of the private key (the model's exports are one line)
        for line in plain.decode().split("\n")[1:-1]:
            for t in (str(a), repr(a)):
                ctx.check(not ctx.within(line, t), "a text form of a key pair holds its private key")
    elif what == "again":
        a.generate_keypair(1024)
        ctx.check(a.public_key != public, "generating again gives the same key")
        ctx.check(a.nickname == n, "generating again changes the nickname")
        s = RsaKeyPair.sign(a, b"data")
        ctx.check(RsaKeyPair.signature_valid(a, b"data", s) == True, "a key generated again does not sign")
        ctx.check(RsaKeyPair.signature_valid(o, b"data", s, public) == False, "the key is still the old one")
        return
    elif what == "rename":
        m = ctx.text("newnick", 2)
        a.nickname = m
        ctx.check(a.nickname == m, "the nickname does not change")
        n = m
    ctx.check(a.public_key == public and a.public_key_string == text, "the public key has changed")
    ctx.check(a.nickname == n, "the nickname has changed")
    if what != "rename":
        ctx.check(hash(a) == h, "the hash has changed")
    s = RsaKeyPair.sign(a, b"data")
    ctx.check(RsaKeyPair.signature_valid(o, b"data", s, public) == True, "the keys have changed")


# ------------------------------------------------------------------ C39
HEX = "0123456789abcdef"


def fresh(ctx, what, n, kinds=("full", "enc")):
    """C39: nothing random is used twice"""
    ctx.cover(what)
    if what == "encrypt":
        data, data2 = blob(ctx, "data", n), blob(ctx, "data2", n)
        p, q = password(ctx, "password", [2, "a"]), password(ctx, "password2", [2, "a"])
        out = [Utils.encrypt(data, p), Utils.encrypt(data, p), Utils.encrypt(data2, p), Utils.encrypt(data2, q), Utils.encrypt(data, p)]
        for i in range(len(out)):
            for j in range(i):
                ctx.check(ctx.no(out[i] == out[j]), "encrypting twice gives the same")
                ctx.check(ctx.no(out[i][:16] == out[j][:16]), "a nonce is used twice")
    elif what == "message":
        data, data2 = blob(ctx, "data", n), blob(ctx, "data2", n)
        a = ctx.keypair(KINDS[ctx.choice("sender", list(kinds))])
        b = ctx.keypair(KINDS[ctx.choice("receiver", list(kinds))])
        then = ctx.choice("then", ["again", "data", "back", "self"])
        ctx.cover(then)
        out = [(a.encrypt(data, b.public_key), b),
               (a.encrypt(data, b.public_key), b) if then == "again" else
               (a.encrypt(data2, b.public_key), b) if then == "data" else
               (b.encrypt(data, a.public_key), a) if then == "back" else
               (a.encrypt(data2, a.public_key), a)]
        seen = []
        for msg, to in out:
            doc = json.loads(msg.decode("utf-8"))
            # what the receiver gets to read the message with
            key = PKCS1_OAEP.new(to._key_pair).decrypt(bytes.fromhex(doc["enc_session_key"]))
            ctx.check(len(key) >= 16, "a short session key")
            seen.append((key, msg))
        for i in range(len(seen)):
            for j in range(i):
                ctx.check(ctx.no(same(ctx, seen[i][0], seen[j][0])), "two messages have the same session key")
    elif what == "id":
        ids = []
        # within one tick of the clock or not
        if ctx.choice("frozen", [False, True]):
            ctx.freeze()
        for i in range(n):
            f = ctx.choice("form%d" % i, ["text", "bytes"])
            x = Utils.get_id_string() if f == "text" else Utils.get_id()
            ctx.check(isinstance(x, str if f == "text" else bytes), "an identifier of another type")
            x = x if f == "text" else x.decode()
            ctx.check(len(x) == 32, "an identifier of another length")
            ctx.check(all([ctx.within(c, HEX) for c in x]), "an identifier is not hexadecimal")
            for y in ids:
                ctx.check(x != y, "an identifier is given twice")
            ids.append(x)
    elif what == "keys":
        made = []
        for i in range(n):
            f = ctx.choice("make%d" % i, ["pair", "rsa", "ecc"])
            if f == "pair":
                kp = KINDS[ctx.choice("kind%d" % i, sorted(KINDS))](_generate_keys=False)
                kp.generate_keypair(1024)
                k = kp._key_pair.export_key()
            elif f == "rsa":
                k = Utils.generate_rsa_keypair()
                ctx.check(RSA.import_key(k).has_private(), "the generated key is no private key")
                ctx.check(RSA.import_key(k).size_in_bits() >= 2048, "the generated key is short")
            else:
                k = Utils.generate_ecc_key()
            ctx.check(isinstance(k, bytes), "the generated key is not bytes")
            for o in made:
                ctx.check(o != k, "a key is generated twice")
            made.append(k)
    elif what == "default":
        a = KINDS[ctx.choice("kind", sorted(KINDS))]()
        ctx.check(RSA.import_key(a.public_key).size_in_bits() == 4096, "a new key pair has another length")
