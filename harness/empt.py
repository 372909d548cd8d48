"""Harnesses for the verified mapping and its views (C15-C20, C34)."""
from pymt import EMPT, SparseEMPT, RootEMPT, Proof
from pymt.mpt import MPT
from pymt.empt import DataReference
from . import ref
from .trie import Model, mkkey, same_proof, entries, kept, same_answer, ask as ask_trie, proofs_for, Faulty


class Obj:
    """a value with an RLP encoding"""

    def __init__(self, data):
        self.data = data

    def encode_rlp(self):
        return self.data

    @staticmethod
    def decode_rlp(data):
        return Obj(data)


class Falsy(Obj):
    """an object that counts as false"""

    def __len__(self):
        return 0


class Store:
    """storage with the documented methods only"""

    def __init__(self):
        self.d = {}

    def __getitem__(self, k):
        return self.d[k]

    def __setitem__(self, k, v):
        self.d[k] = v

    def __delitem__(self, k):
        del self.d[k]

    def __contains__(self, k):
        return k in self.d

    def __len__(self):
        return len(self.d)

    def keys(self):
        return list(self.d.keys())


def enc(v):
    return v.data if isinstance(v, Obj) else bytes(v)


def mkvalue(ctx, name, n, kind):
    b = ctx.bytes(name, n)
    if kind == "b":
        return b
    if kind == "a":
        return ctx.mutable(b)
    return Falsy(b) if kind == "f" else Obj(b)


def create(storage, secure):
    if storage == "default":
        return EMPT(secure=secure)
    if storage == "own":
        return EMPT(Store(), Store(), secure=secure)
    return EMPT({}, {}, secure=secure)


def step(ctx, e, m, keys, op, tag):
    """one operation on the mapping and the model; the model's values are the objects"""
    if op[0] == "clear":
        e.clear()
        m.items = []
        ctx.check(len(e) == 0 and list(e) == [], "a cleared mapping is not empty")
        ctx.check(e.root_hash() == expected_root(m, e.secure), "a cleared mapping has another root than an empty one")
        return
    if op[0] == "b":
        e.build_trie()
        ctx.cover("rebuilt")
        return
    if op[0] == "popitem":
        r, x = ctx.call(e.popitem)
        if len(m.items) == 0:
            ctx.check(x is not None, "taking an item from an empty mapping succeeds")
            return
        ctx.check(x is None, "no item can be taken from the mapping")
        i = m.find(r[0])
        ctx.check(i >= 0, "popitem returns a key that is not stored")
        ctx.check(same_value(ctx, r[1], m.items[i][1]), "popitem returns a wrong value")
        m.items.pop(i)
        return
    k = keys[op[1]]
    i = m.find(k)
    if op[0] == "v":
        v = op[2].encode()
        e.update(k, v)
        m.put(k, v)
    elif op[0] == "u":
        n = ctx.choice("n" + tag, op[2]) if isinstance(op[2], list) else op[2]
        v = mkvalue(ctx, "v" + tag, n, op[3] if len(op) > 3 else "b")
        if len(op) > 4:
            e[k] = v
        else:
            e.update(k, v)
        m.put(k, v)
    elif op[0] == "setdefault":
        v = mkvalue(ctx, "v" + tag, op[2], op[3] if len(op) > 3 else "b")
        r = e.setdefault(k, v)
        ctx.check(same_value(ctx, r, v if i < 0 else m.items[i][1]), "setdefault returns a wrong value")
        if i < 0:
            m.put(k, v)
    elif op[0] == "pop":
        if len(op) > 2:
            d = Obj(b"")
            r = e.pop(k, d)
            if i < 0:
                ctx.check(r is d, "pop does not return the default for an absent key")
                return
            x = None
        else:
            r, x = ctx.call(e.pop, k)
        ctx.check((x is None) == (i >= 0), "pop succeeds exactly on stored keys")
        if i >= 0:
            ctx.check(same_value(ctx, r, m.items[i][1]), "pop returns a wrong value")
            m.drop(k)
    else:
        if len(op) > 2:
            r, x = ctx.call(e.__delitem__, k)
        else:
            r, x = ctx.call(e.delete, k)
        ctx.check((x is None) == (i >= 0), "deletion succeeds exactly on stored keys")
        if i >= 0:
            ctx.cover("delete")
            m.drop(k)
        else:
            ctx.cover("refused")


def same_value(ctx, got, v):
    if isinstance(v, Obj):
        return got is v
    return ctx.all([isinstance(got, (bytes, bytearray)), isinstance(got, bytearray) == isinstance(v, bytearray),
                    got == v])


def check_key(ctx, e, m, k, what):
    i = m.find(k)
    ctx.check((k in e) == (i >= 0), what + ": membership is wrong")
    ctx.check(e.contains(k) == (i >= 0), what + ": membership is wrong")
    r, x = ctx.call(e.get, k)
    r2, x2 = ctx.call(lambda: e[k])
    q, y = ctx.call(e.get_reference, k)
    if i < 0:
        ctx.cover("absent")
        ctx.check(x is not None and x2 is not None, what + ": an absent key can be read")
        ctx.check(y is not None, what + ": an absent key has a reference")
        return
    v = m.items[i][1]
    ctx.cover("present")
    ctx.check(x is None, what + ": a stored key cannot be read")
    ctx.check(x2 is None, what + ": a stored key cannot be read with []")
    ctx.check(same_value(ctx, r, v), what + ": a stored key reads something else")
    ctx.check(same_value(ctx, r2, v), what + ": a stored key reads something else with []")
    ctx.check(y is None, what + ": a stored key has no reference")
    ctx.check(ctx.all([q.key == k, q.data == enc(v)]), what + ": the reference carries another key or value")


def check_map(ctx, e, m, keys, what="mapping"):
    for i, k in enumerate(keys):
        check_key(ctx, e, m, k, "%s, key %d" % (what, i))
    ctx.check(len(e) == len(m.items), what + ": wrong length")
    n = 0
    for k in e:
        ctx.check(m.find(k) >= 0, what + ": iteration yields a key that is not stored")
        n += 1
    ctx.check(n == len(m.items), what + ": iteration does not cover the stored keys")
    its = list(e.items())
    ctx.check(len(its) == len(m.items), what + ": items do not cover the stored keys")
    for k, v in its:
        i = m.find(k)
        ctx.check(i >= 0 and same_value(ctx, v, m.items[i][1]), what + ": items yield something else")


def expected_root(m, secure):
    """root of a trie holding the references the model asks for, through the reference trie"""
    out = []
    for k, v in m.items:
        out.append((ref.nibbles(ref.kec(k) if secure else k), DataReference(k, enc(v)).encode()))
    return ref.root_hash(out)


def mapping(ctx, specs, ops, free=0, vlens=(3,), kinds="b", extra="ud", secure=False, storage="dict", probe=None,
            root=False, every=False):
    """C15"""
    keys = [mkkey(ctx, "k%d" % i, s) for i, s in enumerate(specs)]
    e = create(storage, secure)
    m = Model()
    for j, op in enumerate(ops):
        step(ctx, e, m, keys, op, str(j))
        if every:
            check_map(ctx, e, m, keys, "after operation %d" % j)
    for j in range(free):
        op = ctx.choice("op%d" % j, list(extra))
        op = {"u": "u", "d": "d", "p": "pop", "s": "setdefault", "c": "clear", "i": "popitem", "b": "b"}[op]
        if op in ("clear", "popitem", "b"):
            step(ctx, e, m, keys, [op], "f%d" % j)
            continue
        i = ctx.choice("key%d" % j, range(len(keys)))
        o = [op, i]
        if op in ("u", "setdefault"):
            o.append(ctx.choice("len%d" % j, vlens))
            if op == "u":
                o.append(ctx.choice("kind%d" % j, list(kinds)))
        step(ctx, e, m, keys, o, "f%d" % j)
    if probe is not None:
        keys = keys + [mkkey(ctx, "p", probe)]
    check_map(ctx, e, m, keys)
    if root:
        ctx.check(e.root_hash() == expected_root(m, secure), "the root is not that of the references")
        ctx.observe("root", e.root_hash())


def altered(ctx, specs, ops, how, vlens, secure=False, kinds="b"):
    """C16"""
    keys = [mkkey(ctx, "k%d" % i, s) for i, s in enumerate(specs)]
    data = {}
    e = EMPT({}, data, secure=secure)
    m = Model()
    for j, op in enumerate(ops):
        step(ctx, e, m, keys, op, str(j))
    if len(m.items) == 0:
        ctx.stop()
    i = ctx.choice("which", range(len(m.items)))
    k, v = m.items[i]
    if how == "other":
        w = mkvalue(ctx, "w", ctx.choice("wlen", vlens), ctx.choice("wkind", list(kinds)))
        ctx.assume(ctx.no(enc(w) == enc(v)))
        data[k] = w
    elif how == "byte":
        b = enc(v)
        j = ctx.choice("at", range(len(b)))
        x = ctx.int("byte", 0, 255)
        ctx.assume(x != b[j])
        data[k] = ctx.setbyte(b, j, x)
    elif how == "mutate":
        if not isinstance(v, bytearray):
            ctx.stop()
        x = ctx.int("byte", 0, 255)
        ctx.assume(x != v[0])
        v[0] = x
    elif how == "object":
        if not isinstance(v, Obj):
            ctx.stop()
        w = ctx.bytes("w", ctx.choice("wlen", vlens))
        ctx.assume(ctx.no(w == v.data))
        v.data = w
    elif how == "swap":
        j = ctx.choice("with", range(len(m.items)))
        if j == i or len(enc(v)) == len(enc(m.items[j][1])) and (enc(v) == enc(m.items[j][1])) == True:
            ctx.stop()
        data[k] = m.items[j][1]
    elif how == "boundary":
        # what the reference hashes stays the same, the border between key and value moves
        b = enc(v)
        cut = ctx.flag("cut")
        if len(b if cut else k) == 0:
            ctx.stop()
        data[k] = b[1:] if cut else k[-1:] + b
    elif how == "remove":
        del data[k]
    elif how == "junk":
        data[k] = ctx.choice("junk", [None, 5, "text", [b"x"], b""])
        if len(enc(v)) == 0:
            ctx.stop()
    ctx.cover("altered")
    for f in (e.get, e.__getitem__):
        r, x = ctx.call(f, k)
        ctx.check(x is not None, "an altered value is returned")
    for j, (k2, v2) in enumerate(m.items):
        if j != i:
            ctx.cover("others")
            r, x = ctx.call(e.get, k2)
            ctx.check(x is None, "another key cannot be read")
            ctx.check(same_value(ctx, r, v2), "another key reads something else")
    if how not in ("mutate", "object"):
        # putting the genuine value back makes it readable
        data[k] = v
        r, x = ctx.call(e.get, k)
        ctx.check(x is None and same_value(ctx, r, v), "the genuine value is refused")


def refcodec(ctx, klens, dlens):
    """C17, round trip"""
    k = ctx.bytes("k", ctx.choice("klen", klens))
    d = ctx.bytes("d", ctx.choice("dlen", dlens))
    r = DataReference(k, d)
    ctx.check(ctx.all([r.key == k, r.data == d]), "a reference has another key or data")
    e = r.encode()
    s = DataReference.decode(e)
    ctx.check(ctx.all([s.key == k, s.data == d]), "a decoded reference has another key or data")
    ctx.check(r == s, "a decoded reference is not equal")
    ctx.check(ctx.no(r != s), "a decoded reference is not equal (!=)")
    ctx.check(hash(r) == hash(s), "equal references have different hashes")
    ctx.check(s.encode() == e, "encoding again gives another result")
    ctx.observe("encoded", e)


def refzero(ctx):
    """C17, references whose digest starts with zero bytes (fixed data)"""
    i = ctx.choice("which", ["36", "87", "562", "39133", "338557", "0"])
    r = DataReference(b"key", i.encode())
    s = DataReference.decode(r.encode())
    ctx.check(r == s and s.key == b"key" and s.data == i.encode(), "a decoded reference is not equal")
    ctx.check(s.hash == r.hash, "a decoded reference has another hash")
    e = EMPT({}, {})
    e.update(b"key", i.encode())
    ctx.check(e.get(b"key") == i.encode(), "a stored key reads something else")


def refequal(ctx, klen1, dlen1, klen2, dlen2):
    """C17, equality"""
    k, d = ctx.bytes("k", klen1), ctx.bytes("d", dlen1)
    k2, d2 = ctx.bytes("k2", klen2), ctx.bytes("d2", dlen2)
    same = ctx.all([klen1 == klen2, dlen1 == dlen2] + ([k == k2] if klen1 == klen2 else [])
                   + ([d == d2] if dlen1 == dlen2 else []))
    eq = DataReference(k, d) == DataReference(k2, d2)
    ctx.check(ctx.any([ctx.all([eq, same]), ctx.no(ctx.any([eq, same]))]), "equality is not that of key and data")
    ctx.check(ctx.no(DataReference(k, d) == d), "a reference equals its data")


def reftamper(ctx, klen, dlen, what, olen=None):
    """C17, altered references"""
    import rlp
    if what == "byte":
        k, d = bytes(range(100, 100 + klen)), bytes(range(3, 3 + dlen))
    else:
        k, d = ctx.bytes("k", klen), ctx.bytes("d", dlen)
    e = DataReference(k, d).encode()
    if what == "byte":
        # any byte of the encoding
        j = ctx.choice("at", range(len(e)))
        x = ctx.int("byte", 0, 255)
        ctx.assume(x != e[j])
        f = ctx.setbyte(e, j, x)
    else:
        p = rlp.decode(e)
        i = {"flag": 0, "key": 1, "data": 2, "hash": 3}[what]
        w = ctx.bytes("w", len(p[i]) if olen is None else olen)
        if len(w) == len(p[i]):
            ctx.assume(ctx.no(w == p[i]))
        p[i] = w
        f = rlp.encode(p)
    r, x = ctx.call(DataReference.decode, f)
    ctx.cover("tampered")
    ctx.check(x is not None, "an altered reference is decoded")


def refmoved(ctx, klen, dlen):
    """C17, bytes moved between key and data"""
    import rlp
    k, d = ctx.bytes("k", klen), ctx.bytes("d", dlen)
    p = rlp.decode(DataReference(k, d).encode())
    kd = ctx.cat(k, d)
    n = ctx.choice("split", [i for i in range(klen + dlen + 1) if i != klen])
    p[1], p[2] = kd[:n], kd[n:]
    r, x = ctx.call(DataReference.decode, rlp.encode(p))
    ctx.check(x is not None, "a reference with bytes moved between key and data is decoded")


def apply_map(ctx, e, m, keys, ops, tag):
    for j, op in enumerate(ops):
        step(ctx, e, m, keys, op, "%s%d" % (tag, j))


def views(ctx, specs, ops, later, probe=None, secure=False, back=False, storage="dict"):
    """C18"""
    keys = [mkkey(ctx, "k%d" % i, s) for i, s in enumerate(specs)]
    e = create(storage, secure)
    m = Model()
    apply_map(ctx, e, m, keys, ops, "")
    if probe is not None:
        keys = keys + [mkkey(ctx, "p", probe)]
    s, r = e.get_sparse_trie(), e.get_root_trie()
    sr = s.get_root_trie()
    old = m.copy()
    rh = e.root_hash()
    ctx.observe("root", rh)

    def check_views(what):
        for name, x in (("references-only view", s), ("root-only view", r), ("root-only view of the view", sr)):
            ctx.check(x.root_hash() == rh, "%s: the %s has another root hash" % (what, name))
            if isinstance(x, RootEMPT):
                ctx.check(x.secure == secure, "%s: the %s is in another mode" % (what, name))
        for k in keys:
            i = old.find(k)
            ctx.check((k in s) == (i >= 0), what + ": the view holds other keys")
            q, x = ctx.call(s.get_reference, k)
            ctx.check((x is None) == (i >= 0), what + ": the view holds other references")
            if i >= 0:
                ctx.cover("reference")
                ctx.check(ctx.all([q.key == k, q.data == enc(old.items[i][1])]), what + ": a reference differs")
    check_views("at first")
    ctx.check(isinstance(s, SparseEMPT) and isinstance(r, RootEMPT) and isinstance(sr, RootEMPT), "wrong kind of view")
    proofs = []
    for k in keys:
        for f in ("get_proof_of_inclusion", "get_proof_of_exclusion"):
            p, x = ctx.call(getattr(e, f), k)
            q, y = ctx.call(getattr(s, f), k)
            ctx.check((x is None) == (y is None), "proof generation differs in the view")
            if x is None:
                ctx.check(same_proof(ctx, p, q), "the view gives another proof")
                proofs += [p, q]

    def judge(x, p):
        return (judged(ctx, x.verify_proof_of_inclusion, p), judged(ctx, x.verify_proof_of_exclusion, p))
    for p in proofs:
        j = judge(e, p)
        ctx.cover("proof")
        for name, x in (("references-only view", s), ("root-only view", r), ("root-only view of the view", sr)):
            ctx.check(judge(x, p) == j, "the %s judges a proof differently" % name)
    # views taken from the same contents are independent of each other
    s2 = e.get_sparse_trie()
    s2.update(keys[0], b"fork")
    if len(old.items) > 1:
        s2.delete(old.items[1][0])
    s3, r3 = e.get_sparse_trie(), e.get_root_trie()
    for name, x in (("references-only view", s3), ("root-only view", r3), ("root-only view of a view", s3.get_root_trie()), ("mapping", e)):
        ctx.check(x.root_hash() == rh, "after a change of a view: the %s has another root hash" % name)
    ctx.check((keys[0] in s3) == (old.find(keys[0]) >= 0), "a new view holds the changes of another view")
    check_views("after a change of another view")
    apply_map(ctx, e, m, keys, later, "l")
    check_views("after a change of the mapping")
    for p in proofs:
        for x in (s, r, sr):
            ctx.check(judge(x, p)[0 if p.type == b"MPT-POI" else 1] is True, "a view no longer accepts its proof")
    if back:
        m2 = m.copy()
        k = keys[0]
        s.update(k, mkvalue(ctx, "back", 2, "b"))
        check_map(ctx, e, m, keys, "mapping after a change of the view")
        ctx.check(r.root_hash() == rh and sr.root_hash() == rh, "a root-only view follows a change of another view")


def judged(ctx, f, p):
    r, x = ctx.call(f, p)
    return None if x is not None else (True if r == True else False)


def sparse(ctx, specs, ops, free=0, secure=False, storage="dict", kinds="bao"):
    """C18: a references-only trie written directly agrees with the mapping"""
    keys = [mkkey(ctx, "k%d" % i, s) for i, s in enumerate(specs)]
    e = EMPT({}, {}, secure=secure)
    s = SparseEMPT(secure=secure) if storage == "default" else SparseEMPT(Store() if storage == "own" else {}, secure=secure)
    m = Model()

    def both(op, tag):
        k = keys[op[1]]
        i = m.find(k)
        if op[0] == "u":
            n = ctx.choice("n" + tag, op[2]) if isinstance(op[2], list) else op[2]
            v = mkvalue(ctx, "v" + tag, n, op[3])
            e.update(k, v)
            if len(op) > 4:
                s[k] = v
            else:
                s.update(k, v)
            m.put(k, v)
        else:
            r, x = ctx.call(e.delete, k)
            r, y = ctx.call(s.delete if len(op) < 3 else s.__delitem__, k)
            ctx.check((x is None) == (i >= 0) and (y is None) == (i >= 0), "deletion succeeds exactly on stored keys")
            m.drop(k)
    for j, op in enumerate(ops):
        both(op, str(j))
    for j in range(free):
        op = ctx.choice("op%d" % j, "ud")
        i = ctx.choice("key%d" % j, range(len(keys)))
        both([op, i, 3, ctx.choice("kind%d" % j, list(kinds))] if op == "u" else [op, i], "f%d" % j)
    ctx.check(s.root_hash() == e.root_hash(), "the references-only trie has another root")
    ctx.check(s.root_hash() == expected_root(m, secure), "the root is not that of the references")
    ctx.check(s.get_root_trie().root_hash() == s.root_hash(), "the root-only view has another root")
    ctx.check(s.root() == e.root(), "the references-only trie has another root node")
    for k in keys:
        i = m.find(k)
        ctx.check((k in s) == (i >= 0), "the references-only trie holds other keys")
        q, x = ctx.call(s.get_reference, k)
        ctx.check((x is None) == (i >= 0), "the references-only trie holds other references")
        if i >= 0:
            ctx.check(ctx.all([q.key == k, q.data == enc(m.items[i][1])]), "a reference differs")
        r, x = ctx.call(lambda: s[k])
        ctx.check(x is not None, "a references-only trie returns data")


def independent(ctx, cls, specs, free, vlens, third=True, secure=False, start=(), kinds="b", ops="ud"):
    """C19: two instances without given storage"""
    keys = [mkkey(ctx, "k%d" % i, s) for i, s in enumerate(specs)]
    sec = {"secure": True} if secure else {}
    make = {"empt": lambda: EMPT(**sec), "sparse": lambda: SparseEMPT(**sec), "empt-trie": lambda: EMPT(data_storage={}, **sec),
            "empt-data": lambda: EMPT(trie_storage={}, **sec)}
    es = [make[c]() for c in cls]
    ms = [Model() for c in cls]
    for j, (w, i, n) in enumerate(start):
        v = ctx.bytes("s%d" % j, n)
        es[w].update(keys[i], v)
        ms[w].put(keys[i], v)
    for j in range(free):
        w = ctx.choice("who%d" % j, range(len(es)))
        op = ctx.choice("op%d" % j, list(ops))
        if op == "b":
            # the trie is built again from the data
            if isinstance(es[w], SparseEMPT):
                ctx.stop()
            es[w].build_trie()
            continue
        i = ctx.choice("key%d" % j, range(len(keys)))
        if op == "d" and ms[w].find(keys[i]) < 0:
            ctx.stop()
        roots = [e.root_hash() for e in es]
        if op == "u":
            v = mkvalue(ctx, "v%d" % j, ctx.choice("n%d" % j, vlens), ctx.choice("kind%d" % j, list(kinds)))
            es[w].update(keys[i], v)
            ms[w].put(keys[i], v)
        else:
            es[w].delete(keys[i])
            ms[w].drop(keys[i])
        for x in range(len(es)):
            if x != w:
                ctx.check(es[x].root_hash() == roots[x], "a change of one mapping changes the root of another")
    if third:
        es += [make[c]() for c in cls]
        ms += [Model() for c in cls]
    for e, m in zip(es, ms):
        ctx.check(e.root_hash() == expected_root(m, secure), "the root is not that of the contents")
        if isinstance(e, EMPT):
            check_map(ctx, e, m, keys)
        for k in keys:
            i = m.find(k)
            ctx.check((k in e) == (i >= 0), "a mapping holds what was written to another one")
            q, x = ctx.call(e.get_reference, k)
            ctx.check((x is None) == (i >= 0), "a mapping holds a reference of another one")
            if i >= 0:
                ctx.cover("stored")
                ctx.check(q.data == enc(m.items[i][1]), "a reference differs")


def rebuild(ctx, specs, ops, change, secure=False, storage="dict", twice=False, foreign=False, kinds="b", damage=None):
    """C20"""
    keys = [mkkey(ctx, "k%d" % i, s) for i, s in enumerate(specs)]
    mk = Store if storage == "own" else dict
    ts, data = mk(), mk()
    e = EMPT(ts, data, secure=secure)
    m = Model()
    apply_map(ctx, e, m, keys, ops, "")
    # the data storage is changed without the mapping, then the trie is rebuilt
    for j, op in enumerate(change):
        k = keys[op[1]]
        if op[0] == "u":
            n = ctx.choice("cn%d" % j, op[2]) if isinstance(op[2], list) else op[2]
            v = mkvalue(ctx, "c%d" % j, n, op[3] if len(op) > 3 else "b")
            data[k] = v
            m.put(k, v)
        elif m.find(k) >= 0:
            del data[k]
            m.drop(k)
    if foreign:
        # the trie holds something else altogether
        other = MPT(ts, secure=secure)
        other.update(b"other", ctx.bytes("foreign", 40))
        e = EMPT(ts, data, root=other.root(), secure=secure)
    if damage is not None:
        # nodes are lost or spoilt
        spoilt = ctx.bytes("spoilt", 3)
        for k in list(ts.keys()):
            if damage == "lost":
                del ts[k]
            else:
                ts[k] = spoilt if damage == "bytes" else b""
        if damage == "root":
            e = EMPT(ts, data, root=ctx.bytes("noroot", 32), secure=secure)
    e.build_trie()
    if twice:
        e.build_trie()
    f = EMPT({}, {}, secure=secure)
    for k, v in m.items:
        f.update(k, v)
    ctx.check(e.root_hash() == f.root_hash(), "the rebuilt trie has another root")
    ctx.check(e.root_hash() == expected_root(m, secure), "the rebuilt trie has not the specified root")
    ctx.check(e.secure == secure, "rebuilding changes the mode")
    ctx.observe("root", e.root_hash())
    check_map(ctx, e, m, keys, "rebuilt mapping")
    if len(keys) > 0:
        v = ctx.bytes("after", 3)
        e.update(keys[0], v)
        m.put(keys[0], v)
        check_map(ctx, e, m, keys, "mapping changed after rebuilding")


class Half:
    """looks like a value but cannot be decoded"""

    def encode_rlp(self):
        return b"half"


class Wrong:
    """has both methods but no bytes come out"""

    def encode_rlp(self):
        return "text"

    def decode_rlp(self, data):
        return None


class Twin:
    """equal to a key without being one"""

    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return self.key == (o.key if isinstance(o, Twin) else o)

    def __hash__(self):
        return hash(self.key)


BAD_KEYS = [None, 5, 1.5, "key", True, [b"k"], (b"k",), {"k": 1}, object, "bytearray", Twin]
BAD_VALUES = [None, 5, 1.5, "value", False, [b"v"], (b"v",), {"v": 1}, Half, Wrong]


def badtypes(ctx, cls, specs, ops, secure=False):
    """C34, mapping and references-only trie"""
    keys = [mkkey(ctx, "k%d" % i, s) for i, s in enumerate(specs)]
    data = {}
    ts = {}
    e = EMPT(ts, data, secure=secure) if cls == "empt" else SparseEMPT(ts, secure=secure)
    m = Model()
    for j, op in enumerate(ops):
        if op[0] == "u":
            v = ctx.bytes("v%d" % j, op[2])
            e.update(keys[op[1]], v)
            m.put(keys[op[1]], v)
        elif m.find(keys[op[1]]) >= 0:
            e.delete(keys[op[1]])
            m.drop(keys[op[1]])
    rh, root = e.root_hash(), e.root()
    good = keys[0]
    n = len(data)
    what = ctx.choice("what", ["key", "value"])
    if what == "key":
        b = ctx.choice("bad", BAD_KEYS)
        if b == "bytearray":
            b = ctx.mutable(good)
        elif b is object:
            b = Half()
        elif b is Twin:
            b = Twin(good)
        acts = [lambda: e.update(b, b"x"), lambda: e.__setitem__(b, b"x"), lambda: e.update(b, Obj(b"x")),
                lambda: e.delete(b), lambda: e.__delitem__(b), lambda: e.contains(b),
                lambda: e.get_reference(b), lambda: e.__getitem__(b), lambda: e.get_proof_of_inclusion(b),
                lambda: e.get_proof_of_exclusion(b), lambda: e.verify_proof_of_inclusion(b),
                lambda: e.verify_proof_of_exclusion(b)]
        if cls == "empt":
            acts += [lambda: e.get(b), lambda: e.pop(b), lambda: e.setdefault(b, b"x")]
    else:
        b = ctx.choice("bad", BAD_VALUES)
        if b is Half or b is Wrong:
            b = b()
        acts = [lambda: e.update(good, b), lambda: e.__setitem__(good, b), lambda: e.update(b"new", b),
                lambda: e.__setitem__(b"new", b)]
        if cls == "empt":
            acts += [lambda: e.setdefault(b"new", b)]
    i = ctx.choice("act", range(len(acts)))
    r, x = ctx.call(acts[i])
    ctx.cover(what)
    ctx.check(x is not None, "a %s of an unsupported type is accepted" % what)
    ctx.check(ctx.all([e.root_hash() == rh, e.root() == root]), "a refused %s changed the root" % what)
    ctx.check(len(data) == n, "a refused %s changed the data storage" % what)
    ctx.check(e.contains(b"new") == (m.find(b"new") >= 0), "a refused value is contained")
    for k in keys:
        ctx.check(e.contains(k) == (m.find(k) >= 0), "a refused %s changed the contents" % what)
        q, x = ctx.call(e.get_reference, k)
        j = m.find(k)
        ctx.check((x is None) == (j >= 0), "a refused %s changed the references" % what)
        if j >= 0:
            ctx.check(q.data == m.items[j][1], "a refused %s changed a reference" % what)
    if cls == "empt":
        check_map(ctx, e, m, keys, "after a refusal")


# ------------------------------------------------------------------ C36
READS = ("get", "item", "contains", "in", "len", "root", "root_hash", "secure", "poi", "poe",
         "verify-poi", "verify-poe", "verify-other", "verify-bad",
         "reference", "keys", "values", "items", "iter", "sparse", "rootonly", "codec")
SPARSE_READS = ("item", "contains", "in", "root", "root_hash", "poi", "poe", "verify-poi", "verify-poe", "verify-other",
                "verify-bad", "reference", "rootonly", "codec")


def ask(ctx, e, what, key, extra):
    """one question to a mapping or a view"""
    if what == "reference":
        r, x = ctx.call(e.get_reference, key)
        return (None if r is None else [r.key, r.data]), x
    if what in ("keys", "values", "items"):
        r, x = ctx.call(lambda: list(getattr(e, what)()))
        if what == "items" and x is None:
            r = [k for k, v in r] + [v for k, v in r]
        return r, x
    if what == "iter":
        return ctx.call(lambda: [k for k in e])
    if what == "sparse":
        r, x = ctx.call(e.get_sparse_trie)
        return (None if x is not None else r.root_hash()), x
    if what == "rootonly":
        r, x = ctx.call(e.get_root_trie)
        return (None if x is not None else r.root_hash()), x
    if what == "codec":
        if isinstance(e, SparseEMPT):
            return ctx.call(e.encode_rlp)
        return ctx.call(lambda: e.get_sparse_trie().encode_rlp())
    return ask_trie(ctx, e, what, key, extra)


def pure(ctx, specs, ops, probe=None, secure=False, storage="dict", cls="empt", reads=None, second=None):
    """C36: asking a mapping or a references-only view changes nothing"""
    mk = Store if storage == "own" else dict
    ts, data = mk(), mk()
    e = EMPT(ts, data, secure=secure) if cls == "empt" else SparseEMPT(ts, secure=secure)
    reads = list(reads or (READS if cls == "empt" else SPARSE_READS))
    second = list(second or (("get", "poe", "sparse") if cls == "empt" else ("reference", "poe")))
    keys = [mkkey(ctx, "k%d" % i, s) for i, s in enumerate(specs)]
    m = Model()
    for j, op in enumerate(ops):
        if cls == "empt":
            step(ctx, e, m, keys, op, str(j))
        elif op[0] == "u":
            v = ctx.bytes("v%d" % j, op[2])
            e.update(keys[op[1]], v)
            m.put(keys[op[1]], v)
        elif m.find(keys[op[1]]) >= 0:
            e.delete(keys[op[1]])
            m.drop(keys[op[1]])
    key = mkkey(ctx, "p", probe) if probe is not None else ctx.choice("which", keys)
    what = ctx.choice("read", reads)
    then = ctx.choice("then", second)
    twin = EMPT({}, {}, secure=secure)
    twin.update(key, b"twin" * 9)
    extra = {"twin": twin}
    if what.startswith("verify"):
        copy = {}
        for k, v in entries(ts):
            copy[k] = v
        extra.update(proofs_for(ctx, MPT(copy, root=e.root(), secure=secure), key, twin))
        if what not in extra:
            ctx.stop()
    nodes, values = entries(ts), entries(data)
    root, rh = e.root(), e.root_hash()
    a = ask(ctx, e, what, key, extra)
    ctx.cover(what)
    ask(ctx, e, then, key, extra)
    b = ask(ctx, e, what, key, extra)
    ctx.check(same_answer(ctx, a, b), "asking again gives another answer: " + what)
    kept(ctx, ts, nodes, "after reading")
    kept(ctx, data, values, "after reading")
    for k, v in values:
        ctx.check(data[k] is v, "reading replaces a value")
    ctx.check(e.root() == root and e.root_hash() == rh, "reading changes the root")
    if cls == "empt":
        check_map(ctx, e, m, keys, "after reading")
    else:
        for k in keys:
            i = m.find(k)
            ctx.check((k in e) == (i >= 0), "reading changes the contents")
            q, x = ctx.call(e.get_reference, k)
            ctx.check((x is None) == (i >= 0), "reading changes the references")
            if i >= 0:
                ctx.check(ctx.all([q.key == k, q.data == m.items[i][1]]), "reading changes a reference")


# ------------------------------------------------------------------ C40
def reopened(ctx, specs, ops, free=0, secure=False, storage="dict", cls="empt", kinds="b", probe=None, also=()):
    """C40: opened again on its storages with its root, at any point and any number of times"""
    mk = Store if storage == "own" else dict
    ts, data = mk(), mk()
    e = EMPT(ts, data, secure=secure) if cls == "empt" else SparseEMPT(ts, secure=secure)
    keys = [mkkey(ctx, "k%d" % i, s) for i, s in enumerate(specs)]
    m = Model()

    def again(tag):
        how = ctx.choice("open" + tag, ["no", "root"] + (["hash"] if len(e.root() or b"") in (0, 32) else []))
        ctx.cover(how)
        if how == "no":
            return e
        if len(m.items) == 0 or how == "hash":
            root = e.root_hash()
        else:
            root = e.root()
        return EMPT(ts, data, root=root, secure=secure) if cls == "empt" else SparseEMPT(ts, root=root, secure=secure)

    def one(op, tag):
        if cls == "empt":
            step(ctx, e, m, keys, op, tag)
            return
        k = keys[op[1]]
        i = m.find(k)
        if op[0] == "u":
            v = mkvalue(ctx, "v" + tag, op[2], op[3] if len(op) > 3 else "b")
            e.update(k, v)
            m.put(k, v)
        else:
            r, x = ctx.call(e.delete, k)
            ctx.check((x is None) == (i >= 0), "deletion succeeds exactly on stored keys")
            m.drop(k)
    for j, op in enumerate(ops):
        one(op, str(j))
        if j == len(ops) - 1 or j in also:
            e = again(str(j))
    for j in range(free):
        op = ctx.choice("op%d" % j, "ud")
        i = ctx.choice("key%d" % j, range(len(keys)))
        one(["u", i, 3, ctx.choice("kind%d" % j, list(kinds))] if op == "u" else ["d", i], "f%d" % j)
        e = again("f%d" % j)
    ctx.check(e.root_hash() == expected_root(m, secure), "a mapping opened again has another root")
    ctx.observe("root", e.root_hash())
    if probe is not None:
        keys = keys + [mkkey(ctx, "p", probe)]
    if cls == "empt":
        ctx.check(e.secure == secure, "a mapping opened again is in another mode")
        check_map(ctx, e, m, keys, "opened again")
    for k in keys:
        i = m.find(k)
        ctx.check((k in e) == (i >= 0), "opened again: membership is wrong")
        q, x = ctx.call(e.get_reference, k)
        ctx.check((x is None) == (i >= 0), "opened again: another set of references")
        if i >= 0:
            ctx.check(ctx.all([q.key == k, q.data == enc(m.items[i][1])]), "opened again: a reference differs")
        p, x = ctx.call(e.get_proof_of_inclusion, k)
        if len(m.items) > 0:
            ctx.check((x is None) == (i >= 0), "opened again: inclusion proofs are made for other keys")
            if x is None:
                ctx.check(e.verify_proof_of_inclusion(p) == True, "opened again: an inclusion proof is not accepted")
            p, x = ctx.call(e.get_proof_of_exclusion, k)
            ctx.check((x is None) == (i < 0), "opened again: exclusion proofs are made for other keys")
            if x is None:
                ctx.check(e.verify_proof_of_exclusion(p) == True, "opened again: an exclusion proof is not accepted")
    if cls == "empt" and len(ts) > 0:
        # the nodes without a root do not stand for an empty mapping
        r, x = ctx.call(EMPT, ts, data, secure=secure)
        ctx.check(x is not None, "a mapping is opened on nodes without their root")


# ------------------------------------------------------------------ C41
def failing(ctx, specs, ops, last, which, accesses=8, secure=False, forever=False, kinds="b", how="method"):
    """C41: a change during which a storage fails has no effect, and can be repeated"""
    ts, data = Faulty(), Faulty()
    e = EMPT(ts, data, secure=secure)
    keys = [mkkey(ctx, "k%d" % i, s) for i, s in enumerate(specs)]
    m = Model()
    for j, op in enumerate(ops):
        step(ctx, e, m, keys, op, str(j))
    rh = e.root_hash()
    k = keys[last[1]]
    i = m.find(k)
    v = mkvalue(ctx, "vlast", last[2], ctx.choice("kind", list(kinds))) if last[0] in ("u", "setdefault") else None

    def go():
        if last[0] == "u":
            return e.update(k, v) if how == "method" else e.__setitem__(k, v)
        if last[0] == "setdefault":
            return e.setdefault(k, v)
        if last[0] == "pop":
            return e.pop(k)
        return e.delete(k) if how == "method" else e.__delitem__(k)
    st = ts if which == "trie" else data
    st.at = ctx.int("fail", 0, accesses)
    st.forever = forever
    r, x = ctx.call(go)
    st.at = None
    failed = st.hit
    ctx.cover("failed" if failed else "unharmed")
    refused = last[0] in ("d", "pop") and i < 0
    if not failed:
        ctx.check((x is not None) == refused, "the operation fails although the storages work, or is not refused")
    if x is not None:
        ctx.check(e.root_hash() == rh, "a failed operation changed the root")
        check_map(ctx, e, m, keys, "after a failed operation")
        if refused:
            return
        r, x = ctx.call(go)
        ctx.check(x is None, "a failed operation cannot be repeated")
    if last[0] == "u":
        m.put(k, v)
    elif last[0] == "setdefault":
        if i < 0:
            m.put(k, v)
    else:
        if last[0] == "pop":
            ctx.check(same_value(ctx, r, m.items[i][1]), "pop returns a wrong value")
        m.drop(k)
    check_map(ctx, e, m, keys, "after the operation")
    ctx.check(e.root_hash() == expected_root(m, secure), "the root is not that of the references")
