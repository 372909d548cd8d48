"""Harnesses for the binary Merkle tree (C21-C24) and proof objects (C25, C26)."""
import hashlib
from pymt import MerkleTree, MerkleTools, Proof
from . import ref


def hasher(name):
    f = getattr(hashlib, name)
    return lambda data: f(data).digest()


def leaf_of(v, secure, h):
    return h(v) if secure else v


def root_of(values, secure, h):
    return ref.merkle_root([leaf_of(v, secure, h) for v in values], h)


def mkvalues(ctx, n, vlen, name="v"):
    """n values; vlen is a length or a list of lengths used in turn"""
    ls = vlen if isinstance(vlen, (list, tuple)) else [vlen]
    return [ctx.bytes("%s%d" % (name, i), ls[i % len(ls)]) for i in range(n)]


def check_tree(ctx, t, values, secure, h, what):
    ctx.check(t.get_count() == len(values) and len(t) == len(values), what + ": wrong leaf count")
    for i, v in enumerate(values):
        ctx.check(t.get(i) == leaf_of(v, secure, h).hex(), what + ": wrong leaf")
    r = t.get_merkle_root()
    ctx.check(r == root_of(values, secure, h).hex().encode(), what + ": wrong root")
    return r


def root(ctx, n, vlen, secure=True, hash_type="sha256", how="put", upper=False):
    """C21"""
    h = hasher(hash_type)
    values = mkvalues(ctx, n, vlen)
    t = MerkleTree(secure=secure, hash_type=hash_type.upper() if upper else hash_type)
    ctx.check(t.secure == secure, "the tree is in another mode")
    if how == "list":
        t.put_list(values)
    elif how == "tuple":
        t.put_list(tuple(values))
    elif how == "mixed":
        for i, v in enumerate(values):
            if i % 3 == 1:
                t.put_list([v])
            else:
                t.put(v)
            if i % 4 == 2:
                t.make_tree()
    else:
        for v in values:
            t.put(v)
    if how != "lazy":
        t.make_tree()
    r = check_tree(ctx, t, values, secure, h, "tree")
    ctx.observe("root", r)
    # asking or building again changes nothing
    ctx.check(t.get_merkle_root() == r, "asking twice gives another root")
    t.make_tree()
    ctx.check(t.get_merkle_root() == r, "building twice gives another root")
    check_tree(ctx, t, values, secure, h, "tree built twice")
    # the base class
    b = MerkleTools(hash_type=hash_type, secure=secure)
    for v in values:
        b.add_leaf(v)
    b.make_tree()
    ctx.check(b.get_merkle_root() == root_of(values, secure, h).hex(), "wrong root of the base class")
    for i, v in enumerate(values):
        ctx.check(b.get_leaf(i) == leaf_of(v, secure, h).hex(), "wrong leaf of the base class")
    ctx.check(b.get_leaf_count() == n, "wrong leaf count of the base class")
    ctx.cover("root")


def order(ctx, n, vlen, secure=True):
    """C21, C03-like: another order or content gives another root"""
    a = mkvalues(ctx, n, vlen, "a")
    b = mkvalues(ctx, n, vlen, "b")
    s, t = MerkleTree(secure=secure), MerkleTree(secure=secure)
    s.put_list(a)
    t.put_list(b)
    same = ctx.all([x == y for x, y in zip(a, b)])
    eq = s.get_merkle_root() == t.get_merkle_root()
    ctx.check(ctx.any([ctx.all([same, eq]), ctx.no(ctx.any([same, eq]))]),
              "roots are equal for different leaves, or different for equal ones")


def proofs(ctx, n, vlen, secure=True, hash_type="sha256", dup=False, base=False):
    """C22"""
    h = hasher(hash_type)
    values = mkvalues(ctx, n, vlen)
    if dup:
        j = ctx.choice("dup", range(1, n))
        k = ctx.choice("of", range(j))
        values[j] = values[k]
    else:
        ctx.distinct(values)
    t = MerkleTree(secure=secure, hash_type=hash_type)
    t.put_list(values)
    t.make_tree()
    o = MerkleTree(secure=secure, hash_type=hash_type)
    o.put_list(values)
    i = ctx.choice("which", range(n))
    p = t.get_proof_of_inclusion(values[i])
    ctx.cover("proof")
    ctx.observe("proof", p.proof)
    ctx.check(p.target_key == values[i], "the proof is for another value")
    ctx.check(p.trie_root == t.get_merkle_root(), "the proof names another root")
    ctx.check(t.verify_proof_of_inclusion(p) == True, "the tree rejects its own proof")
    ctx.check(o.verify_proof_of_inclusion(p) == True, "a tree with the same leaves rejects the proof")
    ctx.check(t.verify_proof_of_inclusion(p) == True, "the tree rejects its own proof the second time")
    if base:
        b = MerkleTools(hash_type=hash_type, secure=secure)
        for v in values:
            b.add_leaf(v)
        b.make_tree()
        q = b.get_proof_of_inclusion(values[i])
        ctx.check(b.verify_proof_of_inclusion(q, leaf_of(values[i], secure, h),
                                              root_of(values, secure, h)) == True,
                  "the base class rejects its own proof")


SIDES = [b"left", b"right"]


def forged(ctx, n, vlen, steps, tlen, wild=None, secure=True, hash_type="sha256", roots="own", junk=False):
    """C23: no proof about a value that is not in the tree is accepted"""
    h = hasher(hash_type)
    values = mkvalues(ctx, n, vlen)
    t = MerkleTree(secure=secure, hash_type=hash_type)
    t.put_list(values)
    t.make_tree()
    v = ctx.bytes("target", tlen)
    for x in values:
        if len(x) == tlen:
            ctx.assume(ctx.no(x == v))
    pool = []
    level = [leaf_of(x, secure, h) for x in values]
    while True:
        pool += level
        if len(level) == 1:
            break
        level = [h(level[i] + level[i + 1]) if i + 1 < len(level) else level[i] for i in range(0, len(level), 2)]
    if tlen == 2 * len(h(b"")):
        # the carve-out: the concatenation of two node digests of the tree
        for a in pool:
            for b in pool:
                ctx.assume(ctx.no(v == a + b))
    pool = [p.hex().encode() for p in dedupe(pool)]
    pool.append(h(v).hex().encode())
    if wild is not None:
        for k in wild:
            pool.append(ctx.bytes("wild%d" % k, k).hex().encode())
    if junk:
        pool += [b"zz", b"\xff", b"0"]
    path = []
    for i in range(steps):
        x = ctx.choice("step%d" % i, range(len(pool) + 1))
        if x == len(pool):
            break
        path.append((ctx.choice("side%d" % i, SIDES + ([b"up"] if junk else [])), pool[x]))
    own = t.get_merkle_root()
    r = {"own": [own], "any": [own, h(v).hex().encode(), ctx.bytes("r", len(h(b""))).hex().encode() if roots == "any" else b""]}[roots]
    p = Proof(target_key=v, root_hash=ctx.choice("root", r), proof=tuple(path), proof_type=b"MT-POI")
    got, x = ctx.call(t.verify_proof_of_inclusion, p)
    ctx.cover("rejected")
    ctx.check(x is not None or got == False, "a proof for a value that is not in the tree is accepted")
    # nor does the tree make one
    got, x = ctx.call(t.get_proof_of_inclusion, v)
    ctx.check(x is not None, "a proof is made for a value that is not in the tree")


def dedupe(xs):
    out = []
    for x in xs:
        if not any([x is y for y in out]):
            out.append(x)
    return out


def otherroot(ctx, n, m, vlen, secure=True, hash_type="sha256"):
    """C23: a proof that names another root is not accepted"""
    values, others = mkvalues(ctx, n, vlen), mkvalues(ctx, m, vlen, "o")
    t, o = MerkleTree(secure=secure, hash_type=hash_type), MerkleTree(secure=secure, hash_type=hash_type)
    t.put_list(values)
    o.put_list(others)
    t.make_tree()
    o.make_tree()
    i = ctx.choice("which", range(m))
    p, x = ctx.call(o.get_proof_of_inclusion, others[i])
    ctx.check(x is None, "no proof for a leaf")
    eq = t.get_merkle_root() == o.get_merkle_root()
    got, x = ctx.call(t.verify_proof_of_inclusion, p)
    got = x is None and got == True
    ctx.check(ctx.any([ctx.no(got), eq]), "a proof that names another root is accepted")
    if secure and n == m:
        ctx.cover("compared")
    # honest path, wrong claim
    j = ctx.choice("mine", range(n))
    q = t.get_proof_of_inclusion(values[j])
    w = Proof(target_key=q.target_key, root_hash=o.get_merkle_root(), proof=q.proof, proof_type=q.type)
    got, x = ctx.call(t.verify_proof_of_inclusion, w)
    got = x is None and got == True
    ctx.check(ctx.any([ctx.no(got), eq]), "a proof that claims another root is accepted")


def otherproof(ctx, n, vlen, secure=True):
    """C23: an honest proof with one part changed"""
    values = mkvalues(ctx, n, vlen)
    ctx.distinct(values)
    t = MerkleTree(secure=secure)
    t.put_list(values)
    t.make_tree()
    i = ctx.choice("which", range(n))
    p = t.get_proof_of_inclusion(values[i])
    path = list(p.proof)
    what = ctx.choice("what", ["value", "drop", "side", "sibling", "move"])
    key = p.target_key
    if what == "value":
        key = ctx.bytes("w", len(key))
        for v in values:
            ctx.assume(ctx.no(key == v))
    else:
        if len(path) == 0:
            ctx.stop()
        j = ctx.choice("at", range(len(path)))
        if what == "drop":
            path.pop(j)
        elif what == "side":
            path[j] = (b"left" if path[j][0] == b"right" else b"right", path[j][1])
        elif what == "sibling":
            w = ctx.bytes("w", 32)
            ctx.assume(ctx.no(w.hex().encode() == path[j][1]))
            path[j] = (path[j][0], w.hex().encode())
        else:
            path.insert(j, path[j])
    q = Proof(target_key=key, root_hash=p.trie_root, proof=tuple(path), proof_type=p.type)
    got, x = ctx.call(t.verify_proof_of_inclusion, q)
    ctx.cover(what)
    ctx.check(x is not None or got == False, "an altered proof is accepted")


def history(ctx, steps, vlen=3, secure=True, hash_type="sha256", cls="tree", start=0, ops="pmrgql", dup=False, script=None):
    """C24"""
    h = hasher(hash_type)
    t = MerkleTree(secure=secure, hash_type=hash_type) if cls == "tree" else MerkleTools(hash_type=hash_type, secure=secure)
    values = []
    add = t.put if cls == "tree" else t.add_leaf
    made = False
    seen = []

    def fresh(v):
        if not dup:
            for w in seen:
                ctx.assume(ctx.no(v == w))
            seen.append(v)
    for j in range(start):
        v = ctx.bytes("s%d" % j, vlen)
        fresh(v)
        add(v)
        values.append(v)

    def ask_root():
        r, x = ctx.call(t.get_merkle_root)
        if x is None:
            ctx.cover("root")
            ctx.check(len(values) > 0, "a root is handed out for no leaves")
            want = root_of(values, secure, h).hex()
            ctx.check(r == (want.encode() if cls == "tree" else want), "a stale or wrong root is handed out")
        else:
            ctx.check(isinstance(x, ValueError), "asking for the root fails otherwise than by refusal")
            ctx.check(not made or len(values) == 0, "a built tree has no root")

    def ask_proof(i):
        v = values[i]
        p, x = ctx.call(t.get_proof_of_inclusion, v)
        if x is None:
            ctx.cover("proof")
            o = MerkleTree(secure=secure, hash_type=hash_type) if cls == "tree" else MerkleTools(hash_type=hash_type, secure=secure)
            for w in values:
                (o.put if cls == "tree" else o.add_leaf)(w)
            o.make_tree()
            if cls == "tree":
                ctx.check(p.trie_root == root_of(values, secure, h).hex().encode(), "a proof names a stale root")
                ctx.check(o.verify_proof_of_inclusion(p) == True, "a proof that does not verify is handed out")
                ctx.check(t.verify_proof_of_inclusion(p) == True, "the tree rejects its own proof")
            else:
                ctx.check(o.verify_proof_of_inclusion(p, leaf_of(v, secure, h), root_of(values, secure, h)) == True,
                          "a proof that does not verify is handed out")
        else:
            ctx.check(isinstance(x, ValueError), "asking for a proof fails otherwise than by refusal")
            ctx.check(not made, "a built tree gives no proof of a leaf")
    for j in range(len(script) if script else steps):
        op = script[j] if script else ctx.choice("op%d" % j, list(ops))
        if op == "p":
            v = ctx.bytes("v%d" % j, vlen)
            fresh(v)
            add(v)
            values.append(v)
            made = False
        elif op == "a":
            # the first value there ever was, once more
            add(seen[0])
            values.append(seen[0])
            made = False
        elif op == "f":
            ask_proof(values.index(seen[0]))
        elif op == "l":
            vs = [ctx.bytes("v%d_%d" % (j, i), vlen) for i in range(2)]
            for v in vs:
                fresh(v)
            if cls == "tree":
                t.put_list(vs)
            else:
                for v in vs:
                    add(v)
            values += vs
            made = False
        elif op == "m":
            t.make_tree()
            made = True
        elif op == "r":
            t.reset_tree()
            values = []
            made = False
        elif op == "g":
            ask_root()
        elif op == "q":
            if len(values) == 0:
                continue
            ask_proof(len(values) - 1)
        n = t.get_leaf_count()
        ctx.check(n == len(values), "wrong leaf count")
    ask_root()
    if len(values):
        pick = ctx.choice("pick", range(len(values)))
        ask_proof(pick)
    for i in range(len(values)):
        ctx.check(t.get_leaf(i) == leaf_of(values[i], secure, h).hex(), "wrong leaf")
    t.make_tree()
    made = True
    ask_root()
    if len(values):
        ask_proof(pick)
    if len(values):
        ctx.check(t.get_tree_ready_state() == True, "a built tree is not ready")
    ctx.cover("size%d" % len(values))


def equal(ctx, n, m, vlen, secure=True, vlen2=None, refill="same"):
    """C24: equality of built trees"""
    a, b = mkvalues(ctx, n, vlen, "a"), mkvalues(ctx, m, vlen2 or vlen, "b")
    s, t = MerkleTree(secure=secure), MerkleTree(secure=secure)
    s.put_list(a)
    t.put_list(b)
    s.make_tree()
    t.make_tree()
    same = s.get_merkle_root() == t.get_merkle_root()
    eq = s == t
    ctx.check(ctx.any([ctx.all([same, eq]), ctx.no(ctx.any([same, eq]))]), "equality is not that of the roots")
    ctx.cover("compared")
    # a tree that changes is no longer the same
    s.put(b"more")
    s.make_tree()
    same = s.get_merkle_root() == t.get_merkle_root()
    eq = s == t
    ctx.check(ctx.any([ctx.all([same, eq]), ctx.no(ctx.any([same, eq]))]), "equality is not that of the new roots")
    # nor when it is emptied and filled again, with as many leaves as before
    s.reset_tree()
    s.put_list(b + [b"more"] if refill == "more" else b)
    s.make_tree()
    same = s.get_merkle_root() == t.get_merkle_root()
    eq = s == t
    ctx.check(ctx.any([ctx.all([same, eq]), ctx.no(ctx.any([same, eq]))]), "equality is not that of the roots of a refilled tree")
    if refill == "same":
        ctx.check(eq, "a tree filled like the other is not equal to it")
    else:
        t.reset_tree()
        t.put_list(a)
        t.make_tree()
        same = s.get_merkle_root() == t.get_merkle_root()
        eq = t == s
        ctx.check(ctx.any([ctx.all([same, eq]), ctx.no(ctx.any([same, eq]))]), "equality is not that of the roots of two refilled trees")


BAD = [None, 5, 1.5, "leaf", True, [b"k"], (b"k",), {"k": 1}, "bytearray"]


def badtypes(ctx, n, vlen, secure=True):
    """C34, Merkle tree"""
    h = hasher("sha256")
    values = mkvalues(ctx, n, vlen)
    t = MerkleTree(secure=secure)
    t.put_list(values)
    made = ctx.flag("made")
    if made:
        t.make_tree()
    b = ctx.choice("bad", BAD)
    if b == "bytearray":
        b = ctx.mutable(b"leaf")
    what = ctx.choice("what", ["put", "list-not", "list-first", "list-last", "get", "proof", "verify"])
    held = list(values)
    if what == "put":
        r, x = ctx.call(t.put, b)
    elif what == "list-not":
        if isinstance(b, (list, tuple)):
            ctx.stop()
        r, x = ctx.call(t.put_list, b)
    elif what == "list-first":
        r, x = ctx.call(t.put_list, [b, b"good"])
    elif what == "list-last":
        # the elements before it may or may not be in the tree afterwards
        r, x = ctx.call(t.put_list, [b"good", b])
        if t.get_count() == len(values) + 1:
            held.append(b"good")
    elif what == "get":
        if isinstance(b, int):
            ctx.stop()
        r, x = ctx.call(t.get, b)
    elif what == "proof":
        r, x = ctx.call(t.get_proof_of_inclusion, b)
    else:
        r, x = ctx.call(t.verify_proof_of_inclusion, b)
    ctx.cover(what)
    ctx.check(x is not None, "a value of an unsupported type is accepted")
    ctx.check(t.get_count() == len(held), "a refused value changed the leaf count")
    if len(held):
        check_tree(ctx, t, held, secure, h, "after a refusal")
        for v in held:
            t.make_tree()
            ctx.check(t.verify_proof_of_inclusion(t.get_proof_of_inclusion(v)) == True, "a leaf is lost")


def badproof(ctx):
    """C34, proof objects"""
    good = {"target_key": b"key", "root_hash": b"root", "proof": (b"a", b"b"), "proof_type": b"MT-POI"}
    f = ctx.choice("field", ["target_key", "root_hash", "proof", "proof_type"])
    b = ctx.choice("bad", [None, 5, "text", [b"x"], {"x": 1}, b"bytes", (b"x",), "bytearray"])
    if b == "bytearray":
        b = ctx.mutable(b"MT-POI")
    if f in ("target_key", "root_hash") and isinstance(b, bytes) or f == "proof" and isinstance(b, tuple):
        ctx.stop()
    good[f] = b
    r, x = ctx.call(Proof, **good)
    ctx.cover(f)
    ctx.check(x is not None, "a proof with a part of the wrong type is made")


# ---------------------------------------------------------------- proof objects
def mkproof(ctx, name, lens, shape, kind=b"MT-POI", ascii=True):
    """a proof with symbolic parts; shape: "f" flat entry, "p" pair"""
    def text(n, k):
        if ascii:
            return ctx.text(n, k, 0, 127).encode()
        return ctx.bytes(n, k)
    path = []
    for i, s in enumerate(shape):
        if s == "p":
            path.append((text("%sside%d" % (name, i), 4), text("%shash%d" % (name, i), lens[3])))
        else:
            path.append(text("%snode%d" % (name, i), lens[3]))
    p = Proof(target_key=text(name + "key", lens[0]), root_hash=text(name + "root", lens[1]), proof=tuple(path),
              proof_type=kind)
    if lens[2] is not None:
        p._timestamp = text(name + "time", lens[2])
    return p


def parts(p):
    return (p.type, p.timestamp, p.target_key, p.trie_root, p.proof)


def same_parts(ctx, p, q):
    a, b = parts(p), parts(q)
    if len(a[4]) != len(b[4]):
        return False
    cs = [x == y if len(x) == len(y) else False for x, y in zip(a[:4], b[:4])]
    for x, y in zip(a[4], b[4]):
        if isinstance(x, tuple) != isinstance(y, tuple):
            return False
        cs.append(x == y)
    return ctx.all(cs)


def codec(ctx, lens, shape, via, kind=b"MT-POI", ascii=True):
    """C25"""
    if isinstance(kind, str):
        kind = kind.encode()
    p = mkproof(ctx, "p", lens, shape, kind, ascii)
    before = parts(p)
    e, x = ctx.call(p.encode_json if via == "json" else p.encode_rlp)
    if kind != b"MT-POI":
        ctx.cover("refused")
        ctx.check(x is not None, "a proof kind that is not supported is encoded")
        return
    if x is not None:
        ctx.cover("not encoded")
        ctx.check(via == "json" and not ascii, "a proof cannot be encoded")
        return
    ctx.cover("encoded")
    q = Proof.decode_json(e) if via == "json" else Proof.decode_rlp(e)
    ctx.check(isinstance(q.proof, tuple), "the decoded path is not a tuple")
    ctx.check(same_parts(ctx, p, q), "a decoded proof has other parts")
    ctx.check(p == q, "a decoded proof is not equal")
    ctx.check(hash(p) == hash(q), "a decoded proof has another hash")
    ctx.check(ctx.all([a == b for a, b in zip(before, parts(p))]), "encoding changed the proof")
    f = q.encode_json() if via == "json" else q.encode_rlp()
    ctx.check(f == e, "encoding the decoded proof gives another result")
    g = Proof.decode_rlp(q.encode_rlp())
    ctx.check(g == p, "a proof that went through two encodings is not equal")


def treeproof(ctx, n, vlen, via, secure=True, ascii=True):
    """C25: proofs of the Merkle tree"""
    values = [ctx.text("v%d" % i, vlen, 0, 127).encode() if ascii else ctx.bytes("v%d" % i, vlen) for i in range(n)]
    ctx.distinct(values)
    t = MerkleTree(secure=secure)
    t.put_list(values)
    t.make_tree()
    o = MerkleTree(secure=secure)
    o.put_list(values[1:] + [b"x"])
    i = ctx.choice("which", range(n))
    p = t.get_proof_of_inclusion(values[i])
    e, x = ctx.call(p.encode_json if via == "json" else p.encode_rlp)
    if x is not None:
        ctx.cover("not encoded")
        ctx.check(via == "json" and not ascii, "a proof of the tree cannot be encoded")
        return
    ctx.cover("encoded")
    q = Proof.decode_json(e) if via == "json" else Proof.decode_rlp(e)
    ctx.check(p == q, "a decoded proof is not equal")
    ctx.check(same_parts(ctx, p, q), "a decoded proof has other parts")
    ctx.check(t.verify_proof_of_inclusion(q) == True, "a decoded proof is rejected")
    ctx.check(o.verify_proof_of_inclusion(q) == o.verify_proof_of_inclusion(p), "a decoded proof is judged differently")


def peq(ctx, lens, shape, lens2, shape2, kind="MT-POI", kind2="MT-POI", ascii=False):
    """C26"""
    p = mkproof(ctx, "p", lens, shape, kind.encode(), ascii)
    q = mkproof(ctx, "q", lens2, shape2, kind2.encode(), ascii)
    same = same_parts(ctx, p, q)
    eq = p == q
    ctx.check(ctx.any([ctx.all([same, eq]), ctx.no(ctx.any([same, eq]))]), "equality is not that of the parts")
    ctx.check(ctx.any([ctx.no(eq), hash(p) == hash(q)]), "equal proofs have different hashes")
    ne = p != q
    ctx.check(ctx.any([ctx.all([eq, ctx.no(ne)]), ctx.all([ctx.no(eq), ne])]), "!= disagrees with ==")
    ctx.check(p == p, "a proof is not equal to itself")
    ctx.check(ctx.no(p == p.proof), "a proof equals something that is no proof")
    ctx.cover("compared")


def iterate(ctx, lens, shape, kind="MT-POI"):
    """C26, iteration"""
    p = mkproof(ctx, "p", lens, shape, kind.encode(), False)
    want = parts(p)

    def check_five(got, what):
        ctx.check(len(got) == 5, what + " does not yield five parts")
        for v in want:
            n = 0
            for g in got:
                if type(g[1]) is type(v) and len(g[1]) == len(v) and g[1] is v:
                    n += 1
            ctx.check(n >= 1, what + " misses a part")
        ctx.check(len({g[0] for g in got}) == 5, what + " yields a part twice")
    check_five([x for x in p], "iterating")
    check_five([x for x in p], "iterating again")
    stop = ctx.choice("stop", range(6))
    n = 0
    for x in p:
        n += 1
        if n >= stop:
            break
    check_five([x for x in p], "iterating after stopping early")
    check_five(list(p.items()), "items")
    it = iter(p)
    k = 0
    while True:
        r, x = ctx.call(next, it)
        if x is not None:
            ctx.check(isinstance(x, StopIteration), "iterating fails")
            break
        k += 1
    ctx.check(k == 5, "stepping does not yield five parts")
    ctx.check(p == p and hash(p) == hash(p), "iterating changed the proof")


# ------------------------------------------------------------------ C36
READS = ("root", "count", "len", "leaf", "badleaf", "str", "repr", "hash", "equal", "state", "poi", "poi-absent", "verify",
         "verify-other", "verify-bad", "verify-junk", "secure")


def ask(t, what, i, values, extra):
    if what == "root":
        return t.get_merkle_root()
    if what == "count":
        return t.get_count()
    if what == "len":
        return len(t)
    if what == "leaf":
        return t.get(i)
    if what == "badleaf":
        return t.get(len(values))
    if what == "str":
        str(t)
        return 0
    if what == "repr":
        repr(t)
        return 0
    if what == "hash":
        return hash(t)
    if what == "equal":
        return (t == extra["twin"], extra["twin"] == t, t == t)
    if what == "state":
        return t.get_tree_ready_state()
    if what == "secure":
        return t.secure
    if what == "poi":
        return t.get_proof_of_inclusion(values[i])
    if what == "poi-absent":
        return t.get_proof_of_inclusion(b"not there")
    return t.verify_proof_of_inclusion(extra[what])


def pure(ctx, n, vlen, secure=True, hash_type="sha256", reads=READS, second=("root", "leaf", "poi", "poi-absent", "verify-bad")):
    """C36: asking a built tree changes nothing"""
    h = hasher(hash_type)
    values = mkvalues(ctx, n, vlen)
    t = MerkleTree(secure=secure, hash_type=hash_type)
    t.put_list(values)
    t.make_tree()
    twin = MerkleTree(secure=secure, hash_type=hash_type)
    twin.put_list([b"twin"] + values[1:])
    twin.make_tree()
    i = ctx.choice("which", range(n))
    same = MerkleTree(secure=secure, hash_type=hash_type)
    same.put_list(values)
    same.make_tree()
    p = same.get_proof_of_inclusion(values[i])
    q = twin.get_proof_of_inclusion(b"twin")
    extra = {"twin": twin, "verify": p, "verify-other": q,
             "verify-bad": Proof(target_key=b"not there", root_hash=p.trie_root, proof=p.proof, proof_type=p.type),
             "verify-junk": Proof(target_key=values[i], root_hash=p.trie_root, proof=((b"left", b"zz"),), proof_type=p.type)}
    what = ctx.choice("read", list(reads))
    then = ctx.choice("then", list(second))
    a = ctx.call(ask, t, what, i, values, extra)
    ctx.cover(what)
    ctx.check(t.get_tree_ready_state() == True, "the tree has to be built again after reading")
    ctx.call(ask, t, then, i, values, extra)
    b = ctx.call(ask, t, what, i, values, extra)
    ctx.check((a[1] is None) == (b[1] is None), "asking again gives another answer: " + what)
    if a[1] is None:
        if what == "poi":
            ctx.check(ctx.all([a[0].target_key == b[0].target_key, a[0].trie_root == b[0].trie_root, a[0].type == b[0].type,
                               a[0].proof == b[0].proof]), "asking again gives another proof")
        else:
            ctx.check(a[0] == b[0], "asking again gives another answer: " + what)
    check_tree(ctx, t, values, secure, h, "after reading")
    ctx.check(t.verify_proof_of_inclusion(p) == True, "after reading: an honest proof is rejected")
    # and it grows as before
    v = ctx.bytes("more", 3)
    t.put(v)
    t.make_tree()
    check_tree(ctx, t, values + [v], secure, h, "grown after reading")
