"""Harnesses for the Patricia trie (C01-C11)."""
from pymt.mpt import MPT
from . import ref


class Model:
    """association list with symbolic keys"""

    def __init__(self):
        self.items = []      # [nibbles, key, value]

    def find(self, key):
        for i in range(len(self.items)):
            k = self.items[i][0]
            if len(k) == len(key) and k == key:
                return i
        return -1

    def put(self, key, value):
        i = self.find(key)
        if i >= 0:
            self.items[i] = (key, value)
        else:
            self.items.append((key, value))

    def drop(self, key):
        i = self.find(key)
        if i < 0:
            return False
        self.items.pop(i)
        return True

    def copy(self):
        m = Model()
        m.items = list(self.items)
        return m

    def nib(self, secure):
        return [(ref.nibbles(ref.kec(k) if secure else k), v) for k, v in self.items]

    def root_hash(self, secure=False):
        return ref.root_hash(self.nib(secure))


def mkkey(ctx, name, spec):
    """spec: list of nibble alphabets; ['sec', ...] for a string hashed by the trie
    (its length, '=hex' for a given string, alphabets of its digest); ['any', spec, ...]
    for one of several specs"""
    if spec[:1] == ["sec"]:
        return mksec(ctx, name, spec[1:])
    if spec[:1] == ["any"]:
        return mkkey(ctx, name, ctx.choice(name + "shape", spec[1:]))
    return ctx.key(name, spec)


def mksec(ctx, name, spec, depth=1):
    n = 4
    nibs = []
    for x in spec:
        if isinstance(x, int):
            n = x
        elif x[:1] == "=":
            return ctx.seckey(name, depth=depth, fixed=bytes.fromhex(x[1:]))
        else:
            nibs.append(x)
    return ctx.seckey(name, depth=depth, nibs=nibs or ("3b", "01"), n=n)


def apply(ctx, t, m, op, keys, tag):
    """one operation on trie and model; op = ["u", key index, value length or lengths] |
    ["v", key index, fixed value] | ["d", key index]"""
    k = keys[op[1]]
    if op[0] in ("u", "v"):
        if op[0] == "v":
            v = op[2].encode()
        else:
            v = ctx.bytes("v" + tag, ctx.choice("n" + tag, op[2]) if isinstance(op[2], list) else op[2])
        t.update(k, v)
        m.put(k, v)
        return
    if m.find(k) >= 0:
        t.delete(k)
        m.drop(k)
        ctx.cover("delete")
    else:
        r, e = ctx.call(t.delete, k)
        ctx.check(e is not None, "deleting an absent key is not refused")
        ctx.cover("refused")


def build(ctx, specs, ops, secure=False, root=None, storage=None):
    keys = [mkkey(ctx, "k%d" % i, s) for i, s in enumerate(specs)]
    t = MPT({} if storage is None else storage, secure=secure)
    m = Model()
    for i, op in enumerate(ops):
        apply(ctx, t, m, op, keys, str(i))
    return t, m, keys


def check_lookup(ctx, t, m, key, what):
    """get and contains of one key against the model"""
    i = m.find(key)
    v, e = ctx.call(t.get, key)
    c = t.contains(key)
    if i >= 0:
        ctx.cover("present")
        ctx.check(e is None, what + ": a stored key is not found")
        ctx.check(v == m.items[i][1], what + ": a stored key reads a wrong value")
        ctx.check(c == True, what + ": a stored key is not contained")
    else:
        ctx.cover("absent")
        ctx.check(e is not None, what + ": an absent key reads a value")
        ctx.check(c == False, what + ": an absent key is contained")
    ctx.observe("found", i >= 0)
    ctx.observe("value", v if e is None else None)


def lookup(ctx, specs, ops, probe=None, secure=False, each=True):
    """C01"""
    t, m, keys = build(ctx, specs, ops, secure)
    if probe is not None:
        check_lookup(ctx, t, m, mkkey(ctx, "p", probe), "probe")
    if each:
        for i, k in enumerate(keys):
            check_lookup(ctx, t, m, k, "key %d" % i)


def canonical(ctx, specs, ops, secure=False, every=False):
    """C02: the root hash is the specified one"""
    keys = [mkkey(ctx, "k%d" % i, s) for i, s in enumerate(specs)]
    t = MPT({}, secure=secure)
    m = Model()
    for i, op in enumerate(ops):
        apply(ctx, t, m, op, keys, str(i))
        if every or i == len(ops) - 1:
            h = t.root_hash()
            ctx.observe("root", h)
            ctx.check(h == m.root_hash(secure), "root hash after operation %d is not the specified one" % i)
    ctx.cover("size%d" % len(m.items))


def check_all(ctx, t, m, keys, what):
    for i, k in enumerate(keys):
        check_lookup(ctx, t, m, k, what + " key %d" % i)


def free_ops(ctx, t, m, keys, vlens, n, tag="f", ops="ud"):
    """n operations chosen by the solver: which kind, which key, which value length"""
    for j in range(n):
        op = ctx.choice("%sop%d" % (tag, j), ops)
        i = ctx.choice("%skey%d" % (tag, j), range(len(keys)))
        if op == "u":
            n = ctx.choice("%slen%d" % (tag, j), vlens)
            apply(ctx, t, m, ["u", i, n], keys, "%s%d" % (tag, j))
        else:
            apply(ctx, t, m, ["d", i], keys, "%s%d" % (tag, j))


def history(ctx, specs, ops, free, vlens, secure=False, what="both"):
    """C01, C02: some given operations, then free ones"""
    t, m, keys = build(ctx, specs, ops, secure)
    free_ops(ctx, t, m, keys, vlens, free)
    if what != "lookup":
        h = t.root_hash()
        ctx.observe("root", h)
        ctx.check(h == m.root_hash(secure), "the root hash is not the specified one")
        ctx.cover("size%d" % len(m.items))
    if what != "root":
        check_all(ctx, t, m, keys, "history")


def same_contents(ctx, a, b):
    """condition: two models hold the same pairs (keys decided on this path)"""
    if len(a.items) != len(b.items):
        return False
    cs = []
    for k, v in a.items:
        i = b.find(k)
        if i < 0:
            return False
        w = b.items[i][1]
        if len(v) != len(w):
            return False
        cs.append(v == w)
    return ctx.all(cs)


def injective(ctx, specs_a, ops_a, specs_b, ops_b, secure=False):
    """C03: root hashes, equality and hashes of two tries against their contents"""
    ka = [mkkey(ctx, "a%d" % i, s) for i, s in enumerate(specs_a)]
    kb = [mkkey(ctx, "b%d" % i, s) for i, s in enumerate(specs_b)]
    ta, tb = MPT({}, secure=secure), MPT({}, secure=secure)
    ma, mb = Model(), Model()
    for i, op in enumerate(ops_a):
        apply(ctx, ta, ma, op, ka, "a%d" % i)
    for i, op in enumerate(ops_b):
        apply(ctx, tb, mb, op, kb, "b%d" % i)
    same = same_contents(ctx, ma, mb)
    if same == True:
        ctx.cover("same")
        ctx.check(ta.root_hash() == tb.root_hash(), "equal contents, different root hashes")
        ctx.check(ta == tb, "tries with equal contents are not equal")
        ctx.check(hash(ta) == hash(tb), "equal tries have different hashes")
        ctx.check(ctx.no(ta != tb), "tries with equal contents differ (!=)")
    else:
        ctx.cover("different")
        ctx.check(ta.root_hash() != tb.root_hash(), "different contents have the same root hash")
        ctx.check(ctx.no(ta == tb), "tries with different contents are equal")
    # the same holds for tries opened again
    for t, what in ((MPT(tb._storage, root=tb.root(), secure=secure), "opened"), (MPT.decode(tb.encode()), "decoded"),
                    (MPT({}, root=tb.root(), secure=secure), "root-only")):
        if same == True:
            ctx.check(ctx.all([ta == t, t == ta, ctx.no(ta != t)]), "equal contents, but not equal to the %s trie" % what)
            ctx.check(hash(ta) == hash(t), "equal contents, but the %s trie has another hash" % what)
        else:
            ctx.check(ctx.no(ta == t), "different contents, but equal to the %s trie" % what)
    ctx.observe("same", ta == tb)


def snapshot(ctx, specs, ops, later, free, vlens, probe=None, secure=False, other=False):
    """C04: what a root reads never changes, whatever happens on the storage later"""
    st = {}
    t, m, keys = build(ctx, specs, ops, secure, storage=st)
    root = t.root()
    old = m.copy()
    w = MPT(st, root=root, secure=secure) if other else t
    for j, op in enumerate(later):
        apply(ctx, w, m, op, keys, "l%d" % j)
    free_ops(ctx, w, m, keys, vlens, free)
    s = MPT(st, root=root, secure=secure)
    check_all(ctx, s, old, keys, "snapshot")
    if probe is not None:
        check_lookup(ctx, s, old, mkkey(ctx, "p", probe), "snapshot probe")
    if other:
        check_all(ctx, t, old, keys, "trie that was not changed")
    # and the snapshot is a trie one can go on from
    check_all(ctx, w, m, keys, "changed trie")
    s2 = MPT(st, root=root, secure=secure)
    v = ctx.bytes("vlast", vlens[0])
    s2.update(keys[0], v)
    old2 = old.copy()
    old2.put(keys[0], v)
    ctx.check(s2.root_hash() == old2.root_hash(secure), "a snapshot does not continue as its contents")
    s3 = MPT(st, root=root, secure=secure)
    check_all(ctx, s3, old, keys, "snapshot after a change through another trie")


def snapshots(ctx, specs, free, vlens, same=False, secure=False):
    """C04: every root along a history stays readable"""
    keys = [mkkey(ctx, "k%d" % i, s) for i, s in enumerate(specs)]
    st = {}
    t = MPT(st, secure=secure)
    m = Model()
    past = []
    v0 = ctx.bytes("v", vlens[0]) if same else None
    for j in range(free):
        op = ctx.choice("op%d" % j, "ud" if j else "u")
        i = ctx.choice("key%d" % j, range(len(keys)))
        if op == "d" and m.find(keys[i]) < 0:
            ctx.stop()
        if op == "d":
            t.delete(keys[i])
            m.drop(keys[i])
            ctx.cover("delete")
        else:
            v = v0 if same else ctx.bytes("v%d" % j, vlens[0])
            t.update(keys[i], v)
            m.put(keys[i], v)
        past.append((t.root(), t.root_hash(), m.copy()))
    for root, rh, old in past:
        s = MPT(st, root=root, secure=secure)
        ctx.check(s.root_hash() == rh, "the root hash of a past root changed")
        check_all(ctx, s, old, keys, "snapshot")
        if len(old.items) > 0:
            s = MPT(st, root=rh, secure=secure)
            ctx.check(s.root_hash() == rh, "the root hash of a past root changed")
            check_all(ctx, s, old, keys, "snapshot opened by its root hash")


class Broken(Exception):
    pass


class Faulty:
    """node storage that fails at given accesses"""

    def __init__(self):
        self.d = {}
        self.count = -1
        self.at = None
        self.forever = False
        self.hit = False

    def _tick(self):
        if self.at is None:
            return
        self.count += 1
        if self.hit and self.forever:
            raise Broken()
        if not self.hit and self.count == self.at:
            self.hit = True
            raise Broken()

    def __getitem__(self, k):
        self._tick()
        return self.d[k]

    def __setitem__(self, k, v):
        self._tick()
        self.d[k] = v

    def __delitem__(self, k):
        self._tick()
        del self.d[k]

    def __contains__(self, k):
        self._tick()
        return k in self.d

    def get(self, k, default=None):
        self._tick()
        return self.d[k] if k in self.d else default

    def pop(self, k, *default):
        self._tick()
        if k in self.d:
            v = self.d[k]
            del self.d[k]
            return v
        if default:
            return default[0]
        raise KeyError(k)

    def setdefault(self, k, v):
        self._tick()
        if k not in self.d:
            self.d[k] = v
        return self.d[k]

    def update(self, other):
        for k in other:
            self[k] = other[k]

    def keys(self):
        return self.d.keys()

    def values(self):
        return self.d.values()

    def items(self):
        return self.d.items()

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


def fault(ctx, specs, ops, last, probe=None, secure=False, forever=False, accesses=8, again=True):
    """C05: an operation during which the storage fails has no effect"""
    st = Faulty()
    t, m, keys = build(ctx, specs, ops, secure, storage=st)
    root, rh = t.root(), t.root_hash()
    st.at = ctx.int("fail", 0, accesses)
    st.forever = forever
    k = keys[last[1]]
    v = None
    if last[0] == "u":
        v = ctx.bytes("vlast", ctx.choice("nlast", last[2]) if isinstance(last[2], list) else last[2])
    refused = last[0] == "d" and m.find(k) < 0
    if last[0] == "u":
        _, e = ctx.call(t.update, k, v)
    else:
        _, e = ctx.call(t.delete, k)
    st.at = None
    failed = st.hit
    ctx.cover("failed" if failed else "unharmed")
    if not failed and not refused:
        ctx.check(e is None, "the operation fails although the storage works")
    if refused:
        ctx.check(e is not None, "deleting an absent key is not refused")
    if e is not None:
        ctx.check(t.root_hash() == rh, "a failed operation changed the root")
        ctx.check(t.root() == root, "a failed operation changed the root node")
        check_all(ctx, t, m, keys, "after a failed operation")
        if probe is not None:
            check_lookup(ctx, t, m, mkkey(ctx, "p", probe), "after a failed operation")
        if last[0] == "u":
            t.update(k, v)
            m.put(k, v)
        elif refused:
            _, e = ctx.call(t.delete, k)
            ctx.check(e is not None, "deleting an absent key is not refused")
        else:
            t.delete(k)
            m.drop(k)
        what = "repeated operation"
    else:
        # reported as done (whether or not an access failed on the way): it has its full effect
        if last[0] == "u":
            m.put(k, v)
        else:
            m.drop(k)
        what = "operation"
    ctx.observe("root", t.root_hash())
    ctx.check(t.root_hash() == m.root_hash(secure), what + " gives a wrong root")
    check_all(ctx, t, m, keys, what)


def refused(ctx, specs, ops, dspec, secure=False):
    """C05: a refused deletion changes nothing"""
    t, m, keys = build(ctx, specs, ops, secure)
    root, rh = t.root(), t.root_hash()
    k = mkkey(ctx, "d", dspec)
    if m.find(k) >= 0:
        ctx.stop()
    _, e = ctx.call(t.delete, k)
    ctx.cover("refused")
    ctx.check(e is not None, "deleting an absent key is not refused")
    ctx.check(t.root() == root, "a refused deletion changed the root")
    ctx.check(t.root_hash() == rh, "a refused deletion changed the root")
    check_all(ctx, t, m, keys, "after a refused deletion")
    check_lookup(ctx, t, m, k, "after a refused deletion")
    t.update(k, b"xyz")
    m.put(k, b"xyz")
    ctx.check(t.root_hash() == m.root_hash(secure), "an update after a refused deletion gives a wrong root")


def parts(p):
    return (p.type, p.target_key, p.trie_root, p.proof)


def same_proof(ctx, p, q):
    if len(p.proof) != len(q.proof):
        return False
    return ctx.all([p.type == q.type, p.target_key == q.target_key, p.trie_root == q.trie_root]
                   + [a == b for a, b in zip(p.proof, q.proof)])


def lockstep(ctx, n, ops, depth=1, proofs=True, probe=True, views=False, mapping=False, specs=None, digest=()):
    """C06: a secure trie against a plain one over the hashed keys"""
    from pymt import EMPT, SparseEMPT
    from pymt.empt import DataReference
    specs = specs or [[]] * (n + 1)
    keys = [mksec(ctx, "k%d" % i, specs[i], depth) for i in range(n)]
    if probe:
        keys.append(mksec(ctx, "p", specs[n], depth))
    for i, j in digest:
        # a key that is the digest of another one
        keys[i] = ref.kec(keys[j])
    hk = [ref.kec(k) for k in keys]
    s, p = MPT({}, secure=True), MPT({})
    if views:
        s = SparseEMPT({}, secure=True)
    elif mapping:
        s = EMPT({}, {}, secure=True)
    for i, op in enumerate(ops):
        k, h = keys[op[1]], hk[op[1]]
        if op[0] == "u":
            v = ctx.bytes("v%d" % i, op[2])
            s.update(k, v)
            p.update(h, DataReference(k, v).encode() if views or mapping else v)
        else:
            _, e1 = ctx.call(s.delete, k)
            _, e2 = ctx.call(p.delete, h)
            ctx.check((e1 is None) == (e2 is None), "deletion behaves differently in secure mode")
        ctx.check(s.root_hash() == p.root_hash(), "the secure trie has another root")
    ctx.observe("root", s.root_hash())
    for k, h in zip(keys, hk):
        v1, e1 = ctx.call(s.get_reference if views or mapping else s.get, k)
        if e1 is None and (views or mapping):
            v1 = v1.encode()
        v2, e2 = ctx.call(p.get, h)
        ctx.check((e1 is None) == (e2 is None), "lookup behaves differently in secure mode")
        if e1 is None:
            ctx.cover("present")
            ctx.check(v1 == v2, "lookup returns another value in secure mode")
        else:
            ctx.cover("absent")
        ctx.check(s.contains(k) == p.contains(h), "membership differs in secure mode")
        if not proofs:
            continue
        q1, x1 = ctx.call(s.get_proof_of_inclusion, k)
        q2, x2 = ctx.call(p.get_proof_of_inclusion, h)
        ctx.check((x1 is None) == (x2 is None), "inclusion proofs differ in secure mode")
        if x1 is None:
            ctx.check(same_proof(ctx, q1, q2), "the inclusion proof differs in secure mode")
            ctx.check(s.verify_proof_of_inclusion(q2) == True, "a secure trie rejects the inclusion proof of the plain one")
            ctx.check(p.verify_proof_of_inclusion(q1) == True, "a plain trie rejects the inclusion proof of the secure one")
        q1, x1 = ctx.call(s.get_proof_of_exclusion, k)
        q2, x2 = ctx.call(p.get_proof_of_exclusion, h)
        ctx.check((x1 is None) == (x2 is None), "exclusion proofs differ in secure mode")
        if x1 is None:
            ctx.check(same_proof(ctx, q1, q2), "the exclusion proof differs in secure mode")
            ctx.check(s.verify_proof_of_exclusion(q2) == True, "a secure trie rejects the exclusion proof of the plain one")
            ctx.check(p.verify_proof_of_exclusion(q1) == True, "a plain trie rejects the exclusion proof of the secure one")


def verifiers(t, secure):
    from pymt import RootEMPT
    return [("the trie", t), ("a trie holding the root only", MPT({}, root=t.root(), secure=secure)),
            ("a root-only mapping", RootEMPT(t.root(), secure=secure))]


def honest(ctx, specs, ops, probe=None, secure=False, kind="both"):
    """C07, C09 (and the refusals of C08, C10): proofs the trie makes are accepted"""
    t, m, keys = build(ctx, specs, ops, secure)
    if probe is not None:
        keys = [mkkey(ctx, "p", probe)]
    for k in keys:
        stored = m.find(k) >= 0
        if stored and kind != "poe":
            ctx.cover("stored")
            p = t.get_proof_of_inclusion(k)
            for name, v in verifiers(t, secure):
                ctx.check(v.verify_proof_of_inclusion(p) == True,
                          "the inclusion proof of a stored key is not accepted by " + name)
            ctx.observe("poi", p.proof)
        if not stored and kind != "poi" and len(m.items) > 0:
            ctx.cover("absent")
            p = t.get_proof_of_exclusion(k)
            for name, v in verifiers(t, secure):
                ctx.check(v.verify_proof_of_exclusion(p) == True,
                          "the exclusion proof of an absent key is not accepted by " + name)
            ctx.observe("poe", p.proof)
        if not stored and kind != "poe":
            r, e = ctx.call(t.get_proof_of_inclusion, k)
            ctx.check(e is not None, "an inclusion proof is generated for an absent key")
        if stored and kind != "poi":
            r, e = ctx.call(t.get_proof_of_exclusion, k)
            ctx.check(e is not None, "an exclusion proof is generated for a stored key")


def forged(ctx, specs, ops, specs2, ops2, probe, kind, n, secure=False, wild=0, roots=True, types=False):
    """C08, C10: no proof about `probe` that is a lie is accepted, whatever its parts"""
    from pymt import Proof
    from pymt.utils import Leaf, Branch, Extension, NibblePath
    from pymt import RootEMPT
    t, m, keys = build(ctx, specs, ops, secure)
    k2 = [mkkey(ctx, "o%d" % i, s) for i, s in enumerate(specs2)]
    t2 = MPT({}, secure=secure)
    m2 = Model()
    for i, op in enumerate(ops2):
        apply(ctx, t2, m2, op, k2, "o%d" % i)
    key = keys[0] if probe is None else mkkey(ctx, "p", probe)
    stored = m.find(key) >= 0
    if stored != (kind == "poe") or len(m.items) == 0:
        ctx.stop()
    target = ref.kec(key) if secure else key
    pool = []
    for x in (t, t2):
        for k in keys + [key] + k2:
            for f in (x.get_proof_of_inclusion, x.get_proof_of_exclusion):
                p, e = ctx.call(f, k)
                if e is None:
                    for node in p.proof:
                        if not any([node is q or (len(node) == len(q) and (node == q) == True) for q in pool]):
                            pool.append(node)
    forged_value = b"null" if kind == "poe" else b"some"
    pool.append(Leaf(NibblePath(target), b"null").encode())
    if wild:
        pool.append(ctx.bytes("wild", wild))
    nodes = []
    for i in range(n):
        x = ctx.choice("node%d" % i, range(len(pool) + 1))
        if x == len(pool):
            break
        nodes.append(pool[x])
    if len(nodes) == 0:
        ctx.stop()
    rs = [t.root(), t.root_hash(), t2.root_hash()] if roots else [t.root_hash()]
    p = Proof(target_key=target, root_hash=ctx.choice("root", rs), proof=tuple(nodes),
              proof_type=ctx.choice("type", [b"MPT-POI", b"MPT-POE", b"MT-POI"]) if types
              else b"MPT-POI" if kind == "poi" else b"MPT-POE")
    for name, v in verifiers(t, secure):
        f = v.verify_proof_of_inclusion if kind == "poi" else v.verify_proof_of_exclusion
        r, e = ctx.call(f, p)
        ctx.cover("rejected")
        ctx.check(e is not None or r == False,
                  "%s accepts a proof of %s of a key that is %s" % (
                      name, "inclusion" if kind == "poi" else "exclusion",
                      "absent" if kind == "poi" else "stored"))


def transfer(ctx, specs, ops, probe, kind, donors=(), secure=False, extra=False,
             cut=True, tails=("none", "target", "empty", "part")):
    """C08, C10: a proof about another key of the same trie does not pass for `probe`:
    the honest nodes of any key or all nodes of the trie, some cut off at the end, one
    possibly added, closed by none or by some null leaf"""
    from pymt import Proof
    from pymt.utils import Leaf, NibblePath
    t, m, keys = build(ctx, specs, ops, secure)
    key = mkkey(ctx, "p", probe) if probe is not None else ctx.choice("of", keys)
    stored = m.find(key) >= 0
    if stored != (kind == "poe") or len(m.items) == 0:
        ctx.stop()
    target = ref.kec(key) if secure else key
    lists = []
    every = []
    for k in keys + [mkkey(ctx, "d%d" % i, s) for i, s in enumerate(donors)] + [key]:
        for poi in (True, False):
            p, e = ctx.call(t.get_proof_of_inclusion if poi else t.get_proof_of_exclusion, k)
            if e is None:
                nodes = list(p.proof if poi else p.proof[:-1])
                if not any([len(nodes) == len(o) and all([len(a) == len(b) and (a == b) == True for a, b in zip(nodes, o)]) for o in lists]):
                    lists.append(nodes)
                for a in nodes:
                    if not any([len(a) == len(b) and (a == b) == True for b in every]):
                        every.append(a)
    lists.append(every)
    nodes = list(ctx.choice("donor", lists))
    if cut:
        nodes = nodes[:len(nodes) - ctx.choice("cut", range(min(3, len(nodes))))]
    if extra:
        nodes.insert(ctx.choice("where", range(1, len(nodes) + 1)), ctx.choice("extra", every))
    tail = ctx.choice("tail", tails)
    if tail != "none":
        path = {"target": NibblePath(target), "empty": NibblePath(b""),
                "part": NibblePath(target, 1) if len(target) else NibblePath(b"\x11")}[tail]
        nodes.append(Leaf(path, b"null").encode())
    p = Proof(target_key=target, root_hash=ctx.choice("root", [t.root(), t.root_hash()]), proof=tuple(nodes),
              proof_type=b"MPT-POI" if kind == "poi" else b"MPT-POE")
    for name, v in verifiers(t, secure):
        f = v.verify_proof_of_inclusion if kind == "poi" else v.verify_proof_of_exclusion
        r, e = ctx.call(f, p)
        ctx.cover("rejected")
        ctx.check(e is not None or r == False,
                  "%s accepts a proof of %s of a key that is %s" % (
                      name, "inclusion" if kind == "poi" else "exclusion",
                      "absent" if kind == "poi" else "stored"))


def foreign(ctx, specs, ops, specs2, ops2, probe, kind, secure=False):
    """C08, C10: a proof of a trie with another root is not accepted, whatever it says"""
    t, m, keys = build(ctx, specs, ops, secure)
    k2 = [mkkey(ctx, "o%d" % i, s) for i, s in enumerate(specs2)]
    t2 = MPT({}, secure=secure)
    m2 = Model()
    for i, op in enumerate(ops2):
        apply(ctx, t2, m2, op, k2, "o%d" % i)
    key = k2[0] if probe is None else mkkey(ctx, "p", probe)
    if len(m.items) == 0 or len(m2.items) == 0 or same_contents(ctx, m, m2) == True:
        ctx.stop()
    p, e = ctx.call(t2.get_proof_of_inclusion if kind == "poi" else t2.get_proof_of_exclusion, key)
    if e is not None:
        ctx.stop()
    from pymt import Proof
    proofs = [p]
    # the same proof claiming the verifier's root
    for r in (t.root(), t.root_hash()):
        proofs.append(Proof(target_key=p.target_key, root_hash=r, proof=p.proof, proof_type=p.type))
    ctx.cover("foreign")
    for q in proofs:
        for name, v in verifiers(t, secure):
            f = v.verify_proof_of_inclusion if kind == "poi" else v.verify_proof_of_exclusion
            r, e = ctx.call(f, q)
            ctx.check(e is not None or r == False, name + " accepts a proof of a trie with another root")
    # and the trie's own proofs do not pass for another root
    p, e = ctx.call(t.get_proof_of_inclusion if kind == "poi" else t.get_proof_of_exclusion, key)
    if e is None:
        q = Proof(target_key=p.target_key, root_hash=t2.root_hash(), proof=p.proof, proof_type=p.type)
        if kind == "poi":
            r, e = ctx.call(t.verify_proof_of_inclusion, q)
            ctx.check(e is not None or r == False, "a proof that claims another root is accepted")


def codec(ctx, specs, ops, after, probe=None, secure=False, form="mpt"):
    """C11: decode(encode(t)) is the same trie"""
    from pymt import SparseEMPT, RootEMPT
    t, m, keys = build(ctx, specs, ops, secure)
    if form == "mpt":
        c = MPT.decode(t.encode())
    elif form == "sparse":
        s = SparseEMPT(trie_storage=t._storage, root=t.root(), secure=secure)
        o = SparseEMPT.decode_rlp(s.encode_rlp())
        c = o._trie
        ctx.check(o.root_hash() == t.root_hash(), "the copy has another root hash")
        for k in keys:
            ctx.check((k in o) == (m.find(k) >= 0), "the copy has other contents")
    else:
        s = RootEMPT(t.root(), secure=secure)
        o = RootEMPT.decode_rlp(s.encode_rlp())
        ctx.check(o.root_hash() == t.root_hash(), "the copy has another root hash")
        ctx.check(o.secure == secure, "the copy is in another mode")
        for k in keys:
            if m.find(k) >= 0:
                ctx.cover("proof")
                ctx.check(o.verify_proof_of_inclusion(t.get_proof_of_inclusion(k)) == True,
                          "the copy rejects a proof of the original")
        o2 = RootEMPT.decode_rlp(o.encode_rlp())
        ctx.check(o2.root_hash() == t.root_hash(), "the copy of the copy has another root hash")
        return
    ctx.check(c.root_hash() == t.root_hash(), "the copy has another root hash")
    ctx.check(c.secure == secure, "the copy is in another mode")
    ctx.observe("root", c.root_hash())
    check_all(ctx, c, m, keys, "copy")
    if probe is not None:
        keys = keys + [mkkey(ctx, "p", probe)]
        check_lookup(ctx, c, m, keys[-1], "copy")
    for k in keys:
        for f in ("get_proof_of_inclusion", "get_proof_of_exclusion"):
            p, e = ctx.call(getattr(t, f), k)
            q, x = ctx.call(getattr(c, f), k)
            ctx.check((e is None) == (x is None), "proof generation differs on the copy")
            if e is None:
                ctx.check(same_proof(ctx, p, q), "the copy gives another proof")
                ctx.check(getattr(c, f.replace("get", "verify"))(p) == True, "the copy rejects a proof of the original")
                ctx.check(getattr(t, f.replace("get", "verify"))(q) == True, "the original rejects a proof of the copy")
    m2 = m.copy()
    for j, op in enumerate(after):
        apply(ctx, c, m2, op, keys, "c%d" % j)
    ctx.check(c.root_hash() == m2.root_hash(secure), "an operation on the copy gives a wrong root")
    check_all(ctx, c, m2, keys, "changed copy")
    check_all(ctx, t, m, keys, "original after changing the copy")
    d = MPT.decode(c.encode())
    check_all(ctx, d, m2, keys, "copy of the changed copy")


def tamper(ctx, specs, ops, past, secure=False, how="byte", probe=None, stride=1):
    """C12: a changed encoding never makes a lookup return a wrong value"""
    import rlp
    t, m, keys = build(ctx, specs, ops[:past], secure)
    root, old = t.root(), m.copy()
    for i, op in enumerate(ops[past:]):
        apply(ctx, t, m, op, keys, "q%d" % i)
    data = rlp.decode(t.encode())
    if past < len(ops) and ctx.flag("oldroot"):
        data = [root, data[1], data[2]]
        m = old
    nodes = list(data[1])
    if len(nodes) == 0:
        ctx.stop()
    i = ctx.choice("which", range(len(nodes)))
    if how == "byte":
        x = nodes[i]
        j = ctx.choice("at", [j for j in range(len(x)) if j < 6 or j % stride == 0])
        b = ctx.int("byte", 0, 255)
        ctx.assume(b != x[j])
        nodes[i] = ctx.setbyte(x, j, b)
    elif how == "drop":
        nodes.pop(i)
    elif how == "replace":
        j = ctx.choice("with", range(len(nodes)))
        nodes[i] = nodes[j]
    elif how == "value":
        # a node with a changed value part
        n = rlp.decode(nodes[i])
        if isinstance(n[-1], list):
            ctx.stop()
        v = ctx.bytes("other", len(n[-1]))
        nodes[i] = rlp.encode(n[:-1] + [v])
    elif how == "add":
        nodes.insert(i, ctx.cat(b"\xc4\x20\x82", ctx.bytes("other", 2)))
    elif how == "swap":
        j = ctx.choice("with", range(len(nodes)))
        nodes[i], nodes[j] = nodes[j], nodes[i]
    c, e = ctx.call(MPT.decode, rlp.encode([data[0], nodes, data[2]]))
    if e is not None:
        return
    ctx.cover("decoded")
    if probe is not None:
        keys = keys + [mkkey(ctx, "p", probe)]
    for k in keys:
        v, e = ctx.call(c.get, k)
        if e is not None:
            ctx.cover("raised")
            continue
        ctx.cover("read")
        f = m.find(k)
        ctx.check(f >= 0, "an altered encoding makes an absent key read a value")
        ctx.check(v == m.items[f][1], "an altered encoding makes a key read a wrong value")


# ------------------------------------------------------------------ C36, C37
def entries(st):
    return [(k, st[k]) for k in list(st.keys())]


def kept(ctx, st, old, what, exact=True):
    """the storage holds the old entries unchanged (and no others)"""
    now = entries(st)
    ctx.check(len(now) == len(old) if exact else len(now) >= len(old), what + ": the storage holds other entries")
    for k, v in old:
        ctx.check(k in st, what + ": an entry left the storage")
        ctx.check(st[k] == v, what + ": an entry of the storage changed")


def same_answer(ctx, a, b):
    """two answers (value, exception) are alike"""
    if (a[1] is None) != (b[1] is None):
        return False
    if a[1] is not None:
        return type(a[1]) is type(b[1])
    if hasattr(a[0], "trie_root"):
        return same_proof(ctx, a[0], b[0])
    if isinstance(a[0], list):
        return len(a[0]) == len(b[0]) and ctx.all([x == y for x, y in zip(a[0], b[0])])
    return a[0] == b[0]


READS = ("get", "item", "contains", "in", "len", "root", "root_hash", "hash", "equal", "encode", "secure",
         "poi", "poe", "verify-poi", "verify-poe", "verify-other", "verify-bad")


SECOND = ("get", "encode", "poe", "verify-bad")


def ask(ctx, t, what, key, extra):
    """one question to a trie"""
    if what == "get":
        return ctx.call(t.get, key)
    if what == "item":
        return ctx.call(lambda: t[key])
    if what == "contains":
        return ctx.call(t.contains, key)
    if what == "in":
        return ctx.call(lambda: key in t)
    if what == "len":
        return ctx.call(len, t)
    if what == "root":
        return ctx.call(t.root)
    if what == "root_hash":
        return ctx.call(t.root_hash)
    if what == "hash":
        return ctx.call(hash, t)
    if what == "equal":
        return ctx.call(lambda: t == extra["twin"])
    if what == "encode":
        return ctx.call(t.encode)
    if what == "secure":
        return ctx.call(lambda: t.secure)
    if what == "poi":
        return ctx.call(t.get_proof_of_inclusion, key)
    if what == "poe":
        return ctx.call(t.get_proof_of_exclusion, key)
    f = t.verify_proof_of_inclusion if what != "verify-poe" else t.verify_proof_of_exclusion
    return ctx.call(f, extra[what])


def proofs_for(ctx, t, key, other):
    """an honest proof about the key, one of another trie and one that does not hold together"""
    from pymt import Proof
    out = {}
    p, e = ctx.call(t.get_proof_of_inclusion, key)
    if e is None:
        out["verify-poi"] = p
        out["verify-bad"] = Proof(target_key=p.target_key, root_hash=p.trie_root, proof=p.proof[:-1] or p.proof * 2,
                                  proof_type=p.type)
    p, e = ctx.call(t.get_proof_of_exclusion, key)
    if e is None:
        out["verify-poe"] = p
        out["verify-bad"] = Proof(target_key=p.target_key, root_hash=p.trie_root, proof=p.proof[:-1],
                                  proof_type=b"MPT-POI")
    p, e = ctx.call(other.get_proof_of_inclusion, key)
    if e is None:
        # the same key in another trie, claiming to be of this one
        out["verify-other"] = Proof(target_key=p.target_key, root_hash=t.root(), proof=p.proof, proof_type=p.type)
    return out


def pure(ctx, specs, ops, probe=None, secure=False, reads=READS, second=SECOND, after=()):
    """C36: asking changes nothing, and the answer stays the same"""
    st = {}
    t, m, keys = build(ctx, specs, ops, secure, storage=st)
    key = mkkey(ctx, "p", probe) if probe is not None else ctx.choice("which", keys)
    twin = MPT({}, secure=secure)
    twin.update(key, b"twin" * 9)
    twin.update(keys[0] + b"\x11\x11", b"other" * 7)
    what = ctx.choice("read", list(reads))
    then = ctx.choice("then", list(second))
    extra = {"twin": twin}
    if what.startswith("verify") or then.startswith("verify"):
        copy = {}
        for k, v in entries(st):
            copy[k] = v
        extra.update(proofs_for(ctx, MPT(copy, root=t.root(), secure=secure), key, twin))
        if (what.startswith("verify") and what not in extra) or (then.startswith("verify") and then not in extra):
            ctx.stop()
    old, root, rh = entries(st), t.root(), t.root_hash()
    a = ask(ctx, t, what, key, extra)
    ctx.cover(what)
    kept(ctx, st, old, "after " + what)
    ask(ctx, t, then, key, extra)
    b = ask(ctx, t, what, key, extra)
    ctx.check(same_answer(ctx, a, b), "asking again gives another answer: " + what)
    kept(ctx, st, old, "after reading")
    ctx.check(t.root() == root and t.root_hash() == rh, "reading changes the root")
    check_all(ctx, t, m, keys, "after reading")
    check_lookup(ctx, t, m, key, "after reading")
    for j, op in enumerate(after):
        apply(ctx, t, m, op, keys, "a%d" % j)
    if after:
        ctx.check(t.root_hash() == m.root_hash(secure), "a change after reading gives a wrong root")


class Bare:
    """node storage with item access only"""

    def __init__(self):
        self.d = {}
        self.log = []

    def __getitem__(self, k):
        return self.d[k]

    def __setitem__(self, k, v):
        self.log.append((k, v))
        self.d[k] = v


def addressed(ctx, specs, ops, free=0, vlens=(3,), secure=False, probe=None, proofs=True):
    """C37: entries are stored under their digest, stay, and item access is all that is used"""
    st = Bare()
    keys = [mkkey(ctx, "k%d" % i, s) for i, s in enumerate(specs)]
    t = MPT(st, secure=secure)
    m = Model()
    old = []

    def look(what):
        for k, v in st.log:
            ctx.check(ctx.all([isinstance(k, bytes), isinstance(v, bytes)]), what + ": something else than bytes is stored")
            ctx.check(k == ref.kec(v), what + ": an entry is not stored under its digest")
        st.log = []
        for k, v in old:
            ctx.check(k in st.d, what + ": an entry left the storage")
            ctx.check(st.d[k] == v, what + ": an entry of the storage changed")
        old[:] = list(st.d.items())
        r = t.root()
        if len(m.items) == 0:
            ctx.cover("empty")
        elif len(r) == 32:
            ctx.cover("hashed")
            ctx.check(r in st.d, what + ": the root is not in the storage")
        else:
            ctx.cover("inline")
    for i, op in enumerate(ops):
        apply(ctx, t, m, op, keys, str(i))
        look("operation %d" % i)
    for j in range(free):
        op = ctx.choice("op%d" % j, "ud")
        i = ctx.choice("key%d" % j, range(len(keys)))
        apply(ctx, t, m, ["u", i, ctx.choice("len%d" % j, vlens)] if op == "u" else ["d", i], keys, "f%d" % j)
        look("operation f%d" % j)
    if probe is not None:
        keys = keys + [mkkey(ctx, "p", probe)]
    check_all(ctx, t, m, keys, "storage with item access only")
    ctx.check(t.root_hash() == m.root_hash(secure), "storage with item access only: wrong root")
    if proofs:
        for k in keys:
            for poi, get, verify in ((True, t.get_proof_of_inclusion, t.verify_proof_of_inclusion),
                                     (False, t.get_proof_of_exclusion, t.verify_proof_of_exclusion)):
                p, e = ctx.call(get, k)
                stored = m.find(k) >= 0
                if len(m.items) > 0:
                    ctx.check((e is None) == (stored == poi), "storage with item access only: proofs are refused")
                if e is None:
                    ctx.check(verify(p) == True, "storage with item access only: a proof is not accepted")
    look("reading")
