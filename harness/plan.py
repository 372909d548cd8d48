"""What each check explores: configurations, bounds, assumptions.

A configuration names a harness function and its parameters.  The solver treats
every input the harness declares (key nibbles, value bytes, choices of operation,
altered positions, failing accesses ...) as a variable; the parameters below fix
the lengths and counts."""
PLAN = {}


def conf(harness, func, name=None, tier="quick", weight=1, cover=(), **params):
    return {"name": name or func, "harness": harness, "func": func, "params": params,
            "tier": tier, "weight": weight, "cover": list(cover)}


def prop(f):
    PLAN[f.__name__.upper()] = f
    return f


# alphabets of one key nibble: every value, {0,1}, {0,15}, {0,1,14,15}
F, A, B, Q = "full", "01", "0f", "01ef"
T = {"tier": "thorough"}


def U(i, n=3):
    """store a value of n symbolic bytes (of at least one) under key i"""
    return ["u", i, n]


def D(i):
    """delete key i (refused when absent)"""
    return ["d", i]


KE = []                 # the empty key
KS = [A] * 2            # one byte, both nibbles in {0,1}
KA = [A] * 4
KL = [A] * 6
KANY = ["any", KE, KS, KA]
KF = [F, "5"]
KG = ["5", F]
KFF = [F, F]
SEC = ["sec"]           # a key the trie hashes, see SymCtx.seckey


def long(n, tail=(A, A)):
    """n fixed nibbles, then a symbolic tail"""
    return ["5"] * n + list(tail)


def HUGE(i):
    """a fixed value that needs a length of three bytes"""
    return ["v", i, "x" * 66000]


def far(n, tail=(A, A)):
    """a key of n bytes: fixed nibbles, then a symbolic tail"""
    return ["5"] * (2 * n - len(tail)) + list(tail)


def fill(n):
    """n fixed one-byte keys with different first nibbles"""
    return [[i, 0] for i in range(n)]


def CON(i, n=40):
    """a fixed value under key i"""
    return ["v", i, chr(97 + i % 26) * n]


def chain(n, tail=(A, A)):
    """n fixed keys, each a prefix of the next, and a longer one with a symbolic tail"""
    return [[5] * (2 * i) for i in range(1, n + 1)] + [[5] * (2 * n) + list(tail)]


def crowd(n, tail=(A, A)):
    """n fixed keys that fill several levels of branches, and one with a symbolic tail"""
    return [[i % 16, i // 16 % 16, i // 256, 2] for i in range(n)] + [[3, 1] + list(tail)]


def cons(n, m=40):
    return [CON(i, m) for i in range(n)]


TRIE_BOUNDS = (
    "keys are byte strings whose length is fixed per configuration (0, 1, 2, 3, 4, 8 or 32 bytes, or chosen by "
    "the solver among several; keys of secure tries: 0-64 bytes) and whose nibbles are symbolic over the alphabet the configuration names (all 16 values, {0,1}, "
    "{0,15} or {0,1,14,15}) or fixed; value bytes are fully symbolic, value lengths are fixed per "
    "configuration around the thresholds of RLP and of node embedding, up to 300 bytes; sizes: keys of 33-300 bytes with a symbolic "
    "last byte, values of up to 5000 symbolic bytes and a fixed one of 66000, chains of 9-40 fixed keys and crowds of 40-300 fixed keys next to one with "
    "symbolic nibbles, in the configurations named size; number of keys and operations as "
    "listed per configuration (up to 4 symbolic keys plus up to 17 fixed ones, up to 3 freely chosen "
    "operations after the given ones)")
TRIE_OUT = (
    "more symbolic keys or operations than listed, longer keys and values, key alphabets other than those "
    "listed, empty values (the trie does not distinguish them from absence on a branch), storages other than "
    "dict unless the configuration says so")
HASH_ASSUME = [
    "Keccak-256 (and SHA-2/3) digests of data with symbolic content are values of an uninterpreted function "
    "that is injective; digests of concrete data are the real ones, and a digest never equals bytes that do "
    "not come from that function",
    "in secure mode keys are symbolic strings of the stated length (4 bytes unless the configuration says otherwise) whose digests "
    "differ within their first byte and in their last 8 bytes or are equal, with their first nibbles taken from a two-letter alphabet",
    "the rlp package is replaced by a model with the same acceptance and output (sx/rlpmodel.py); "
    "pycryptodome and the standard library outside the package are not encoded",
]


def trie_plan(c, bounds="", outside="", assumptions=()):
    return {"configs": c, "bounds": (TRIE_BOUNDS + "; " + bounds).rstrip("; "),
            "outside": (TRIE_OUT + "; " + outside).rstrip("; "),
            "assumptions": HASH_ASSUME + list(assumptions)}


@prop
def c01():
    c = []

    def add(name, specs, ops, **k):
        c.append(conf("trie", "lookup", name, specs=specs, ops=ops, **k))

    def hist(name, specs, ops, free, vlens, **k):
        c.append(conf("trie", "history", name, specs=specs, ops=ops, free=free, vlens=vlens, what="lookup", **k))
    add("none", [], [], probe=KA, cover=["absent"])
    add("one", [KA], [U(0)], probe=KA, cover=["absent", "present"])
    add("one-full", [[F, "5"]], [U(0)], probe=[F, Q], cover=["absent", "present"])
    add("two", [KA, KA], [U(0), U(1)], probe=KA, cover=["absent", "present"])
    add("two-probe-short", [KA, KA], [U(0), U(1)], probe=KS, cover=["absent"])
    add("two-probe-long", [KA, KS], [U(0), U(1)], probe=KL, cover=["absent"])
    add("two-probe-empty", [KA, KA], [U(0), U(1)], probe=KE, cover=["absent"])
    add("empty-key", [KE, KS, KA], [U(0), U(1), U(2)], probe=KS)
    add("empty-key-del", [KE, KS, KA], [U(0), U(1), U(2), D(0)], probe=KE, cover=["delete"])
    add("empty-key-del1", [KE, KS, KA], [U(0), U(1), U(2), D(1)], probe=KS, cover=["delete"])
    add("empty-key-del2", [KE, KS, KA], [U(0), U(1), U(2), D(2)], probe=KA, cover=["delete"])
    add("full", [KF, KF], [U(0), U(1)], probe=KF, tier="thorough")
    add("full-low", [KG, KG], [U(0), U(1)], probe=["5", B], weight=3)
    add("full-del", [KF, KF], [U(0), U(1), D(0)], probe=None, weight=3)
    add("branch", fill(16) + [[F, A]], [U(i, 2) for i in range(16)] + [U(16)], probe=None, weight=4)
    add("branch-del", fill(16) + [[F, A]], [U(i, 2) for i in range(16)] + [D(16)], probe=None, weight=4,
        cover=["delete", "refused"])
    add("three", [KA, KA, KA], [U(0), U(1), U(2)], probe=KA, weight=3)
    add("three-overwrite", [KA, KA, KS], [U(0, 3), U(1, 40), U(2, 1), U(0, 33)])
    add("three-del", [KA, KA, KS], [U(0), U(1), U(2), D(0)], probe=KA, weight=2)
    add("three-del-big", [KA, KA, KA], [U(0, 40), U(1, 40), U(2, 40), D(0)])
    add("three-del-short", [KL, KS, KS], [U(0), U(1), U(2), D(1)], probe=KS)
    add("prefix", [KL, KA, KS], [U(0), U(1), U(2)], probe=KA, weight=2)
    add("long", [long(14), long(14), long(6)], [U(0), U(1), U(2)], probe=long(14))
    add("long-del", [long(62), long(62), long(20)], [U(0, 20), U(1, 20), U(2, 20), D(1)], probe=long(62))
    add("secure", [SEC, SEC], [U(0), U(1)], probe=SEC, secure=True, weight=3)
    add("secure-del", [SEC, SEC, SEC], [U(0), U(1), U(2), D(1)], secure=True, weight=3)
    hist("history", [KA, KA], [U(0, 3)], 2, [3, 33])
    hist("history-short", [KA, KS], [U(0, 3)], 2, [3, 33])
    hist("history-empty", [KE, KS], [], 3, [2, 32], weight=2)
    hist("history-three", [KS, KS, KE], [U(0), U(1), U(2)], 2, [3], weight=2)
    for n in (2, [1, 40]):
        t = "" if n == 2 else "-len"
        add("sweep-two" + t, [KANY, KANY], [U(0, n), U(1, n)], probe=KANY if n == 2 else KE, weight=3)
        add("sweep-del" + t, [KANY, KANY], [U(0, n), U(1, n), D(0)], weight=2)
    add("sweep-three", [[0, 0], KANY, [1, 0, A, 0]], [U(i, 9) for i in range(3)] + [D(1)], probe=KS, weight=2)
    add("sweep-over", [KANY, [0, 0], [0, 0, 1, 1]], [U(0, 31), U(1, 2), U(2, 2), U(0, 2)], weight=2)
    add("secure-lens", [["sec", "="], ["sec", 32], ["sec", 20]], [U(0), U(1), U(2), D(1)], probe=["sec", 33], secure=True, weight=2)
    add("secure-lens2", [["sec", "=00"], ["sec", 64], ["sec", 31]], [U(0), U(1), U(2), D(0)], probe=["sec", "="], secure=True, weight=2)
    # sizes
    for n in (33, 40, 64, 65, 128, 130, 256, 300):
        add("size-key%d" % n, [far(n), far(n), far(n - 1)], [U(0), U(1, 40), U(2), D(1)], probe=far(n))
    for n in (300, 1000, 5000):
        add("size-value%d" % n, [[0, A], [1, 0]], [U(0, n), U(1, n)], probe=KS)
    add("size-value66000", [[0, A], [1, 0]], [HUGE(0), U(1), HUGE(1), D(0)], probe=KS)
    for n in (20, 40):
        add("size-deep%d" % n, chain(n), cons(n, 2) + [U(n), D(n // 2)], probe=[5] * (2 * n - 2) + [A, A])
    for n in (40, 130, 300):
        add("size-many%d" % n, crowd(n), cons(n, 2) + [U(n), D(7)], probe=[3, A, A, A], each=n < 200)
    # long histories
    for m in (2, 40):
        add("size-drain-%d" % m, crowd(40), cons(40, m) + [U(40)] + [D(i) for i in range(37)])
        add("size-drain-deep-%d" % m, chain(20), cons(20, m) + [U(20)] + [D(i) for i in range(18)])
        add("size-churn-%d" % m, [[0, 0], [0, 1], [1, A]], cons(3, m) + [x for i in range(30) for x in (D(i % 2), CON(i % 2, m + i % 3))] + [U(2), D(0)], probe=KS)
    # deeper
    add("two-full", [KFF, KF], [U(0), U(1)], probe=[Q, F], weight=9, **T)
    add("four", [KA, KA, KA, KS], [U(0), U(1, 32), U(2), U(3)], probe=KA, weight=9, **T)
    add("four-del", [KA, KA, KS, KL], [U(0), U(1, 32), U(2), U(3), D(0), D(1)], probe=KA, weight=9, **T)
    add("three-q", [[Q, Q], [Q, Q], [Q, Q]], [U(0), U(1), U(2), D(1)], probe=[Q, Q], weight=9, **T)
    add("secure-four", [SEC] * 3, [U(0), U(1), U(2), D(0), U(0, 33)], probe=SEC, secure=True, weight=9, **T)
    hist("history-long", [KA, KA, KS], [U(0, 3)], 3, [3, 33], weight=9, **T)
    hist("history-deep", [KA, KS, KE], [U(0, 3), U(1), U(2)], 3, [33], weight=9, **T)
    hist("history-secure", [SEC, SEC], [U(0)], 3, [3, 33], secure=True, weight=9, **T)
    return trie_plan(c)


@prop
def c02():
    c = []

    def add(name, specs, ops, **k):
        c.append(conf("trie", "canonical", name, specs=specs, ops=ops, **k))

    def hist(name, specs, ops, free, vlens, **k):
        c.append(conf("trie", "history", name, specs=specs, ops=ops, free=free, vlens=vlens, what="root", **k))
    add("one", [KA], [U(0)])
    add("one-del", [KA], [U(0), D(0)], cover=["size0"])
    for n in (1, 2, 3, 26, 27, 28, 29, 30, 31, 54, 55, 56):
        add("len%d" % n, [KA, KA], [U(0, n), U(1, n)])
    for n in (252, 253, 254, 255, 256):
        add("len%d" % n, [[1, 5]], [U(0, n)])
    add("full", [KF, KF], [U(0), U(1)], weight=2)
    add("full-del", [KF, KF], [U(0, 32), U(1, 32), D(0)], weight=2)
    add("branch", fill(16) + [[F, A]], [U(i, 2) for i in range(16)] + [U(16)], weight=4)
    add("branch-del", fill(16) + [[F, A]], [U(i, 2) for i in range(16)] + [D(16)], weight=4,
        cover=["delete", "refused"])
    add("branch-drain", fill(4) + [[Q, 0], [Q, 0]], [U(i, 2) for i in range(4)] + [D(4), D(5)], weight=2,
        cover=["delete", "refused"])
    add("three", [KA, KA, KA], [U(0), U(1), U(2)])
    add("three-32", [KA, KA, KA], [U(0, 32), U(1, 32), U(2, 32)])
    add("mixed", [KE, KS, KA], [U(0), U(1), U(2)])
    for d in range(3):
        add("mixed-del%d" % d, [KE, KS, KA], [U(0), U(1), U(2), D(d)])
        add("mixed32-del%d" % d, [KE, KS, KA], [U(0, 32), U(1, 32), U(2, 32), D(d)])
        add("three-del%d" % d, [KA, KA, KS], [U(0), U(1), U(2), D(d)])
        add("three32-del%d" % d, [KA, KA, KS], [U(0, 32), U(1, 32), U(2, 32), D(d)])
    add("drain", [KA, KA, KS], [U(0, 9), U(1, 9), U(2, 9), D(0), D(1), D(2)], cover=["size0"])
    add("four-del", [KS, KS, KA, KA], [U(0), U(1, 32), U(2), U(3, 32), D(0), D(2)], weight=2)
    add("long", [long(14), long(14), long(6)], [U(0), U(1), U(2)])
    add("long-del", [long(62), long(62), long(20)], [U(0, 20), U(1, 20), U(2, 20), D(1)])
    add("long-odd", [long(61, (A, A, A)), long(61, (A, A, A)), long(7, (A,))], [U(0, 20), U(1, 20), U(2, 20), D(0)])
    add("secure", [SEC, SEC], [U(0), U(1)], secure=True, weight=2)
    add("secure-del", [SEC, SEC, SEC], [U(0), U(1), U(2), D(1)], secure=True, weight=2)
    hist("history", [KA, KA], [U(0, 3)], 2, [3, 33])
    hist("history-short", [KA, KS], [U(0, 3)], 2, [3, 33])
    hist("history-empty", [KE, KS], [], 3, [2, 32])
    hist("history-three", [KS, KS, KE], [U(0), U(1), U(2)], 2, [3])
    add("sweep-two", [KANY, KANY], [U(0, [2, 29, 32]), U(1, [2, 29, 32])], every=True, weight=3)
    add("sweep-del", [KANY, KANY, [1, 1, 0, 0]], [U(0, [2, 32]), U(1, 32), U(2, 2), D(0)], weight=3)
    add("sweep-three", [[0, 0], KANY, [1, 0, A, 0]], [U(i, [2, 32]) for i in range(3)] + [D(1)], weight=3)
    add("sweep-low", [KE, [0, "full"], [0, "full"]], [U(i, 2) for i in range(3)], weight=3)
    add("merge", [[0, 0, 0, 0], [0, 0, 0, 1], [A, A, 1, 0]], [U(i, [2, 32]) for i in range(3)] + [D(2)], weight=2)
    add("merge-ext", [[0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 1], [0, A, A, 1, 0, 0]], [U(i, [2, 32]) for i in range(3)] + [D(2)], weight=2)
    add("secure-lens", [["sec", "="], ["sec", 32], ["sec", 20]], [U(0), U(1), U(2), D(1)], secure=True)
    # sizes
    for n in (33, 40, 64, 65, 128, 130, 256, 300):
        add("size-key%d" % n, [far(n), far(n), far(n - 1)], [U(0), U(1, 40), U(2), D(1)])
    for n in (300, 1000, 5000):
        add("size-value%d" % n, [[0, A], [1, 0]], [U(0, n), U(1, n)])
    add("size-value66000", [[0, A], [1, 0]], [HUGE(0), U(1), HUGE(1), D(0)])
    for n in (20, 40):
        add("size-deep%d" % n, chain(n), cons(n, 2) + [U(n), D(n // 2)])
        add("size-deep%d-big" % n, chain(n), cons(n) + [U(n), D(0)])
    for n in (40, 130, 300):
        add("size-many%d" % n, crowd(n), cons(n, 2) + [U(n), D(7)])
    # long histories
    for m in (2, 40):
        add("size-drain-%d" % m, crowd(40), cons(40, m) + [U(40)] + [D(i) for i in range(39)])
        add("size-drain-back-%d" % m, crowd(40), cons(40, m) + [U(40)] + [D(i) for i in range(39, 0, -1)])
        add("size-drain-deep-%d" % m, chain(20), cons(20, m) + [U(20)] + [D(i) for i in range(19)])
        add("size-churn-%d" % m, [[0, 0], [0, 1], [1, A]], cons(3, m) + [x for i in range(30) for x in (D(i % 2), CON(i % 2, m + i % 3))] + [U(2), D(0)])
    # deeper
    add("full-three", [KF, KF, KF], [U(0), U(1, 32), U(2)], weight=9, **T)
    add("full-three-del", [KF, KF, KF], [U(0, 32), U(1), U(2, 32), D(0)], weight=9, **T)
    add("two-full", [KFF, KFF], [U(0), U(1)], weight=9, **T)
    add("four", [KA, KA, KA, KA], [U(0), U(1, 32), U(2), U(3)], weight=9, **T)
    add("four-del2", [KA, KA, KA, KS], [U(0), U(1, 32), U(2), U(3), D(0), D(1)], weight=9, **T)
    add("five", [KE, KS, KS, KA, KA], [U(i, 9) for i in range(5)] + [D(1), D(3)], weight=9, **T)
    for n in range(1, 34):
        add("threelen%d" % n, [KA, KA, KA], [U(0, n), U(1, n), U(2, n), D(0)], **T)
    add("secure-four", [SEC] * 4, [U(i) for i in range(4)] + [D(0)], secure=True, weight=9, **T)
    hist("history-long", [KA, KA, KS], [U(0, 3)], 3, [3, 33], weight=9, **T)
    hist("history-deep", [KA, KS, KE], [U(0, 3), U(1), U(2)], 3, [33], weight=9, **T)
    return trie_plan(c)


@prop
def c03():
    c = []

    def add(name, specs_a, ops_a, specs_b, ops_b, **k):
        c.append(conf("trie", "injective", name, specs_a=specs_a, ops_a=ops_a, specs_b=specs_b,
                      ops_b=ops_b, **k))
    add("one-one", [KA], [U(0)], [KA], [U(0)], cover=["same", "different"])
    add("one-one-full", [KF], [U(0)], [KF], [U(0)], cover=["same", "different"])
    add("one-len", [KA], [U(0, 3)], [KA], [U(0, 4)], cover=["different"])
    add("one-len32", [KA], [U(0, 32)], [KA], [U(0, 33)], cover=["different"])
    add("one-size", [KS], [U(0, 4)], [KA], [U(0, 3)], cover=["different"])
    add("one-two", [KS], [U(0)], [KS, KS], [U(0), U(1)], cover=["different", "same"])
    add("none", [KA], [U(0), D(0)], [KA], [U(0)], cover=["different"])
    add("none-none", [KA], [U(0), D(0)], [KS], [U(0, 40), D(0)], cover=["same"])
    add("none-fresh", [], [], [KA], [U(0), D(0)], cover=["same"])
    add("fresh-fresh", [], [], [], [], cover=["same"])
    add("fresh-emptied", [KS, KE], [U(0, 40), U(1), D(0), D(1)], [], [], cover=["same"])
    add("none-secure", [], [], [SEC], [U(0), D(0)], secure=True, cover=["same"])
    add("two-two", [KS, KS], [U(0), U(1)], [KS, KS], [U(0), U(1)], cover=["same", "different"], weight=3)
    add("two-two32", [KS, KS], [U(0, 32), U(1, 32)], [KS, KS], [U(0, 32), U(1, 32)], cover=["same", "different"], weight=3)
    add("two-del", [KA], [U(0)], [KA, KS], [U(0), U(1), D(0)], cover=["different"], weight=2)
    add("two-order", [KA, KS], [U(0), U(1)], [[0, 0, A, A], [0, A]], [U(1), U(0), U(0)], cover=["same", "different"], weight=3)
    add("empty-key", [KE, KS], [U(0), U(1)], [KE, KS], [U(0), U(1), D(0)], cover=["different"])
    add("empty-key2", [KE, KS], [U(0), U(1)], [KE, KS], [U(1), U(0)], cover=["same", "different"])
    add("long", [long(14), long(6)], [U(0), U(1)], [long(14), long(6)], [U(0), U(1)], cover=["same", "different"], weight=2)
    add("three", [[0, A], [1, 0], [1, 1]], [U(0, 20), U(1, 20), U(2, 20)],
        [[0, A], [1, 0], [1, 1]], [U(2, 20), U(1, 20), U(0, 20)], cover=["same", "different"])
    add("three-del", [[0, A], [1, 0], [1, 1]], [U(0), U(1), U(2), D(1)],
        [[0, A], [1, A]], [U(0), U(1)], cover=["same", "different"])
    add("secure", [SEC], [U(0)], [SEC], [U(0)], secure=True, cover=["same", "different"])
    add("secure-two", [SEC, SEC], [U(0), U(1)], [SEC], [U(0)], secure=True, weight=4)
    n = [1, 2, 31]
    add("sweep-one", [KANY], [U(0, n)], [KANY], [U(0, n)], cover=["same", "different"], weight=3)
    add("sweep-none", [KE], [D(0)], [KANY], [U(0, [1, 2, 7, 30, 31, 32])], cover=["different"], weight=2)
    add("sweep-two", [KANY, [0, 1]], [U(0, 2), U(1, 2)], [KANY, [0, 1]], [U(1, 2), U(0, [2, 32])], cover=["same", "different"], weight=4)
    add("sweep-del", [KANY, [0, 1]], [U(0, 2), U(1, 2), D(1)], [KANY], [U(0, [2, 3])], cover=["same", "different"], weight=4)
    add("secure-lens", [["sec", "="], ["sec", 32]], [U(0), U(1)], [["sec", 32], ["sec", "="]], [U(0), U(1)], secure=True, weight=2)
    # deeper
    add("two-two-long", [KA, KS], [U(0), U(1)], [KA, KS], [U(0), U(1)], weight=9, **T)
    add("three-three", [KS, KS, KE], [U(0), U(1), U(2)], [KS, KS, KE], [U(2), U(1), U(0)], weight=9, **T)
    add("three-two", [KS, KS, KE], [U(0), U(1), U(2), D(0)], [KS, KS, KE], [U(2), U(1)], weight=9, **T)
    add("two-two-full", [KF, KF], [U(0), U(1)], [[B, "5"], KF], [U(0), U(1)], weight=9, **T)
    add("secure-2-2", [SEC, SEC], [U(0), U(1)], [SEC, SEC], [U(0), U(1)], secure=True, weight=9, **T)
    # sizes
    for n in (33, 64, 65, 130, 300):
        add("size-key%d" % n, [far(n), far(n - 1)], [U(0), U(1)], [far(n), far(n - 1)], [U(1), U(0)], cover=["same", "different"])
        add("size-cut%d" % n, [far(n)], [U(0)], [far(n - 1)], [U(0, 4)], cover=["different"])
    for n in (255, 256, 300, 1000):
        add("size-value%d" % n, [[0, A], [1, 0]], [U(0, n), U(1)], [[0, A], [1, 0]], [U(1), U(0, n)], cover=["same", "different"])
        add("size-value%d-more" % n, [[0, A]], [U(0, n)], [[0, A]], [U(0, n + 1)], cover=["different"])
    return trie_plan(c, "two tries of up to three keys each", "tries of different modes (plain against secure)")


@prop
def c04():
    c = []

    def add(name, specs, ops, later, free, vlens, **k):
        c.append(conf("trie", "snapshot", name, specs=specs, ops=ops, later=later, free=free, vlens=vlens, **k))
    add("one", [KA], [U(0)], [], 1, [3, 32], probe=KS)
    add("same", [KS, KA], [U(0), U(1)], [], 1, [3, 32], probe=KS)
    add("same32", [KS, KS], [U(0, 32), U(1, 32)], [], 1, [3, 32], probe=KS)
    add("other", [KS, KA], [U(0, 32), U(1, 32)], [], 1, [32], other=True)
    add("other3", [KS, KS, [1, 1, 0, A]], [U(0, 32), U(1, 32), U(2, 32)], [], 1, [32], other=True, weight=2)
    add("delete", [KS, KS, KA], [U(0, 32), U(1, 32), U(2, 32)], [D(0)], 0, [32])
    add("drain", [KS, KA], [U(0, 32), U(1, 32)], [D(0), D(1)], 0, [32], other=True)
    add("two-later", [KE, KS], [U(0, 32), U(1, 32)], [], 2, [32])
    add("history", [KS, KA], [U(0, 32), U(1, 32), U(0, 33), D(1)], [U(1, 32), D(0)], 0, [32])
    add("identical", [[0, 0], [0, 1], [1, A]], [U(0, 32), U(1, 32)], [U(2, 32)], 1, [32], other=True)
    add("long", [long(30), long(30), long(6)], [U(0, 9), U(1, 9)], [U(2, 9)], 1, [32])
    add("secure", [SEC, SEC], [U(0), U(1)], [D(0)], 0, [32], secure=True)
    add("secure-other", [SEC, SEC], [U(0), U(1)], [U(0, 32)], 0, [32], secure=True, other=True)
    c.append(conf("trie", "snapshots", "every-root", specs=[KS, KS], free=3, vlens=[32], weight=2))
    c.append(conf("trie", "snapshots", "every-root-shared", specs=[[0, 0], [0, 1], [1, 0], [1, 1]], free=3, vlens=[32], same=True, weight=2))
    add("sweep", [KANY, KANY], [U(0, [2, 32]), U(1, 32)], [], 1, [32], weight=2)
    add("sweep-other", [KANY, [0, 1]], [U(0, [2, 32]), U(1, 32)], [], 1, [2, 32], other=True, weight=2)
    add("secure-lens", [["sec", "="], ["sec", 32]], [U(0), U(1)], [], 1, [2, 32], secure=True)
    # deeper
    add("three", [KS, KA, KS], [U(0), U(1, 32), U(2, 32)], [], 2, [32], other=True, weight=9, **T)
    add("three-secure", [SEC, SEC, SEC], [U(0), U(1), U(2)], [D(0)], 1, [32], secure=True, weight=9, **T)
    c.append(conf("trie", "snapshots", "every-root4", specs=[KS, KA], free=4, vlens=[32], weight=9, **T))
    # sizes
    add("size-key", [far(130), far(130), far(129)], [U(0), U(1, 40)], [U(2, 9)], 1, [32])
    add("size-value", [[0, A], [1, 0]], [U(0, 1000), U(1, 300)], [D(0)], 1, [1000])
    add("size-deep", chain(20), cons(20) + [U(20)], [D(3), U(20, 9)], 0, [32])
    add("size-churn", [[0, 0], [0, 1], [1, A]], cons(3) + [U(2, 33)], [x for i in range(20) for x in (D(i % 2), CON(i % 2, 40 + i % 3))] + [D(2)], 0, [32])
    add("size-drain", crowd(40), cons(40) + [U(40)], [D(i) for i in range(41)], 0, [32])
    add("size-many", crowd(100), cons(100, 2) + [U(100)], [D(3), U(100, 9)], 0, [32])
    return trie_plan(c, "up to two later operations chosen freely, by the same trie or another one on the same storage")


@prop
def c05():
    c = []

    def add(name, specs, ops, last, **k):
        c.append(conf("trie", "fault", name, specs=specs, ops=ops, last=last, **k))

    def ref(name, specs, ops, dspec, **k):
        c.append(conf("trie", "refused", name, specs=specs, ops=ops, dspec=dspec, cover=["refused"], **k))
    fu = ["failed", "unharmed"]
    add("first", [KS], [], U(0, 32), accesses=3, cover=fu)
    add("overwrite", [KS, KS], [U(0, 32), U(1, 32)], U(0, 32), cover=fu)
    add("insert", [KS, KS, KS], [U(0, 32), U(1, 32)], U(2, 32), cover=fu, weight=3)
    add("insert-small", [KS, KS, KS], [U(0), U(1)], U(2), accesses=4, cover=fu)
    add("extend", [KA, KA, KS], [U(0, 32), U(1, 32)], U(2, 32), cover=fu, weight=3)
    add("delete", [KS, KS, KS], [U(0, 32), U(1, 32), U(2, 32)], D(0), cover=fu, weight=3)
    add("delete-long", [[0, 0, 0, A], [0, 0, 0, 1], KS], [U(0, 32), U(1, 32), U(2, 32)], D(0), cover=fu, accesses=10, weight=2)
    add("delete-merge", [[0, 0, 0, 0], [0, 0, 0, 1], [1, A]], [U(0, 32), U(1, 32), U(2, 32)], D(2), accesses=10, cover=fu)
    add("delete-last", [KS, KS], [U(0, 32)], D(1), accesses=4, cover=fu)
    add("delete-empty-key", [KE, KS, KS], [U(0, 32), U(1, 32), U(2, 32)], D(0), cover=fu)
    add("delete-down", [KE, KS, KS], [U(0, 32), U(1, 32), U(2, 32)], D(1), forever=True, cover=fu)
    add("stays-broken", [KS, KS, KS], [U(0, 32), U(1, 32)], U(2, 32), forever=True, cover=fu, weight=2)
    add("secure", [SEC, SEC], [U(0, 32)], U(1, 32), secure=True, cover=fu)
    add("secure-del", [SEC, SEC], [U(0, 32), U(1, 32)], D(1), secure=True, cover=fu)
    ref("refused-none", [], [], KS)
    ref("refused-one", [KA], [U(0)], KA)
    ref("refused-two", [KS, KA], [U(0), U(1)], KA)
    ref("refused-two32", [KS, KA], [U(0, 32), U(1, 32)], KA)
    ref("refused-short", [KA, KA], [U(0, 32), U(1)], KS)
    ref("refused-empty", [KS, KA], [U(0, 32), U(1)], KE)
    ref("refused-below", [KE, KS], [U(0, 32), U(1)], KA)
    ref("refused-full", [KF, [3, 5]], [U(0), U(1)], KF, weight=2)
    ref("refused-gone", [KS, KS, KS], [U(0), U(1), U(2), D(0)], KS)
    ref("refused-secure", [SEC, SEC], [U(0), U(1)], SEC, secure=True)
    add("sweep", [KANY, [0, 1], [0, 0, 0, 0]], [U(1, [2, 32]), U(2, 32)], U(0, [2, 32]), cover=fu, weight=3)
    add("sweep-del", [KANY, [0, 1], [0, 0, 0, 0]], [U(0, [2, 32]), U(1, [2, 32]), U(2, 32)], D(0), cover=fu, weight=3)
    add("secure-lens", [["sec", "="], ["sec", 32]], [U(0)], U(1), secure=True, cover=fu)
    ref("refused-sweep", [KANY, KANY], [U(0, [2, 32]), U(1)], KANY, weight=2)
    ref("refused-lens", [["sec", "="], ["sec", 32]], [U(0), U(1)], ["sec", 33], secure=True)
    # deeper
    add("insert-4", [KS, KA, KS, KS], [U(0, 32), U(1, 32), U(2, 32)], U(3, 32), accesses=12, cover=fu, weight=9, **T)
    add("delete-4", [KA, KA, KS, KS], [U(0, 32), U(1, 32), U(2, 32), U(3, 32)], D(0), accesses=12, cover=fu, weight=9, **T)
    ref("refused-3", [KA, KA, KS], [U(0), U(1, 32), U(2)], KA, weight=9, **T)
    # sizes
    add("size-key", [far(130), far(130)], [U(0, 32)], U(1, 32), cover=fu)
    add("size-key-del", [far(130), far(130)], [U(0, 32), U(1, 32)], D(0), cover=fu)
    add("size-value", [[0, A], [1, 0]], [U(0, 1000), U(1, 3)], U(0, 1001), cover=fu)
    ref("size-refused", [far(130), far(66)], [U(0), U(1)], far(130))
    add("size-deep", chain(9), cons(9), U(9, 32), cover=fu, accesses=60)
    add("size-deep-del", chain(9), cons(9) + [U(9, 32)], D(9), cover=fu, accesses=60)
    ref("size-refused-deep", chain(20), cons(20), [5] * 30 + [A, A])
    return trie_plan(c, "one failing storage access among the first 4-13 of the operation (every position), "
                        "or all accesses from that one on; the storage raises and does not lose writes",
                     "storages that fail without raising, or tear a write")


@prop
def c06():
    c = []

    def add(name, n, ops, **k):
        c.append(conf("trie", "lockstep", name, n=n, ops=ops, **k))
    add("none", 1, [D(0)])
    add("one", 1, [U(0)], cover=["present", "absent"])
    add("two", 2, [U(0), U(1)], cover=["present", "absent"])
    add("two-del", 2, [U(0), U(1), D(0)], cover=["present", "absent"])
    add("refused", 2, [U(0), D(1), U(1, 33)], cover=["present", "absent"])
    add("overwrite", 2, [U(0), U(1), U(0, 33)], cover=["present"])
    add("three", 3, [U(0), U(1), U(2)], probe=False, cover=["present"], weight=2)
    add("three-del", 3, [U(0), U(1), U(2), D(1)], probe=False, cover=["present", "absent"], weight=2)
    add("views", 2, [U(0), U(1)], views=True, probe=False)
    add("mapping", 2, [U(0), U(1), D(0)], mapping=True, probe=False)
    add("empty", 2, [U(0), U(1, 33), D(0)], specs=[["="], [], ["=6b"]], cover=["present", "absent"])
    add("empty-probe", 2, [U(0), U(1, 33)], specs=[[], ["=00"], ["="]], cover=["present", "absent"])
    add("long", 2, [U(0), U(1), D(0), U(0, 33)], specs=[[32], [31], [33]], cover=["present", "absent"])
    add("long-probe", 2, [U(0), U(1), U(0, 1)], specs=[[20], [64], [32]], cover=["present", "absent"])
    add("view-long", 2, [U(0), U(1)], specs=[["="], [32], []], views=True, probe=False)
    add("mapping-long", 2, [U(0), U(1)], specs=[[32], ["="], []], mapping=True, probe=False)
    dg, fx = [[1, 0]], [["=6b"], ["=6c"], ["="]]
    add("digest", 2, [U(0), U(1, 33), D(1)], probe=False, digest=dg, specs=fx, cover=["present", "absent"])
    add("digest-first", 2, [U(1, 33), U(0), D(0), U(0, 32)], probe=False, digest=dg, specs=fx, cover=["present"])
    add("digest-absent", 2, [U(0), D(1), U(0, 33)], probe=False, digest=dg, cover=["present", "absent"])
    add("digest-two", 2, [U(0), U(1), D(2), D(0)], digest=[[2, 0]], specs=fx, cover=["absent"])
    add("digest-chain", 2, [U(0), U(1, 32), D(1)], digest=[[1, 0], [2, 1]], specs=fx, cover=["present", "absent"])
    add("digest-views", 2, [U(0), D(1)], views=True, probe=False, digest=dg)
    add("digest-mapping", 2, [U(0), D(1), U(1), D(0)], mapping=True, probe=False, digest=dg, specs=fx)
    add("short", 2, [U(0, 1), U(1, 1), D(1)], specs=[[2], [3], ["=ff"]])
    add("three-probe", 3, [U(0), U(1), U(2), D(1)], weight=9, **T)
    add("four", 4, [U(0), U(1), U(2), U(3), D(0)], probe=False, weight=9, **T)
    # sizes
    for n in (65, 130, 135, 136, 300):
        add("size-key%d" % n, 2, [U(0), U(1, 40), D(0), U(0, 33)], specs=[[n], [n], [n - 1]], cover=["present", "absent"])
    for n in (300, 1000):
        add("size-value%d" % n, 2, [U(0, n), U(1), D(0)], cover=["present", "absent"])
    return trie_plan(c)


def proof_shapes(add):
    """contents for the proof properties, from tiny to many keys"""
    add("one-tiny", [KS], [U(0, 1)])
    add("one", [KA], [U(0)])
    add("one32", [KA], [U(0, 32)])
    add("one-empty-key", [KE], [U(0, 32)])
    add("two-tiny", [KS, KS], [U(0, 1), U(1, 1)])
    add("two", [KA, KA], [U(0), U(1)])
    add("two32", [KA, KA], [U(0, 32), U(1, 32)])
    add("two-mixed", [KS, KA], [U(0, 32), U(1)])
    add("two-full", [KF, [B, "5"]], [U(0), U(1)])
    add("empty-key", [KE, KS, KS], [U(0), U(1, 32), U(2)])
    add("three", [KS, KS, KA], [U(0), U(1, 32), U(2)])
    add("three32", [[0, 0, 0, A], [0, 0, 1, A], [1, A]], [U(0, 32), U(1, 32), U(2, 32)])
    add("after-delete", [KS, KS, KA], [U(0), U(1, 32), U(2, 32), D(0)])
    add("branch", fill(15), [U(i, 3) for i in range(15)])
    add("long", [long(14), long(6)], [U(0), U(1)])


@prop
def c07():
    c = []

    def add(name, specs, ops, **k):
        c.append(conf("trie", "honest", name, specs=specs, ops=ops, kind="poi", cover=["stored"], **k))
    proof_shapes(add)
    add("len31", [KS, KS], [U(0, 31), U(1, 28)])
    add("long62", [long(62), long(61, (A, A, A)), long(20)], [U(0), U(1), U(2)])
    add("null", [KS, KS], [["v", 0, "null"], ["v", 1, "null"]])
    for n in (2, 32):
        f = [0, 0, 0, 0]
        add("nested-%d" % n, [f + [0, 0], f + [0, 1], [0, 1], [A, 0]], [U(i, n) for i in range(4)])
        add("nested-key-%d" % n, [f + [0, 0], f + [0, 1], f, [0, 0], KE], [U(i, n) for i in range(5)])
    add("sweep", [KANY, KANY], [U(0, [2, 32]), U(1, [2, 32])], weight=2)
    add("sweep-del", [KANY, KANY, [0, 1]], [U(0, [2, 32]), U(1, 2), U(2, 32), D(0)], weight=2)
    add("secure-lens", [["sec", "="], ["sec", 32], ["sec", 20]], [U(0, [2, 40]), U(1), U(2), D(2)], secure=True)
    add("secure-one", [SEC], [U(0, 1)], secure=True)
    add("secure", [SEC, SEC], [U(0), U(1)], secure=True)
    add("secure-del", [SEC, SEC, SEC], [U(0), U(1), U(2), D(0)], secure=True, weight=2)
    add("three-b", [KA, KA, KS], [U(0), U(1, 32), U(2)], weight=9, **T)
    add("four", [KA, KS, KA, KS], [U(0), U(1, 32), U(2), U(3, 32)], weight=9, **T)
    add("five-del", [KE, KS, KA, KS, KL], [U(0), U(1, 32), U(2), U(3, 32), U(4), D(1)], weight=9, **T)
    add("secure-four", [SEC] * 4, [U(i) for i in range(4)] + [D(1)], secure=True, weight=9, **T)
    # sizes
    for n in (33, 64, 65, 130, 300):
        add("size-key%d" % n, [far(n), far(n), far(n - 1)], [U(0), U(1, 40), U(2), D(1)])
    for n in (300, 1000, 5000):
        add("size-value%d" % n, [[0, A], [1, 0]], [U(0, n), U(1, n)])
    add("size-value66000", [[0, A], [1, 0]], [HUGE(0), U(1)])
    for n in (20, 40):
        add("size-deep%d" % n, chain(n), cons(n, 2) + [U(n), D(n // 2)])
        add("size-deep%d-big" % n, chain(n), cons(n) + [U(n)])
    for n in (40, 130, 300):
        add("size-many%d" % n, crowd(n), cons(n, 2) + [U(n), D(7)])
    return trie_plan(c, "verifiers: the trie itself, a new trie holding the same root, a root-only view")


@prop
def c09():
    c = []

    def add(name, specs, ops, **k):
        for i, p in enumerate(k.pop("probes", [KS, KA])):
            c.append(conf("trie", "honest", "%s/%d" % (name, i), specs=specs, ops=ops, kind="poe",
                          probe=p, **k))
    proof_shapes(add)
    add("empty", [KS, KA], [U(0), U(1)], probes=[KE])
    add("below", [KS, KA], [U(0), U(1, 32)], probes=[KL])
    add("below-empty", [KE, KS], [U(0), U(1, 32)], probes=[KL])
    add("full", [KF, [B, "5"]], [U(0), U(1)], probes=[KF])
    add("branch-full", fill(15), [U(i, 3) for i in range(15)], probes=[[F, A]])
    add("long", [long(14), long(6)], [U(0), U(1)], probes=[long(14), long(6), long(10)])
    add("null", [KS, KA], [["v", 0, "null"], ["v", 1, "null"]], probes=[KS, KA, KE])
    for n in (2, 32):
        f = [0, 0, 0, 0]
        add("nested-%d" % n, [f + [0, 0], f + [0, 1], [0, 1], [1, 0]], [U(i, n) for i in range(4)],
            probes=[["any", KE, KS, KA], [0, 0, 0, 0, A, A], [0, 0, 0, A, A, A], [0, 0, 0, 0, 0, A, A, A]])
        add("nested-odd-%d" % n, [[0] + f + [0], [0] + f + [1], [1, 0]], [U(i, n) for i in range(3)],
            probes=[["any", KE, KS, KA], [0, 0, 0, 0, A, A]])
        add("nested-even-%d" % n, [f + [0, 0, 0, A], f + [0, 0, 1, 0], [0, 0, 1, 0], [0, 0]], [U(i, n) for i in range(4)],
            probes=[["any", KE, KS, KA], [0, 0, 0, 0, A, A]])
    add("secure-one", [SEC], [U(0, 1)], secure=True, probes=[SEC])
    add("sweep", [KANY, KANY], [U(0, [2, 32]), U(1, [2, 32])], probes=[KANY], weight=2)
    add("secure-lens", [["sec", "="], ["sec", 32]], [U(0, [2, 40]), U(1)], secure=True, probes=[["sec", 20], ["sec", 33]])
    add("secure", [SEC, SEC], [U(0), U(1)], secure=True, probes=[SEC])
    add("secure-del", [SEC, SEC], [U(0), U(1), D(0)], secure=True, probes=[SEC])
    add("three-b", [KA, KA, KS], [U(0), U(1, 32), U(2)], weight=9, **T)
    add("four", [KA, KS, KA, KS], [U(0), U(1, 32), U(2), U(3, 32), D(0)], probes=[KS, KA, KL, KE], weight=9, **T)
    add("secure-three", [SEC] * 3, [U(i) for i in range(3)], secure=True, probes=[SEC], weight=9, **T)
    # sizes
    for n in (33, 64, 65, 130, 300):
        add("size-key%d" % n, [far(n), far(n), far(n - 1)], [U(0), U(1, 40), U(2), D(1)], probes=[far(n)])
        add("size-below%d" % n, [far(n)], [U(0, 40)], probes=[far(n + 1), far(n - 1)])
    for n in (300, 1000, 5000):
        add("size-value%d" % n, [[0, A], [1, 0]], [U(0, n), U(1, n)], probes=[KS])
    add("size-value66000", [[0, A], [1, 0]], [HUGE(0), U(1)], probes=[KS])
    for n in (20, 40):
        for m in (2, 40):
            add("size-deep%d-%d" % (n, m), chain(n), cons(n, m) + [U(n)], probes=[[5] * (2 * n) + [A, A], [5] * (2 * n + 2)])
    for n in (40, 130, 300):
        add("size-many%d" % n, crowd(n), cons(n, 2) + [U(n), D(7)], probes=[[3, 1, A, A]])
    return trie_plan(c, "verifiers: the trie itself, a new trie holding the same root, a root-only view")


def attack(kind):
    c = []
    who = {"poi": "absent", "poe": "stored"}[kind]
    probe = kind == "poi"

    def forged(name, specs, ops, specs2, ops2, p, n, **k):
        c.append(conf("trie", "forged", "forged-" + name, specs=specs, ops=ops, specs2=specs2, ops2=ops2,
                      probe=p, kind=kind, n=n, cover=["rejected"], **k))

    def foreign(name, specs, ops, specs2, ops2, p, **k):
        c.append(conf("trie", "foreign", "foreign-" + name, specs=specs, ops=ops, specs2=specs2, ops2=ops2,
                      probe=p, kind=kind, cover=["foreign"], **k))
    P = [[0, 0], [0, 1], [1, 0]]
    forged("one", [[0, A]], [U(0)], [[0, A]], [U(0)], KS, 2)
    forged("one32", [[0, A]], [U(0, 32)], [[0, A]], [U(0, 32)], KS, 2)
    forged("two", [[0, A], [1, 0]], [U(0), U(1)], [[0, 1]], [U(0)], [A, A], 2, weight=2)
    forged("two32", [[0, A], [1, 0]], [U(0, 32), U(1, 32)], [[0, 1]], [U(0, 32)], [A, A], 2, weight=2)
    forged("three", [[0, 0], [0, 1], [1, 0]], [U(0, 32), U(1, 32), U(2, 32)], [[1, 1]], [U(0, 32)], [A, A], 2, weight=4)
    forged("three-n3", [[0, 0], [0, 1], [1, 0]], [U(0, 32), U(1, 32), U(2, 32)], [[1, 1]], [U(0, 32)],
           [1, 1] if probe else [1, 0], 3, roots=False, weight=4)
    forged("three-n3-full", [[0, 0], [0, 1], [1, 0]], [U(0, 32), U(1, 32), U(2, 32)], [[1, 1]], [U(0, 32)], [A, A], 3, weight=9, **T)
    forged("types", [[0, 0], [0, 1], [1, 0]], [U(0, 32), U(1, 32), U(2)], [[1, 1]], [U(0)],
           [1, 1] if probe else [0, 1], 2, types=True, roots=False)
    forged("three-mixed", [[0, 0], [0, 1], [1, 0]], [U(0), U(1, 32), U(2)], [[1, 1], [0, 1]], [U(0), U(1, 32)], [1, A], 2, weight=2)
    forged("empty-key", [KE, [0, 0]], [U(0, 32), U(1, 32)], [[0, 1]], [U(0, 32)], [A, A], 2)
    forged("probe-empty", ([] if probe else [KE]) + [[0, 0], [0, 1]], [U(0, 32), U(1, 32)] + ([] if probe else [U(2)]),
           [KE], [U(0, 32)], KE, 2)
    forged("below", [KE, [0, 0]], [U(0, 32), U(1, 32)], [[0, 0, 0, 0]], [U(0, 32)], [0, 0, A, A] if probe else None, 2)
    forged("above", [[0, 0, 0, 0], [0, 0, 0, 1]], [U(0, 32), U(1, 32)], [[0, 0]], [U(0, 32)], [0, 0] if probe else None, 2)
    forged("deleted", [[0, 0], [0, 1], [1, 0]], [U(0, 32), U(1, 32), U(2, 32), D(1)], [[0, 1]], [U(0, 32)], [0, A], 2, weight=3)
    forged("wild", [[0, 0], [0, 1]], [U(0), U(1)], [[1, 0]], [U(0)], [1, 0] if probe else [0, A], 1, wild=5)
    forged("wild2", [[0, 0], [0, 1]], [U(0, 32), U(1)], [[1, 0]], [U(0)], [1, 0] if probe else [0, A], 2, wild=4, roots=False)
    forged("null", [[0, 0], [0, 1]], [["v", 0, "null"], ["v", 1, "null"]], [[1, 0]], [["v", 0, "null"]], [A, A], 2)
    forged("secure", [SEC], [U(0)], [SEC], [U(0)], None if kind == "poe" else SEC, 2, secure=True)
    foreign("one", [KS], [U(0)], [KS], [U(0)], KS)
    foreign("two", [KS, KA], [U(0), U(1)], [KS], [U(0)], KS)
    foreign("two32", [KS, KS], [U(0, 32), U(1, 32)], [KS], [U(0, 32)], KS, weight=2)
    foreign("two-two", [[0, A], [A, 0]], [U(0, 32), U(1, 32)], [[0, A], [A, 0]], [U(0, 32), U(1, 32)], [A, A], weight=2)
    foreign("long", [long(14), long(6)], [U(0), U(1)], [long(14)], [U(0)], long(14))
    foreign("secure", [SEC], [U(0)], [SEC], [U(0)], SEC, secure=True)

    def transfer(name, specs, ops, probe=None, **k):
        if kind == "poi":
            k.setdefault("tails", ["none", "target"])
            k.setdefault("cut", False)
        c.append(conf("trie", "transfer", "transfer-" + name, specs=specs, ops=ops, probe=probe if kind == "poi" else None,
                      kind=kind, cover=["rejected"], **k))
    for n in (2, 32):
        transfer("one-%d" % n, [[0, 0, 1, 0]], [U(0, n)], ["any", KE, KS, KA, KL])
        transfer("two-%d" % n, [[0, 0, 1, 0], [0, 0, 1, 1]], [U(0, n), U(1, n)], ["any", KE, KS, KA, KL])
        transfer("forks-%d" % n, [[0, 0, 1, 0], [0, 0, 1, 1], [1, 0]], [U(0, n), U(1, n), U(2, n)],
                 ["any", KE, KS, KA, [0, 0, 1, 0, A, A]], donors=[[0, 0], [0, 0, 1, 1, 0, 0], [1, 1]])
        transfer("nested-%d" % n, [KE, [0, 0], [0, 0, 0, 0]], [U(0, n), U(1, n), U(2, n)],
                 ["any", KS, KA, [0, 0, 0, 0, A, A]], donors=[[0, 1], [0, 0, 0, 1]])
        transfer("tails-%d" % n, [[0, 0, 0, 1, 0, 1], [0, 1, 0, 0], [0, 1, 1, 1]], [U(0, n), U(1, n), U(2, n)],
                 ["any", KE, KS, KA, [0, 0, A, A, A, A]], donors=[[0, 1, 1, 0], [0, 0]])
    transfer("extra", [[0, 0, 1, 0], [0, 0, 1, 1], [1, 0]], [U(0, 32), U(1, 32), U(2, 32)],
             ["any", KE, KS, KA], donors=[[1, 1]], extra=True, cut=False, tails=["target"] if kind == "poe" else ["none"])
    transfer("values", [[0, 0, 1, 0], [0, 0, 1, 1], [1, 0]], [["v", 0, "null"], ["v", 1, "null"], ["v", 2, "some"]],
             ["any", KE, KS, KA], donors=[[1, 1]])
    transfer("secure", [["sec", "=6b"], ["sec", "=6b32"], ["sec", "="]], [U(0), U(1), U(2)], ["any", SEC, ["sec", "=30"]],
             donors=[["sec", "=31"]], secure=True)
    forged("three-b", [[0, 0], [0, 1], [1, 0]], [U(0, 32), U(1, 32), U(2, 32)], [[1, 1], [0, A]], [U(0, 32), U(1, 32)], [A, A], 4, weight=9, **T)
    forged("two-b", [[A, A], [A, A]], [U(0, 32), U(1)], [[0, 1]], [U(0)], [A, A], 3, weight=9, **T)
    forged("ext", [[0, 0, 0, 0], [0, 0, 0, 1], [0, 1, 0, 0]], [U(0, 32), U(1, 32), U(2, 32)], [[0, 0]], [U(0, 32)], [0, A, 0, A], 3, weight=9, **T)
    foreign("three", [KS, KS, KA], [U(0), U(1, 32), U(2)], [KS, KA], [U(0), U(1, 32)], KS, weight=9, **T)
    # sizes
    forged("size-key", [far(130)], [U(0)], [far(130)], [U(0)], far(130), 2)
    forged("size-key-less", [far(130)], [U(0, 40)], [far(129)], [U(0, 40)], far(130), 2)
    forged("size-value", [[0, A]], [U(0, 1000)], [[0, A]], [U(0, 1000)], KS, 2)
    foreign("size-key", [far(66), [1, 0]], [U(0), U(1, 40)], [far(66)], [U(0)], far(66))
    foreign("size-deep", chain(20), cons(20) + [U(20)], chain(20), cons(20) + [U(20)], [5] * 40 + [A, A])
    return trie_plan(c, "forged proofs are sequences of up to 2 (thorough: 4) nodes drawn by the solver from the "
                        "honest proof nodes of this trie and another one (inclusion and exclusion, all keys), a leaf made for the "
                        "target, and a node of symbolic bytes, with one of three claimed roots; transferred proofs are the honest "
                        "nodes for any other key (or all nodes), cut at any place, possibly with one node added and one closing null leaf",
                     "longer forged proofs; proofs with no node at all (they raise and are not accepted)")


@prop
def c08():
    return attack("poi")


@prop
def c10():
    return attack("poe")


@prop
def c11():
    c = []

    def add(name, specs, ops, after=(), **k):
        c.append(conf("trie", "codec", name, specs=specs, ops=ops, after=list(after), **k))
    for form in ("mpt", "sparse", "root"):
        f = form + "-"
        add(f + "none", [], [], form=form)
        add(f + "emptied", [KS], [U(0, 32), D(0)], [U(0)], form=form)
        add(f + "one", [KA], [U(0)], [U(0)], probe=KS, form=form)
        add(f + "two", [KS, KA], [U(0), U(1)], [D(0)], form=form)
        add(f + "two32", [KS, KS], [U(0, 32), U(1, 32)], [U(0)], probe=KS, form=form)
        add(f + "three", [KS, KA, KE], [U(0), U(1, 32), U(2, 32)], [D(1)], form=form)
        add(f + "deleted", [KS, KS, KA], [U(0, 32), U(1, 32), U(2), D(0)], [U(0)], form=form)
        add(f + "secure", [SEC, SEC], [U(0), U(1)], [D(1)], secure=True, form=form)
        add(f + "secure-none", [SEC], [U(0), D(0)], [U(0)], secure=True, form=form)
        add(f + "branch", fill(16) + [KE], [U(i, 3) for i in range(17)], [D(3), U(2, 33)], form=form)
        add(f + "long", [long(14), long(6)], [U(0, 56), U(1)], [D(0)], form=form)
        add(f + "big", [KA], [U(0, 300)], [D(0)], form=form)
    add("mpt-sweep", [KANY, KANY], [U(0, [2, 32]), U(1)], [D(0), U(1, 32)], probe=KE, weight=2)
    add("mpt-lens", [["sec", "="], ["sec", 32]], [U(0), U(1)], [D(1), U(0, 33)], secure=True)
    for n in (31, 32, 55, 56, 57, 255, 256):
        add("mpt-len%d" % n, [[0, A]], [U(0, n)], [U(0, 1)])
        add("mpt-two-len%d" % n, [[0, A], [1, 0]], [U(0, n), U(1, 1)], [D(0)])
    add("mpt-three-b", [KS, KA, KS], [U(0), U(1, 32), U(2, 32), D(0)], [U(0), D(1)], probe=KA, weight=9, **T)
    add("mpt-four", [KA, KA, KS, KE], [U(0), U(1, 32), U(2, 32), U(3)], [D(1), U(0)], weight=9, **T)
    add("sparse-four", [KA, KA, KS, KE], [U(0), U(1, 32), U(2, 32), U(3)], [D(1), U(0)], form="sparse", weight=9, **T)
    add("mpt-secure3", [SEC] * 3, [U(0), U(1), U(2)], [D(1), U(0)], secure=True, weight=9, **T)
    # sizes
    for form in ("mpt", "sparse"):
        for n in (33, 64, 65, 130, 300):
            add("%s-size-key%d" % (form, n), [far(n), far(n), far(n - 1)], [U(0), U(1, 40), U(2)], [D(1), U(0)], form=form)
        for n in (1000, 5000):
            add("%s-size-value%d" % (form, n), [[0, A], [1, 0]], [U(0, n), U(1, 3)], [D(0)], form=form)
        add(form + "-size-value66000", [[0, A], [1, 0]], [HUGE(0), U(1)], [D(0)], form=form)
        add(form + "-size-deep", chain(20), cons(20) + [U(20)], [D(3)], form=form)
        for n in (60, 270):
            add("%s-size-many%d" % (form, n), crowd(n), cons(n, 2) + [U(n)], [D(7)], form=form)
    return trie_plan(c)


@prop
def c12():
    c = []

    def add(name, specs, ops, past, how, **k):
        c.append(conf("trie", "tamper", name + "-" + how, specs=specs, ops=ops, past=past, how=how, **k))
    for how in ("byte", "drop", "replace", "value", "add", "swap"):
        b = how == "byte"
        add("two", [[0, A], [1, A]], [U(0, 32), U(1, 32)], 2, how, probe=KS if not b else None, weight=3 if b else 1)
        add("small", [KS, [1, 0]], [U(0, 9), U(1, 31)], 2, how)
        k = [[0, 0], [1, 0]] if b else [[0, A], [1, A]]
        add("past", k, [U(0, 32), U(1, 32), U(0, 32)], 2, how, weight=4 if b else 1, **({"stride": 5} if b else {}))
        if b:
            add("past-all", k, [U(0, 32), U(1, 32), U(0, 32)], 2, how, weight=9, **T)
        add("three", [[0, 0], [0, 1], [1, A]], [U(0, 32), U(1, 32), U(2)], 3, how, weight=3 if b else 1)
        add("past-del", [[0, 0], [0, 1], [1, 0]], [U(0, 32), U(1, 32), U(2, 32), D(0)], 3, how,
            **(T if b else {}))
        add("secure", [SEC], [U(0), U(0)], 1, how, secure=True)
        add("past3", [KS, KS], [U(0, 32), U(1, 32), U(0, 32), D(1)], 2, how, weight=9, **T)
    # sizes
    for how in ("byte", "value", "drop"):
        add("size-key", [far(70), [1, 0]], [U(0, 32), U(1, 3)], 2, how)
        add("size-value", [[0, 1], [1, 0]], [U(0, 300), U(1, 3)], 2, how, **({"stride": 9} if how == "byte" else {}))
    return trie_plan(c, "one alteration of the node list: any byte of any node (in 'past-byte' of the quick tier the first six and "
                        "every fifth) set to any other value, a node "
                        "dropped, replaced, swapped, added, or its value replaced by any bytes of its length",
                     "several alterations at once")


@prop
def c13():
    c = []

    def add(func, name, **k):
        c.append(conf("node", func, name, **k))
    every = [0, 1, 2, 3] + list(range(22, 36)) + [54, 55, 56, 57]
    for n in range(0, 9):
        add("leaf", "leaf-%d" % n, n=n, vlens=every, cover=["embedded", "hashed"])
    add("leaf", "leaf-made", n=5, vlens=[3, 40], how="made")
    add("leaf", "leaf-cut", n=4, vlens=[3, 40], how="cut")
    add("leaf", "leaf-64", n=64, vlens=[1, 56, 255, 256])
    add("leaf", "leaf-63", n=63, vlens=[1, 56, 300], how="made")
    add("leaf", "leaf-big", n=2, vlens=[245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257])
    for kind in ("hash", "leaf", "leaf0", "branch", "ext"):
        for n in (1, 2, 3, 4, 7):
            add("ext", "ext-%s-%d" % (kind, n), n=n, kind=kind)
        add("ext", "ext-%s-made" % kind, n=6, kind=kind, how="made")
        add("ext", "ext-%s-cut" % kind, n=3, kind=kind, how="cut")
        add("ext", "ext-%s-64" % kind, n=64, kind=kind)
        add("branch", "branch-%s" % kind, kinds={"0": kind, "15": kind}, vlens=[0, 1, 2, 33])
        add("branch", "branch-%s-mid" % kind, kinds={"7": kind}, vlens=[0, 1, 12, 13, 14, 15, 16, 17, 55, 56])
        add("branch", "branch-%s-none" % kind, kinds={"3": kind, "8": kind}, vlens=[0], value=False)
    add("branch", "branch-value", kinds={}, vlens=[0, 1, 2, 12, 13, 14, 15, 16, 55, 56])
    add("branch", "branch-all", kinds={"*": "hash"}, vlens=[0, 1, 32])
    add("branch", "branch-mixed", kinds={"0": "hash", "1": "leaf", "5": "ext", "9": "branch", "15": "hash"}, vlens=[0, 3, 60])
    for n in list(range(9, 20)) + [30, 31, 62]:
        add("leaf", "leaf-%d" % n, n=n, vlens=list(range(0, 60)), **T)
    # sizes
    for n in (65, 66, 129, 130, 255, 256, 600):
        add("leaf", "size-leaf-%d" % n, n=n, vlens=[1, 40])
        add("ext", "size-ext-%d" % n, n=n, kind="hash")
    add("leaf", "size-value", n=2, vlens=[1000, 5000])
    add("branch", "size-branch", kinds={"0": "hash"}, vlens=[300, 1000])
    return {"configs": c,
            "bounds": "leaves and extensions with paths of 0-8, 63-66, 129, 130, 255, 256 and 600 half-bytes (all symbolic; paths over raw bytes "
                      "with and without skipped half-bytes, and made by combining or cutting), values of 0-4, 22-35, 54-57 and "
                      "245-300, 1000 and 5000 symbolic bytes; children: none, a symbolic hash, and embedded leaves, branches and "
                      "extensions with symbolic values; branches with up to 5 (or 16 hashed) children",
            "outside": "longer paths and values; children whose encoding is not a node; decoding for skeleton tries "
                       "(include_data=False)",
            "assumptions": HASH_ASSUME[:1] + HASH_ASSUME[2:]}


@prop
def c14():
    c = []

    def add(func, name, **k):
        c.append(conf("node", func, name, **k))
    for n in range(0, 7):
        for lead in (0, 1, 2):
            add("path_one", "one-%d-%d" % (n, lead), n=n, lead=lead, cover=["path"])
        add("path_one", "one-%d-made" % n, n=n, lead=0, how="made", cover=["path"])
        add("path_one", "one-%d-cut" % n, n=n, lead=0, how="cut", cover=["path"])
    for n in (31, 32, 33, 64):
        add("path_one", "one-%d" % n, n=n, lead=n % 3, cuts=False, cover=["path"])
    for n in range(0, 5):
        for m in range(0, 5):
            add("path_two", "two-%d-%d" % (n, m), n=n, m=m, lead=(n + m) % 3, lead2=n % 2,
                cover=["common0", "common%d" % min(n, m)])
    for h in ("made", "cut"):
        for h2 in ("bytes", "made", "cut"):
            for n, m in ((3, 4), (4, 3), (3, 3), (2, 5)):
                add("path_two", "two-%s-%s-%d-%d" % (h, h2, n, m), n=n, m=m, how=h, how2=h2,
                    cover=["common%d" % min(n, m)])
    add("path_two", "two-20-21", n=20, m=21, cover=["common0", "common20"])
    for n in range(5, 10):
        for m in range(5, 10):
            for h in ("bytes", "made", "cut"):
                add("path_two", "two-%s-%d-%d" % (h, n, m), n=n, m=m, how=h, lead=n % 3, **T)
    add("path_two", "two-64-63", n=64, m=63, **T)
    # sizes
    for n in (65, 66, 127, 128, 129, 255, 256, 257, 600):
        add("path_one", "size-%d" % n, n=n, lead=n % 3, cuts=False, cover=["path"])
    for n in (63, 65, 130):
        add("path_two", "size-two-%d" % n, n=n, m=n - 1, cover=["common0"])
    return {"configs": c,
            "bounds": "paths of 0-6, 20, 21, 31-33, 64-66, 127-129, 255-257 and 600 fully symbolic half-bytes, over raw bytes with 0-3 skipped "
                      "half-bytes or made by combining or cutting; every cut, both flags; pairs of up to 5 half-bytes each "
                      "(and 20/21, 63/62, 65/64, 130/129)",
            "outside": "longer pairs, negative offsets, cutting more than the path holds",
            "assumptions": []}


def V(i, n, kind="b", *item):
    """write through the mapping: b bytes, a bytearray, o object"""
    return ["u", i, n, kind] + list(item)


MAP_BOUNDS = (
    "keys as for the trie (symbolic nibbles over {0,1} or all 16 values, 0-3 bytes; 0-64 bytes in secure mode); values of 0-60, 100 "
    "255-300, 1000 and 5000 fully symbolic bytes, keys of 33-300 bytes with a symbolic last byte, values as bytes, bytearray or objects with RLP encoding; operations (rebuilding the trie included) as "
    "listed per configuration, up to 3 freely chosen ones")
MAP_OUT = "more keys or operations, longer values, storages that fail"
MAP_ASSUME = HASH_ASSUME + [
    "digests that are encoded as integers start with a non-zero byte (digests with leading zeros are covered with fixed data)"]


def map_plan(c, bounds="", outside=""):
    return {"configs": c, "bounds": (MAP_BOUNDS + "; " + bounds).rstrip("; "),
            "outside": (MAP_OUT + "; " + outside).rstrip("; "), "assumptions": MAP_ASSUME}


@prop
def c15():
    c = []

    def add(name, specs, ops, **k):
        c.append(conf("empt", "mapping", name, specs=specs, ops=ops, **k))
    both = ["present", "absent"]
    add("none", [KS], [], cover=["absent"])
    for kind in "bao":
        add("one-" + kind, [KA], [V(0, 3, kind)], probe=KS, cover=["present"])
        add("two-" + kind, [KS, KA], [V(0, 3, kind), V(1, 40, kind, 1)], probe=KS, cover=both)
        add("overwrite-" + kind, [KS, KA], [V(0, 3), V(1, 5), V(0, 7, kind), V(1, 5, kind)], cover=["present"])
        add("delete-" + kind, [KS, KA, KS], [V(0, 3, kind), V(1, 5, kind), V(2, 6, kind, 1), ["d", 0], ["d", 2, 1]],
            cover=["delete", "refused"])
    add("lengths", [KS], [V(0, 3)], free=1, extra="u", vlens=[0, 1, 2, 55, 56, 60], kinds="bao")
    add("empty-key", [KE, KS, KA], [V(0, 3), V(1, 0, "o"), V(2, 1, "a")], probe=KS, cover=both)
    add("default", [KS, KA], [V(0, 3), V(1, 5), ["d", 0]], storage="default", probe=KS)
    add("own", [KS, KA], [V(0, 3), V(1, 5, "o", 1), ["d", 0]], storage="own", probe=KS)
    add("own-free", [KS, [1, A]], [V(0, 3)], storage="own", free=2, extra="udp")
    add("free", [KS, [1, 0]], [], free=3, extra="ud", vlens=[3])
    add("free-kinds", [KS, [1, A]], [V(0, 3)], free=2, kinds="bao", vlens=[2, 33])
    add("mixin", [[0, A], [1, 0]], [V(0, 3), V(1, 4, "o")], free=2, extra="psci")
    add("mixin-own", [[0, A], [1, 0]], [V(0, 3), V(1, 4, "o")], free=2, extra="psci", storage="own")
    add("mixin-empty", [[0, A], [1, 0]], [V(0, 0), V(1, 0, "a")], free=2, extra="psci", vlens=[0, 3])
    add("mixin-falsy", [KS, [1, 0]], [V(0, 3, "f"), ["setdefault", 0, 3], ["setdefault", 1, 0], ["setdefault", 1, 3, "f"], ["pop", 0, 1], ["pop", 0, 1]], every=True)
    add("mixin-default", [KS, KA, KE], [V(0, 3), ["setdefault", 1, 3, "o"], ["pop", 0, 1], ["setdefault", 2, 0, "a"], ["pop", 1]], every=True)
    add("cleared", [KS, KA], [V(0, 3), V(1, 40, "o"), ["clear"], V(1, 3, "a"), ["setdefault", 0, 3]], every=True, root=True)
    add("cleared-own", [KS, KA], [V(0, 3), ["clear"], ["clear"], V(1, 3, "o")], storage="own", every=True, root=True)
    add("cleared-secure", [SEC, SEC], [V(0, 3), V(1, 3), ["clear"], V(1, 3)], secure=True, root=True)
    add("every", [[0, A], [1, 0], [0, 0, A, 0]], [V(0, 3), V(1, 4, "o"), ["d", 0], V(2, 2, "a"), V(0, 9), ["d", 1]], every=True)
    add("full", [KF, [F, "5"]], [V(0, 3), V(1, 4)], weight=2)
    add("many", fill(16) + [KE], [V(i, 2) for i in range(17)] + [["d", 3], ["d", 16], V(4, 3, "o")], every=False)
    add("secure", [SEC, SEC], [V(0, 3), V(1, 5, "o")], secure=True, probe=SEC, cover=both)
    add("secure-del", [SEC, SEC], [V(0, 3), V(1, 5), ["d", 0]], secure=True)
    add("root", [KS, KA], [V(0, 3), V(1, 5, "a"), V(0, 1)], root=True)
    add("rebuilt", [KS, [1, A]], [V(0, 3), V(1, 4, "o")], free=2, extra="udb", weight=2)
    add("rebuilt-own", [KS, [1, A]], [V(0, 3), ["b"], V(1, 4, "a"), ["d", 0]], storage="own", every=True)
    add("sweep", [KANY, KANY], [V(0, [0, 3, 40]), V(1, 5, "o")], free=1, kinds="ba", weight=2)
    add("sweep-over", [KANY, [0, 0]], [V(0, 3, "o"), V(1, 5), V(0, [0, 3], "b"), ["d", 1]], weight=2)
    for n in (31, 32, 33, 100, 255, 256, 257):
        add("len%d" % n, [[0, A], [1, 0]], [V(0, n, "o"), V(1, n, "a"), V(0, 1, "b")])
    add("secure-lens", [["sec", "="], ["sec", 32], ["sec", 20]], [V(0, 3), V(1, 40, "o"), V(2, 0, "a"), ["d", 1]], secure=True,
        probe=["sec", 33])
    add("secure-rebuilt", [["sec", "=00"], ["sec", 31]], [V(0, 3), V(1, 4), ["b"], ["d", 0]], secure=True)
    add("free4", [KS, [1, A]], [], free=4, extra="udps", vlens=[3, 33], weight=9, **T)
    add("free3-three", [KS, KA, KE], [V(0, 3)], free=3, kinds="bo", weight=9, **T)
    add("secure-free", [SEC, SEC], [V(0, 3)], free=3, secure=True, weight=9, **T)
    # sizes
    for n in (33, 64, 130, 300):
        add("size-key%d" % n, [far(n), far(n), far(n - 1)], [V(0, 3), V(1, 40, "a"), V(2, 3, "o"), ["d", 1]], probe=far(n))
    add("size-deep", chain(12, ()), cons(12, 2) + [V(12, 3), ["d", 3]], every=False)
    for n in (40, 130):
        add("size-many%d" % n, crowd(n, (1, 0)), cons(n, 2) + [V(n, 3), ["d", 3]], every=False)
    add("size-drain", crowd(40, (1, 0)), cons(40, 2) + [V(40, 3)] + [["d", i] for i in range(38)], every=False, root=True)
    add("size-churn", [KS, [1, A]], [x for i in range(20) for x in (CON(i % 2, 2 + i % 3), ["d", i % 2, 1] if i % 3 else ["pop", i % 2])] + [V(0, 3, "o"), V(1, 1)], root=True)
    for n in (1000, 5000):
        add("size%d" % n, [[0, A], [1, 0]], [V(0, n, "o"), V(1, n, "a"), V(0, 1, "b")])
    return map_plan(c, "dict storages, default storages and storages with only the documented methods")


@prop
def c16():
    c = []

    def add(name, how, specs, ops, vlens=(0, 2, 3, 4, 33), **k):
        c.append(conf("empt", "altered", name + "-" + how, how=how, specs=specs, ops=ops, vlens=list(vlens),
                      cover=["altered"], **k))
    for how in ("other", "byte", "swap", "boundary", "remove", "junk"):
        add("one" if how != "swap" else "two-equal", how, [KS, KA], [V(0, 3)] + ([V(1, 3)] if how == "swap" else []), kinds="bao")
        add("two", how, [KS, KA], [V(0, 3), V(1, 4, "o")], kinds="b")
        add("deleted", how, [KS, KA, [1, 0]], [V(0, 3), V(1, 4), V(2, 3, "a"), ["d", 0]], kinds="b")
        add("empty-key", how, [KE, KS], [V(0, 40), V(1, 40)], vlens=[39, 40], kinds="b")
        add("secure", how, [SEC, SEC], [V(0, 3), V(1, 4)], secure=True, kinds="b")
    add("bytearray", "mutate", [KS, KA], [V(0, 3, "a"), V(1, 3, "a")])
    add("object", "object", [KS, KA], [V(0, 3, "o"), V(1, 3, "o")])
    add("zero", "other", [KS], [V(0, 0)], kinds="bao")
    for how in ("other", "remove"):
        add("falsy", how, [KS, KA], [V(0, 3, "f"), V(1, 3)], kinds="bf")
    for how in ("other", "byte", "boundary", "remove"):
        add("sweep", how, [KANY, [0, 1]], [V(0, 3), V(1, 4, "o")], kinds="b")
        add("lens", how, [["sec", "="], ["sec", 32]], [V(0, 3), V(1, 4)], secure=True, kinds="b")
        add("rebuilt", how, [KS, [1, A]], [V(0, 3), V(1, 4), ["b"]], kinds="b")
    add("long", "byte", [[0, 0]], [V(0, 80)])
    add("long", "other", [[0, 0]], [V(0, 300)], vlens=[299, 300], kinds="bo")
    for how in ("other", "byte", "swap"):
        add("three", how, [KS, KA, KE], [V(0, 3), V(1, 4, "o"), V(2, 33, "a"), V(0, 3)], kinds="bao", weight=9, **T)
    # sizes
    add("size-key", "byte", [far(130)], [V(0, 3)])
    add("size", "other", [[0, 0], [0, 1]], [V(0, 1000), V(1, 3)], vlens=[1000], kinds="bo")
    return map_plan(c, "one alteration of the data storage: another value of any content and of length 0-40, any byte, two "
                       "values swapped, a byte moved between key and value, an entry removed or replaced by something else, "
                       "a stored bytearray or object changed in place")


@prop
def c17():
    c = []
    c.append(conf("empt", "refcodec", "codec", klens=[0, 1, 2, 5, 32], dlens=[0, 1, 2, 30, 55, 56, 60]))
    c.append(conf("empt", "refcodec", "codec-long", klens=[1, 56, 60], dlens=[1, 3, 200, 256]))
    c.append(conf("empt", "refzero", "zero"))
    for a, b, d, e in ((1, 2, 1, 2), (1, 2, 2, 1), (0, 3, 1, 2), (0, 3, 3, 0), (2, 2, 2, 2), (2, 0, 1, 1), (3, 3, 3, 2),
                       (5, 5, 6, 4), (0, 0, 0, 0), (4, 32, 4, 32), (4, 32, 32, 4)):
        c.append(conf("empt", "refequal", "equal-%d-%d-%d-%d" % (a, b, d, e), klen1=a, dlen1=b, klen2=d, dlen2=e))
    for k, d in ((0, 0), (1, 1), (2, 3), (4, 60)):
        c.append(conf("empt", "reftamper", "byte-%d-%d" % (k, d), klen=k, dlen=d, what="byte", cover=["tampered"],
                      weight=3))
        for w in ("flag", "key", "data", "hash"):
            for o in (None, 0, 1, 2, 5, 31, 32, 33):
                n = {"flag": 2, "key": k, "data": d, "hash": 32}[w]
                if o == n or (o is None and n == 0):
                    continue
                c.append(conf("empt", "reftamper", "%s-%d-%d-%s" % (w, k, d, o), klen=k, dlen=d, what=w, olen=o,
                              cover=["tampered"]))
    for k, d in ((1, 1), (2, 3), (0, 4)):
        c.append(conf("empt", "refmoved", "moved-%d-%d" % (k, d), klen=k, dlen=d))
    c.append(conf("empt", "reftamper", "byte-9-200", klen=9, dlen=200, what="byte"))
    # sizes
    c.append(conf("empt", "refcodec", "size-key", klens=[64, 65, 130, 300], dlens=[1]))
    c.append(conf("empt", "refcodec", "size-data", klens=[1], dlens=[1000, 5000]))
    c.append(conf("empt", "refequal", "size-equal", klen1=300, dlen1=1000, klen2=300, dlen2=1000))
    return {"configs": c,
            "bounds": "keys of 0-60 (codec: 300) and data of 0-256 (codec: 5000) fully symbolic bytes; pairs of references of eleven length "
                      "combinations including those that share key+data; alterations: any byte of the encoding of five "
                      "fixed references, or any one of flag, key, data and hash replaced by any bytes of length 0-33",
            "outside": "longer keys and data, alterations of several fields other than moving bytes between key and data "
                       "(the known finding)",
            "assumptions": MAP_ASSUME[:1] + MAP_ASSUME[2:]}


@prop
def c18():
    c = []

    def add(name, specs, ops, later, **k):
        c.append(conf("empt", "views", name, specs=specs, ops=ops, later=later, **k))

    def sp(name, specs, ops, **k):
        c.append(conf("empt", "sparse", "sparse-" + name, specs=specs, ops=ops, **k))
    add("none", [KS], [], [V(0, 3)], cover=[])
    add("emptied", [KS], [V(0, 3), ["d", 0]], [V(0, 3)])
    add("one", [KA], [V(0, 3)], [V(0, 4)], probe=KS, cover=["reference", "proof"])
    add("two", [KS, KA], [V(0, 3), V(1, 4, "o")], [["d", 0]], probe=KS, cover=["reference", "proof"])
    add("two-back", [KS, [1, A]], [V(0, 3), V(1, 4, "a")], [V(1, 3)], back=True)
    add("deleted", [KS, [1, A], KA], [V(0, 3), V(1, 4), V(2, 5), ["d", 1]], [["d", 0], V(1, 2)], weight=2)
    add("empty-key", [KE, KS], [V(0, 3), V(1, 3)], [["d", 0]], probe=KS)
    add("secure", [SEC, SEC], [V(0, 3), V(1, 4)], [["d", 0]], secure=True)
    add("secure-one", [SEC], [V(0, 3)], [V(0, 4)], probe=SEC, secure=True, back=True)
    add("branch", fill(16), [V(i, 2) for i in range(16)], [V(3, 3), ["d", 5]])
    add("rebuilt", [KS, KA], [V(0, 40), V(1, 40)], [["d", 1], ["b"]])
    add("rebuilt2", [KS, [1, A]], [V(0, 3), V(1, 4)], [["b"], V(0, 5), ["b"]], back=True)
    add("rebuilt-own", [KS, KA], [V(0, 3), V(1, 40)], [V(1, 3), ["b"]], storage="own")
    add("rebuilt-secure", [SEC, SEC], [V(0, 3), V(1, 4)], [["d", 0], ["b"]], secure=True)
    add("own", [KS, KA], [V(0, 3), V(1, 4)], [["d", 0]], storage="own", back=True)
    add("sweep", [KANY, KANY], [V(0, [0, 40]), V(1, 3)], [["d", 0]], weight=2)
    add("lens", [["sec", "="], ["sec", 32]], [V(0, 3), V(1, [0, 40])], [["d", 1]], secure=True, probe=["sec", 33])
    for kind in "bao":
        sp(kind, [KS, KA], [V(0, 3, kind), V(1, 4, kind, 1), ["d", 0], V(0, 40, kind)])
    sp("free", [KS, [1, A]], [V(0, 3, "b")], free=2)
    sp("default", [KS, KA], [V(0, 3, "b"), V(1, 3, "o", 1), ["d", 0, 1]], storage="default")
    sp("own", [KS, KA], [V(0, 3, "b"), V(1, 3, "o", 1), ["d", 0]], storage="own")
    sp("secure", [SEC, SEC], [V(0, 3, "b"), V(1, 3, "o", 1), ["d", 0]], secure=True)
    add("three", [KS, KA, KE], [V(0, 3), V(1, 4, "o"), V(2, 33)], [["d", 0], V(1, 3)], probe=KS, back=True, weight=9, **T)
    sp("free3", [KS, [1, A]], [V(0, 3, "b")], free=3, weight=9, **T)
    # sizes
    add("size-key", [far(130), far(130)], [V(0, 3), V(1, 40)], [["d", 0]], back=True)
    add("size-many", crowd(40, (1, 0)), cons(40, 2) + [V(40, 3)], [["d", 0]], back=True)
    add("size", [[0, A], [1, 0]], [V(0, 1000), V(1, 3)], [["d", 0]], back=True)
    sp("size", [far(130), [1, 0]], [V(0, 1000), V(1, 3, "o"), ["d", 0], V(0, 40)])
    return map_plan(c)


@prop
def c19():
    c = []

    def add(name, cls, specs, free, vlens=(3,), **k):
        c.append(conf("empt", "independent", name, cls=cls, specs=specs, free=free, vlens=list(vlens), cover=["stored"], **k))
    add("empt", ["empt", "empt"], [[0, A], [1, 0]], 2)
    add("empt-3", ["empt", "empt"], [[0, A]], 3)
    add("sparse", ["sparse", "sparse"], [[0, A], [1, 0]], 2)
    add("sparse-3", ["sparse", "sparse"], [[0, A]], 3)
    add("mixed", ["empt", "sparse"], [[0, A], [1, 0]], 2)
    add("three", ["empt", "sparse", "empt"], [[0, 1]], 3)
    add("trie", ["empt-trie", "empt-trie"], [[0, A], [1, 0]], 2)
    add("data", ["empt-data", "empt-data"], [[0, A], [1, 0]], 2)
    add("half", ["empt-data", "empt-trie", "empt"], [[0, A]], 2)
    add("secure", ["empt", "sparse"], [SEC, ["sec", "="]], 2, secure=True)
    add("kinds", ["empt", "empt"], [KANY], 2, vlens=(0, 3), kinds="bao")
    add("grown", ["empt", "sparse"], [[0, 0], [0, 1], [1, A]], 2, start=[[0, 0, 40], [0, 1, 3], [1, 0, 3], [1, 2, 3]], weight=2)
    add("rebuilt", ["empt", "empt"], [[0, A], [1, 0]], 2, ops="ub")
    add("rebuilt-start", ["empt", "empt-data", "sparse"], [[0, 0], [1, A]], 1, start=[[0, 0, 40], [0, 1, 3], [1, 0, 3], [2, 1, 3]], ops="b")
    add("equal", ["empt", "empt"], [[0, 0], [0, 1], [1, A]], 1, start=[[w, i, 40] for w in (0, 1) for i in (0, 1, 2)], ops="db", weight=2)
    add("empt-4", ["empt", "empt"], [[0, A], [1, 0]], 3, weight=9, **T)
    add("all-4", ["empt", "sparse", "empt-data"], [[0, A]], 4, weight=9, **T)
    # sizes
    add("size", ["empt", "sparse"], [far(130), [1, A]], 2, vlens=(300,))
    return map_plan(c, "two or three instances, up to 3 (thorough: 4) freely chosen operations on freely chosen instances, "
                       "followed by the creation of further instances")


@prop
def c20():
    c = []

    def add(name, specs, ops, change, **k):
        c.append(conf("empt", "rebuild", name, specs=specs, ops=ops, change=change, **k))
    add("none", [KS], [], [])
    add("fresh", [KS, KA], [], [V(0, 3), V(1, 40)])
    add("same", [KS, KA], [V(0, 3), V(1, 40)], [])
    add("kinds", [KS, KA, KE], [V(0, 3, "a"), V(1, 40, "o")], [V(2, 3, "o")])
    add("changed", [KS, KA], [V(0, 3), V(1, 40)], [V(0, 5), V(1, 1, "a")])
    add("removed", [KS, KA], [V(0, 3), V(1, 40)], [["d", 0]])
    add("emptied", [KS, KA], [V(0, 3), V(1, 40)], [["d", 0], ["d", 1]])
    add("deleted", [KS, KA, KS], [V(0, 3), V(1, 40), V(2, 1), ["d", 0]], [V(1, 2)])
    add("foreign", [KS, KA], [V(0, 3)], [V(1, 4)], foreign=True)
    add("twice", [KS, KA], [V(0, 3), V(1, 4)], [V(0, 3)], twice=True)
    add("own", [KS, KA], [V(0, 3), V(1, 40)], [V(0, 4)], storage="own")
    add("secure", [SEC, SEC], [V(0, 3)], [V(1, 4)], secure=True)
    for d in ("lost", "bytes", "empty", "root"):
        add("damaged-" + d, [KS, KA], [V(0, 3), V(1, 40)], [V(0, 4)], damage=d)
        add("damaged-secure-" + d, [SEC, SEC], [V(0, 3), V(1, 40)], [["d", 0]], damage=d, secure=True, storage="own")
    add("falsy", [KS, KA, KE], [V(0, 3, "f"), V(1, 0)], [V(2, 3, "f"), V(1, 0, "a")])
    add("secure-foreign", [SEC, SEC], [V(0, 3)], [V(1, 4)], secure=True, foreign=True)
    add("branch", fill(16), [V(i, 2) for i in range(16)], [["d", 3], V(4, 5)])
    add("sweep", [KANY, KANY], [V(0, [0, 3, 40]), V(1, 4)], [V(0, [0, 3], "o")], weight=2)
    add("lens", [["sec", "="], ["sec", 32]], [V(0, 3), V(1, 4)], [["d", 0], V(1, 0)], secure=True)
    add("history", [KS, [1, A], KE], [V(0, 3), ["b"], V(1, 4), ["d", 0], V(2, 5)], [V(0, 1, "a")])
    for n in (31, 32, 56, 256):
        add("len%d" % n, [[0, A], [1, 0]], [V(0, n), V(1, 1)], [V(1, n, "o")])
    add("three", [KS, KA, KS, KE], [V(0, 3), V(1, 40), V(2, 3), V(3, 1)], [V(0, 1), ["d", 2]], weight=9, **T)
    # sizes
    add("size-key", [far(130), far(130)], [V(0, 3), V(1, 40)], [V(0, 5)])
    add("size-many", crowd(40, (1, 0)), cons(40, 2) + [V(40, 3)], [V(0, 5)])
    add("size-deep", chain(12, ()), cons(12, 2) + [V(12, 3)], [V(0, 5)])
    for n in (1000, 5000):
        add("size%d" % n, [[0, A], [1, 0]], [V(0, n), V(1, 1)], [V(1, n, "o")])
    return map_plan(c)


MT_ASSUME = HASH_ASSUME[:1]
MT_BOUNDS = "values are fully symbolic byte strings of the stated lengths"


@prop
def c21():
    c = []

    def add(name, n, vlen, **k):
        c.append(conf("mt", "root", name, n=n, vlen=vlen, cover=["root"], **k))
    for n in list(range(1, 18)) + [31, 32, 33]:
        add("secure-%d" % n, n, 3)
        add("plain-%d" % n, n, [3, 0, 33], secure=False)
    for how in ("list", "tuple", "mixed", "lazy"):
        for n in (1, 2, 5, 8, 11):
            add("%s-%d" % (how, n), n, [1, 32], how=how)
            add("%s-%d-plain" % (how, n), n, [32, 2], how=how, secure=False)
    for h in ("md5", "sha224", "sha384", "sha512", "sha3_256", "sha3_224", "sha3_384", "sha3_512"):
        add("hash-" + h, 5, 4, hash_type=h)
        add("hash-plain-" + h, 3, 4, hash_type=h, secure=False)
        add("hash-upper-" + h, 2, 4, hash_type=h, upper=True)
    for n in (1, 2, 3, 4, 5, 7):
        c.append(conf("mt", "order", "order-%d" % n, n=n, vlen=3))
        c.append(conf("mt", "order", "order-%d-plain" % n, n=n, vlen=32, secure=False))
    for n in (64, 65, 100, 127, 128, 129):
        add("secure-%d" % n, n, 3, **T)
        add("plain-%d" % n, n, [3, 0, 33], secure=False, **T)
    # sizes
    for n in (63, 64, 65, 100, 127, 128, 129, 200, 256, 257):
        add("size-%d" % n, n, 3)
        add("size-plain-%d" % n, n, [3, 0, 33], secure=False)
        add("size-list-%d" % n, n, 3, how="list")
    for n in (64, 65, 130, 1000, 5000):
        add("size-value-%d" % n, 3, n)
        add("size-value-plain-%d" % n, 3, n, secure=False)
    return {"configs": c, "bounds": MT_BOUNDS + "; 1-17, 31-33, 63-65, 100, 127-129, 200, 256 and 257 leaves of 0-33 bytes (three of up to 5000), both modes, "
            "all nine hash functions, leaves added one by one, as list, as tuple, mixed with building",
            "outside": "more leaves, longer values; leaf concatenations that coincide in plain mode are compared as the hash sees them",
            "assumptions": MT_ASSUME}


@prop
def c22():
    c = []

    def add(name, n, vlen=3, **k):
        c.append(conf("mt", "proofs", name, n=n, vlen=vlen, cover=["proof"], **k))
    for n in range(1, 14):
        add("secure-%d" % n, n)
        if n < 8:
            add("plain-%d" % n, n, [32], secure=False)
        else:
            add("plain-%d" % n, n, 6, secure=False)
            add("plain-wide-%d" % n, n, 32, secure=False, **T)
    add("secure-17", 17)
    add("plain-mixed", 6, [0, 3, 33, 64, 1, 5], secure=False)
    for n in (2, 3, 4, 5, 6, 7):
        add("dup-%d" % n, n, dup=True)
        add("dup-%d-plain" % n, n, dup=True, secure=False)
    for h in ("md5", "sha224", "sha384", "sha512", "sha3_256", "sha3_224", "sha3_384", "sha3_512"):
        add("hash-" + h, 5, hash_type=h)
    for n in (1, 2, 5, 8):
        add("base-%d" % n, n, base=True)
        add("base-%d-plain" % n, n, base=True, secure=False)
    for n in (31, 32, 33, 64, 65):
        add("secure-%d" % n, n, 3, **T)
        add("plain-%d" % n, n, 3, secure=False, **T)
    for n in (8, 9, 10, 11, 12):
        add("dup-%d" % n, n, dup=True, **T)
    # sizes
    for n in (64, 65, 130, 200):
        add("size-value-%d" % n, 3, n)
        add("size-value-plain-%d" % n, 3, n, secure=False)
    return {"configs": c, "bounds": MT_BOUNDS + "; 1-13 and 17 (thorough: 65) leaves, three leaves of up to 200 bytes, every position, pairwise different "
            "values or one duplicate at any pair of positions, both modes, all nine hash functions, tree and base class",
            "outside": "more leaves", "assumptions": MT_ASSUME}


@prop
def c23():
    c = []

    def add(name, n, vlen=3, **k):
        c.append(conf("mt", "forged", name, n=n, vlen=vlen, cover=["rejected"], **k))
    for n in (1, 2, 3, 4, 5):
        add("own-%d" % n, n, steps=2 if n < 5 else 1, tlen=3, weight=2)
    add("three-steps", 3, steps=3, tlen=3, weight=4)
    for tl in (0, 1, 32, 33, 64):
        add("length-%d" % tl, 2, steps=2, tlen=tl)
        add("length3-%d" % tl, 3, steps=1, tlen=tl)
    add("leaf-length", 3, vlen=[3, 31, 60], steps=2, tlen=32)
    add("leaf-length2", 3, vlen=[32, 32, 32], steps=2, tlen=32)
    add("wild", 2, steps=2, tlen=3, wild=[0, 32])
    add("wild2", 3, steps=1, tlen=32, wild=[0, 1, 16, 32, 33, 64])
    add("roots", 2, steps=1, tlen=3, roots="any", wild=[32])
    add("roots3", 3, steps=1, tlen=32, roots="any", wild=[32])
    add("junk", 2, steps=2, tlen=3, junk=True)
    for h in ("md5", "sha512", "sha3_256"):
        add("hash-" + h, 3, steps=2, tlen=3, hash_type=h)
    for s in (True, False):
        m = "" if s else "-plain"
        for a, b in ((1, 1), (2, 2), (3, 3), (4, 4), (3, 4), (1, 2), (5, 3)):
            if not s and a != b:
                continue
            c.append(conf("mt", "otherroot", "other-%d-%d%s" % (a, b, m), n=a, m=b, vlen=3 if s else 32, secure=s))
    for n in (2, 3, 4, 5):
        c.append(conf("mt", "otherproof", "altered-%d" % n, n=n, vlen=3, cover=["value", "drop", "side", "sibling", "move"]))
    add("deep", 5, steps=3, tlen=3, weight=9, **T)
    add("deep-wild", 4, steps=3, tlen=32, wild=[32], weight=9, **T)
    for n in (7, 8, 9):
        c.append(conf("mt", "otherproof", "altered-%d" % n, n=n, vlen=3, **T))
    # sizes
    for n in (65, 130):
        add("size-%d" % n, 3, vlen=n, steps=1, tlen=n)
    for n in (6, 12, 17):
        add("size-leaves-%d" % n, n, steps=1, tlen=3)
    return {"configs": c, "bounds": MT_BOUNDS + "; trees of 1-5 (6, 12 and 17 with one step) leaves of 3-130 bytes; forged paths of up to 3 steps whose sides and siblings the solver "
            "chooses among all node digests of the tree, the target's digest and fully symbolic strings of 0-64 bytes; targets of 0-64 symbolic "
            "bytes; claimed roots: the tree's, the target's digest or 32 symbolic bytes; honest proofs with any one part changed",
            "outside": "longer forged paths; values that are the concatenation of two node digests (carved out by the property)",
            "assumptions": MT_ASSUME}


@prop
def c24():
    c = []

    def add(name, steps, **k):
        c.append(conf("mt", "history", name, steps=steps, **k))
    add("tree-4", 4, cover=["root", "proof", "size0", "size4"], weight=4)
    add("tree-4-plain", 4, secure=False, vlen=32, ops="pmrgq", weight=2)
    add("tree-5-small", 5, ops="pmr", weight=2)
    add("tree-start", 3, start=3)
    add("tree-start5", 3, start=5)
    add("tree-md5", 3, start=1, hash_type="md5")
    add("base-4", 4, cls="base", ops="pmrgq", weight=2)
    add("base-plain", 3, cls="base", start=2, secure=False, vlen=5)
    add("dup", 3, dup=True, ops="pmgql", vlen=2)
    add("dup-plain", 3, dup=True, ops="pmgq", vlen=4, secure=False)
    add("dup-base", 3, dup=True, ops="pmgq", vlen=2, cls="base")
    for n, m in ((1, 1), (2, 2), (3, 3), (1, 2), (4, 4), (5, 5)):
        c.append(conf("mt", "equal", "equal-%d-%d" % (n, m), n=n, m=m, vlen=3))
        if n == m:
            c.append(conf("mt", "equal", "equal-%d-%d-plain" % (n, m), n=n, m=m, vlen=32, secure=False))
    for n, m in ((1, 1), (1, 2), (2, 2), (3, 3)):
        c.append(conf("mt", "equal", "equal-more-%d-%d" % (n, m), n=n, m=m, vlen=3, refill="more"))
    c.append(conf("mt", "equal", "equal-lengths", n=1, m=1, vlen=3, vlen2=4, secure=False))
    add("tree-6", 6, ops="pmrgq", weight=9, **T)
    add("base-6", 6, cls="base", ops="pmrgq", weight=9, **T)
    add("tree-start9", 4, start=9, weight=9, **T)
    # values that come back after a reset, with other neighbours or at another place
    for sc in ("ppmfrapmf", "ppmfrpamf", "pmfrpapmf", "pppmfgrappmg", "ppmfgrapgf", "ppmfrapf", "ppmgfpfmf", "pmfgrmpamfg"):
        add("again-" + sc, 0, script=sc)
    add("again-plain", 0, script="ppmfrapmf", secure=False, vlen=5)
    add("again-base", 0, script="ppmfrapmf", cls="base")
    # long histories
    for sc in ("pg" * 12, "ppmg" * 5 + "rp" + "pmg" * 4, "prpm" * 6 + "pg", "p" * 16 + "m" + "pgm" * 3):
        add("size-long-%d-%s" % (len(sc), sc[:6]), 0, script=sc)
    add("size-long-base", 0, script="pg" * 10 + "rppmg", cls="base")
    add("size-long-plain", 0, script="pg" * 10 + "rppmg", secure=False, vlen=5)
    # sizes
    add("size", 2, start=17, ops="pgr")
    add("size-plain", 2, start=9, ops="pgl", secure=False, vlen=5)
    add("size-value", 3, vlen=130, ops="pmgr")
    return {"configs": c, "bounds": MT_BOUNDS + "; every sequence of up to 4-5 (thorough: 6) operations out of put, put_list, make, reset, root, proof "
            "after 0-5 leaves, ten fixed sequences in which a value returns after a reset, followed by requests for the root and for every leaf's proof; both modes, tree and base class; pairs of "
            "trees of up to 5 leaves",
            "outside": "longer histories, larger trees", "assumptions": MT_ASSUME}


@prop
def c25():
    c = []

    def add(name, **k):
        c.append(conf("mt", "codec", name, **k))
    for via in ("json", "rlp"):
        for a in (True, False):
            t = via + ("" if a else "-bytes")
            add(t + "-flat", lens=[3, 2, 2, 2], shape="ff", via=via, ascii=a)
            add(t + "-pairs", lens=[2, 2, 1, 2], shape="pp", via=via, ascii=True)
            add(t + "-none", lens=[1, 0, None, 0], shape="", via=via, ascii=a)
            add(t + "-empty", lens=[0, 0, 0, 0], shape="f", via=via, ascii=a)
            add(t + "-one", lens=[1, 1, 1, 1], shape="f", via=via, ascii=a)
            add(t + "-mixed", lens=[1, 1, 1, 1], shape="fpf", via=via, ascii=True)
            if via == "rlp":
                add(t + "-long", lens=[55, 56, 30, 60], shape="fff", via=via, ascii=a)
        add(via + "-wide", lens=[4, 1, 1, 1], shape="f", via=via, ascii=False)
        for kind in ("MPT-POI", "MPT-POE"):
            add(via + "-" + kind, lens=[3, 3, None, 3], shape="f", via=via, kind=kind, cover=["refused"])
            add(via + "-empty-" + kind, lens=[1, 1, None, 1], shape="", via=via, kind=kind, cover=["refused"])
        for n in (1, 2, 3, 4, 5):
            c.append(conf("mt", "treeproof", "tree-%s-%d" % (via, n), n=n, vlen=2, via=via, cover=["encoded"]))
            c.append(conf("mt", "treeproof", "tree-%s-%d-plain" % (via, n), n=n, vlen=32, via=via, secure=False, cover=["encoded"]))
        c.append(conf("mt", "treeproof", "tree-%s-bytes" % via, n=2, vlen=2, via=via, ascii=False, cover=["encoded"]))
    add("json-long", lens=[6, 6, 6, 6], shape="fp", via="json", weight=9, **T)
    add("json-bytes-long", lens=[4, 4, 2, 4], shape="ff", via="json", ascii=False, weight=9, **T)
    # sizes
    for via in ("json", "rlp"):
        for n in (4, 5, 8):
            add("%s-size-%d" % (via, n), lens=[1, 1, 1, 1], shape="f" * n, via=via, ascii=True)
            add("%s-size-pairs-%d" % (via, n), lens=[1, 1, 1, 1], shape="p" * n, via=via, ascii=True)
    for n in (200, 1000):
        add("rlp-size-value-%d" % n, lens=[n, 3, n, 3], shape="ff", via="rlp", ascii=False)
    return {"configs": c, "bounds": "proofs with 0-3, 4, 5 and 8 path entries, flat or (side, hash) pairs, fields of 0-6 symbolic ASCII "
            "characters (all control characters, quotes and backslashes included) or 0-60, 200 and 1000 (RLP) arbitrary bytes; proofs made by Merkle trees of 1-5 leaves, all positions",
            "outside": "longer fields and paths; nesting deeper than pairs; the standard library's json is a model (sx/stubs.py)",
            "assumptions": MT_ASSUME + ["the timestamp is set through the attribute the test suite uses"]}


@prop
def c26():
    c = []

    def add(name, lens, shape, lens2, shape2, **k):
        c.append(conf("mt", "peq", name, lens=lens, shape=shape, lens2=lens2, shape2=shape2, cover=["compared"], **k))
    L = [3, 3, 3, 3]
    for kind in ("MT-POI", "MPT-POI", "MPT-POE"):
        add("flat-" + kind, L, "ff", L, "ff", kind=kind, kind2=kind)
        add("none-" + kind, L, "", L, "", kind=kind, kind2=kind)
        add("one-" + kind, [2, 32, 2, 40], "f", [2, 32, 2, 40], "f", kind=kind, kind2=kind)
    add("pairs", L, "pp", L, "pp")
    add("kinds", L, "ff", L, "ff", kind="MPT-POI", kind2="MPT-POE")
    add("kinds2", L, "f", L, "f", kind="MT-POI", kind2="MPT-POI")
    for i in range(4):
        M = list(L)
        M[i] = 4
        add("lengths-%d" % i, L, "ff", M, "ff")
    add("shift", [3, 4, 3, 3], "ff", [4, 3, 3, 3], "ff")
    add("count", L, "ff", L, "fff")
    add("count0", L, "", L, "f")
    add("flat-pairs", L, "ff", L, "p")
    add("time", [1, 1, None, 1], "f", [1, 1, None, 1], "f")
    for kind in ("MT-POI", "MPT-POI"):
        for sh in ("", "f", "fff", "pp"):
            c.append(conf("mt", "iterate", "iterate-%s-%s" % (kind, sh), lens=L, shape=sh, kind=kind))
    # sizes
    for n in (4, 5, 6, 8, 10, 17):
        add("size-%d" % n, [1] * 4, "f" * n, [1] * 4, "f" * n)
        if n < 6:
            add("size-pairs-%d" % n, [1] * 4, "p" * n, [1] * 4, "p" * n)
    for n in (64, 65, 100, 200):
        add("size-value-%d" % n, [n] * 4, "", [n] * 4, "")
    return {"configs": c, "bounds": "pairs of proofs with 0-5 path entries, flat (up to 17) or pairs, fields of 1-40 (without entries: 200) fully symbolic bytes of equal or "
            "different lengths, all three kinds; iteration of all kinds, stopped after any number of steps",
            "outside": "longer paths", "assumptions": MT_ASSUME + [
                "repr() of a byte string determines it; texts that differ in structure have different digests",
                "the timestamp is set through the attribute the test suite uses"]}


@prop
def c34():
    c = []
    for cls in ("empt", "sparse"):
        for name, specs, ops, k in (("none", [KS], [], {}), ("two", [KS, KA], [U(0), U(1)], {}),
                                    ("deleted", [KS, [1, A]], [U(0), U(1), D(0)], {}),
                                    ("secure", [SEC], [U(0)], {"secure": True})):
            c.append(conf("empt", "badtypes", cls + "-" + name, cls=cls, specs=specs, ops=ops, cover=["key", "value"], **k))
    for s in (True, False):
        for n in (0, 1, 2, 3):
            c.append(conf("mt", "badtypes", "tree-%d%s" % (n, "" if s else "-plain"), n=n, vlen=4, secure=s,
                          cover=["put", "list-not", "list-first", "list-last", "get", "proof", "verify"]))
    c.append(conf("mt", "badproof", "proof", cover=["target_key", "root_hash", "proof", "proof_type"]))
    return map_plan(c, "unsupported arguments: None, numbers, text, booleans, lists, tuples, dicts, bytearray keys, objects with half of "
                       "the codec or with one that yields no bytes, objects equal to a stored key without being one; every method that takes a key or a value")


# ---------------------------------------------------------------- keys
KEY_ASSUME = [
    "ideal cryptography: an authenticated cipher gives back exactly what was encrypted under the same key, nonce and header and "
    "refuses everything else; a signature verifies exactly for the digest and key it was made for; OAEP decrypts exactly its own "
    "ciphertexts under the matching key; SHA-256 has no collisions; random values and generated keys are fresh",
    "PyCryptodome keeps its documented interface (sx/stubs.py); RSA keys of the model have 1024 bits"]


@prop
def c27():
    c = []

    def add(name, n, pw, ops=("same",), **k):
        c.append(conf("keys", "secret", name, n=n, pw=pw, ops=list(ops), cover=list(ops), **k))
    for n in (0, 1, 2, 15, 16, 17, 33, 64):
        add("same-%d" % n, n, 2)
        add("alter-%d" % n, n, [3, "a"], ["xor"])
        for m in (1, 2, 16) if n in (0, 17) else (1,):
            add("append-%d-%d" % (n, m), n, [2, "a"], ["append"], m=m)
            add("insert-%d-%d" % (n, m), n, [2, "a"], ["insert"], m=m)
            add("cut-%d-%d" % (n, m), n, [2, "a"], ["cut"], m=m)
            add("drop-%d-%d" % (n, m), n, [2, "a"], ["drop"], m=m)
        add("password-%d" % n, n, 1, ["password"])
        add("mix-%d" % n, n, [2, "a"], ["mix"])
    for n in (0, 1, 3):
        add("pass-same-%d" % n, 2, n)
        for m in (0, 1, 2, 3):
            add("pass-%d-%d" % (n, m), 3, n, ["password"], pw2=m, weight=3 if n + m > 4 else 1)
    for n in (8, 16, 31, 32, 33, 64, 65):
        add("pass-long-%d" % n, 3, [n, "a"], ["same", "password"])
        add("pass-longer-%d" % n, 3, [n, "a"], ["password"], pw2=[n + 1, "a"])
    add("pass-shorter", 3, [12, "a"], ["password"], pw2=[8, "a"])
    add("pass-empty", 0, 0, ["same", "xor", "cut"])
    for n in (0, 1, 8, 15, 16, 17, 31, 32, 33, 40):
        add("any-%d" % n, 3, [2, "a"], ["any"], m=n)
        add("any-empty-%d" % n, 0, [2, "a"], ["any"], m=n)
    add("cut-all", 3, [2, "a"], ["none"])
    for m in (3, 17, 19, 33, 34, 35):
        add("cut-more-%d" % m, 3, [2, "a"], ["cut"], m=m)
    for n in (127, 128, 129, 256):
        add("long-%d" % n, n, [2, "a"], ["same", "xor", "password"], weight=3, **T)
        add("long-drop-%d" % n, n, [2, "a"], ["drop", "insert", "append", "cut"], weight=3, **T)
    add("unicode", 3, 4, ["same", "password"], weight=9, **T)
    # sizes
    for n in (100, 127, 128, 129, 256):
        add("size-%d" % n, n, [2, "a"], ["same", "xor", "password"])
    for n in (1000, 4096, 4097, 5000):
        add("size-%d" % n, n, [2, "a"], ["same", "password"])
    for n in (128, 300):
        add("size-pass-%d" % n, 3, [n, "a"], ["same", "password"])
    return {"configs": c, "bounds": "data of 0-256 symbolic bytes, and of 1000-5000 of which 15 are symbolic; passwords of 0-3 (4) arbitrary Unicode characters or up to 300 "
            "ASCII characters; every pattern of changed bits over the whole message; 1, 2 or 16 bytes removed, inserted or appended at any "
            "position; parts of two messages exchanged; arbitrary other messages of 0-40 bytes",
            "outside": "longer data and passwords; the strength of AES-EAX and SHA-256", "assumptions": KEY_ASSUME}


@prop
def c28():
    c = []

    def add(name, n, ops, **k):
        c.append(conf("keys", "signature", name, n=n, ops=list(ops), cover=list(ops), **k))
    for n in (0, 1, 3, 32, 64):
        add("same-%d" % n, n, ["same"])
        add("other-%d" % n, n, ["data"] if n else ["key"])
        add("key-%d" % n, n, ["key"])
        add("alter-%d" % n, n, ["xor"])
    for n, m in ((0, 1), (1, 0), (1, 2), (3, 2), (3, 4), (3, 32), (32, 3), (31, 32), (33, 32), (32, 64)):
        add("lengths-%d-%d" % (n, m), n, ["data"], n2=m)
    for m in (1, 2, 64):
        add("reshaped-%d" % m, 3, ["cut", "drop", "insert", "append"], m=m)
    for m in (0, 1, 32, 64, 127, 128, 129, 256):
        add("any-%d" % m, 3, ["any"], m=m)
    add("cut-all", 3, ["none"])
    for m in (0, 1, 5):
        add("nokey-%d" % m, 3, ["nokey"], m=m)
    for n in (65, 128, 256, 512):
        add("long-%d" % n, n, ["same", "data", "key", "xor"], **T)
    # sizes
    for n in (65, 128, 256, 1000):
        add("size-%d" % n, n, ["same", "data", "key"])
    for n in (4096, 4097, 5000):
        add("size-%d" % n, n, ["same", "data", "key"])
    return {"configs": c, "bounds": "data of 0-256 (thorough: 512) symbolic bytes, and of 1000-5000 of which 15 are symbolic, other data of the same or another length; signatures with any bits "
            "changed, 1, 2 or 64 bytes removed, inserted or appended, arbitrary signatures of 0-256 bytes; two key pairs, general or authentication-only, "
            "in every combination; key given or left out; the right key first and another one afterwards; 0, 1 or 5 arbitrary bytes in the place of the key",
            "outside": "longer data; the strength of RSA PKCS#1 v1.5 and SHA-256; other public keys that cannot be parsed", "assumptions": KEY_ASSUME}


@prop
def c29():
    c = []

    def add(name, n, ops, **k):
        c.append(conf("keys", "message", name, n=n, ops=list(ops), cover=list(ops), **k))
    for n in (0, 1, 3, 16, 33):
        add("same-%d" % n, n, ["same", "self"])
        add("party-%d" % n, n, ["receiver", "sender"])
        for p in ("enc_session_key", "nonce", "tag", "ciphertext", "signature"):
            if n or p != "ciphertext":
                add("alter-%d-%s" % (n, p), n, ["xor"], parts=[p])
        add("mix-%d" % n, n, ["mix", "lost"])
    for m in (1, 2, 8):
        for p in ("enc_session_key", "nonce", "tag", "ciphertext", "signature"):
            add("reshaped-%d-%s" % (m, p), 9, ["cut", "drop", "insert", "append"], m=m, parts=[p], kinds=["full"])
            add("reshaped-empty-%d-%s" % (m, p), 0, ["append"] if p == "ciphertext" else ["cut", "append"], m=m, parts=[p], kinds=["enc"])
    for m in (1, 9, 16, 128):
        add("any-%d" % m, 3, ["any"], m=m, kinds=["full"])
    add("cut-all", 3, ["none"])
    for m in (0, 1, 5):
        add("nokey-%d" % m, 3, ["nokey"], m=m)
    for n in (64, 128, 200):
        add("long-%d" % n, n, ["same", "self", "receiver", "sender", "xor", "mix"], **T)
    # sizes
    for n in (64, 130):
        add("size-%d" % n, n, ["same", "self", "receiver", "sender"])
    for n in (600, 1000, 4096, 4097, 5000):
        add("size-%d" % n, n, ["same"])
    return {"configs": c, "bounds": "messages of 0-130 (thorough: 200) symbolic bytes, and a single one of 600-5000, between two of three parties, general or encryption-only key pairs in "
            "every combination; each part of a message with any bits changed, bytes removed, inserted or appended, replaced by arbitrary bytes or by that "
            "of another message, or left out; messages to oneself; other messages sent and read before; 0, 1 or 5 arbitrary bytes in the place of a public key",
            "outside": "longer messages; forms of the same parts that decode to the same bytes (spaces, upper-case hexadecimal digits); a message taken over by "
            "another party that signs the ciphertext itself; the strength of AES-EAX, RSA-OAEP and PKCS#1 v1.5", "assumptions": KEY_ASSUME}


@prop
def c30():
    c = []

    def add(name, kind, nick, pw, **k):
        c.append(conf("keys", "saved", name, kind=kind, nick=nick, pw=pw, cover=[k.get("what", "same")], **k))
    for kind in ("full", "auth", "enc"):
        for via in ("string", "file"):
            t = kind + "-" + via
            add(t, kind, 2, [3, "l"], via=via)
            add(t + "-empty-name", kind, 0, [1, "l"], via=via)
            add(t + "-no-name", kind, None, [1, "l"], via=via)
            add(t + "-name", kind, "J\u00f6rg \"x\" \\ \U0001f600\n", [2, "l"], via=via)
            add(t + "-other", kind, 1, [2, "l"], via=via, what="passphrase")
            add(t + "-longer", kind, 1, [2, "l"], via=via, what="passphrase", pw2=[3, "l"])
            add(t + "-none", kind, 1, [2, "l"], via=via, what="passphrase", pw2=0)
            add(t + "-nul", kind, 1, [2, "l"], via=via, what="nul")
            add(t + "-secret", kind, 2, [2, "l"], via=via, what="secret")
            add(t + "-long", kind, 4, [40, "l"], via=via)
            add(t + "-long-other", kind, 1, [40, "l"], via=via, what="passphrase")
            add(t + "-shorter", kind, 1, [20, "l"], via=via, what="passphrase", pw2=[16, "l"])
        add(kind + "-over", kind, 1, [2, "l"], via="over")
        add(kind + "-over-other", kind, 1, [2, "l"], via="over", what="passphrase")
        add(kind + "-over-secret", kind, 1, [2, "l"], via="over", what="secret")
    add("spaces", "full", 1, [1, "l"], what="passphrase", pw2=[2, "l"])
    for kind in ("full", "auth", "enc"):
        for load in ("full", "auth", "enc"):
            if load != kind:
                add("%s-as-%s" % (kind, load), kind, 1, [2, "l"], load=load)
    # sizes
    for kind in ("full", "auth", "enc"):
        for n in (20, 64, 65, 200):
            add("%s-size-nick-%d" % (kind, n), kind, n, [3, "l"])
            add("%s-size-nick-%d-file" % (kind, n), kind, n, [3, "l"], via="file")
        for n in (64, 65, 200):
            add("%s-size-pass-%d" % (kind, n), kind, 1, [n, "l"])
            add("%s-size-pass-%d-file" % (kind, n), kind, 1, [n, "l"], via="file")
    return {"configs": c, "bounds": "nicknames of 0-4, 20, 64, 65 and 200 arbitrary Unicode characters, one fixed one and generated ones; passphrases of 1-3 or up to 200 Latin-1 "
            "characters (NUL left out); all three kinds; text, new file and file that held something longer",
            "outside": "passphrases with NUL characters (other than the known finding) or with characters beyond Latin-1, which PyCryptodome refuses; the empty passphrase; the strength of the PEM encryption",
            "assumptions": KEY_ASSUME + ["the file system keeps what was written"]}


@prop
def c31():
    c = [conf("keys", "jobs", "%s-%d" % (k, n), kind=k, n=n, cover=["sign", "verify", "verify-given", "encrypt", "decrypt", "own"])
         for k in ("full", "auth", "enc") for n in (0, 1, 3, 16, 32, 64)]
    return {"configs": c, "bounds": "data of 0-64 symbolic bytes, every kind and operation, messages that name the pair itself as sender included", "outside": "longer data", "assumptions": KEY_ASSUME}


@prop
def c32():
    c = []
    for name, lens in (("none", []), ("empty", [0]), ("one", [3]), ("two", [1, 2]), ("three", [0, 5, 0]), ("many", [1, 0, 32, 3, 2]),
                       ("long", [200]), ("longs", [135, 1, 136]), ("eight", [1] * 8)):
        c.append(conf("keys", "keccaks", "keccak-" + name, lens=lens, cover=["hashed"]))
    for n, m in ((0, 1), (1, 1), (3, 3), (2, 3), (32, 32), (32, 64), (32, 33)):
        c.append(conf("keys", "twohash", "two-%d-%d" % (n, m), n=n, m=m, cover=["hashed"]))
    for n in (0, 1, 3, 32, 63, 64, 65, 128, 200):
        c.append(conf("keys", "hashes", "hash-%d" % n, n=n, cover=["hashed"]))
    for what in ("name", "type"):
        c.append(conf("keys", "badhash", "bad-" + what, what=what, cover=["refused"]))
    for n in (500, 1000):
        c.append(conf("keys", "hashes", "hash-%d" % n, n=n, cover=["hashed"], **T))
        c.append(conf("keys", "keccaks", "keccak-%d" % n, lens=[n, 3, n], cover=["hashed"], **T))
    # sizes
    for n in (129, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4095, 4096, 4097, 5000, 8193, 16385, 65537):
        c.append(conf("keys", "hashes", "size-hash-%d" % n, n=n, cover=["hashed"]))
        c.append(conf("keys", "keccaks", "size-keccak-%d" % n, lens=[n, 3, n], cover=["hashed"]))
    c.append(conf("keys", "keccaks", "size-keccak-many", lens=[1] * 100, cover=["hashed"]))
    return {"configs": c, "bounds": "data of 0-200, 500, 1000, 4096 and 5000 symbolic bytes, lists of 0-8 and 100 of them; algorithm names of 0-7 symbolic ASCII characters",
            "outside": "longer data; the hash functions themselves", "assumptions": ["hash functions have no collisions on the data compared"]}


@prop
def c33():
    c = []
    for f in ("public", "public-der", "private", "private-der", "private-pkcs8", "encrypted", "pair", "made", "cut", "ecc"):
        c.append(conf("keys", "rsakey", f, form=f, cover=[f]))
    for n in (0, 1, 2, 26, 27, 64, 200):
        c.append(conf("keys", "rsakey", "any-%d" % n, form="any", n=n, cover=["any"]))
    return {"configs": c, "bounds": "every outcome of parsing (public, private, encrypted, or failure with each error the parser is known to raise) for texts of 0-200 "
            "symbolic bytes and exported keys in PEM, DER and PKCS#8; kind and flag given or left out",
            "outside": "which texts PyCryptodome parses: the model takes every text that is not an exported key to be unparsable",
            "assumptions": KEY_ASSUME}


@prop
def c35():
    c = []
    for form in ("str", "bytes"):
        for name, lo, hi in (("east", 0, 840), ("west", -720, -1), ("utc", 0, 0)):
            c.append(conf("clock", "stamp", "%s-%s" % (form, name), lo=lo, hi=hi, form=form, cover=["read"]))
        c.append(conf("clock", "stamp", form + "-summer", lo=-720, hi=840, dst=True, form=form, cover=["read"]))
        c.append(conf("clock", "stamp", form + "-any", lo=-1439, hi=1439, form=form, cover=["read"]))
        for name, dst, lo, hi in (("change", False, -720, 840), ("summer-change", True, 0, 840)):
            c.append(conf("clock", "stamp", form + "-" + name, lo=0 if dst else -720, hi=840, dst=dst, rezone=[lo, hi], form=form, cover=["read"]))
        for name, lo, hi in (("east", 1, 840), ("west", -720, -1), ("any", -1439, 1439)):
            c.append(conf("clock", "stamp", form + "-travel-" + name, lo=-720, hi=840, travel=[lo, hi], form=form, cover=["read"]))
    return {"configs": c, "bounds": "every microsecond of the years 1971-2098 (symbolic date and time), every local offset of whole minutes within a day, "
            "standard or summer time, read back in the same or any other local zone; a second timestamp after the local offset changed", "outside": "other years; offsets with seconds; a clock or zone that changes within one call",
            "assumptions": ["datetime and time behave as modelled in sx/moment.py (strftime, strptime, astimezone)"]}


@prop
def c36():
    c = []

    def add(name, specs, ops, **k):
        c.append(conf("trie", "pure", name, specs=specs, ops=ops, **k))

    def emp(name, specs, ops, **k):
        c.append(conf("empt", "pure", "map-" + name, specs=specs, ops=ops, **k))

    def mt(name, n, vlen, **k):
        c.append(conf("mt", "pure", "tree-" + name, n=n, vlen=vlen, cover=["root", "poi", "poi-absent", "verify-bad", "hash"], **k))
    add("none", [KS], [], probe=KS)
    add("emptied", [KS], [U(0), D(0)], after=[U(0)])
    add("one", [KA], [U(0)], probe=KS, cover=["get", "verify-bad"])
    add("two", [KS, KA], [U(0), U(1)], weight=2, cover=["verify-poi", "verify-bad"], after=[D(0)])
    add("two-32", [KS, KA], [U(0, 32), U(1, 32)], weight=2, cover=["verify-poi", "verify-bad"], after=[D(1), U(0, 32)])
    add("two-32-absent", [[0, A], [1, 0, A, 0]], [U(0, 32), U(1, 32)], probe=KS, weight=2, cover=["verify-poe"], after=[U(1)])
    add("long", [long(30), long(30)], [U(0, 9), U(1, 9)], probe=long(30), cover=["verify-poe", "verify-poi"])
    few = ["get", "contains", "poi", "poe", "verify-poi", "verify-poe", "verify-bad"]
    add("secure", [["sec", "="], ["sec", 20]], [U(0), U(1, 32)], secure=True, cover=["verify-poi", "get"], after=[D(0)], reads=few, second=["poe"])
    add("secure-absent", [["sec", "=00"]], [U(0)], probe=SEC, secure=True, cover=["verify-poe"], second=["get", "poi"])
    add("delete", [KE, KS, [0, 0, A, 1]], [U(0, 32), U(1, 32), U(2, 32), D(1)], cover=["poe", "poi"], after=[D(2)])
    emp("none", [KS], [])
    emp("two", [KS, KS], [["u", 0, 3, "b"], ["u", 1, 33, "a"]], cover=["items", "codec", "verify-poi"])
    emp("own", [KS, KS], [["u", 0, 3, "b"], ["u", 1, 33, "o"]], storage="own", cover=["items", "codec", "verify-poi"])
    emp("absent", [KS, [1, 0]], [["u", 0, 3, "b"], ["u", 1, 3, "b"]], probe=KA, cover=["verify-poe", "get"])
    emp("deleted", [KS, KS], [["u", 0, 3, "b"], ["u", 1, 3, "b"], ["d", 0]], cover=["verify-poe", "get"])
    emp("secure", [["sec", "="], SEC], [["u", 0, 3, "b"], ["u", 1, 3, "o"]], secure=True, cover=["verify-poi"], second=["poe"])
    emp("sparse", [KS, KS], [["u", 0, 3], ["u", 1, 33]], cls="sparse", cover=["reference", "codec", "verify-poi"])
    emp("sparse-own", [KS, KS], [["u", 0, 3], ["u", 1, 33], ["d", 0]], cls="sparse", storage="own", cover=["reference", "verify-poe"])
    for n in (1, 2, 3, 5):
        mt(str(n), n, [3, 32])
    mt("plain", 3, 3, secure=False)
    mt("plain-32", 4, 32, secure=False)
    mt("sha512", 3, 3, hash_type="sha512")
    # deeper
    for n in (6, 7, 8, 9):
        mt(str(n), n, [3, 32], weight=3, **T)
    add("three", [KS, KS, KA], [U(0, 32), U(1), U(2, 32)], probe=KA, weight=9, **T)
    add("three-own", [KE, KS, KA], [U(0, 32), U(1), U(2, 32), D(0)], weight=9, **T)
    # sizes
    add("size-key", [far(130), far(130)], [U(0), U(1, 40)], probe=far(130), second=["get", "poe"])
    add("size-value", [KS, KS], [U(0, 300), U(1)], second=["get", "poi"])
    add("size-deep", chain(12), cons(12) + [U(12)], reads=["get", "poi", "verify-poi"], second=["get"])
    add("size-many", crowd(40), cons(40, 2) + [U(40)], probe=[3, 1, A, A], reads=["get", "poe", "verify-poe"], second=["get"])
    mt("size", 3, 130)
    return trie_plan(c, "every ordered pair of one question and one of a few others, about stored keys or a symbolic probe; "
                        "Merkle trees of 1-5 (thorough: 9) leaves of 3 and 32 bytes", "three or more questions in a row")


@prop
def c37():
    c = []

    def add(name, specs, ops, **k):
        c.append(conf("trie", "addressed", name, specs=specs, ops=ops, **k))
    add("one", [KA], [U(0)], probe=KS, cover=["inline"])
    add("one-32", [KA], [U(0, 32)], probe=KA, cover=["hashed"])
    add("one-lens", [KA], [U(0, [1, 27, 28, 29, 30, 31, 56, 57, 255])], cover=["hashed", "inline"])
    add("two", [KS, KA], [U(0, [2, 32]), U(1, 32)], probe=KS, cover=["hashed"])
    add("two-full", [KF, KF], [U(0, 32), U(1, 32)], probe=None, cover=["hashed"], weight=2)
    add("overwrite", [KS, KA], [U(0, 32), U(1, 32), U(0, 32), U(0, 3), U(1, 2)], cover=["hashed"])
    add("drain", [KS, KA, KS], [U(0, 32), U(1, 32), U(2, 32), D(0), D(1), D(2)], cover=["hashed", "empty", "delete"], weight=2)
    add("small", [KE, KS, KS], [U(0, 2), U(1, 2), U(2, 2), D(0)], cover=["inline"])
    add("branch", fill(16) + [[F, A]], [U(i, 2) for i in range(16)] + [U(16), D(16)], weight=4, proofs=False)
    add("long", [long(62), long(62), long(20)], [U(0, 20), U(1, 20), U(2, 20), D(1)], probe=long(62), proofs=False)
    add("same", [[0, 0], [0, 1], [1, A]], [["v", 0, "x" * 32], ["v", 1, "x" * 32], ["v", 2, "x" * 32], D(1)], probe=None)
    add("secure", [SEC, SEC], [U(0), U(1, 32), D(0)], probe=SEC, secure=True, cover=["hashed"])
    add("sweep", [KANY, [0, 1], [0, 0, 0, 0]], [U(0, [2, 32]), U(1, [2, 32]), U(2, 32), D(0)], weight=3, proofs=False)
    add("merge-ext", [[0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 1], [0, A, A, 1, 0, 0]], [U(i, [2, 32]) for i in range(3)] + [D(2)], weight=2)
    add("free", [KS, KE], [U(0, 32)], free=2, vlens=[3, 32], cover=["delete"])
    add("free-three", [KS, KS, KE], [U(0, 32), U(1), U(2, 32)], free=1, vlens=[32], cover=["delete"], weight=2)
    add("history", [KA, KS, KE], [U(0), U(1, 32), U(2)], free=2, vlens=[3, 32], weight=9, **T)
    add("history-deep", [KS, KS], [U(0, 32)], free=4, vlens=[32], weight=9, **T)
    # sizes
    for n in (33, 64, 130, 300):
        add("size-key%d" % n, [far(n), far(n), far(n - 1)], [U(0), U(1, 40), U(2), D(1)], probe=far(n), proofs=False)
    for n in (300, 1000, 5000):
        add("size-value%d" % n, [[0, A], [1, 0]], [U(0, n), U(1, n)], probe=KS)
    add("size-deep", chain(20), cons(20) + [U(20), D(4)], proofs=False)
    add("size-many", crowd(130), cons(130, 2) + [U(130), D(4)], proofs=False)
    add("size-churn", [[0, 0], [0, 1], [1, A]], cons(3) + [x for i in range(30) for x in (D(i % 2), CON(i % 2, 40 + i % 3))] + [U(2, 33), D(0)], proofs=False)
    return trie_plan(c, "every entry written by the operations of each history")


@prop
def c38():
    c = []
    for n, m in ((0, 0), (1, 1), (3, 3), (0, 1), (2, 3), (32, 32)):
        c.append(conf("keys", "identity", "identity-%d-%d" % (n, m), kinds=["full", "auth", "enc"], nick=n, nick2=m,
                      cover=["different", "rename", "generate"] + (["equal"] if n == m else [])))
    c.append(conf("keys", "nameless", "nameless", kinds=["full", "auth", "enc"], n=3, cover=["made"]))
    for kind in ("full", "auth", "enc"):
        for n in (0, 2):
            c.append(conf("keys", "guarded", "guarded-%s-%d" % (kind, n), kind=kind, nick=n, cover=["text", "again", "rename", "badnick"]))
    for n in (64, 200):
        c.append(conf("keys", "identity", "identity-%d" % n, kinds=["full", "auth", "enc"], nick=n, nick2=n, cover=["different", "equal"], **T))
    c.append(conf("keys", "nameless", "nameless-6", kinds=["full", "enc"], n=6, cover=["made"], **T))
    return {"configs": c, "bounds": "two key pairs of every combination of kinds, with the same or different keys and symbolic nicknames of 0-3 or 32 (thorough: 200) "
            "arbitrary Unicode characters; three (thorough: six) pairs made without a nickname; every attempt to replace a part",
            "outside": "longer nicknames; nicknames that are not text; attributes that are not public", "assumptions": KEY_ASSUME}


@prop
def c39():
    c = []

    def add(name, what, n, **k):
        c.append(conf("keys", "fresh", name, what=what, n=n, cover=[what], **k))
    for n in (0, 1, 3, 16, 33):
        add("encrypt-%d" % n, "encrypt", n)
        add("message-%d" % n, "message", n)
    add("id", "id", 4)
    add("keys", "keys", 3)
    add("default", "default", 0)
    for n in (64, 200):
        add("encrypt-%d" % n, "encrypt", n, **T)
        add("message-%d" % n, "message", n, **T)
    add("id-10", "id", 10, **T)
    # sizes
    for n in (100, 129):
        add("size-encrypt-%d" % n, "encrypt", n)
        add("size-message-%d" % n, "message", n)
    return {"configs": c, "bounds": "five encryptions in a row under one or two passwords, and two messages in a row to the same or another receiver, of 0-129 (thorough: 200) symbolic bytes; "
            "four (thorough: ten) identifiers; three generated keys of any kind",
            "outside": "more in a row; the quality of the random number generator of PyCryptodome and of uuid4",
            "assumptions": KEY_ASSUME + ["16 random bytes, and identifiers of uuid4, never repeat"]}


@prop
def c40():
    c = []

    def add(name, specs, ops, **k):
        c.append(conf("empt", "reopened", name, specs=specs, ops=ops, **k))
    add("none", [KS], [], free=1)
    add("one", [KA], [["u", 0, 3, "b"]], probe=KA, cover=["root"])
    add("two", [KS, KS], [["u", 0, 3, "a"], ["u", 1, 33, "o"]], also=[0], probe=KS, cover=["root"])
    add("own", [KS, KS], [["u", 0, 3, "b"], ["u", 1, 33, "a"]], also=[0], storage="own", cover=["root"])
    add("deleted", [KS, KA], [["u", 0, 3, "b"], ["u", 1, 3, "b"], ["d", 0]], also=[0, 1], cover=["root"])
    add("emptied", [KS, KS], [["u", 0, 3, "b"], ["d", 0]], also=[0, 1], free=1, cover=["root", "hash"])
    add("secure", [SEC, ["sec", 32]], [["u", 0, 3, "b"], ["u", 1, 3, "o"]], secure=True, also=[0], cover=["root"])
    add("free", [KS, KE], [["u", 0, 33, "b"]], free=2, kinds="ba", cover=["hash"], weight=2)
    add("sweep", [KANY, [0, 1]], [["u", 0, 3, "b"], ["u", 1, 3, "b"], ["d", 0]], also=[0, 1], weight=2)
    add("sparse", [KS, KS], [["u", 0, 3], ["u", 1, 33]], also=[0], cls="sparse", probe=KS, cover=["root"])
    add("sparse-own", [KS, KA], [["u", 0, 3], ["u", 1, 33], ["d", 0]], also=[0, 1], cls="sparse", storage="own", cover=["root"])
    add("sparse-secure", [SEC], [["u", 0, 3]], cls="sparse", secure=True, probe=["sec", 33])
    add("sparse-free", [KS, KE], [["u", 0, 33]], free=1, cls="sparse", cover=["hash"])
    add("cleared", [KS, KS], [["u", 0, 3, "b"], ["u", 1, 33, "o"], ["clear"], ["u", 1, 3, "a"]], also=[2], cover=["root", "hash"])
    add("cleared-own", [KS, KS], [["u", 0, 3, "b"], ["clear"], ["u", 1, 3, "a"]], also=[0, 1], storage="own")
    add("cleared-secure", [SEC], [["u", 0, 3, "b"], ["clear"], ["u", 0, 3, "b"]], secure=True, also=[1])
    add("mixin", [KS, KS], [["u", 0, 0, "b"], ["setdefault", 1, 3, "o"], ["setdefault", 0, 3], ["pop", 1], ["popitem"]], also=[1, 2, 3])
    add("rebuilt", [KS, KS], [["u", 0, 3, "b"], ["u", 1, 3, "o"], ["b"], ["d", 0], ["b"]], also=[2, 3])
    add("rebuilt-secure", [SEC, SEC], [["u", 0, 3, "b"], ["b"], ["u", 1, 3, "o"], ["d", 0]], secure=True, storage="own", also=[1])
    add("falsy", [KS], [["u", 0, 3, "f"], ["setdefault", 0, 3]], also=[0])
    add("free-deep", [KS, KE, KA], [["u", 0, 3, "b"], ["u", 2, 3, "b"]], free=2, weight=9, **T)
    add("free-long", [KS, KS], [["u", 0, 3, "b"]], free=3, weight=9, **T)
    # sizes
    add("size-key", [far(130), far(130)], [["u", 0, 3, "b"], ["u", 1, 33, "b"]], also=[0], cover=["root"])
    add("size-value", [KS, KS], [["u", 0, 1000, "b"], ["u", 1, 300, "b"]], also=[0], cover=["root"])
    add("size-many", crowd(40, (1, 0)), cons(40, 2) + [["u", 40, 3, "b"], ["d", 3]], also=[20], cover=["root"])
    add("size-deep", chain(12, ()), cons(12, 2) + [["u", 12, 3, "b"], ["d", 3]], also=[10], cover=["root"])
    return {"configs": c, "bounds": TRIE_BOUNDS + "; opened again, or not, with the root node or the root hash after the operations listed and after every freely chosen one",
            "outside": TRIE_OUT + "; storages changed by others meanwhile (C16, C19)", "assumptions": HASH_ASSUME}


@prop
def c41():
    c = []
    fu = ["failed", "unharmed"]

    def add(name, specs, ops, last, **k):
        for which in ("trie", "data"):
            d = dict(k)
            n = d.pop("accesses", 9)
            c.append(conf("empt", "failing", name + "-" + which, specs=specs, ops=ops, last=last, which=which,
                          accesses=n if which == "trie" else 3, cover=d.pop("cover", fu), **d))
    two = [["u", 0, 3, "b"], ["u", 1, 3, "b"]]
    add("first", [KS], [], ["u", 0, 3], kinds="ba")
    add("insert", [KS, KS], [["u", 0, 3, "b"]], ["u", 1, 3])
    add("overwrite", [KS, KS], two, ["u", 0, 3], how="item")
    add("object", [KS, KS], two, ["u", 0, 3], kinds="o")
    add("delete", [KS, KS, [1, 1]], two + [["u", 2, 3, "b"]], ["d", 0])
    add("delete-last", [KS], [["u", 0, 3, "b"]], ["d", 0], how="item")
    add("delete-empty-key", [KE, KS], two, ["d", 0])
    add("pop", [KS, KS], two, ["pop", 1])
    add("setdefault", [KS, KS], [["u", 0, 3, "b"]], ["setdefault", 1, 3])
    add("stays-broken", [KS, KS], two, ["u", 0, 3], forever=True)
    add("stays-broken-delete", [KS, KS], two, ["d", 0], forever=True)
    add("secure", [SEC, SEC], [["u", 0, 3, "b"]], ["u", 1, 3], secure=True)
    add("secure-delete", [SEC, SEC], two, ["d", 1], secure=True)
    add("three", [KS, KS, KA], two, ["u", 2, 3], weight=9, accesses=12, **T)
    add("three-delete", [KS, KS, KA], two + [["u", 2, 3, "b"]], ["d", 2], weight=9, accesses=12, **T)
    # sizes
    add("size", [far(130), [1, A]], [["u", 0, 300, "b"]], ["u", 1, 300])
    add("size-delete", [far(130), far(130)], two, ["d", 0])
    return {"configs": c, "bounds": TRIE_BOUNDS + "; one failing access of the trie storage (among the first 10-13) or of the data storage (among the first 4), "
            "or all accesses from that one on until the operation ends; the storage raises and does not lose writes",
            "outside": TRIE_OUT + "; storages that fail without raising, or tear a write; rebuilding, clear and popitem on failing storages", "assumptions": HASH_ASSUME}
