"""Independent reference: Ethereum's canonical Merkle Patricia trie, written from
the specification (hex-prefix encoding, RLP, node references, Keccak-256)."""
from Crypto.Hash import keccak as _keccak


def kec(data):
    h = _keccak.new(digest_bits=256)
    h.update(data)
    return h.digest()


EMPTY_ROOT = bytes.fromhex("56e81f171bcc55a6ff8345e692c0f86e5b48e01b996cadc001622fb5e363b421")


def _be(n):
    out = b""
    while n:
        out = bytes([n % 256]) + out
        n = n // 256
    return out


def _head(base, n):
    if n < 56:
        return bytes([base + n])
    b = _be(n)
    return bytes([base + 55 + len(b)]) + b


def rlp(x):
    """RLP of a byte string or a (nested) list of them"""
    if isinstance(x, list):
        body = b""
        for y in x:
            body = body + rlp(y)
        return _head(0xC0, len(body)) + body
    if len(x) == 1 and x[0] < 0x80:
        return x
    return _head(0x80, len(x)) + x


def nibbles(key):
    out = []
    for b in key:
        out.append(b >> 4)
        out.append(b & 15)
    return out


def hp(nibs, leaf):
    """hex-prefix encoding"""
    first = 2 if leaf else 0
    if len(nibs) % 2:
        seq = [first + 1] + nibs
    else:
        seq = [first, 0] + nibs
    return bytes([seq[i] * 16 + seq[i + 1] for i in range(0, len(seq), 2)])


def ref(node):
    """what a parent stores for a node"""
    e = rlp(node)
    return node if len(e) < 32 else kec(e)


def node_of(items):
    """structure of the trie node holding items = [(nibbles, value)], not empty, keys distinct"""
    if len(items) == 1:
        return [hp(items[0][0], True), items[0][1]]
    n = 0
    first = items[0][0]
    while all([len(k) > n and len(first) > n and k[n] == first[n] for k, v in items]):
        n += 1
    if n:
        return [hp(first[:n], False), ref(node_of([(k[n:], v) for k, v in items]))]
    value = b""
    slots = [[] for i in range(16)]
    for k, v in items:
        if len(k) == 0:
            value = v
        else:
            slots[int(k[0].__index__())].append((k[1:], v))
    return [ref(node_of(s)) if s else b"" for s in slots] + [value]


def root_node(items):
    """RLP of the root node, None for no items"""
    return rlp(node_of(items)) if items else None


def root_hash(items):
    return kec(root_node(items)) if items else EMPTY_ROOT


def merkle_root(leaves, h):
    level = list(leaves)
    while len(level) > 1:
        nxt = []
        for i in range(0, len(level) - 1, 2):
            nxt.append(h(level[i] + level[i + 1]))
        if len(level) % 2:
            nxt.append(level[-1])
        level = nxt
    return level[0]
