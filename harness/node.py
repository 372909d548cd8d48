"""Harnesses for nodes and nibble paths (C13, C14)."""
from pymt.utils.node import Node, Leaf, Extension, Branch
from pymt.utils.nibble_path import NibblePath
from . import ref


def mkpath(ctx, name, n, how, lead=None):
    """(path object, list of its nibbles) of n symbolic nibbles; how = "bytes" (raw bytes
    with an offset), "made" (result of combining two), "cut" (result of a consume)"""
    nibs = ctx.nibs(name, ["full"] * n)
    if how == "made" and n > 1:
        a = plain(ctx, nibs[:n // 2], 0, name + "x")
        b = plain(ctx, nibs[n // 2:], 0, name + "y")
        return a.combine(b), nibs
    if how == "cut":
        return plain(ctx, [3, 9, 12] + nibs, 0, name + "x").consume(3), nibs
    return plain(ctx, nibs, lead or 0, name + "x"), nibs


def plain(ctx, nibs, lead, name):
    """a path over raw bytes: some nibbles that are skipped, then the given ones"""
    skip = ctx.nibs(name + "s", ["full"] * (lead + (lead + len(nibs)) % 2))
    return NibblePath(ctx.pack(skip + nibs), len(skip))


def check_path(ctx, p, nibs, what):
    """the path is the given sequence"""
    ctx.check(len(p) == len(nibs), what + ": wrong length")
    ctx.check(ctx.all([p.at(i) == nibs[i] for i in range(len(nibs))]), what + ": wrong half-byte")


def common(a, b):
    n = 0
    while n < len(a) and n < len(b) and a[n] == b[n]:
        n += 1
    return n


def path_one(ctx, n, lead, how="bytes", cuts=True):
    """C14, one path"""
    p, s = mkpath(ctx, "p", n, how, lead)
    check_path(ctx, p, s, "path")
    for leaf in (False, True):
        e = p.encode(leaf)
        ctx.observe("encoded", e)
        ctx.check(e == ref.hp(s, leaf), "wrong hex-prefix encoding")
        q, kind = NibblePath.decode_with_type(e)
        ctx.check(kind == leaf, "the leaf flag is lost")
        check_path(ctx, q, s, "decoded path")
        ctx.check(q == p, "the decoded path is not equal")
        check_path(ctx, NibblePath.decode(e), s, "decoded path without type")
        ctx.check(q.encode(leaf) == e, "encoding again gives another result")
    ctx.check(p.encode() == p.encode(False), "the flag is not off by default")
    check_path(ctx, p, s, "path after encoding")
    ctx.check(p == p, "a path is not equal to itself")
    ctx.check(p.starts_with(p) == True, "a path does not start with itself")
    ctx.cover("path")
    if cuts:
        k = ctx.choice("cut", range(n + 1))
        r = p.consume(k)
        check_path(ctx, r, s[k:], "path after cutting")
        ctx.check(r.encode(True) == ref.hp(s[k:], True), "wrong encoding after cutting")
        j = ctx.choice("cut2", range(n - k + 1))
        check_path(ctx, r.consume(j), s[k + j:], "path after cutting twice")


def path_two(ctx, n, m, lead=0, lead2=0, how="bytes", how2="bytes", deep=True):
    """C14, two paths"""
    p, s = mkpath(ctx, "p", n, how, lead)
    q, t = mkpath(ctx, "q", m, how2, lead2)
    same = len(s) == len(t) and ctx.all([a == b for a, b in zip(s, t)])
    eq = p == q
    ctx.check(ctx.any([ctx.all([eq, same]), ctx.no(ctx.any([eq, same]))]), "equality is not that of the sequences")
    c = common(s, t)
    ctx.cover("common%d" % c)
    ctx.check(p.starts_with(q) == (c == len(t)), "prefix test is wrong")
    ctx.check(q.starts_with(p) == (c == len(s)), "prefix test is wrong (reversed)")
    x = p.common_prefix(q)
    check_path(ctx, x, s[:c], "common prefix")
    check_path(ctx, q.common_prefix(p), s[:c], "common prefix (reversed)")
    ctx.check(x.encode(False) == ref.hp(s[:c], False), "wrong encoding of a common prefix")
    ctx.check(p.starts_with(x) == True, "a path does not start with the common prefix")
    y = p.combine(q)
    check_path(ctx, y, s + t, "concatenation")
    ctx.check(y.encode(True) == ref.hp(s + t, True), "wrong encoding of a concatenation")
    ctx.check(y.starts_with(p) == True, "a concatenation does not start with its first part")
    check_path(ctx, p, s, "first operand afterwards")
    check_path(ctx, q, t, "second operand afterwards")
    if deep:
        # results are paths like any other
        check_path(ctx, x.combine(y), s[:c] + s + t, "concatenation of results")
        check_path(ctx, y.common_prefix(p), s, "common prefix of results")
        ctx.check(y == NibblePath.decode(y.encode(True)), "a concatenation does not survive encoding")
        check_path(ctx, y, s + t, "concatenation afterwards")
        z = y.consume(len(s))
        check_path(ctx, z, t, "concatenation after cutting")
        ctx.check(z == q, "cutting a concatenation does not give its second part")
        check_path(ctx, p, s, "first operand after cutting the concatenation")
        check_path(ctx, q, t, "second operand after cutting the concatenation")
        r = q.consume(c)
        check_path(ctx, r, t[c:], "second operand after cutting")
        check_path(ctx, x, s[:c], "common prefix after cutting an operand")


def check_ref(ctx, node, expected):
    e = ref.rlp(expected)
    r = Node.into_reference(node)
    ctx.observe("reference", r)
    if len(e) < 32:
        ctx.cover("embedded")
        ctx.check(r == e, "the reference of a short node is not its encoding")
    else:
        ctx.cover("hashed")
        ctx.check(r == ref.kec(e), "the reference of a long node is not its hash")


def check_changed(ctx, node, want):
    """a node that was encoded and changed (as update and delete do) is encoded as it is now"""
    e = node.encode()
    ctx.check(e == ref.rlp(want), "a changed node is not encoded as it is")
    r = Node.into_reference(node)
    ctx.check(r == (e if len(e) < 32 else ref.kec(e)), "a changed node has another reference")


def leaf(ctx, n, vlens, lead=0, how="bytes"):
    """C13, leaf"""
    p, s = mkpath(ctx, "p", n, how, lead)
    k = ctx.choice("vlen", vlens)
    v = ctx.bytes("v", k)
    x = Leaf(p, v)
    e = x.encode()
    want = [ref.hp(s, True), v]
    ctx.check(e == ref.rlp(want), "the encoding of a leaf is not the specified one")
    y = Node.decode(e)
    ctx.check(type(y) is Leaf, "a leaf decodes as another kind of node")
    check_path(ctx, y.path, s, "path of a decoded leaf")
    ctx.check(y.data == v, "a leaf loses its value")
    ctx.check(y.encode() == e, "encoding a decoded leaf gives another result")
    check_ref(ctx, x, want)
    check_path(ctx, x.path, s, "path of the leaf afterwards")
    w = ctx.bytes("w", k)
    for z in (x, y):
        z.data = w
        check_changed(ctx, z, [ref.hp(s, True), w])
        if n:
            z.path.consume(1)
            check_changed(ctx, z, [ref.hp(s[1:], True), w])
        z.path, z.data = NibblePath(b"\x12\x34"), v
        check_changed(ctx, z, [b"\x20\x12\x34", v])


def child(ctx, name, kind):
    """(reference as the package keeps it, as the specification does) of a child"""
    if kind == "none":
        return b"", b""
    if kind == "hash":
        h = ctx.bytes(name, 32)
        return h, h
    if kind == "leaf":      # a short leaf with an odd path
        v = ctx.bytes(name, 3)
        return ref.rlp([b"\x35", v]), [b"\x35", v]
    if kind == "leaf0":     # ... with an empty path and a symbolic length
        v = ctx.bytes(name, ctx.choice(name + "len", [1, 2, 20, 28]))
        return ref.rlp([b"\x20", v]), [b"\x20", v]
    if kind == "branch":    # a short branch
        v = ctx.bytes(name, 2)
        n = [b""] * 5 + [[b"\x20", v]] + [b""] * 10 + [v]
        return ref.rlp(n), n
    if kind == "ext":       # a short extension over a short branch
        v = ctx.bytes(name, 1)
        n = [b"\x14", [b""] * 3 + [[b"\x20", v]] + [b""] * 12 + [v]]
        return ref.rlp(n), n
    raise ValueError(kind)


def ext(ctx, n, kind, lead=0, how="bytes"):
    """C13, extension"""
    p, s = mkpath(ctx, "p", n, how, lead)
    r, c = child(ctx, "c", kind)
    x = Extension(p, r)
    e = x.encode()
    want = [ref.hp(s, False), c]
    ctx.check(e == ref.rlp(want), "the encoding of an extension is not the specified one")
    y = Node.decode(e)
    ctx.check(type(y) is Extension, "an extension decodes as another kind of node")
    check_path(ctx, y.path, s, "path of a decoded extension")
    ctx.check(y.next_ref == r, "an extension loses its reference")
    ctx.check(y.encode() == e, "encoding a decoded extension gives another result")
    check_ref(ctx, x, want)
    h = ctx.bytes("h", 32)
    for z in (x, y):
        z.next_ref = h
        check_changed(ctx, z, [ref.hp(s, False), h])
        if n:
            z.path.consume(1)
            check_changed(ctx, z, [ref.hp(s[1:], False), h])
        z.path = NibblePath(b"\x12\x34")
        check_changed(ctx, z, [b"\x00\x12\x34", h])


def branch(ctx, kinds, vlens, value=True):
    """C13, branch; kinds = {slot: kind}"""
    refs, spec = [], []
    for i in range(16):
        r, c = child(ctx, "c%d" % i, kinds.get(str(i), kinds.get("*", "none")))
        refs.append(r)
        spec.append(c)
    v = ctx.bytes("v", ctx.choice("vlen", vlens)) if value else None
    x = Branch(list(refs), v)
    e = x.encode()
    want = spec + [v if value else b""]
    ctx.check(e == ref.rlp(want), "the encoding of a branch is not the specified one")
    y = Node.decode(e)
    ctx.check(type(y) is Branch, "a branch decodes as another kind of node")
    ctx.check(len(y.branches) == 16, "a branch has not sixteen children")
    ctx.check(ctx.all([a == b for a, b in zip(y.branches, refs)]), "a branch loses a child reference")
    ctx.check(y.data == (v if value else b""), "a branch loses its value")
    ctx.check(y.encode() == e, "encoding a decoded branch gives another result")
    check_ref(ctx, x, want)
    ctx.check(ctx.all([a == b for a, b in zip(x.branches, refs)]), "encoding changed the children")
    h, w = ctx.bytes("h", 32), ctx.bytes("w", 3)
    for z in (x, y):
        z.branches[7] = h
        check_changed(ctx, z, spec[:7] + [h] + spec[8:] + [v if value else b""])
        z.data = w
        check_changed(ctx, z, spec[:7] + [h] + spec[8:] + [w])
        z.branches[0], z.data = b"", b""
        check_changed(ctx, z, [b""] + spec[1:7] + [h] + spec[8:] + [b""])
