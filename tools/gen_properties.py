#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for ids, statements and anchors)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                    "observe_at": list(observe), "hook_needed": None}})
MPT = "src/pymt/mpt.py"; EMPT = "src/pymt/empt.py"; NODE = "src/pymt/utils/node.py"
NP = "src/pymt/utils/nibble_path.py"; MT = "src/pymt/mt.py"; MTOOLS = "src/pymt/merkletools.py"
PROOF = "src/pymt/proof.py"; KP = "src/pymt/keypairs.py"; UT = "src/pymt/utils/utils.py"; HASH = "src/pymt/utils/hash.py"

# ------------------------------------------------------------------ Merkle Patricia trie
prop("C01", "Patricia trie lookups agree with the history of writes",
 "After any sequence of insertions, overwrites and deletions of non-empty byte values under byte-string keys (the empty key and keys that are prefixes of one another included), looking up a key returns exactly the value most recently stored for it. Looking up a key that was never stored or has been deleted raises an error and never returns a value, not even one belonging to another key. The membership test is true exactly for the stored keys.",
 ["inputs", "histories"], "every mapping of keys to values, every key asked for, every history of writes and deletes",
 "The tests use a dozen ASCII keys of nearly equal length and 100 random decimal strings; which node shapes a key meets (odd/even split points, value on a branch, key ending inside an extension or leaf) depends on all keys at once.",
 [MPT, NP, NODE], [("MPT.get/_get", MPT), ("MPT.contains/_contains", MPT), ("MPT.update/_update", MPT), ("MPT.delete/_delete", MPT)],
 [("root reference", "current root node or its hash", MPT), ("node storage", "hash -> encoded node", MPT)], ["get", "contains", "in", "[]"])
prop("C02", "Root hash is a canonical function of the trie's contents",
 "The root hash of a Patricia trie depends only on the key/value pairs it currently holds, never on the order or history of operations that led there. It equals the Merkle Patricia trie root the Ethereum specification assigns to that mapping (hex-prefix paths, RLP nodes, nodes shorter than 32 bytes embedded in their parent, Keccak-256), and the empty-trie root once everything has been deleted.",
 ["inputs", "histories"], "every mapping and every history producing it, including deletions that collapse branches and extensions",
 "Five Ethereum vector files and a few fixed root constants pin single histories; node embedding thresholds, single-nibble extensions and branch collapses occur only for particular key/value shapes.",
 [MPT, NODE, NP], [("MPT._update", MPT), ("MPT._delete", MPT), ("MPT._build_new_node_from_last_branch", MPT), ("Node.into_reference", NODE)],
 [("root reference", "current root", MPT)], ["root_hash", "root"])
prop("C03", "Different contents give different roots; trie equality means equal contents",
 "Two Patricia tries whose contents differ in any key or value never report the same root hash, provided Keccak-256 has no collisions. Comparing two tries of the same mode (plain or secure) for equality is true exactly when they hold the same key/value pairs, and equal tries have equal hashes.",
 ["inputs"], "every pair of mappings",
 "Needs all pairs of contents; the tests only compare a few roots and never compare tries.",
 [MPT, NODE, NP], [("MPT.root_hash", MPT), ("MPT.__eq__/__hash__", MPT), ("node encodings are injective", NODE)], (), ["root_hash", "=="])
prop("C04", "Every past root stays a readable snapshot",
 "A root taken from a Patricia trie at any moment remains a complete snapshot: a trie opened on the same storage with that root returns exactly the contents of that moment. No later update or delete, through this or another trie sharing the storage, changes or removes what it reads.",
 ["histories", "inputs"], "every state, every later operation",
 "One test takes one snapshot of two keys; losing or overwriting a shared node shows only for states that share that node.",
 [MPT], [("MPT._store_node only adds content-addressed nodes", MPT), ("MPT(storage, root)", MPT)], [("node storage", "hash -> encoded node", MPT)], ["get on an old root"])
prop("C05", "A failed operation leaves the trie as it was",
 "If deleting an absent key is refused, or the node storage raises during any read or write of an update or delete, the trie still has its previous root and returns its previous contents for every key. Repeating the operation once the storage works again gives the result it would have given the first time.",
 ["fault_sequences", "crash_points", "inputs"], "every state, every operation, every position at which the storage fails",
 "No test lets the storage fail, and refused deletes are never followed by a check of the contents.",
 [MPT], [("root assigned only after the new nodes are stored", MPT), ("nodes are never edited in place in the storage", MPT)], [("root reference", "current root", MPT)], ["root_hash", "get"])
prop("C06", "Secure mode is the plain trie over hashed keys",
 "A trie in secure mode behaves, for update, lookup, membership, delete and both kinds of proof, exactly like a plain trie in which every key has been replaced by its Keccak-256 digest; every key is hashed exactly once and values are left alone.",
 ["inputs", "histories"], "every sequence of operations and keys",
 "Tests check that secure tries work with themselves; a method that hashes twice or not at all for some keys is only visible against the plain trie.",
 [MPT, EMPT], [("keccak_hash(encoded_key) in each public method", MPT)], (), ["root_hash", "get", "contains", "proof target"])
prop("C07", "Inclusion proofs of stored keys always verify",
 "For every key stored in a Patricia trie, plain or secure and however small, the inclusion proof it generates is accepted by that trie and by any verifier opened on the root reference it reports (root()).",
 ["inputs", "histories"], "every contents, every stored key",
 "Tests prove four keys of one small trie.",
 [MPT, EMPT, PROOF], [("MPT.get_proof_of_inclusion", MPT), ("MPT.verify_proof_of_inclusion", MPT)], (), ["verify_proof_of_inclusion"])
prop("C08", "No inclusion proof is ever accepted for a key that is not stored",
 "Verifying an inclusion proof against a trie, or against its root alone, never returns true for a key the trie does not hold, whatever nodes, claimed root and target key the proof carries: honest, truncated, reordered, mixed or forged ones. A proof taken from a trie with another root is not accepted, and a trie refuses to generate an inclusion proof for a key it does not hold.",
 ["inputs"], "every contents, every absent key, every proof an attacker can assemble",
 "Tests only present honest proofs of keys that are stored, one mutated trie at a time; soundness quantifies over all forged proofs.",
 [MPT, PROOF], [("root comparison", MPT), ("nodes indexed by their hash", MPT), ("MPT._verify_proof_of_inclusion", MPT)], (), ["verify_proof_of_inclusion", "get_proof_of_inclusion"])
prop("C09", "Exclusion proofs of absent keys always verify",
 "For every key not stored in a non-empty Patricia trie, plain or secure and wherever the key leaves the trie (branch, extension, leaf, or ending above stored keys), the exclusion proof it generates is accepted by that trie and by any verifier opened on the root reference it reports (root()).",
 ["inputs", "histories"], "every non-empty contents, every absent key",
 "Tests use decimal keys that all leave the trie in the same way, at a branch.",
 [MPT, EMPT, PROOF], [("MPT.get_proof_of_exclusion", MPT), ("MPT.verify_proof_of_exclusion", MPT)], (), ["verify_proof_of_exclusion"])
prop("C10", "No exclusion proof is ever accepted for a key that is stored",
 "Verifying an exclusion proof against a trie, or against its root alone, never returns true for a key the trie holds, whatever nodes, claimed root and target key the proof carries. A proof taken from a trie with another root is not accepted, and a trie refuses to generate an exclusion proof for a key it holds.",
 ["inputs"], "every contents, every stored key, every proof an attacker can assemble",
 "Tests only present honest exclusion proofs; none tries to disprove a stored key.",
 [MPT, PROOF], [("root comparison", MPT), ("nodes indexed by their hash", MPT), ("MPT._verify_proof_of_exclusion", MPT)], (), ["verify_proof_of_exclusion", "get_proof_of_exclusion"])
prop("C11", "Encoding and decoding a trie preserves it",
 "Decoding the encoding of a trie (also of its references-only and root-only forms, and of an empty or emptied trie) yields a trie with the same root hash, the same secure mode and the same contents. Operations and proofs on the copy give the same results as on the original.",
 ["inputs", "histories"], "every contents and history, both modes",
 "Tests round-trip a few small tries and never one that has been emptied.",
 [MPT, EMPT], [("MPT.encode/decode", MPT), ("SparseEMPT/RootEMPT encode_rlp/decode_rlp", EMPT)], (), ["encode", "decode", "root_hash", "get"])
prop("C12", "A tampered serialized trie never yields a wrong value",
 "When a serialized trie is altered in any of its nodes but still carries a genuine root, every lookup on the decoded trie either returns the genuine value for that key or raises; it never returns a different value, and a genuine node out of place is never served for another reference.",
 ["inputs", "fault_sequences"], "every contents, every alteration of the node list, every key",
 "No test decodes altered bytes.",
 [MPT], [("nodes are re-keyed by their own hash on decode", MPT)], (), ["decode", "get"])
prop("C13", "Trie nodes survive encoding and are referenced as specified",
 "Decoding the encoding of a leaf, extension or branch gives back a node of the same kind with the same path, child references and value, and the encoding is the Ethereum RLP form. The reference to a node is its encoding when that is shorter than 32 bytes and the Keccak-256 digest of the encoding otherwise.",
 ["inputs"], "every path, value and child reference",
 "Tests round-trip a couple of constant nodes; length thresholds and byte values at RLP boundaries are not covered.",
 [NODE, NP], [("Node.decode", NODE), ("Leaf/Extension/Branch.encode", NODE), ("Node.into_reference", NODE)], (), ["encode", "decode", "into_reference"])
prop("C14", "Nibble paths behave as sequences of half-bytes",
 "A nibble path acts as the sequence of half-bytes of its data after its offset: length, indexing (from 0 up to the length), equality, prefix test, common prefix, cutting from the front and concatenation agree with the sequence operations of the same name. Encoding a path with its leaf flag and decoding it gives back the same sequence and flag, in hex-prefix form.",
 ["inputs"], "every pair of paths, offsets and flags",
 "Tests use a handful of constant paths.",
 [NP], [("NibblePath.at/consume/common_prefix/combine/starts_with", NP), ("NibblePath.encode/decode_with_type", NP)], (), ["at", "len", "==", "encode", "decode"])
# ------------------------------------------------------------------ EMPT
prop("C15", "The verified mapping behaves as a mapping",
 "After any sequence of writes and deletes through the verified key-value mapping, reading a key returns the object last written under it (bytes, bytearray or an object with RLP encoding), a key not currently stored is reported absent and cannot be read, and length and iteration cover exactly the stored keys. The stored reference of a key always carries that key and the encoded form of its value.",
 ["histories", "inputs"], "every history of writes, overwrites and deletes",
 "Tests write distinct keys once or twice; bytearray values are never used and length/iteration after deletes are not checked.",
 [EMPT], [("EMPT.update/get/delete/contains", EMPT), ("EMPT.__len__/__iter__", EMPT)], [("data storage", "key -> value", EMPT), ("trie", "key -> reference", EMPT)], ["get", "[]", "in", "len", "iter", "get_reference"])
prop("C16", "A value changed behind the mapping's back is never returned",
 "If the data storage behind the verified mapping holds, for some key, a value with another encoded form than the value last written through the mapping, or none, reading that key raises and never returns the altered value; the other keys stay readable.",
 ["inputs", "fault_sequences"], "every contents, every alteration of the data storage",
 "No test alters the data storage.",
 [EMPT], [("EMPT.get compares the stored reference with a recomputed one", EMPT)], (), ["get", "[]"])
prop("C17", "Data references round-trip and bind key and value",
 "Decoding the encoding of a data reference yields an equal reference with the same key and data, and decoding bytes whose flag, key, data or hash have been altered (bytes moved between key and data included) raises. Two references are equal exactly when both their key and their data are equal.",
 ["inputs"], "every key and data, every alteration",
 "Tests use one pair; moving bytes between key and data is not tried.",
 [EMPT], [("DataReference.encode/decode", EMPT), ("DataReference.__eq__", EMPT)], (), ["encode", "decode", "=="])
prop("C18", "References-only and root-only views agree with the full mapping",
 "The references-only and root-only views taken from a mapping have its root hash and judge keys in the same mode (plain or secure), the references-only view holds the same references, and every proof generated by either the mapping or the references-only view is judged alike by all three. Later changes to the mapping do not change views taken before.",
 ["inputs", "histories"], "every contents and later change",
 "Tests check the root hash of views of one two-key mapping.",
 [EMPT, MPT], [("EMPT.get_sparse_trie/get_root_trie", EMPT), ("SparseEMPT.get_root_trie", EMPT)], (), ["root_hash", "get_reference", "verify_*"])
prop("C19", "Separately created mappings are independent",
 "Two mappings or references-only tries created without passing storage share nothing: a write or delete through one never changes the contents, length, root or references of the other, and creating a new one always gives an empty mapping.",
 ["histories", "configurations"], "every interleaving of operations on two instances",
 "The tests always pass fresh storage explicitly.",
 [EMPT], [("default storages of EMPT and SparseEMPT", EMPT)], (), ["len", "contains", "root_hash"])
prop("C20", "Rebuilding the mapping's trie reproduces it from the data",
 "Rebuilding the trie of a verified mapping from its data storage gives a trie whose root hash is the one obtained by writing the same data into a fresh mapping, and afterwards every stored key can be read; this holds whatever the trie held before.",
 ["histories", "inputs"], "every data storage, every earlier trie state",
 "No test rebuilds a trie.",
 [EMPT], [("EMPT.build_trie", EMPT)], (), ["build_trie", "root_hash", "get"])
# ------------------------------------------------------------------ binary Merkle tree
prop("C21", "The Merkle tree root is the specified hash of its leaves in order",
 "The root of a binary Merkle tree is obtained by hashing adjacent pairs level by level, an unpaired last node moving up unchanged, over the leaves in insertion order (hashed first in secure mode), with the chosen hash function. It therefore depends only on the ordered leaves, and leaf count and leaf access agree with them.",
 ["inputs", "configurations"], "every sequence of leaves, both modes, every supported hash function",
 "One five-leaf root is pinned; other sizes, secure mode and other hash functions are not.",
 [MTOOLS, MT], [("MerkleTools._calculate_next_level", MTOOLS), ("MerkleTools.make_tree", MTOOLS)], [("leaves", "list of leaf values", MTOOLS), ("levels", "tree levels", MTOOLS)], ["get_merkle_root", "get_leaf", "get_count"])
prop("C22", "Merkle tree proofs of present values always verify",
 "For every value in a built Merkle tree, at every position and tree size, in secure and plain mode, duplicates included, the inclusion proof generated is accepted by that tree and by any other tree with the same leaves.",
 ["inputs", "configurations"], "every tree size, position and mode",
 "One proof in one five-leaf plain tree is verified.",
 [MTOOLS, MT], [("get_proof_of_inclusion", MTOOLS), ("verify_proof_of_inclusion", MTOOLS)], (), ["verify_proof_of_inclusion"])
prop("C23", "Merkle tree verification accepts no value that is not in the tree",
 "In secure mode a Merkle tree never accepts an inclusion proof for a value that is not one of its leaves, whatever path and root the proof carries, except for values that are themselves the concatenation of two node digests of the tree (leaves and inner nodes are not domain-separated). A proof that names a root other than the tree's own is not accepted in either mode.",
 ["inputs"], "every tree, every value and every proof path",
 "Tests only show one honest proof rejected by a different tree.",
 [MTOOLS, MT], [("recomputed root compared with the claimed and the own root", MT)], (), ["verify_proof_of_inclusion"])
prop("C24", "Adding leaves or resetting is always reflected in the next root",
 "However additions, rebuilding, resetting and root or proof requests are interleaved, a root or proof obtained from a Merkle tree describes exactly the leaves added since the last reset, or the request is refused because the tree must be built first; a stale root or a proof that does not verify is never handed out. Two built trees compare equal exactly when their roots are equal.",
 ["histories"], "every interleaving of put, make, reset, root and proof calls",
 "Tests build each tree once and ask once.",
 [MTOOLS, MT], [("is_ready flag", MTOOLS), ("reset_tree", MTOOLS), ("get_merkle_root", MT)], [("is_ready", "levels match the leaves", MTOOLS)], ["get_merkle_root", "get_proof_of_inclusion", "is_ready"])
# ------------------------------------------------------------------ proof objects
prop("C25", "Proof objects survive JSON and RLP",
 "Decoding the JSON or RLP encoding of a proof object yields an equal proof, with the same type, timestamp, target key, root hash and path, for flat proofs and for proofs produced by the Merkle tree, whenever encoding succeeds; the decoded proof is judged by a verifier exactly as the original. Encoding a proof kind that is not supported raises instead of producing something that decodes differently.",
 ["inputs"], "every content of the fields",
 "Tests round-trip one flat proof; proofs generated by the Merkle tree were never encoded.",
 [PROOF, MT], [("Proof.encode_json/decode_json", PROOF), ("Proof.encode_rlp/decode_rlp", PROOF)], (), ["encode_json", "decode_json", "encode_rlp", "decode_rlp"])
prop("C26", "Proofs are equal exactly when all their parts are equal",
 "Two proof objects compare equal exactly when type, timestamp, target key, root hash and path are all equal, and equal proofs have equal hashes. Iterating a proof yields exactly those five parts each time.",
 ["inputs"], "every pair of proofs",
 "Tests compare three constant proofs.",
 [PROOF], [("Proof.__hash__/__eq__", PROOF), ("Proof.__iter__", PROOF)], (), ["==", "hash", "iter"])
# ------------------------------------------------------------------ crypto helpers
prop("C27", "Password encryption is reversible and tamper-evident",
 "Decrypting with the same password what was encrypted with it returns the original bytes, for every data (the empty one included) and password. Decrypting with another password, or after any byte of the encrypted data was changed, removed or added, raises and never returns data.",
 ["inputs", "fault_sequences"], "every data, password and alteration",
 "One message is round-tripped; nothing is altered.",
 [UT], [("nonce | tag | ciphertext framing", UT), ("authenticated cipher", UT)], (), ["encrypt", "decrypt"])
prop("C28", "A signature is accepted exactly for its data and key",
 "A signature made by a key pair over some data is accepted for that data with that pair's public key, given explicitly or by default, by every key pair that can verify. It is rejected, by returning false, for other data, for another key and when altered, and never accepted when something that is no key is given as the key.",
 ["inputs"], "every data, key and alteration",
 "One signature is checked as valid, none as invalid.",
 [KP], [("sign", KP), ("signature_valid", KP)], (), ["sign", "signature_valid"])
prop("C29", "Encrypted messages reach only the receiver and prove their sender",
 "A message encrypted for a receiver is decrypted by that receiver, naming the sender's public key, to exactly the original bytes. Decrypting with another private key, naming another party that did not sign it (or nothing that is a key), or naming the sender after any part of the message was altered (to a text standing for other bytes) raises and returns no data.",
 ["inputs", "fault_sequences"], "every message, pair of parties and alteration",
 "One message is exchanged and one wrong sender tried.",
 [KP], [("encrypt", KP), ("decrypt", KP)], (), ["encrypt", "decrypt"])
prop("C30", "A saved key pair is restored exactly, and only with its passphrase",
 "Saving a key pair to a string or file and loading it with the same non-empty passphrase (of Latin-1 characters) restores the same keys and nickname, for each kind of key pair; loading with another passphrase raises. The saved form never contains the private key unencrypted.",
 ["inputs"], "every nickname, passphrase and kind of key pair",
 "One nickname and passphrase are tried.",
 [KP], [("to_key_string/from_key_string", KP), ("to_key_file/from_key_file", KP)], (), ["to_key_string", "from_key_string", "to_key_file", "from_key_file"])
prop("C31", "Authentication and encryption key pairs do their own job and only that",
 "An authentication-only key pair signs and verifies but refuses to encrypt or decrypt, and an encryption-only key pair encrypts and decrypts but refuses to sign or verify on request, for every data; the general key pair does all of them.",
 ["inputs", "configurations"], "every kind of key pair and operation",
 "Only the general key pair is tested.",
 [KP], [("RsaAuthKeyPair", KP), ("RsaEncKeyPair", KP)], (), ["sign", "signature_valid", "encrypt", "decrypt"])
prop("C32", "Hash helpers agree with each other and with the named hash",
 "Hashing a list of byte strings equals hashing their concatenation, the hexadecimal form is the hexadecimal text of the binary form, and the general hashing helper returns the digest of exactly the given data under the requested algorithm, refusing unknown algorithms and non-bytes.",
 ["inputs"], "every data and list of data",
 "Tests hash one message with each algorithm.",
 [HASH, UT], [("keccak_hash/keccak_hash_list", HASH), ("Utils.hash_data", UT)], (), ["keccak_hash", "keccak_hash_list", "hash_data"])
prop("C33", "RSA key material is classified correctly",
 "The key check accepts as public exactly the parsable keys without private part and as private exactly those with one; anything unparsable is rejected by returning false, or by raising when that was asked for.",
 ["inputs", "configurations"], "every outcome of parsing, kind asked for and flag",
 "Tests try one valid and one invalid key of each kind, never one kind as the other.",
 [UT], [("Utils.rsa_key_valid", UT)], (), ["rsa_key_valid"])
prop("C34", "Arguments of the wrong type are refused without effect",
 "Passing a key or value of an unsupported type to the verified mapping, its references-only form or the Merkle tree raises and leaves contents, length and root exactly as before; a list of values with an unsupported element never yields a tree that claims to hold that element.",
 ["inputs", "histories"], "every state and unsupported argument",
 "Tests pass an unsupported value once and do not look at the state afterwards.",
 [EMPT, MT, PROOF], [("type checks before any change", EMPT), ("type checks", MT)], (), ["update", "delete", "put", "put_list"])
prop("C35", "Timestamps read back as the moment they were taken",
 "Parsing a timestamp text produced by the timestamp helper gives back the moment it was taken, to the second, as a date and time that carries its time zone, whatever the local time zone.",
 ["inputs"], "every moment and time zone",
 "Tests only look at the type of the timestamp.",
 [UT], [("Utils.get_timestamp_string/from_timstamp_string", UT)], (), ["get_timestamp_string", "from_timstamp_string"])
prop("C36", "Reading never changes what is stored",
 "Look-ups, membership tests, roots, views, encodings, comparing, hashing, length, iteration, and generating or verifying proofs (accepted, refused and forged ones included) leave a Patricia trie, a mapping, a references-only view and a built Merkle tree with the contents, root and storage entries they had before. Asking the same question again, also after any other question, gives the same answer (for proofs up to their timestamp).",
 ["inputs", "histories"], "every contents, every pair of questions asked one after the other",
 "Tests ask each question once, of a fixed trie, and never look at the storage; a cache or a temporary node that a question leaves behind is seen only by a second question of a particular kind.",
 [MPT, EMPT, MT, MTOOLS], [("the get/contains/proof walks of MPT", MPT), ("EMPT views and proofs", EMPT), ("MerkleTree.get_proof/verify", MT)],
 [("node storage", "hash -> encoded node", MPT), ("root reference", "current root", MPT)], ["root_hash", "get", "the storages"])
prop("C37", "Node storage is content-addressed, append-only and needs item access only",
 "Every entry a Patricia trie writes into its node storage is stored under the Keccak-256 digest of its bytes; no operation changes or removes an entry. Updating, reading, membership, deleting and both kinds of proof work on any storage that offers reading and writing single items and nothing else.",
 ["inputs", "histories"], "every history of writes and deletes",
 "Tests always use a plain dict and never look at its entries; a wrong key or a removed node is invisible until another trie needs it.",
 [MPT, NODE], [("MPT._store_node", MPT), ("Node.into_reference", NODE)], [("node storage", "hash -> encoded node", MPT)], ["the storage entries"])
prop("C38", "Key pairs are equal exactly when kind, nickname and public key are",
 "Two key pairs are equal exactly when their kind, nickname and public key are all the same; equality is symmetric, equal pairs have equal hashes, and a key pair never equals anything else. The public key can be neither set nor deleted and the nickname not deleted, a pair cannot be made with a nickname, nor keys generated with a length, of a wrong type, and what is refused changes nothing. The printed forms contain no private key. Pairs made without a nickname get distinct ones, and generating keys again replaces the key by another one.",
 ["inputs"], "every pair of key pairs, nicknames and attempted changes",
 "Tests compare a few pairs with fixed nicknames and never look at the printed forms or the pair after a refused change.",
 [KP], [("KeyPair.__eq__/__hash__/__repr__", KP), ("KeyPair.nickname/public_key", KP), ("generate_keypair", KP)], (), ["==", "hash", "repr", "nickname", "public_key"])
prop("C39", "Nothing random is used twice",
 "Encrypting twice, the same data with the same password or not, never gives the same result and never uses a nonce again. Every encrypted message has a session key of its own of at least 16 bytes. Identifiers consist of 32 lowercase hexadecimal digits and never repeat. Generated keys differ from each other; a key pair has 4096 bits unless asked otherwise and a generated RSA key at least 2048.",
 ["inputs", "histories"], "every data, password and receiver, every sequence of calls",
 "A repeated nonce or session key breaks secrecy without breaking any round trip, so no test of decryption can see it.",
 [UT, KP], [("Utils.encrypt", UT), ("KeyPair.encrypt", KP), ("Utils.get_id_string", UT), ("Utils.generate_rsa_keypair/generate_ecc_key", UT)], (), ["encrypt", "get_id", "get_id_string", "generate_keypair"])
prop("C40", "A mapping can be closed and opened again at any point",
 "Opening a mapping or a references-only view again on its storages with its root, given as the root node or as the root hash, at any point of its history, continues it unchanged: the same contents, length and root now and after any further operations. Opening a mapping on a trie storage that holds nodes without giving a root is refused.",
 ["histories", "inputs"], "every history, every point at which it is closed and opened",
 "Tests open a mapping again once, after a few insertions.",
 [EMPT, MPT], [("EMPT.__init__", EMPT), ("SparseEMPT.__init__", EMPT), ("MPT.__init__", MPT)], [("trie storage", "nodes", EMPT), ("data storage", "values", EMPT)], ["EMPT(...)", "SparseEMPT(...)", "root_hash", "get"])
prop("C41", "A failing storage leaves the mapping as it was",
 "When the trie storage or the data storage of a mapping raises during an update or delete (also through pop and setdefault), the operation raises, and the mapping has its previous contents, length and root, for every key. Repeating the operation once the storage works again gives the result it would have given the first time.",
 ["fault_sequences", "crash_points", "inputs"], "every state, every operation, every access at which one of the storages fails",
 "No test lets a storage fail; two storages have to stay in step at every point of failure.",
 [EMPT, MPT], [("EMPT.update", EMPT), ("EMPT.delete", EMPT)], [("trie storage", "nodes", EMPT), ("data storage", "values", EMPT)], ["get", "len", "root_hash"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
