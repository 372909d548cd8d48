From 3347eaeafb72b00c3382e73842b0f5c1215c80bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:41 +0000
Subject: [PATCH 01/23] fix: a key whose path ends inside the trie without a
 value is not found

get() and inclusion proofs treated any node met when the path was used up as
the node of the key, so absent keys got another key's value or a proof.
---
 src/pymt/mpt.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index ac276a5..f1f008d 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -561,6 +561,15 @@ class MPT:
             raise InvalidNodeError("Invalid node type {}".format(type(decoded_node)))
         return decoded_node
 
+    @staticmethod
+    def _ends_at(node: Node) -> bool:
+        """Check if a key whose path ends at the given node is stored in it."""
+        if isinstance(node, Leaf):
+            return len(node.path) == 0
+        if isinstance(node, Branch):
+            return len(node.data) != 0
+        return False
+
     def _get(self, node_ref: bytes, path: NibblePath) -> bytes:
         """
         Get support method.
@@ -588,9 +597,11 @@ class MPT:
         """
         node = self._get_node(node_ref)
 
-        # If path is empty, our travel is over. Main `get` method
-        # will check if this node has a value.
+        # If path is empty, our travel is over. Only a leaf that ends here or a
+        # branch that holds a value belongs to the key.
         if len(path) == 0:
+            if not MPT._ends_at(node):
+                raise KeyNotFoundError("There is no value stored for the search key.")
             return node
 
         if type(node) is Leaf:
@@ -707,7 +718,9 @@ class MPT:
 
         if len(path) == 0:
             # If path is empty, we've found the node.
-            # The node doesnt have to be a leaf.
+            # The node doesnt have to be a leaf, but it has to hold a value.
+            if not MPT._ends_at(node):
+                raise KeyNotFoundError("There is no value stored for the search key.")
             proof.append(node.encode())
             return proof
 
@@ -799,16 +812,7 @@ class MPT:
         # If path is empty, our travel is over. Main `get` method
         # will check if this node has a value.
         if len(path) == 0:
-            # check extension and node, leaf already handeled
-            if isinstance(node, Extension):
-                return False
-            if isinstance(node, Branch):
-                # Check if the branch has data
-                if node.data != None:
-                    return True
-                else:
-                    return False
-            return True
+            return MPT._ends_at(node)
 
         if type(node) is Leaf:
             # If we've found a leaf, it's either the leaf we're
-- 
2.43.0


From c0886acfc2959ce16f49c9ea34fd5f85ad1fc825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 02/23] fix: a key that leaves a value-holding branch at an
 empty slot is not contained

---
 src/pymt/mpt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index f1f008d..1e819b8 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -209,8 +209,9 @@ class MPT:
         node = self._contains(self._root, path)
 
         # If the node is a branch check if it has a value
+        # (the value belongs to the key only if the whole path was used)
         if isinstance(node, Branch):
-            if node.data != None and node.data != b"":
+            if len(path) == 0 and node.data != None and node.data != b"":
                 return True
             else:
                 return False
@@ -404,7 +405,7 @@ class MPT:
         # If the node is a branch check if i thas a value
         # Can be None or b'' (b'' is used when trie is in secure mode)
         if isinstance(node, Branch):
-            if node.data != None and node.data != b"":
+            if len(path) == 0 and node.data != None and node.data != b"":
                 raise PoeError("This should never happen")
 
         # If the node is a leaf the key is in the trie
-- 
2.43.0


From 26d64a11e8cd30f307bafb1306ffb12dba191ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:27 +0000
Subject: [PATCH 03/23] fix: exclusion proofs include the extension where the
 key leaves the trie

---
 src/pymt/mpt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 1e819b8..7224c60 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -902,6 +902,8 @@ class MPT:
                 proof.append(node.encode())
                 return self._get_proof_of_exclusion(node.next_ref, rest_path, proof)
             else:
+                # The extension itself shows that the key is not in the trie.
+                proof.append(node.encode())
                 return node, proof
 
         elif type(node) is Branch:
-- 
2.43.0


From e4bc71bd85a80c12a362289bd2a3abf79725b35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:15 +0000
Subject: [PATCH 04/23] fix: an exclusion proof is accepted only if its nodes
 show that the key is absent

A missing node counted as proof of absence, and the last leaf was compared with
the whole key, so stored keys could be 'proven' absent.
---
 src/pymt/mpt.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 7224c60..d62e7d6 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -466,24 +466,28 @@ class MPT:
             # print(type(encoded_node))
             proof_storage[Node.into_reference(Node.decode(encoded_node))] = encoded_node
 
+        path = NibblePath(proof.target_key)
         node, keys_left = self._verify_proof_of_exclusion(
-            self.root(), NibblePath(proof.target_key), proof_storage
+            self.root(), path, proof_storage
         )
 
+        # A node on the path of the key is missing, so nothing is proven.
+        if node is None:
+            return False
+
         # There should be no keys left in the proof
         if len(keys_left.keys()) != 0:
             return False
 
         # Check if the result node is valid
-        # If the node is a branch check if it has a value
+        # If the key ends at a branch with a value the key is in the trie
         if isinstance(node, Branch):
-            if node.data == None:
+            if len(path) == 0 and len(node.data) != 0:
                 return False
 
-        # If the node is a leaf the key is in the trie
-
+        # If the leaf holds the rest of the key the key is in the trie
         if isinstance(node, Leaf):
-            if node.path == NibblePath(proof.target_key):
+            if node.path == path:
                 return False
 
         # Proof passed
@@ -940,8 +944,8 @@ class MPT:
 
         Returns
         -------
-        bool, node_ref
-            True if this the last node in the proof, the next node ref otherwise.
+        node
+            The last node on the path of the key, None if the proof misses a node.
         proof_storage: dict
             Dictionary with nodes.
 
@@ -963,12 +967,7 @@ class MPT:
                 try:
                     raw_node = proof_storage[node_ref]
                 except KeyError:
-                    # TODO: Figure out in wich cases this shouldnt be True
-                    # I still dont really trust this statement,
-                    # but it is necessary for the tests to pass
-                    # By checking the proof_dict at the end of the function
-                    # there should be 1 node left in the dict, the null leaf
-                    return True, proof_storage
+                    return None, proof_storage
             else:
                 raw_node = node_ref
             node = Node.decode(raw_node)
-- 
2.43.0


From 80133101ac07087a16d1cb9a648cc7f040ed0374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 05/23] fix: inclusion proofs of tries with a root node under
 32 bytes verify

---
 src/pymt/mpt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index d62e7d6..5e1fdfb 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -355,8 +355,9 @@ class MPT:
         valid = self._verify_proof_of_inclusion(
             self._root, NibblePath(proof.target_key), proof_storage
         )
-        # Check if the current trie hash is the sam as the proof root
-        if valid and self.root_hash() == proof.trie_root:
+        # Check if the current trie hash is the sam as the proof root. The proof
+        # carries the root itself, which is not a hash if the trie is tiny.
+        if valid and proof.trie_root in (self.root(), self.root_hash()):
             return True
         else:
             return False
-- 
2.43.0


From f63555d5113b3d115423d3464b52a99f2a399f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 06/23] fix: tries can be compared and hashed

---
 src/pymt/mpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 5e1fdfb..80c6fac 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -98,7 +98,7 @@ class MPT:
         self.delete(encoded_key)
 
     def __hash__(self) -> int:
-        return int(keccak_hash(self._root), 16)
+        return int.from_bytes(self.root_hash(), "big")
 
     def __eq__(self, other: "MPT") -> bool:
         if not isinstance(other, MPT):
-- 
2.43.0


From 159efbc1814395dc52cd866899a916521df155e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:42 +0000
Subject: [PATCH 07/23] fix: a trie that has been emptied can be encoded

---
 src/pymt/mpt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 80c6fac..d806283 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -500,7 +500,9 @@ class MPT:
         storage_list = [
             _prepare_reference_for_encoding(node) for node in self._storage.values()
         ]
-        content = [self.root(), storage_list, self._secure]
+        # An emptied trie has no root node
+        root = self._root if self._root else Node.EMPTY_HASH
+        content = [root, storage_list, self._secure]
         return rlp.encode(content)
 
     @staticmethod
-- 
2.43.0


From 8679af43ac8d0fb5713ecd6e10732e4ae7fd81d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 08/23] fix: Merkle tree proofs verify in secure mode

---
 src/pymt/mt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymt/mt.py b/src/pymt/mt.py
index d9bbe08..12e5e16 100644
--- a/src/pymt/mt.py
+++ b/src/pymt/mt.py
@@ -153,6 +153,9 @@ class MerkleTree(MerkleTools):
 
         merkle_root = bytes.fromhex(proof.trie_root.decode())
         target_hash = proof.target_key
+        if self._secure:
+            # The leaves are the hashes of the values
+            target_hash = self.hash_function(target_hash).digest()
 
         try:
             valid = super().verify_proof_of_inclusion(
-- 
2.43.0


From c97dbc3d50ef700934cfff135128037c231daf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:05 +0000
Subject: [PATCH 09/23] fix: adding a leaf makes a built Merkle tree outdated

---
 src/pymt/merkletools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymt/merkletools.py b/src/pymt/merkletools.py
index 5fb1904..40977e4 100644
--- a/src/pymt/merkletools.py
+++ b/src/pymt/merkletools.py
@@ -113,6 +113,8 @@ class MerkleTools(object):
         else:
             value = bytearray(value)
         self.leaves.append(value)
+        # The levels do not cover the new leaf
+        self.is_ready = False
 
     def get_leaf(self, index: int) -> str:
         """
-- 
2.43.0


From 863deffd84c856147e57cfed7c5c6d4f3df203bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 10/23] fix: proofs produced by the Merkle tree can be encoded
 and decoded

---
 src/pymt/proof.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/pymt/proof.py b/src/pymt/proof.py
index 774869e..64c5b02 100644
--- a/src/pymt/proof.py
+++ b/src/pymt/proof.py
@@ -159,7 +159,11 @@ class Proof:
         for key, value in content.items():
             if key.lower() == "proof":
                 if "MT" in self._type.decode():
-                    content[key] = [i.decode() for i in value]
+                    # Merkle tree proofs are made of (side, hash) pairs
+                    content[key] = [
+                        [p.decode() for p in i] if isinstance(i, tuple) else i.decode()
+                        for i in value
+                    ]
                 elif "MPT" in self._type.decode():
                     raise NotImplementedError(
                         "Encoding MPT proofs is not supported yet"
@@ -188,7 +192,10 @@ class Proof:
             # Build the mpt proof from string
             proof = []
             for i in encoded_proof_list:
-                proof.append(i.encode())
+                if isinstance(i, list):
+                    proof.append(tuple(p.encode() for p in i))
+                else:
+                    proof.append(i.encode())
 
         else:
             raise TypeError("Invalid proof type {}".format(json_proof["proof_type"]))
@@ -254,14 +261,18 @@ class Proof:
                 rlp.sedes.binary,
                 rlp.sedes.binary,
                 rlp.sedes.binary,
-                rlp.sedes.CountableList(rlp.sedes.binary),
+                rlp.sedes.CountableList(rlp.sedes.raw),
             ]
         )
         decoded = rlp.decode(rlp_bytes, sedes=sedes)
+        # Merkle tree proofs are made of (side, hash) pairs
+        proof_list = tuple(
+            i if isinstance(i, bytes) else tuple(i) for i in decoded[4]
+        )
         proof = Proof(
             target_key=decoded[2],
             root_hash=decoded[3],
-            proof=decoded[4],
+            proof=proof_list,
             proof_type=decoded[0],
         )
         proof._timestamp = decoded[1]
-- 
2.43.0


From 76eaab110207775ada6cbb469054212fc6c1dccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 11/23] fix: tries created without storage do not share one

---
 src/pymt/empt.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index 9e7c459..56ce447 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -117,8 +117,8 @@ class EMPT(MutableMapping):
 
     def __init__(
         self,
-        trie_storage={},
-        data_storage={},
+        trie_storage=...,
+        data_storage=...,
         root: Union[bytes, None] = None,
         secure: bool = False,
     ) -> ...:
@@ -165,6 +165,10 @@ class EMPT(MutableMapping):
                 The trie does not encrypt or hash the value, this is the
                 responsibility of the user.
         """
+        if trie_storage is ...:
+            trie_storage = {}
+        if data_storage is ...:
+            data_storage = {}
         if data_storage is None:
             raise TypeError(
                 "The data storage must be set when the trie is in FULL mode"
@@ -422,7 +426,7 @@ class SparseEMPT:
     """
 
     def __init__(
-        self, trie_storage={}, root: Union[bytes, None] = None, secure: bool = False
+        self, trie_storage=..., root: Union[bytes, None] = None, secure: bool = False
     ):
         """
         Initialize the sparse storage EMPT.
@@ -442,6 +446,8 @@ class SparseEMPT:
                 The trie does not encrypt or hash the value, this is the
                 responsibility of the user.
         """
+        if trie_storage is ...:
+            trie_storage = {}
         self._trie = MPT(trie_storage, root, secure=secure)
 
     # DUNDER METHODS
-- 
2.43.0


From 4120286eb49dace9c8f8074a46a81a4cf77a51b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:13 +0000
Subject: [PATCH 12/23] fix: bytearray values can be stored in and read from an
 EMPT

---
 src/pymt/empt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index 56ce447..c330894 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -258,7 +258,7 @@ class EMPT(MutableMapping):
             # Encode if not already bytes
             expected = DataReference(key, data.encode_rlp())
         else:
-            expected = DataReference(key, data)
+            expected = DataReference(key, bytes(data))
         if ref != expected:
             raise InvalidReferenceError(
                 "The reference does not match the expected data"
@@ -303,7 +303,7 @@ class EMPT(MutableMapping):
         if not isinstance(value, (bytes, bytearray)):
             ref = DataReference(key, value.encode_rlp())
         else:
-            ref = DataReference(key, value)
+            ref = DataReference(key, bytes(value))
         self._trie.update(key, ref.encode())
         self._data_storage[key] = value
 
@@ -533,7 +533,7 @@ class SparseEMPT:
 
         if not isinstance(key, bytes):
             raise TypeError("The key must be type bytes, not {}".format(type(key)))
-        ref = DataReference(key, value)
+        ref = DataReference(key, bytes(value))
         self._trie.update(key, ref.encode())
 
     def delete(self, key: bytes) -> ...:
-- 
2.43.0


From 7ca212873e37bb178ff04bac77fbbcf9fdd6f113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:30 +0000
Subject: [PATCH 13/23] fix: objects with an RLP encoding can be stored in a
 SparseEMPT

---
 src/pymt/empt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index c330894..d8cdf5c 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -517,13 +517,13 @@ class SparseEMPT:
             have a .encode_rlp() and .decode_rlp() method.
         """
         if not isinstance(value, (bytes, bytearray)):
-            if not hasattr(value.encode_rlp):
+            if not hasattr(value, "encode_rlp"):
                 raise NotImplementedError(
                     "The value must be type bytes, bytearray or have an encode_rlp method, not {}".format(
                         type(value)
                     )
                 )
-            if not hasattr(value.decode_rlp):
+            if not hasattr(value, "decode_rlp"):
                 raise NotImplementedError(
                     "The value must be type bytes, bytearray or have a decode_rlp method, not {}".format(
                         type(value)
-- 
2.43.0


From c7ca296e7ab7d3efcc1cdf64f2b336828078c132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:40 +0000
Subject: [PATCH 14/23] fix: a SparseEMPT can give its root trie

---
 src/pymt/empt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index d8cdf5c..beb907e 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -485,7 +485,7 @@ class SparseEMPT:
 
         The root trie is a trie that only contains the root of the trie.
         """
-        return RootEMPT(mode=b"ROOT", secure=self._trie.secure, root=self._trie.root())
+        return RootEMPT(secure=self._trie.secure, root=self._trie.root())
 
     # TRIE METHODS
     def get_reference(self, key: bytes) -> DataReference:
-- 
2.43.0


From 5dc9db20deae750e7a7e36845a515411bb98430c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:54 +0000
Subject: [PATCH 15/23] fix: the trie of an EMPT can be rebuilt from its data

---
 src/pymt/empt.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index beb907e..e2e2ed0 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -233,12 +233,16 @@ class EMPT(MutableMapping):
             database grows, the time it takes to build the trie will increase.
         """
         # Delete all the nodes in the trie
-        for key in self._trie._storage.keys():
+        for key in list(self._trie._storage.keys()):
             del self._trie._storage[key]
+        self._trie = MPT(self._trie._storage, secure=self._trie.secure)
 
         # Build the new trie
         for key in self._data_storage.keys():
-            ref = DataReference(key, self._data_storage[key])
+            value = self._data_storage[key]
+            if not isinstance(value, (bytes, bytearray)):
+                value = value.encode_rlp()
+            ref = DataReference(key, bytes(value))
             self._trie.update(key, ref.encode())
 
     def get(self, key: bytes) -> bytes:
-- 
2.43.0


From a417b3743d70b66908e53389aba5e717eae0b2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:04 +0000
Subject: [PATCH 16/23] fix: data references with different keys are not equal

The hash covers the concatenation of key and data, so bytes moved between the
two were not noticed.
---
 src/pymt/empt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index e2e2ed0..e20d240 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -55,7 +55,7 @@ class DataReference:
     def __eq__(self, other) -> bool:
         if not isinstance(other, DataReference):
             return False
-        return self.hash == other.hash
+        return self.key == other.key and self.data == other.data
 
     def __hash__(self) -> int:
         return int(keccak_hash(self._key + self._data, hexdigest=True), 16)
-- 
2.43.0


From a70816007b149e9f3d760d7b85304d13b59b75a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:12 +0000
Subject: [PATCH 17/23] fix: encryption key pairs can encrypt and decrypt

Both sign or verify the ciphertext, which encryption key pairs refuse to do on
request.
---
 src/pymt/keypairs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pymt/keypairs.py b/src/pymt/keypairs.py
index afbcd57..451bd3a 100755
--- a/src/pymt/keypairs.py
+++ b/src/pymt/keypairs.py
@@ -224,7 +224,7 @@ class RsaKeyPair(AbstractKeyPair):
                 "nonce": cipher_aes.nonce.hex(),
                 "tag": tag.hex(),
                 "ciphertext": ciphertext.hex(),
-                "signature": self.sign(ciphertext).hex(),
+                "signature": RsaKeyPair.sign(self, ciphertext).hex(),
             }
         ).encode("utf-8")
 
@@ -265,7 +265,9 @@ class RsaKeyPair(AbstractKeyPair):
         ciphertext = bytes.fromhex(data["ciphertext"])
         signature = bytes.fromhex(data["signature"])
 
-        if not self.signature_valid(ciphertext, signature, sender_public_key):
+        if not RsaKeyPair.signature_valid(
+            self, ciphertext, signature, sender_public_key
+        ):
             raise ValueError("Invalid signature.")
 
         cipher_rsa = PKCS1_OAEP.new(self._key_pair)
-- 
2.43.0


From fd10948a31c4c55d8dbf960b059463a4cbe68a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 18/23] fix: key pairs can be hashed

---
 src/pymt/keypairs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/keypairs.py b/src/pymt/keypairs.py
index 451bd3a..bfbde3f 100755
--- a/src/pymt/keypairs.py
+++ b/src/pymt/keypairs.py
@@ -57,7 +57,7 @@ class RsaKeyPair(AbstractKeyPair):
         return f"RsaKeyPair(nickname={self._nickname}, public_key={self.public_key_string})"
 
     def __hash__(self) -> int:
-        return Utils.hash_data(self.public_key)
+        return int(Utils.hash_data(self.public_key), 16)
 
     def __eq__(self, other: Any) -> bool:
         if isinstance(other, self.__class__):
-- 
2.43.0


From 8c791493e42e8424c5a7b6729002966eff726021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 19/23] fix: timestamps carry their time zone and can be read
 back

---
 src/pymt/utils/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymt/utils/utils.py b/src/pymt/utils/utils.py
index 1132c1f..6657b9b 100755
--- a/src/pymt/utils/utils.py
+++ b/src/pymt/utils/utils.py
@@ -2,6 +2,7 @@
 from Crypto.Hash import SHA256, SHA512
 from Crypto.Cipher import AES
 from Crypto.PublicKey import RSA, ECC
+from datetime import datetime as _datetime
 from typing import Union
 import time
 import uuid
@@ -31,7 +32,7 @@ class Utils:
             The current timestamp as a string in the format
             YYYY-MM-DD HH:MM:SS.
         """
-        return datetime.now().strftime(format=cls.DATETIME_FORMAT)
+        return datetime.now().astimezone().strftime(cls.DATETIME_FORMAT)
 
     @classmethod
     def get_datetime_stamp(cls) -> datetime:
@@ -73,7 +74,7 @@ class Utils:
         datetime
             The converted timestamp.
         """
-        return datetime.datetime.strptime(timestamp, cls.DATETIME_FORMAT)
+        return _datetime.strptime(timestamp, cls.DATETIME_FORMAT)
 
     @staticmethod
     def get_id_string() -> str:
-- 
2.43.0


From 05acb93da96892445a72268479b2918fa9180afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 20/23] fix: unparsable RSA keys are rejected whatever error
 the parser raises

---
 src/pymt/utils/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymt/utils/utils.py b/src/pymt/utils/utils.py
index 6657b9b..7977afe 100755
--- a/src/pymt/utils/utils.py
+++ b/src/pymt/utils/utils.py
@@ -371,7 +371,7 @@ class Utils:
             # Check if the key is a valid public key
             try:
                 key = RSA.import_key(key)
-            except ValueError:
+            except (ValueError, IndexError, TypeError):
                 if raise_exeptions:
                     raise KeyError(key, "Public key could not be loaded.")
                 return False
@@ -383,7 +383,7 @@ class Utils:
             # Check if the key is a valid private key
             try:
                 key = RSA.import_key(key)
-            except ValueError:
+            except (ValueError, IndexError, TypeError):
                 if raise_exeptions:
                     raise KeyError(key, "Private could not be loaded.")
                 return False
-- 
2.43.0


From 46b7041d08ef7ec3bcddeddb049839e3507b9498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:37 +0000
Subject: [PATCH 21/23] fix: Merkle trees whose roots differ in leading zeros
 are not equal

---
 src/pymt/merkletools.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymt/merkletools.py b/src/pymt/merkletools.py
index 40977e4..e5a71c2 100644
--- a/src/pymt/merkletools.py
+++ b/src/pymt/merkletools.py
@@ -66,7 +66,10 @@ class MerkleTools(object):
 
     def __eq__(self, other: "MerkleTools") -> bool:
         """Check if two Merkle trees are equal."""
-        return self.__hash__() == other.__hash__()
+        roots = [self.get_merkle_root(), other.get_merkle_root()]
+        # Compare the text, as a number it loses the leading zeros of a plain leaf
+        roots = [root.encode() if isinstance(root, str) else root for root in roots]
+        return roots[0] == roots[1]
 
     def __repr__(self) -> str:
         """Get the string representation of the Merkle tree."""
-- 
2.43.0


From 1c831f56af28f5b58b7f6c2a4ff8fe99fad03400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 22/23] fix: iterate over storages that have the documented
 methods only

---
 src/pymt/empt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index e20d240..a2524b8 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -194,7 +194,7 @@ class EMPT(MutableMapping):
 
     def __iter__(self) -> Iterable[bytes]:
         """Return an iterator over the keys in the trie."""
-        return iter(self._data_storage)
+        return iter(self._data_storage.keys())
 
     def __getitem__(self, key: bytes) -> bytes:
         """Wrapper for the get method."""
-- 
2.43.0


From 64f5ff6e33af15b82f2ed1f0badad6e9b9dc07b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:13 +0000
Subject: [PATCH 23/23] fix: a mapping stays as it was when one of its storages
 fails during a change

---
 src/pymt/empt.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index a2524b8..a1d5149 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -308,8 +308,14 @@ class EMPT(MutableMapping):
             ref = DataReference(key, value.encode_rlp())
         else:
             ref = DataReference(key, bytes(value))
+        root = self._trie._root
         self._trie.update(key, ref.encode())
-        self._data_storage[key] = value
+        try:
+            self._data_storage[key] = value
+        except BaseException:
+            # The trie must not refer to a value that was not stored
+            self._trie._root = root
+            raise
 
     def delete(self, key: bytes) -> ...:
         """
@@ -322,8 +328,14 @@ class EMPT(MutableMapping):
             raise TypeError("The key must be type bytes, not {}".format(type(key)))
         if not self._trie.contains(key):
             raise KeyNotFoundError("The key is not in the trie")
-        del self._data_storage[key]
+        root = self._trie._root
         self._trie.delete(key)
+        try:
+            del self._data_storage[key]
+        except BaseException:
+            # The trie must still refer to a value that was not deleted
+            self._trie._root = root
+            raise
 
     def contains(self, key: bytes) -> bool:
         """
-- 
2.43.0

