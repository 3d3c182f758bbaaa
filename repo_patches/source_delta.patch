From ea0d8a6b0c83aebae76e39a9ac81888965004d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 01/19] fix: MPT.get returned a node for a key that is only a
 prefix of stored keys

---
 src/pymt/mpt.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index ac276a5..3dbd099 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -588,9 +588,11 @@ class MPT:
         """
         node = self._get_node(node_ref)
 
-        # If path is empty, our travel is over. Main `get` method
-        # will check if this node has a value.
-        if len(path) == 0:
+        # If path is empty, our travel is over. Only a branch with a value
+        # holds data for this key, a leaf is checked on its own path below.
+        if len(path) == 0 and type(node) is Branch:
+            if len(node.data) == 0:
+                raise KeyNotFoundError("The branch has no value for this key.")
             return node
 
         if type(node) is Leaf:
-- 
2.43.0


From 53ce6ffe1e9b2aa23a675e6b4b57a351da7bd0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 02/19] fix: MPT.contains was True for absent extensions of a
 key stored in a branch

---
 src/pymt/mpt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 3dbd099..d0f7c68 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -208,9 +208,9 @@ class MPT:
         path = NibblePath(key)
         node = self._contains(self._root, path)
 
-        # If the node is a branch check if it has a value
+        # If the node is a branch check if it has a value for this key
         if isinstance(node, Branch):
-            if node.data != None and node.data != b"":
+            if len(path) == 0 and node.data != None and node.data != b"":
                 return True
             else:
                 return False
-- 
2.43.0


From d42d24c2936fa02836ca78f623211bd7fb73cbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 03/19] fix: MPT.__hash__ and == raised ValueError

---
 src/pymt/mpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index d0f7c68..dae56d8 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -98,7 +98,7 @@ class MPT:
         self.delete(encoded_key)
 
     def __hash__(self) -> int:
-        return int(keccak_hash(self._root), 16)
+        return int(keccak_hash(self.root_hash(), hexdigest=True), 16)
 
     def __eq__(self, other: "MPT") -> bool:
         if not isinstance(other, MPT):
-- 
2.43.0


From 92cdf5f64826150cdb2340e2fd7910169eec1a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 04/19] fix: proofs of inclusion were made and accepted for
 absent prefixes of stored keys

---
 src/pymt/mpt.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index dae56d8..5676d9b 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -707,9 +707,12 @@ class MPT:
 
         # print(type(node))
 
-        if len(path) == 0:
+        if len(path) == 0 and isinstance(node, Branch):
             # If path is empty, we've found the node.
-            # The node doesnt have to be a leaf.
+            # A branch only proves inclusion if it has a value, a leaf is
+            # checked on its own path below.
+            if len(node.data) == 0:
+                raise BranchPathError("The branch has no value for this key.")
             proof.append(node.encode())
             return proof
 
@@ -801,16 +804,12 @@ class MPT:
         # If path is empty, our travel is over. Main `get` method
         # will check if this node has a value.
         if len(path) == 0:
-            # check extension and node, leaf already handeled
+            # check extension and branch, leaf is checked on its path below
             if isinstance(node, Extension):
                 return False
             if isinstance(node, Branch):
                 # Check if the branch has data
-                if node.data != None:
-                    return True
-                else:
-                    return False
-            return True
+                return len(node.data) != 0
 
         if type(node) is Leaf:
             # If we've found a leaf, it's either the leaf we're
-- 
2.43.0


From 23a661417735f0263a280d8d05a6963a1c5d1e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 05/19] fix: proofs of inclusion were rejected when the root
 node is encoded in place

---
 src/pymt/mpt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 5676d9b..05941b4 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -355,7 +355,9 @@ class MPT:
             self._root, NibblePath(proof.target_key), proof_storage
         )
         # Check if the current trie hash is the sam as the proof root
-        if valid and self.root_hash() == proof.trie_root:
+        # The proof holds the root itself, which is the encoded node instead of its
+        # hash when the root node is small
+        if valid and proof.trie_root in (self.root_hash(), self.root()):
             return True
         else:
             return False
-- 
2.43.0


From d28fa667151b9cad4bb43849274951772e29fe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 06/19] fix: proofs of exclusion could not be made or verified
 for keys leaving the trie at an extension or below a branch with a value

---
 src/pymt/mpt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 05941b4..20ebb7b 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -405,7 +405,7 @@ class MPT:
 
         # If the node is a branch check if i thas a value
         # Can be None or b'' (b'' is used when trie is in secure mode)
-        if isinstance(node, Branch):
+        if isinstance(node, Branch) and len(path) == 0:
             if node.data != None and node.data != b"":
                 raise PoeError("This should never happen")
 
@@ -900,6 +900,8 @@ class MPT:
                 proof.append(node.encode())
                 return self._get_proof_of_exclusion(node.next_ref, rest_path, proof)
             else:
+                # The path leaves the trie here, the extension shows it.
+                proof.append(node.encode())
                 return node, proof
 
         elif type(node) is Branch:
-- 
2.43.0


From 160c83953e6c979f3eae87f7fec4e02d4f396720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 07/19] fix: proofs of exclusion were accepted for keys that
 are in the trie

---
 src/pymt/mpt.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 20ebb7b..f87755a 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -467,24 +467,30 @@ class MPT:
             # print(type(encoded_node))
             proof_storage[Node.into_reference(Node.decode(encoded_node))] = encoded_node
 
+        path = NibblePath(proof.target_key)
         node, keys_left = self._verify_proof_of_exclusion(
-            self.root(), NibblePath(proof.target_key), proof_storage
+            self.root(), path, proof_storage
         )
 
+        # The proof should contain every node on the path
+        if node is None:
+            return False
+
         # There should be no keys left in the proof
         if len(keys_left.keys()) != 0:
             return False
 
         # Check if the result node is valid
         # If the node is a branch check if it has a value
+        # at the end of the path
         if isinstance(node, Branch):
-            if node.data == None:
+            if len(path) == 0 and node.data != b"":
                 return False
 
-        # If the node is a leaf the key is in the trie
+        # If the leaf has the rest of the path the key is in the trie
 
         if isinstance(node, Leaf):
-            if node.path == NibblePath(proof.target_key):
+            if node.path == path:
                 return False
 
         # Proof passed
@@ -961,12 +967,9 @@ class MPT:
                 try:
                     raw_node = proof_storage[node_ref]
                 except KeyError:
-                    # TODO: Figure out in wich cases this shouldnt be True
-                    # I still dont really trust this statement,
-                    # but it is necessary for the tests to pass
-                    # By checking the proof_dict at the end of the function
-                    # there should be 1 node left in the dict, the null leaf
-                    return True, proof_storage
+                    # The proof does not contain the next node of the path, so
+                    # it shows nothing about the key
+                    return None, proof_storage
             else:
                 raw_node = node_ref
             node = Node.decode(raw_node)
-- 
2.43.0


From 7b39f512cfd3bb411fc52df006d9034274283455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 08/19] fix: MPT.encode raised for a trie that has been emptied

---
 src/pymt/mpt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index f87755a..24f411d 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -502,7 +502,8 @@ class MPT:
         storage_list = [
             _prepare_reference_for_encoding(node) for node in self._storage.values()
         ]
-        content = [self.root(), storage_list, self._secure]
+        root = Node.EMPTY_HASH if self.root() is None else self.root()
+        content = [root, storage_list, self._secure]
         return rlp.encode(content)
 
     @staticmethod
-- 
2.43.0


From d1afe1bff9cbf58fe8390c150fe8481ea2f1386d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 09/19] fix: MerkleTools returned an outdated root and proofs
 after adding a leaf

---
 src/pymt/merkletools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymt/merkletools.py b/src/pymt/merkletools.py
index 5fb1904..03bc587 100644
--- a/src/pymt/merkletools.py
+++ b/src/pymt/merkletools.py
@@ -113,6 +113,7 @@ class MerkleTools(object):
         else:
             value = bytearray(value)
         self.leaves.append(value)
+        self.is_ready = False
 
     def get_leaf(self, index: int) -> str:
         """
-- 
2.43.0


From c4323275d75ed62b97502c6e43ee552b174ba2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 10/19] fix: MerkleTree rejected every proof of inclusion in
 secure mode

---
 src/pymt/mt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymt/mt.py b/src/pymt/mt.py
index d9bbe08..91ba52a 100644
--- a/src/pymt/mt.py
+++ b/src/pymt/mt.py
@@ -153,6 +153,9 @@ class MerkleTree(MerkleTools):
 
         merkle_root = bytes.fromhex(proof.trie_root.decode())
         target_hash = proof.target_key
+        if self._secure:
+            # The leaves are hashed in secure mode
+            target_hash = self.hash_function(target_hash).digest()
 
         try:
             valid = super().verify_proof_of_inclusion(
-- 
2.43.0


From dfb02be937f7f460556cd9c98849a854766de073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 11/19] fix: EMPT and SparseEMPT instances created with default
 storages shared their content

---
 src/pymt/empt.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index 9e7c459..158e906 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -117,8 +117,8 @@ class EMPT(MutableMapping):
 
     def __init__(
         self,
-        trie_storage={},
-        data_storage={},
+        trie_storage=...,
+        data_storage=...,
         root: Union[bytes, None] = None,
         secure: bool = False,
     ) -> ...:
@@ -165,6 +165,11 @@ class EMPT(MutableMapping):
                 The trie does not encrypt or hash the value, this is the
                 responsibility of the user.
         """
+        # Every trie gets its own storage if none is given
+        if trie_storage is ...:
+            trie_storage = {}
+        if data_storage is ...:
+            data_storage = {}
         if data_storage is None:
             raise TypeError(
                 "The data storage must be set when the trie is in FULL mode"
@@ -422,7 +427,7 @@ class SparseEMPT:
     """
 
     def __init__(
-        self, trie_storage={}, root: Union[bytes, None] = None, secure: bool = False
+        self, trie_storage=..., root: Union[bytes, None] = None, secure: bool = False
     ):
         """
         Initialize the sparse storage EMPT.
@@ -442,6 +447,9 @@ class SparseEMPT:
                 The trie does not encrypt or hash the value, this is the
                 responsibility of the user.
         """
+        # Every trie gets its own storage if none is given
+        if trie_storage is ...:
+            trie_storage = {}
         self._trie = MPT(trie_storage, root, secure=secure)
 
     # DUNDER METHODS
-- 
2.43.0


From 933f1825eb8a9356bf50712752393a49447f19aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 12/19] fix: EMPT.build_trie failed on a built trie and on
 values with an encode_rlp method

---
 src/pymt/empt.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index 158e906..4439a53 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -234,12 +234,17 @@ class EMPT(MutableMapping):
             database grows, the time it takes to build the trie will increase.
         """
         # Delete all the nodes in the trie
-        for key in self._trie._storage.keys():
+        for key in list(self._trie._storage.keys()):
             del self._trie._storage[key]
+        self._trie = MPT(self._trie._storage, secure=self._trie.secure)
 
         # Build the new trie
         for key in self._data_storage.keys():
-            ref = DataReference(key, self._data_storage[key])
+            value = self._data_storage[key]
+            if not isinstance(value, (bytes, bytearray)):
+                # Encode if not already bytes
+                value = value.encode_rlp()
+            ref = DataReference(key, value)
             self._trie.update(key, ref.encode())
 
     def get(self, key: bytes) -> bytes:
-- 
2.43.0


From 72268939447503886605f58b96a2c0577e848a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 13/19] fix: SparseEMPT.get_root_trie passed an argument
 RootEMPT does not have

---
 src/pymt/empt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index 4439a53..dc2d761 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -492,7 +492,7 @@ class SparseEMPT:
 
         The root trie is a trie that only contains the root of the trie.
         """
-        return RootEMPT(mode=b"ROOT", secure=self._trie.secure, root=self._trie.root())
+        return RootEMPT(secure=self._trie.secure, root=self._trie.root())
 
     # TRIE METHODS
     def get_reference(self, key: bytes) -> DataReference:
-- 
2.43.0


From 3f562992c2d5830ef961b625f3f05b41d3d94ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 14/19] fix: SparseEMPT.update raised for values with an
 encode_rlp method

---
 src/pymt/empt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index dc2d761..f3bce76 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -524,13 +524,13 @@ class SparseEMPT:
             have a .encode_rlp() and .decode_rlp() method.
         """
         if not isinstance(value, (bytes, bytearray)):
-            if not hasattr(value.encode_rlp):
+            if not hasattr(value, "encode_rlp"):
                 raise NotImplementedError(
                     "The value must be type bytes, bytearray or have an encode_rlp method, not {}".format(
                         type(value)
                     )
                 )
-            if not hasattr(value.decode_rlp):
+            if not hasattr(value, "decode_rlp"):
                 raise NotImplementedError(
                     "The value must be type bytes, bytearray or have a decode_rlp method, not {}".format(
                         type(value)
-- 
2.43.0


From 76093970e415fc60e95307696d2ff1ebf0a3c1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 15/19] fix: EMPT and SparseEMPT raised TypeError for bytearray
 values

---
 src/pymt/empt.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index f3bce76..84eb518 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -244,7 +244,7 @@ class EMPT(MutableMapping):
             if not isinstance(value, (bytes, bytearray)):
                 # Encode if not already bytes
                 value = value.encode_rlp()
-            ref = DataReference(key, value)
+            ref = DataReference(key, bytes(value))
             self._trie.update(key, ref.encode())
 
     def get(self, key: bytes) -> bytes:
@@ -264,7 +264,7 @@ class EMPT(MutableMapping):
             # Encode if not already bytes
             expected = DataReference(key, data.encode_rlp())
         else:
-            expected = DataReference(key, data)
+            expected = DataReference(key, bytes(data))
         if ref != expected:
             raise InvalidReferenceError(
                 "The reference does not match the expected data"
@@ -309,7 +309,7 @@ class EMPT(MutableMapping):
         if not isinstance(value, (bytes, bytearray)):
             ref = DataReference(key, value.encode_rlp())
         else:
-            ref = DataReference(key, value)
+            ref = DataReference(key, bytes(value))
         self._trie.update(key, ref.encode())
         self._data_storage[key] = value
 
@@ -540,7 +540,7 @@ class SparseEMPT:
 
         if not isinstance(key, bytes):
             raise TypeError("The key must be type bytes, not {}".format(type(key)))
-        ref = DataReference(key, value)
+        ref = DataReference(key, bytes(value))
         self._trie.update(key, ref.encode())
 
     def delete(self, key: bytes) -> ...:
-- 
2.43.0


From 927be50a62d4529b208da07796136dcacf20632f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 16/19] fix: proofs made by MerkleTree could not be encoded to
 JSON or decoded from RLP

---
 src/pymt/proof.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/pymt/proof.py b/src/pymt/proof.py
index 774869e..3a67212 100644
--- a/src/pymt/proof.py
+++ b/src/pymt/proof.py
@@ -159,7 +159,15 @@ class Proof:
         for key, value in content.items():
             if key.lower() == "proof":
                 if "MT" in self._type.decode():
-                    content[key] = [i.decode() for i in value]
+                    # Entries are bytes or tuples of bytes (side, sibling)
+                    content[key] = [
+                        (
+                            [j.decode() for j in i]
+                            if isinstance(i, tuple)
+                            else i.decode()
+                        )
+                        for i in value
+                    ]
                 elif "MPT" in self._type.decode():
                     raise NotImplementedError(
                         "Encoding MPT proofs is not supported yet"
@@ -188,7 +196,10 @@ class Proof:
             # Build the mpt proof from string
             proof = []
             for i in encoded_proof_list:
-                proof.append(i.encode())
+                if isinstance(i, list):
+                    proof.append(tuple([j.encode() for j in i]))
+                else:
+                    proof.append(i.encode())
 
         else:
             raise TypeError("Invalid proof type {}".format(json_proof["proof_type"]))
@@ -254,14 +265,16 @@ class Proof:
                 rlp.sedes.binary,
                 rlp.sedes.binary,
                 rlp.sedes.binary,
-                rlp.sedes.CountableList(rlp.sedes.binary),
+                rlp.sedes.CountableList(rlp.sedes.raw),
             ]
         )
         decoded = rlp.decode(rlp_bytes, sedes=sedes)
+        # Entries are bytes or tuples of bytes (side, sibling)
+        entries = [tuple(i) if isinstance(i, list) else i for i in decoded[4]]
         proof = Proof(
             target_key=decoded[2],
             root_hash=decoded[3],
-            proof=decoded[4],
+            proof=tuple(entries),
             proof_type=decoded[0],
         )
         proof._timestamp = decoded[1]
-- 
2.43.0


From 3d434f2e69300ad3b7fb749e5dab730cdcdb1350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 17/19] fix: RsaKeyPair.__hash__ returned bytes

---
 src/pymt/keypairs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/keypairs.py b/src/pymt/keypairs.py
index afbcd57..8f830cb 100755
--- a/src/pymt/keypairs.py
+++ b/src/pymt/keypairs.py
@@ -57,7 +57,7 @@ class RsaKeyPair(AbstractKeyPair):
         return f"RsaKeyPair(nickname={self._nickname}, public_key={self.public_key_string})"
 
     def __hash__(self) -> int:
-        return Utils.hash_data(self.public_key)
+        return int(Utils.hash_data(self.public_key), 16)
 
     def __eq__(self, other: Any) -> bool:
         if isinstance(other, self.__class__):
-- 
2.43.0


From 099e578378da7590c3a2c943d1e47943522e4652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 18/19] fix: RsaEncKeyPair could not encrypt or decrypt

---
 src/pymt/keypairs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pymt/keypairs.py b/src/pymt/keypairs.py
index 8f830cb..bfbde3f 100755
--- a/src/pymt/keypairs.py
+++ b/src/pymt/keypairs.py
@@ -224,7 +224,7 @@ class RsaKeyPair(AbstractKeyPair):
                 "nonce": cipher_aes.nonce.hex(),
                 "tag": tag.hex(),
                 "ciphertext": ciphertext.hex(),
-                "signature": self.sign(ciphertext).hex(),
+                "signature": RsaKeyPair.sign(self, ciphertext).hex(),
             }
         ).encode("utf-8")
 
@@ -265,7 +265,9 @@ class RsaKeyPair(AbstractKeyPair):
         ciphertext = bytes.fromhex(data["ciphertext"])
         signature = bytes.fromhex(data["signature"])
 
-        if not self.signature_valid(ciphertext, signature, sender_public_key):
+        if not RsaKeyPair.signature_valid(
+            self, ciphertext, signature, sender_public_key
+        ):
             raise ValueError("Invalid signature.")
 
         cipher_rsa = PKCS1_OAEP.new(self._key_pair)
-- 
2.43.0


From bcd4863e5cb4a89081060861c530d844b80e2642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:21 +0000
Subject: [PATCH 19/19] fix: rsa_key_valid raised IndexError for bytes that
 look like a truncated key

---
 src/pymt/utils/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymt/utils/utils.py b/src/pymt/utils/utils.py
index 1132c1f..bb9bb84 100755
--- a/src/pymt/utils/utils.py
+++ b/src/pymt/utils/utils.py
@@ -370,7 +370,7 @@ class Utils:
             # Check if the key is a valid public key
             try:
                 key = RSA.import_key(key)
-            except ValueError:
+            except (ValueError, IndexError, TypeError):
                 if raise_exeptions:
                     raise KeyError(key, "Public key could not be loaded.")
                 return False
@@ -382,7 +382,7 @@ class Utils:
             # Check if the key is a valid private key
             try:
                 key = RSA.import_key(key)
-            except ValueError:
+            except (ValueError, IndexError, TypeError):
                 if raise_exeptions:
                     raise KeyError(key, "Private could not be loaded.")
                 return False
-- 
2.43.0

