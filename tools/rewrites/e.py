"""Helpers extracted, statements reordered: the operations that change the trie, the front ends."""
M, E, N, P, T, K, R = "mpt.py", "empt.py", "utils/node.py", "utils/nibble_path.py", "mt.py", "merkletools.py", "proof.py"
EDITS = [
 # ---- update: common prefix and joining extracted
 (M, '''            common_prefix = path.common_prefix(node.path)
            path.consume(len(common_prefix))
            node.path.consume(len(common_prefix))
            branch_reference = self._create_branch_node(path, value, node.path, node.data)
            if len(common_prefix) != 0:
                return self._store_node(Extension(common_prefix, branch_reference))
            else:
                return branch_reference
''', '''            common_prefix = self._split_common(path, node.path)
            return self._join(common_prefix, self._create_branch_node(path, value, node.path, node.data))
'''),
 (M, '''            common_prefix = path.common_prefix(node.path)
            path.consume(len(common_prefix))
            node.path.consume(len(common_prefix))
            branches = [b''] * 16
            branch_value = value if len(path) == 0 else b''
            self._create_branch_leaf(path, value, branches)
            self._create_branch_extension(node.path, node.next_ref, branches)
            branch_reference = self._store_node(Branch(branches, branch_value))
            if len(common_prefix) != 0:
                return self._store_node(Extension(common_prefix, branch_reference))
            else:
                return branch_reference
''', '''            common_prefix = self._split_common(path, node.path)
            branches = [b''] * 16
            self._create_branch_extension(node.path, node.next_ref, branches)
            branch_value = b'' if len(path) > 0 else value
            self._create_branch_leaf(path, value, branches)
            return self._join(common_prefix, self._store_node(Branch(branches, branch_value)))
'''),
 (M, '''    def _create_branch_node(self,''', '''    @staticmethod
    def _split_common(path, other):
        common = path.common_prefix(other)
        length = len(common)
        other.consume(length)
        path.consume(length)
        return common

    def _join(self, prefix, reference):
        if len(prefix) == 0:
            return reference
        return self._store_node(Extension(prefix, reference))

    def _create_branch_node(self,'''),
 (M, '''        branches = [b''] * 16
        branch_value = b''
        if len(path_a) == 0:
            branch_value = value_a
        elif len(path_b) == 0:
            branch_value = value_b
        self._create_branch_leaf(path_a, value_a, branches)
        self._create_branch_leaf(path_b, value_b, branches)
''', '''        branches = [b'' for _ in range(16)]
        branch_value = value_a if len(path_a) == 0 else value_b if len(path_b) == 0 else b''
        self._create_branch_leaf(path_b, value_b, branches)
        self._create_branch_leaf(path_a, value_a, branches)
'''),
 # ---- delete: the branch case extracted
 (M, '''                new_node = None
                if type(child) == Leaf:
                    path = NibblePath.combine(node.path, child.path)
                    new_node = Leaf(path, child.data)
                elif type(child) == Extension:
                    path = NibblePath.combine(node.path, child.path)
                    new_node = Extension(path, child.next_ref)
                elif type(child) == Branch:
                    path = NibblePath.combine(node.path, stored_path)
                    new_node = Extension(path, stored_ref)
                new_reference = self._store_node(new_node)
                return (MPT._DeleteAction.UPDATED, new_reference)
''', '''                if type(child) == Leaf:
                    new_node = Leaf(node.path.combine(child.path), child.data)
                elif type(child) == Extension:
                    new_node = Extension(node.path.combine(child.path), child.next_ref)
                else:
                    new_node = Extension(node.path.combine(stored_path), stored_ref)
                return (MPT._DeleteAction.UPDATED, self._store_node(new_node))
'''),
 (M, '''            if action == MPT._DeleteAction.DELETED:
                non_empty_count = sum(map(lambda x: 1 if len(x) > 0 else 0, node.branches))
                if non_empty_count == 0 and len(node.data) == 0:
                    return (MPT._DeleteAction.DELETED, None)
                elif non_empty_count == 0 and len(node.data) != 0:
                    path = NibblePath([])
                    reference = self._store_node(Leaf(path, node.data))
                    return (MPT._DeleteAction.USELESS_BRANCH, (path, reference))
                elif non_empty_count == 1 and len(node.data) == 0:
                    return self._build_new_node_from_last_branch(node.branches)
                else:
                    reference = self._store_node(node)
                    return (MPT._DeleteAction.UPDATED, reference)
            elif action == MPT._DeleteAction.UPDATED:
                next_ref = info
                node.branches[idx] = next_ref
                reference = self._store_node(node)
                return (MPT._DeleteAction.UPDATED, reference)
            elif action == MPT._DeleteAction.USELESS_BRANCH:
                _, next_ref = info
                node.branches[idx] = next_ref
                reference = self._store_node(node)
                return (MPT._DeleteAction.UPDATED, reference)
''', '''            if action == MPT._DeleteAction.DELETED:
                return self._shrink(node)
            node.branches[idx] = info[1] if action == MPT._DeleteAction.USELESS_BRANCH else info
            return (MPT._DeleteAction.UPDATED, self._store_node(node))

    def _shrink(self, node):
        used = len([slot for slot in node.branches if len(slot) > 0])
        has_value = len(node.data) != 0
        if used == 0:
            if not has_value:
                return (MPT._DeleteAction.DELETED, None)
            path = NibblePath([])
            return (MPT._DeleteAction.USELESS_BRANCH, (path, self._store_node(Leaf(path, node.data))))
        if used == 1 and not has_value:
            return self._build_new_node_from_last_branch(node.branches)
        return (MPT._DeleteAction.UPDATED, self._store_node(node))
'''),
 (M, '''        path = None
        node = None
        if type(child) == Leaf:
            path = NibblePath.combine(prefix_nibble, child.path)
            node = Leaf(path, child.data)
        elif type(child) == Extension:
            path = NibblePath.combine(prefix_nibble, child.path)
            node = Extension(path, child.next_ref)
        elif type(child) == Branch:
            path = prefix_nibble
            node = Extension(path, branches[idx])
''', '''        if type(child) == Branch:
            path = prefix_nibble
            node = Extension(path, branches[idx])
        else:
            path = NibblePath.combine(prefix_nibble, child.path)
            node = Leaf(path, child.data) if type(child) == Leaf else Extension(path, child.next_ref)
'''),
 # ---- proofs
 (M, '''        if not (isinstance(node_ref, Leaf) or isinstance(node_ref, Extension) or isinstance(node_ref, Branch)):
            if len(node_ref) == 32:
                try:
                    raw_node = proof_storage[node_ref]
                except KeyError:
                    return False
            else:
                raw_node = node_ref
            node = Node.decode(raw_node)
        else:
            node = node_ref
''', '''        node = self._open(node_ref, proof_storage)
        if node is None:
            return False
'''),
 (M, '''        if not (isinstance(node_ref, Leaf) or isinstance(node_ref, Extension) or isinstance(node_ref, Branch)):
            if len(node_ref) == 32:
                try:
                    raw_node = proof_storage[node_ref]
                except KeyError:
                    return (None, proof_storage)
            else:
                raw_node = node_ref
            node = Node.decode(raw_node)
        else:
            node = node_ref
''', '''        node = self._open(node_ref, proof_storage)
        if node is None:
            return (None, proof_storage)
'''),
 (M, '''    def _verify_proof_of_inclusion(self,''', '''    @staticmethod
    def _open(node_ref, proof_storage):
        if isinstance(node_ref, (Leaf, Extension, Branch)):
            return node_ref
        if len(node_ref) != 32:
            return Node.decode(node_ref)
        if node_ref not in proof_storage:
            return None
        return Node.decode(proof_storage[node_ref])

    def _verify_proof_of_inclusion(self,'''),
 (M, '''        proof_storage = {}
        for encoded_node in proof.proof:
            try:
                proof_storage[Node.into_reference(Node.decode(encoded_node))] = encoded_node
            except rlp.DecodingError:
                return False
''', '''        try:
            proof_storage = self._storage_of(proof.proof)
        except rlp.DecodingError:
            return False
'''),
 (M, '''        proof_storage = {}
        for encoded_node in proof.proof[:-1]:
            proof_storage[Node.into_reference(Node.decode(encoded_node))] = encoded_node
        path = NibblePath(proof.target_key)
''', '''        path = NibblePath(proof.target_key)
        proof_storage = self._storage_of(proof.proof[:-1])
'''),
 (M, '''    def get_proof_of_exclusion(self,''', '''    @staticmethod
    def _storage_of(nodes):
        storage = {}
        for encoded in nodes:
            reference = Node.into_reference(Node.decode(encoded))
            storage[reference] = encoded
        return storage

    def get_proof_of_exclusion(self,'''),
 # ---- nibble paths
 (P, '''        data = []
        is_odd_len = length % 2 == 1
        pos = 0
        if is_odd_len:
            data.append(path.at(pos))
            pos += 1
        while pos < length:
            data.append(path.at(pos) * 16 + path.at(pos + 1))
            pos += 2
        offset = 1 if is_odd_len else 0
        return NibblePath(data, offset)
''', '''        offset = length % 2
        data = [path.at(0)] if offset else []
        for pos in range(offset, length, 2):
            data.append(path.at(pos) * 16 + path.at(pos + 1))
        return NibblePath(data, offset)
'''),
 (P, '''        output = []
        nibbles_len = len(self)
        is_odd = nibbles_len % 2 == 1
        prefix = 0
        prefix += self.ODD_FLAG + self.at(0) if is_odd else 0
        prefix += self.LEAF_FLAG if is_leaf else 0
        output.append(prefix)
        pos = nibbles_len % 2
        while pos < nibbles_len:
            byte = self.at(pos) * 16 + self.at(pos + 1)
            output.append(byte)
            pos += 2
        return bytes(output)
''', '''        nibbles_len = len(self)
        odd = nibbles_len % 2
        output = bytearray()
        output.append((self.LEAF_FLAG if is_leaf else 0) + (self.ODD_FLAG + self.at(0) if odd else 0))
        for pos in range(odd, nibbles_len, 2):
            output.append(self.at(pos) * 16 + self.at(pos + 1))
        return bytes(output)
'''),
 # ---- Merkle trees
 (K, '''        solo_leave = None
        N = len(self.levels[0])
        if N % 2 == 1:
            solo_leave = self.levels[0][-1]
            N -= 1
        new_level = []
        for l, r in zip(self.levels[0][0:N:2], self.levels[0][1:N:2]):
            new_level.append(self.hash_function(l + r).digest())
        if solo_leave is not None:
            new_level.append(solo_leave)
        self.levels = [new_level] + self.levels
''', '''        level = self.levels[0]
        new_level = []
        for i in range(0, len(level) - 1, 2):
            new_level.append(self._parent(level[i], level[i + 1]))
        if len(level) % 2 == 1:
            new_level.append(level[-1])
        self.levels = [new_level] + self.levels

    def _parent(self, left, right):
        return self.hash_function(left + right).digest()
'''),
 (K, '''                is_right_node = index % 2
                sibling_index = index - 1 if is_right_node else index + 1
                sibling_pos = 'left' if is_right_node else 'right'
                sibling_value = self._to_hex(self.levels[x][sibling_index])
                proof.append({sibling_pos: sibling_value})
                index = int(index / 2.0)
''', '''                proof.append(self._sibling(self.levels[x], index))
                index = index // 2
'''),
 (K, '''    def get_proof_of_inclusion(self,''', '''    def _sibling(self, level, index):
        if index % 2:
            return {'left': self._to_hex(level[index - 1])}
        return {'right': self._to_hex(level[index + 1])}

    def get_proof_of_inclusion(self,'''),
 (K, '''        self.is_ready = False
        if self.get_leaf_count() > 0:
            self.levels = [self.leaves]
            while len(self.levels[0]) > 1:
                self._calculate_next_level()
        self.is_ready = True
''', '''        if len(self.leaves) != 0:
            self.levels = [self.leaves]
            while len(self.levels[0]) >= 2:
                self._calculate_next_level()
        self.is_ready = True
'''),
 (T, '''        byte_proof = []
        for p in proof:
            for k, v in p.items():
                byte_proof.append((k.encode(), v.encode()))
        return Proof(target_key=key, root_hash=self.get_merkle_root(), proof=tuple(byte_proof), proof_type=b'MT-POI')
''', '''        steps = []
        for step in proof:
            steps.extend((side.encode(), sibling.encode()) for side, sibling in step.items())
        root = self.get_merkle_root()
        return Proof(key, root, tuple(steps), b'MT-POI')
'''),
 (T, '''        if self._secure:
            target_hash = self.hash_function(target_hash).digest()
''', '''        target_hash = self._target(target_hash)
'''),
 (T, '''    def verify_proof_of_inclusion(self,''', '''    def _target(self, key):
        return self.hash_function(key).digest() if self._secure else key

    def verify_proof_of_inclusion(self,'''),
 # ---- proof objects
 (R, '''                    content[key] = [[j.decode() for j in i] if isinstance(i, tuple) else i.decode() for i in value]
''', '''                    content[key] = [self._readable(i) for i in value]
'''),
 (R, '''    def encode_json(self) -> dict:
''', '''    @staticmethod
    def _readable(entry):
        if isinstance(entry, tuple):
            return [part.decode() for part in entry]
        return entry.decode()

    def encode_json(self) -> dict:
'''),
 (R, '''        proof._timestamp = decoded[1]
        return proof
''', '''        proof._timestamp = decoded[1]
        assert isinstance(proof, Proof)
        return proof
'''),
]
