"""Temporaries, helpers, early returns, flipped conditions."""
M, E, N, P, T, K = "mpt.py", "empt.py", "utils/node.py", "utils/nibble_path.py", "mt.py", "merkletools.py"
EDITS = [
 (M, '''        if not self._root:
            return Node.EMPTY_HASH
        elif len(self._root) == 32:
            return self._root
        else:
            return keccak_hash(self._root)
''', '''        root = self._root
        if not root:
            return Node.EMPTY_HASH
        return root if len(root) == 32 else keccak_hash(root)
'''),
 (M, '''        if self._secure:
            encoded_key = keccak_hash(encoded_key)
        path = NibblePath(encoded_key)
        result_node = self._get(self._root, path)
        return result_node.data
''', '''        path = self._path_of(encoded_key)
        return self._get(self._root, path).data

    def _path_of(self, key):
        return NibblePath(keccak_hash(key) if self._secure else key)

    def _is_empty(self):
        return self._root is None or self._root == Node.EMPTY_HASH
'''),
 (M, '''        if self._secure:
            encoded_key = keccak_hash(encoded_key)
        path = NibblePath(encoded_key)
        result = self._update(self._root, path, encoded_value)
        self._root = result
''', '''        self._root = self._update(self._root, self._path_of(encoded_key), encoded_value)
'''),
 (M, '''        if isinstance(node, Branch):
            if len(path) == 0 and node.data != None and (node.data != b''):
                return True
            else:
                return False
        if isinstance(node, Extension):
            return False
        if isinstance(node, Leaf):
            if node.path == path:
                return True
            else:
                return False
        else:
            return False
        raise Exception('This should never happen')
''', '''        if isinstance(node, Branch):
            return len(path) == 0 and node.data is not None and len(node.data) > 0
        if isinstance(node, Leaf):
            return node.path == path
        return False
'''),
 (M, '''        if self._root is None or self._root == Node.EMPTY_HASH:
            raise ValueError('Trie is empty')
        if self._secure:
            encoded_key = keccak_hash(encoded_key)
        path = NibblePath(encoded_key)
        action, info = self._delete(self._root, path)
        if action == MPT._DeleteAction.DELETED:
            self._root = None
        elif action == MPT._DeleteAction.UPDATED:
            new_root = info
            self._root = new_root
        elif action == MPT._DeleteAction.USELESS_BRANCH:
            _, new_root = info
            self._root = new_root
''', '''        if self._is_empty():
            raise ValueError('Trie is empty')
        outcome = self._delete(self._root, self._path_of(encoded_key))
        if outcome[0] == MPT._DeleteAction.USELESS_BRANCH:
            self._root = outcome[1][1]
        elif outcome[0] == MPT._DeleteAction.UPDATED:
            self._root = outcome[1]
        else:
            self._root = None
'''),
 (M, '''        if self._root is None or self._root == Node.EMPTY_HASH:
            raise ValueError('Cannot generate a proof for empty trie')
        if self._secure:
            encoded_key = keccak_hash(encoded_key)
        proof_list = self._get_proof_of_inclusion(self._root, NibblePath(encoded_key), [])
        return Proof(target_key=encoded_key,''', '''        if self._is_empty():
            raise ValueError('Cannot generate a proof for empty trie')
        key = keccak_hash(encoded_key) if self._secure else encoded_key
        proof_list = []
        self._get_proof_of_inclusion(self._root, NibblePath(key), proof_list)
        return Proof(target_key=key,'''),
 (M, '''        if valid and proof.trie_root in (self.root_hash(), self.root()):
            return True
        else:
            return False
''', '''        if not valid:
            return False
        return proof.trie_root == self.root_hash() or proof.trie_root == self.root()
'''),
 (M, '''        if len(keys_left.keys()) != 0:
            return False
        if isinstance(node, Branch):
            if len(path) == 0 and node.data != b'':
                return False
        if isinstance(node, Leaf):
            if node.path == path:
                return False
        return True
''', '''        if keys_left:
            return False
        if isinstance(node, Branch) and len(path) == 0 and len(node.data) > 0:
            return False
        return not (isinstance(node, Leaf) and node.path == path)
'''),
 (M, '''        storage_list = [_prepare_reference_for_encoding(node) for node in self._storage.values()]
        root = Node.EMPTY_HASH if self.root() is None else self.root()
        content = [root, storage_list, self._secure]
        return rlp.encode(content)
''', '''        root = self.root()
        if root is None:
            root = Node.EMPTY_HASH
        nodes = list(map(_prepare_reference_for_encoding, self._storage.values()))
        return rlp.encode([root, nodes, self._secure])
'''),
 (M, '''        storage = {}
        for encoded_node in storage_list:
            storage[keccak_hash(encoded_node)] = _prepare_reference_for_usage(encoded_node)
        return MPT(storage=storage, root=root, secure=secure)
''', '''        storage = {}
        for item in storage_list:
            reference = keccak_hash(item)
            storage[reference] = _prepare_reference_for_usage(item)
        return MPT(storage, root, secure)
'''),
 (M, '''        raw_node = None
        if isinstance(node_ref, Extension) or isinstance(node_ref, Leaf) or isinstance(node_ref, Branch):
            return node_ref
        if len(node_ref) == 32:
            raw_node = self._storage[node_ref]
            if isinstance(raw_node, Node):
                return raw_node
        else:
            raw_node = node_ref
        decoded_node = Node.decode(raw_node)
        if not (isinstance(decoded_node, Extension) or isinstance(decoded_node, Leaf) or isinstance(decoded_node, Branch)):
''', '''        if isinstance(node_ref, (Extension, Leaf, Branch)):
            return node_ref
        raw_node = self._storage[node_ref] if len(node_ref) == 32 else node_ref
        if isinstance(raw_node, Node):
            return raw_node
        decoded_node = Node.decode(raw_node)
        if not isinstance(decoded_node, (Extension, Leaf, Branch)):
'''),
 (M, '''        if type(node) is Leaf:
            if node.path == path:
                return node
            else:
                raise KeyNotFoundError('The leaf key and search key do not match. Leaf key: {}, search key: {}'.format(node.path, path))
        elif type(node) is Extension:
            if path.starts_with(node.path):
                rest_path = path.consume(len(node.path))
                return self._get(node.next_ref, rest_path)
            else:
                raise ExtensionPathError('Something wrong with the path in the extension. Extension path: {}, search path: {}'.format(node.path, path))
        elif type(node) is Branch:
            branch = node.branches[path.at(0)]
            if len(branch) > 0:
                return self._get(branch, path.consume(1))
            else:
                raise BranchPathError('Branch slot is empty. Branch: {}, search path: {}'.format(node.branches, path))
        raise InvalidNodeError('Invalid node type {}'.format(type(node)))

    def _contains''', '''        if type(node) is Leaf:
            if node.path != path:
                raise KeyNotFoundError('The leaf key and search key do not match. Leaf key: {}, search key: {}'.format(node.path, path))
            return node
        if type(node) is Extension:
            if not path.starts_with(node.path):
                raise ExtensionPathError(f'Something wrong with the path in the extension. Extension path: {node.path}, search path: {path}')
            next_ref = node.next_ref
            path.consume(len(node.path))
        elif type(node) is Branch:
            next_ref = node.branches[path.at(0)]
            if not next_ref:
                raise BranchPathError('Branch slot is empty. Branch: {}, search path: {}'.format(node.branches, path))
            path.consume(1)
        else:
            raise InvalidNodeError('Invalid node type {}'.format(type(node)))
        return self._get(next_ref, path)

    def _contains'''),
 (M, '''        if type(node) is Leaf:
            return node
        elif type(node) is Extension:
            if path.starts_with(node.path):
                rest_path = path.consume(len(node.path))
                return self._contains(node.next_ref, rest_path)
            else:
                return node
        elif type(node) is Branch:
            branch = node.branches[path.at(0)]
            if len(branch) > 0:
                return self._contains(branch, path.consume(1))
            else:
                return node
''', '''        if type(node) is Leaf:
            return node
        if type(node) is Extension:
            if not path.starts_with(node.path):
                return node
            return self._contains(node.next_ref, path.consume(len(node.path)))
        if type(node) is Branch:
            nibble = path.at(0)
            child = node.branches[nibble]
            if len(child) == 0:
                return node
            return self._contains(child, path.consume(1))
'''),
 (M, '''            common_prefix = path.common_prefix(node.path)
            path.consume(len(common_prefix))
            node.path.consume(len(common_prefix))
            branch_reference = self._create_branch_node(path, value, node.path, node.data)
            if len(common_prefix) != 0:
                return self._store_node(Extension(common_prefix, branch_reference))
            else:
                return branch_reference
''', '''            common_prefix = node.path.common_prefix(path)
            shared = len(common_prefix)
            node.path.consume(shared)
            path.consume(shared)
            branch_reference = self._create_branch_node(path, value, node.path, node.data)
            if shared == 0:
                return branch_reference
            return self._store_node(Extension(common_prefix, branch_reference))
'''),
 (M, '''            idx = path.at(0)
            new_reference = self._update(node.branches[idx], path.consume(1), value)
            node.branches[idx] = new_reference
            return self._store_node(node)
''', '''            idx = path.at(0)
            path.consume(1)
            node.branches[idx] = self._update(node.branches[idx], path, value)
            return self._store_node(node)
'''),
 (M, '''        if len(path) > 0:
            idx = path.at(0)
            leaf_ref = self._store_node(Leaf(path.consume(1), value))
            branches[idx] = leaf_ref
''', '''        if len(path) == 0:
            return
        idx = path.at(0)
        path.consume(1)
        branches[idx] = self._store_node(Leaf(path, value))
'''),
 (M, '''        if len(path) == 1:
            branches[path.at(0)] = next_ref
        else:
            idx = path.at(0)
            reference = self._store_node(Extension(path.consume(1), next_ref))
            branches[idx] = reference
''', '''        idx = path.at(0)
        if len(path) != 1:
            next_ref = self._store_node(Extension(path.consume(1), next_ref))
        branches[idx] = next_ref
'''),
 (M, '''        idx = 0
        for i in range(len(branches)):
            if len(branches[i]) > 0:
                idx = i
                break
''', '''        idx = 0
        while idx < len(branches) and len(branches[idx]) == 0:
            idx += 1
'''),
 (M, '''                non_empty_count = sum(map(lambda x: 1 if len(x) > 0 else 0, node.branches))
''', '''                non_empty_count = sum(1 if len(x) > 0 else 0 for x in node.branches)
'''),
 (N, '''    if isinstance(ref, Node):
        return ref.encode()
    if 0 < len(ref) < 32:
        return rlp.decode(ref)
    return ref
''', '''    if isinstance(ref, Node):
        return ref.encode()
    return rlp.decode(ref) if 1 <= len(ref) <= 31 else ref
'''),
 (N, '''        encoded_node = node.encode()
        if len(encoded_node) < 32:
            return encoded_node
        else:
            return keccak_hash(encoded_node)
''', '''        encoded_node = node.encode()
        return keccak_hash(encoded_node) if len(encoded_node) >= 32 else encoded_node
'''),
 (N, '''        branches = list(map(_prepare_reference_for_encoding, self.branches))
        if include_data:
            return rlp.encode(branches + [self.data])
''', '''        branches = [_prepare_reference_for_encoding(branch) for branch in self.branches]
        if include_data:
            branches.append(self.data)
            return rlp.encode(branches)
'''),
 (N, '''            branches = list(map(_prepare_reference_for_usage, data[:16]))
            node_data = data[16]
''', '''            *slots, node_data = data
            branches = [_prepare_reference_for_usage(slot) for slot in slots]
'''),
 (P, '''        if len(self) != len(other):
            return False
        for i in range(len(self)):
            if self.at(i) != other.at(i):
                return False
        return True

    @staticmethod''', '''        return len(self) == len(other) and self.starts_with(other)

    @staticmethod'''),
 (P, '''        for i in range(len(other)):
            if self.at(i) != other.at(i):
                return False
        return True
''', '''        return all(self.at(i) == other.at(i) for i in range(len(other)))
'''),
 (P, '''        if is_odd_len:
            offset = 1
        else:
            offset = 2
        return (NibblePath(data, offset), is_leaf)
''', '''        return (NibblePath(data, 1 if is_odd_len else 2), is_leaf)
'''),
 (P, '''        idx = idx + self._offset
        byte_idx = idx // 2
        nibble_idx = idx % 2
        byte = self._data[byte_idx]
        nibble = byte >> 4 if nibble_idx == 0 else byte & 15
        return nibble
''', '''        byte_idx, low = divmod(idx + self._offset, 2)
        byte = self._data[byte_idx]
        return byte & 15 if low else byte >> 4
'''),
 (P, '''        least_len = min(len(self), len(other))
        common_len = 0
        for i in range(least_len):
            if self.at(i) != other.at(i):
                break
            common_len += 1
''', '''        common_len = 0
        while common_len < min(len(self), len(other)) and self.at(common_len) == other.at(common_len):
            common_len += 1
'''),
 (P, '''        prefix = 0
        prefix += self.ODD_FLAG + self.at(0) if is_odd else 0
        prefix += self.LEAF_FLAG if is_leaf else 0
        output.append(prefix)
''', '''        prefix = self.LEAF_FLAG if is_leaf else 0
        if is_odd:
            prefix += self.ODD_FLAG + self.at(0)
        output.append(prefix)
'''),
 (T, '''        byte_proof = []
        for p in proof:
            for k, v in p.items():
                byte_proof.append((k.encode(), v.encode()))
        return Proof(target_key=key, root_hash=self.get_merkle_root(), proof=tuple(byte_proof), proof_type=b'MT-POI')
''', '''        byte_proof = tuple((k.encode(), v.encode()) for p in proof for k, v in p.items())
        return Proof(key, self.get_merkle_root(), byte_proof, b'MT-POI')
'''),
 (T, '''        str_proof = []
        for p in proof.proof:
            str_proof.append({p[0].decode(): p[1].decode()})
''', '''        str_proof = [{p[0].decode(): p[1].decode()} for p in proof.proof]
'''),
 (T, '''        if valid:
            return self.get_merkle_root() == proof.trie_root
        else:
            return False
        raise Exception('This should never happen')
''', '''        return valid and self.get_merkle_root() == proof.trie_root
'''),
 (K, '''        if self._secure:
            value = self.hash_function(value).hexdigest()
            value = bytearray.fromhex(value)
        else:
            value = bytearray(value)
        self.leaves.append(value)
''', '''        self.leaves.append(self._leaf_of(value))
'''),
 (K, '''    def get_leaf(self,''', '''    def _leaf_of(self, value):
        if self._secure:
            return bytearray(self.hash_function(value).digest())
        return bytearray(value)

    def get_leaf(self,'''),
 (K, '''        if self._secure:
            key = self.hash_function(key).hexdigest()
            key = bytearray.fromhex(key)
        else:
            key = bytearray(key)
        index = self.leaves.index(key)
''', '''        index = self.leaves.index(self._leaf_of(key))
'''),
 (K, '''        solo_leave = None
        N = len(self.levels[0])
        if N % 2 == 1:
            solo_leave = self.levels[0][-1]
            N -= 1
        new_level = []
        for l, r in zip(self.levels[0][0:N:2], self.levels[0][1:N:2]):
            new_level.append(self.hash_function(l + r).digest())
        if solo_leave is not None:
            new_level.append(solo_leave)
        self.levels = [new_level] + self.levels
''', '''        level = self.levels[0]
        new_level = []
        for i in range(0, len(level) - 1, 2):
            new_level.append(self.hash_function(level[i] + level[i + 1]).digest())
        if len(level) % 2 == 1:
            new_level.append(level[-1])
        self.levels = [new_level] + self.levels
'''),
 (K, '''                is_right_node = index % 2
                sibling_index = index - 1 if is_right_node else index + 1
                sibling_pos = 'left' if is_right_node else 'right'
                sibling_value = self._to_hex(self.levels[x][sibling_index])
                proof.append({sibling_pos: sibling_value})
                index = int(index / 2.0)
''', '''                if index % 2 == 1:
                    proof.append({'left': self._to_hex(self.levels[x][index - 1])})
                else:
                    proof.append({'right': self._to_hex(self.levels[x][index + 1])})
                index = index // 2
'''),
 (E, '''        if trie_storage is ...:
            trie_storage = {}
        if data_storage is ...:
            data_storage = {}
''', '''        trie_storage = {} if trie_storage is ... else trie_storage
        data_storage = {} if data_storage is ... else data_storage
'''),
 (E, '''        for key in list(self._trie._storage.keys()):
            del self._trie._storage[key]
        self._trie = MPT(self._trie._storage, secure=self._trie.secure)
        for key in self._data_storage.keys():
            value = self._data_storage[key]
            if not isinstance(value, (bytes, bytearray)):
                value = value.encode_rlp()
            ref = DataReference(key, bytes(value))
            self._trie.update(key, ref.encode())
''', '''        self._trie._storage.clear()
        self._trie = MPT(self._trie._storage, secure=self._trie.secure)
        for key, value in self._data_storage.items():
            data = bytes(value) if isinstance(value, (bytes, bytearray)) else value.encode_rlp()
            self._trie.update(key, DataReference(key, data).encode())
'''),
 (E, '''        if not isinstance(data, (bytes, bytearray)):
            expected = DataReference(key, data.encode_rlp())
        else:
            expected = DataReference(key, bytes(data))
        if ref != expected:
''', '''        encoded = bytes(data) if isinstance(data, (bytes, bytearray)) else data.encode_rlp()
        if not ref == DataReference(key, encoded):
'''),
 (E, '''        storage_copy = {}
        for key in self._trie._storage.keys():
            storage_copy[key] = self._trie._storage[key]
        return SparseEMPT(trie_storage=storage_copy, secure''', '''        return SparseEMPT(trie_storage=dict(self._trie._storage), secure'''),
]
