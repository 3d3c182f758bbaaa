"""More shapes: walks as loops, dispatch order, guard clauses, dictionaries by comprehension."""
M, E, N, P, T, K = "mpt.py", "empt.py", "utils/node.py", "utils/nibble_path.py", "mt.py", "merkletools.py"
EDITS = [
 (M, '''        if root == ... or root is None:
            self._root = Node.EMPTY_HASH
        else:
            self._root = root
''', '''        self._root = Node.EMPTY_HASH if root is None or root == ... else root
'''),
 (M, '''        if not isinstance(other, MPT):
            return False
        return self.__hash__() == other.__hash__()
''', '''        return isinstance(other, MPT) and hash(self) == hash(other)
'''),
 (M, '''        action, info = self._delete(self._root, path)
        if action == MPT._DeleteAction.DELETED:
            self._root = None
        elif action == MPT._DeleteAction.UPDATED:
            new_root = info
            self._root = new_root
        elif action == MPT._DeleteAction.USELESS_BRANCH:
            _, new_root = info
            self._root = new_root
''', '''        action, info = self._delete(self._root, path)
        new_root = None
        if action is MPT._DeleteAction.UPDATED:
            new_root = info
        elif action is MPT._DeleteAction.USELESS_BRANCH:
            new_root = info[1]
        self._root = new_root
'''),
 (M, '''        proof_list = self._get_proof_of_inclusion(self._root, NibblePath(encoded_key), [])
        return Proof(target_key=encoded_key, root_hash=self.root(), proof=tuple(proof_list), proof_type=b'MPT-POI')
''', '''        nodes = []
        self._get_proof_of_inclusion(self._root, NibblePath(encoded_key), nodes)
        return Proof(encoded_key, self._root, tuple(nodes), b'MPT-POI')
'''),
 (M, '''        valid = self._verify_proof_of_inclusion(self._root, NibblePath(proof.target_key), proof_storage)
        if valid and proof.trie_root in (self.root_hash(), self.root()):
            return True
        else:
            return False
''', '''        if proof.trie_root != self._root and proof.trie_root != self.root_hash():
            self._verify_proof_of_inclusion(self._root, NibblePath(proof.target_key), proof_storage)
            return False
        return self._verify_proof_of_inclusion(self._root, NibblePath(proof.target_key), proof_storage)
'''),
 (M, '''        if isinstance(node, Branch) and len(path) == 0:
            if node.data != None and node.data != b'':
                raise PoeError('This should never happen')
        if isinstance(node, Leaf):
            if node.path == path:
                raise PoeError('This should never happen')
        return Proof(target_key=encoded_key, root_hash=self.root_hash(), proof=tuple(proof_list), proof_type=b'MPT-POE')
''', '''        unexpected = isinstance(node, Leaf) and node.path == path
        if isinstance(node, Branch) and len(path) == 0:
            unexpected = node.data is not None and node.data != b''
        if unexpected:
            raise PoeError('This should never happen')
        return Proof(encoded_key, self.root_hash(), tuple(proof_list), b'MPT-POE')
'''),
 (M, '''        if node is None:
            return False
        if len(keys_left.keys()) != 0:
            return False
        if isinstance(node, Branch):
            if len(path) == 0 and node.data != b'':
                return False
        if isinstance(node, Leaf):
            if node.path == path:
                return False
        return True
''', '''        if node is None or keys_left:
            return False
        if isinstance(node, Branch):
            return not (len(path) == 0 and node.data != b'')
        return not (isinstance(node, Leaf) and node.path == path)
'''),
 (M, '''        storage_list = [_prepare_reference_for_encoding(node) for node in self._storage.values()]
        root = Node.EMPTY_HASH if self.root() is None else self.root()
        content = [root, storage_list, self._secure]
        return rlp.encode(content)
''', '''        storage_list = list(map(_prepare_reference_for_encoding, self._storage.values()))
        root = self._root
        if root is None:
            root = Node.EMPTY_HASH
        return rlp.encode([root, storage_list, self._secure])
'''),
 (M, '''        storage = {}
        for encoded_node in storage_list:
            storage[keccak_hash(encoded_node)] = _prepare_reference_for_usage(encoded_node)
        return MPT(storage=storage, root=root, secure=secure)
''', '''        storage = {keccak_hash(encoded_node): _prepare_reference_for_usage(encoded_node) for encoded_node in storage_list}
        return MPT(storage, root, secure)
'''),
 (M, '''        raw_node = None
        if isinstance(node_ref, Extension) or isinstance(node_ref, Leaf) or isinstance(node_ref, Branch):
            return node_ref
        if len(node_ref) == 32:
            raw_node = self._storage[node_ref]
            if isinstance(raw_node, Node):
                return raw_node
        else:
            raw_node = node_ref
        decoded_node = Node.decode(raw_node)
        if not (isinstance(decoded_node, Extension) or isinstance(decoded_node, Leaf) or isinstance(decoded_node, Branch)):
            raise InvalidNodeError('Invalid node type {}'.format(type(decoded_node)))
        return decoded_node
''', '''        if isinstance(node_ref, (Extension, Leaf, Branch)):
            return node_ref
        raw_node = self._storage[node_ref] if len(node_ref) == 32 else node_ref
        return raw_node if isinstance(raw_node, Node) else Node.decode(raw_node)
'''),
 (M, '''        node = self._get_node(node_ref)
        if len(path) == 0 and type(node) is Branch:
            if len(node.data) == 0:
                raise KeyNotFoundError('The branch has no value for this key.')
            return node
        if type(node) is Leaf:
            if node.path == path:
                return node
            else:
                raise KeyNotFoundError('The leaf key and search key do not match. Leaf key: {}, search key: {}'.format(node.path, path))
        elif type(node) is Extension:
            if path.starts_with(node.path):
                rest_path = path.consume(len(node.path))
                return self._get(node.next_ref, rest_path)
            else:
                raise ExtensionPathError('Something wrong with the path in the extension. Extension path: {}, search path: {}'.format(node.path, path))
        elif type(node) is Branch:
            branch = node.branches[path.at(0)]
            if len(branch) > 0:
                return self._get(branch, path.consume(1))
            else:
                raise BranchPathError('Branch slot is empty. Branch: {}, search path: {}'.format(node.branches, path))
        raise InvalidNodeError('Invalid node type {}'.format(type(node)))
''', '''        while True:
            node = self._get_node(node_ref)
            if type(node) is Leaf:
                if node.path == path:
                    return node
                raise KeyNotFoundError('The leaf key and search key do not match. Leaf key: {}, search key: {}'.format(node.path, path))
            if type(node) is Extension:
                if not path.starts_with(node.path):
                    raise ExtensionPathError('Something wrong with the path in the extension. Extension path: {}, search path: {}'.format(node.path, path))
                path.consume(len(node.path))
                node_ref = node.next_ref
            elif type(node) is Branch:
                if len(path) == 0:
                    if len(node.data) == 0:
                        raise KeyNotFoundError('The branch has no value for this key.')
                    return node
                node_ref = node.branches[path.at(0)]
                if len(node_ref) == 0:
                    raise BranchPathError('Branch slot is empty. Branch: {}, search path: {}'.format(node.branches, path))
                path.consume(1)
'''),
 (M, '''        if type(node) is Leaf:
            return node
        elif type(node) is Extension:
            if path.starts_with(node.path):
                rest_path = path.consume(len(node.path))
                return self._contains(node.next_ref, rest_path)
            else:
                return node
        elif type(node) is Branch:
            branch = node.branches[path.at(0)]
            if len(branch) > 0:
                return self._contains(branch, path.consume(1))
            else:
                return node
        raise InvalidNodeError('Invalid node type {}'.format(type(node)))
''', '''        child = b''
        if type(node) is Extension and path.starts_with(node.path):
            child = node.next_ref
            path.consume(len(node.path))
        elif type(node) is Branch:
            child = node.branches[path.at(0)]
            if len(child) > 0:
                path.consume(1)
        return self._contains(child, path) if child else node
'''),
 (M, '''        branch_value = b''
        if len(path_a) == 0:
            branch_value = value_a
        elif len(path_b) == 0:
            branch_value = value_b
        self._create_branch_leaf(path_a, value_a, branches)
        self._create_branch_leaf(path_b, value_b, branches)
        return self._store_node(Branch(branches, branch_value))
''', '''        data = b''
        for path, value in ((path_b, value_b), (path_a, value_a)):
            if len(path) == 0:
                data = value
            else:
                self._create_branch_leaf(path, value, branches)
        return self._store_node(Branch(branches, data))
'''),
 (E, '''        if not isinstance(data, (bytes, bytearray)):
            expected = DataReference(key, data.encode_rlp())
        else:
            expected = DataReference(key, bytes(data))
''', '''        raw = bytes(data) if isinstance(data, (bytes, bytearray)) else data.encode_rlp()
        expected = DataReference(key, raw)
'''),
 (E, '''        for key in list(self._trie._storage.keys()):
            del self._trie._storage[key]
        self._trie = MPT(self._trie._storage, secure=self._trie.secure)
        for key in self._data_storage.keys():
            value = self._data_storage[key]
            if not isinstance(value, (bytes, bytearray)):
                value = value.encode_rlp()
            ref = DataReference(key, bytes(value))
            self._trie.update(key, ref.encode())
''', '''        storage = self._trie._storage
        storage.clear()
        self._trie = MPT(storage, secure=self.secure)
        for key, value in self._data_storage.items():
            raw = bytes(value) if isinstance(value, (bytes, bytearray)) else bytes(value.encode_rlp())
            self._trie.update(key, DataReference(key, raw).encode())
'''),
 (E, '''        storage_copy = {}
        for key in self._trie._storage.keys():
            storage_copy[key] = self._trie._storage[key]
        return SparseEMPT(trie_storage=storage_copy, secure=self._trie.secure, root=self._trie.root())
''', '''        return SparseEMPT(dict(self._trie._storage), self._trie.root(), self.secure)
'''),
 (T, '''        for value in values:
            self.put(value)
''', '''        for i in range(len(values)):
            self.put(values[i])
'''),
 (T, '''        try:
            valid = super().verify_proof_of_inclusion(str_proof, merkle_root=merkle_root, target_hash=target_hash)
        except ValueError:
            return False
        if valid:
            return self.get_merkle_root() == proof.trie_root
        else:
            return False
        raise Exception('This should never happen')
''', '''        try:
            if not super().verify_proof_of_inclusion(str_proof, target_hash, merkle_root):
                return False
        except ValueError:
            return False
        return proof.trie_root == self.get_merkle_root()
'''),
 (K, '''        solo_leave = None
        N = len(self.levels[0])
        if N % 2 == 1:
            solo_leave = self.levels[0][-1]
            N -= 1
        new_level = []
        for l, r in zip(self.levels[0][0:N:2], self.levels[0][1:N:2]):
            new_level.append(self.hash_function(l + r).digest())
        if solo_leave is not None:
            new_level.append(solo_leave)
        self.levels = [new_level] + self.levels
''', '''        level = self.levels[0]
        new_level = []
        i = 0
        while i + 1 < len(level):
            new_level.append(self.hash_function(level[i] + level[i + 1]).digest())
            i += 2
        if i < len(level):
            new_level.append(level[i])
        self.levels.insert(0, new_level)
'''),
 (K, '''            for x in range(len(self.levels) - 1, 0, -1):
                level_len = len(self.levels[x])
                if index == level_len - 1 and level_len % 2 == 1:
                    index = int(index / 2.0)
                    continue
                is_right_node = index % 2
                sibling_index = index - 1 if is_right_node else index + 1
                sibling_pos = 'left' if is_right_node else 'right'
                sibling_value = self._to_hex(self.levels[x][sibling_index])
                proof.append({sibling_pos: sibling_value})
                index = int(index / 2.0)
            return proof
''', '''            for level in reversed(self.levels[1:]):
                if index % 2 == 1:
                    proof.append({'left': self._to_hex(level[index - 1])})
                elif index + 1 < len(level):
                    proof.append({'right': self._to_hex(level[index + 1])})
                index //= 2
            return proof
'''),
 (K, '''        if len(proof) == 0:
            return target_hash == merkle_root
        else:
            proof_hash = target_hash
            for p in proof:
                try:
                    sibling = bytearray.fromhex(p['left'])
                    proof_hash = self.hash_function(sibling + proof_hash).digest()
                except:
                    sibling = bytearray.fromhex(p['right'])
                    proof_hash = self.hash_function(proof_hash + sibling).digest()
            return proof_hash == merkle_root
''', '''        proof_hash = target_hash
        for p in proof:
            try:
                proof_hash = self.hash_function(bytearray.fromhex(p['left']) + proof_hash).digest()
            except:
                proof_hash = self.hash_function(proof_hash + bytearray.fromhex(p['right'])).digest()
        return proof_hash == merkle_root
'''),
]
