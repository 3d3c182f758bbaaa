"""State kept in other ways: guards moved into helpers, properties used for fields, work split between methods, results collected differently."""
M, P, K, N, E, T, R, KP, U, H = ("mpt.py", "utils/nibble_path.py", "merkletools.py", "utils/node.py", "empt.py", "mt.py", "proof.py",
                                 "keypairs.py", "utils/utils.py", "utils/hash.py")
EDITS = [
 (M, '''        if self._root is None or self._root == Node.EMPTY_HASH:
            raise ValueError('Trie is empty')
        if self._secure:
            encoded_key = keccak_hash(encoded_key)
        path = NibblePath(encoded_key)
        action, info''', '''        self._require_content('Trie is empty')
        path = self._key_path(encoded_key)
        action, info'''),
 (M, '''    def root(self) -> Union[bytes, None]:
''', '''    @property
    def _empty(self) -> bool:
        return self._root is None or self._root == Node.EMPTY_HASH

    def _require_content(self, message: str) -> None:
        if self._empty:
            raise ValueError(message)

    def _trie_key(self, key: bytes) -> bytes:
        if not self._secure:
            return key
        return keccak_hash(key)

    def _key_path(self, key: bytes) -> NibblePath:
        return NibblePath(self._trie_key(key))

    def root(self) -> Union[bytes, None]:
'''),
 (M, '''        if not self._root:
            raise ValueError('Trie is empty')
        if self._secure:
            encoded_key = keccak_hash(encoded_key)
        path = NibblePath(encoded_key)
        result_node = self._get(self._root, path)
        return result_node.data
''', '''        root = self._root
        if not root:
            raise ValueError('Trie is empty')
        found = self._get(root, self._key_path(encoded_key))
        return found.data
'''),
 (M, '''        if self._secure:
            encoded_key = keccak_hash(encoded_key)
        path = NibblePath(encoded_key)
        result = self._update(self._root, path, encoded_value)
        self._root = result
''', '''        self._root = self._update(node_ref=self._root, path=self._key_path(encoded_key), value=encoded_value)
'''),
 (M, '''        if self._root is None or self._root == Node.EMPTY_HASH:
            raise ValueError('Cannot generate a proof for empty trie')
        if self._secure:
            encoded_key = keccak_hash(encoded_key)
        proof_list = self._get_proof_of_inclusion(self._root, NibblePath(encoded_key), [])
        return Proof(target_key=encoded_key, root_hash=self.root(), proof=tuple(proof_list), proof_type=b'MPT-POI')
''', '''        self._require_content('Cannot generate a proof for empty trie')
        target = self._trie_key(encoded_key)
        nodes = self._get_proof_of_inclusion(self._root, NibblePath(target), [])
        return self._as_proof(b'MPT-POI', target, self.root(), nodes)

    @staticmethod
    def _as_proof(kind, target, root, nodes):
        return Proof(target, root, tuple(nodes), kind)
'''),
 (M, '''        return Proof(target_key=encoded_key, root_hash=self.root_hash(), proof=tuple(proof_list), proof_type=b'MPT-POE')
''', '''        return self._as_proof(b'MPT-POE', encoded_key, self.root_hash(), proof_list)
'''),
 (M, '''        if node is None:
            return False
        if len(keys_left.keys()) != 0:
            return False
        if isinstance(node, Branch):
            if len(path) == 0 and node.data != b'':
                return False
        if isinstance(node, Leaf):
            if node.path == path:
                return False
        return True
''', '''        complete = node is not None and len(keys_left) == 0
        return complete and not self._has_value(node, path)

    @staticmethod
    def _has_value(node, path):
        if isinstance(node, Branch):
            return len(path) == 0 and node.data != b''
        return isinstance(node, Leaf) and node.path == path
'''),
 (M, '''        if len(node_ref) == 32:
            raw_node = self._storage[node_ref]
            if isinstance(raw_node, Node):
                return raw_node
        else:
            raw_node = node_ref
        decoded_node = Node.decode(raw_node)
''', '''        raw_node = self._load(node_ref)
        if isinstance(raw_node, Node):
            return raw_node
        decoded_node = Node.decode(raw_node)
'''),
 (M, '''    def _get(self, node_ref: bytes, path: NibblePath) -> bytes:
''', '''    def _load(self, reference):
        return self._storage[reference] if len(reference) == 32 else reference

    def _get(self, node_ref: bytes, path: NibblePath) -> bytes:
'''),
 (M, '''            branches = [b''] * 16
            branch_value = value if len(path) == 0 else b\'\'
            self._create_branch_leaf(path, value, branches)
            self._create_branch_extension(node.path, node.next_ref, branches)
            branch_reference = self._store_node(Branch(branches, branch_value))
            if len(common_prefix) != 0:
                return self._store_node(Extension(common_prefix, branch_reference))
            else:
                return branch_reference
''', '''            branch = Branch([b''] * 16)
            if len(path) == 0:
                branch.data = value
            self._create_branch_extension(node.path, node.next_ref, branch.branches)
            self._create_branch_leaf(path, value, branch.branches)
            reference = self._store_node(branch)
            return reference if len(common_prefix) == 0 else self._store_node(Extension(common_prefix, reference))
'''),
 (M, '''        reference = Node.into_reference(node)
        if len(reference) == 32:
            self._storage[reference] = node.encode()
        return reference
''', '''        encoded = node.encode()
        if len(encoded) < 32:
            return encoded
        reference = keccak_hash(encoded)
        self._storage[reference] = encoded
        return reference
'''),
 (N, '''        data = rlp.decode(encoded_data)
        assert len(data) == 17 or len(data) == 2
        if len(data) == 17:
''', '''        data = rlp.decode(encoded_data)
        assert len(data) in (2, 17)
        if len(data) != 2:
'''),
 (E, '''        storage_copy = {}
        for key in self._trie._storage.keys():
            storage_copy[key] = self._trie._storage[key]
        return SparseEMPT(trie_storage=storage_copy, secure=self._trie.secure, root=self._trie.root())
''', '''        return SparseEMPT({reference: node for reference, node in self._trie._storage.items()}, self.root(), self.secure)
'''),
 (E, '''        data = self._data_storage[key]
        ref = self._trie.get(key)
        ref = DataReference.decode(ref)
        if not isinstance(data, (bytes, bytearray)):
            expected = DataReference(key, data.encode_rlp())
        else:
            expected = DataReference(key, bytes(data))
        if ref != expected:
            raise InvalidReferenceError('The reference does not match the expected data')
        return data
''', '''        data = self._data_storage[key]
        self._check(key, data)
        return data

    def _check(self, key, data):
        stored = DataReference.decode(self._trie[key])
        content = data
        if not isinstance(data, (bytes, bytearray)):
            content = data.encode_rlp()
        if stored != DataReference(key, bytes(content)):
            raise InvalidReferenceError('The reference does not match the expected data')
'''),
 (E, '''        return int(keccak_hash(self._key + self._data, hexdigest=True), 16)
''', '''        digest = keccak_hash(b''.join([self._key, self._data]), hexdigest=True)
        return int(digest, base=16)
'''),
 (T, '''        str_proof = []
        for p in proof.proof:
            str_proof.append({p[0].decode(): p[1].decode()})
        merkle_root''', '''        str_proof = []
        for side, sibling, *_ in proof.proof:
            str_proof.append({side.decode(): sibling.decode()})
        merkle_root''' if False else '''        def as_text(step):
            return {step[0].decode(): step[1].decode()}
        str_proof = [as_text(step) for step in proof.proof]
        merkle_root'''),
 (K, '''        index = self.leaves.index(key)
        if self.levels is None or not self.is_ready:
            raise ValueError('Tree is not ready. Call `make_tree()` first.')
        elif index > len(self.leaves) - 1 or index < 0:
            raise ValueError('`index` {} is out of range'.format(index))
        else:
            proof = []
            for x in range(len(self.levels) - 1, 0, -1):
                level_len = len(self.levels[x])
                if index == level_len - 1 and level_len % 2 == 1:
                    index = int(index / 2.0)
                    continue
                is_right_node = index % 2
                sibling_index = index - 1 if is_right_node else index + 1
                sibling_pos = 'left' if is_right_node else 'right'
                sibling_value = self._to_hex(self.levels[x][sibling_index])
                proof.append({sibling_pos: sibling_value})
                index = int(index / 2.0)
            return proof
''', '''        index = self.leaves.index(key)
        if not self.is_ready or self.levels is None:
            raise ValueError('Tree is not ready. Call `make_tree()` first.')
        proof = []
        x = len(self.levels) - 1
        while x > 0:
            level = self.levels[x]
            if index % 2 == 1:
                proof.append({'left': self._to_hex(level[index - 1])})
            elif index != len(level) - 1:
                proof.append({'right': self._to_hex(level[index + 1])})
            index = index // 2
            x -= 1
        return proof
'''),
 (K, '''        if self.get_leaf_count() > 0:
            self.levels = [self.leaves]
            while len(self.levels[0]) > 1:
                self._calculate_next_level()
        self.is_ready = True
''', '''        if len(self) > 0:
            self.levels = [self.leaves]
        while self.levels is not None and len(self.levels[0]) > 1:
            self._calculate_next_level()
        self.is_ready = True
''' if False else '''        if len(self.leaves) == 0:
            self.is_ready = True
            return
        self.levels = [self.leaves]
        while not len(self.levels[0]) <= 1:
            self._calculate_next_level()
        self.is_ready = True
'''),
 (K, '''        if not (self.is_ready and self.levels is not None):
            raise ValueError('Tree is not ready. Call `make_tree` first.')
        return self._to_hex(self.levels[0][0])
''', '''        if self.is_ready and self.levels is not None:
            top = self.levels[0]
            return self._to_hex(top[0])
        raise ValueError('Tree is not ready. Call `make_tree` first.')
'''),
 (R, '''        encoded_proof_list = json_proof['proof']
        if 'MPT' in json_proof['proof_type']:
            raise NotImplementedError('MPT proofs are not supported yet')
        elif 'MT' in json_proof['proof_type']:
            proof = []
            for i in encoded_proof_list:
                if isinstance(i, list):
                    proof.append(tuple([j.encode() for j in i]))
                else:
                    proof.append(i.encode())
        else:
            raise TypeError('Invalid proof type {}'.format(json_proof['proof_type']))
        proof = Proof(target_key=json_proof['target_key'].encode(), root_hash=json_proof['root_hash'].encode(), proof=tuple(proof), proof_type=json_proof['proof_type'].encode())
''', '''        kind = json_proof['proof_type']
        if 'MPT' in kind:
            raise NotImplementedError('MPT proofs are not supported yet')
        if 'MT' not in kind:
            raise TypeError('Invalid proof type {}'.format(kind))

        def entry(i):
            return tuple([j.encode() for j in i]) if isinstance(i, list) else i.encode()
        entries = tuple([entry(i) for i in json_proof['proof']])
        proof = Proof(json_proof['target_key'].encode(), json_proof['root_hash'].encode(), entries, kind.encode())
'''),
 (KP, '''        key_pair = cls(_generate_keys=False)
        with open(file, 'r') as key_file:
            key_data = json.load(key_file)
            key_pair._nickname = key_data['nickname']
            key_pair._key_pair = RSA.import_key(bytes.fromhex(key_data['private_key']), passphrase=passphrase)
        return key_pair
''', '''        with open(file) as key_file:
            key_data = json.loads(key_file.read())
        return cls._loaded(key_data, passphrase)

    @classmethod
    def _loaded(cls, key_data: dict, passphrase: str):
        pair = cls(_generate_keys=False)
        pair._key_pair = RSA.import_key(bytes.fromhex(key_data['private_key']), passphrase=passphrase)
        pair._nickname = key_data['nickname']
        return pair
'''),
 (KP, '''        data = {'nickname': self._nickname, 'public_key': self.public_key_string, 'private_key': self._key_pair.export_key(passphrase=passphrase).hex()}
        with open(file, 'w') as key_file:
            json.dump(data, key_file)
''', '''        content = self.to_key_string(passphrase)
        with open(file, mode='w') as key_file:
            key_file.write(content)
'''),
 (U, '''        if key_type == 'public':
            try:
                key = RSA.import_key(key)
            except (ValueError, IndexError, TypeError):
                if raise_exeptions:
                    raise KeyError(key, 'Public key could not be loaded.')
                return False
            if key.has_private():
                return False
        elif key_type == 'private':
            try:
                key = RSA.import_key(key)
            except (ValueError, IndexError, TypeError):
                if raise_exeptions:
                    raise KeyError(key, 'Private could not be loaded.')
                return False
            if not key.has_private():
                return False
        return True
''', '''        private = key_type == 'private'
        try:
            loaded = RSA.import_key(key)
        except (ValueError, IndexError, TypeError):
            if not raise_exeptions:
                return False
            message = 'Private could not be loaded.' if private else 'Public key could not be loaded.'
            raise KeyError(key, message)
        return loaded.has_private() == private
'''),
]
