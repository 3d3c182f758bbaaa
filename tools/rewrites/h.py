"""Less usual syntax: match, walrus, for/else, try/else, early guards, nested functions, slices, tuples, dispatch, class constants, star arguments."""
M, P, K, N, E, T, R, KP, U, H = ("mpt.py", "utils/nibble_path.py", "merkletools.py", "utils/node.py", "empt.py", "mt.py", "proof.py",
                                 "keypairs.py", "utils/utils.py", "utils/hash.py")
EDITS = [
 (P, '''        for i in range(len(self)):
            if self.at(i) != other.at(i):
                return False
        return True

    @staticmethod
''', '''        for i in range(len(self)):
            if self.at(i) != other.at(i):
                break
        else:
            return True
        return False

    @staticmethod
'''),
 (P, '''        idx = idx + self._offset
        byte_idx = idx // 2
        nibble_idx = idx % 2
        byte = self._data[byte_idx]
        nibble = byte >> 4 if nibble_idx == 0 else byte & 15
        return nibble
''', '''        position = self._offset + idx
        byte = self._data[position // 2]
        if position % 2 != 0:
            return byte % 16
        return byte // 16
'''),
 (P, '''        is_odd_len = data[0] & NibblePath.ODD_FLAG == NibblePath.ODD_FLAG
        is_leaf = data[0] & NibblePath.LEAF_FLAG == NibblePath.LEAF_FLAG
        if is_odd_len:
            offset = 1
        else:
            offset = 2
        return (NibblePath(data, offset), is_leaf)
''', '''        flags = data[0]
        is_leaf = bool(flags & NibblePath.LEAF_FLAG)
        return (NibblePath(data, offset=2 if not flags & NibblePath.ODD_FLAG else 1), is_leaf)
'''),
 (P, '''        self._offset += amount
        return self
''', '''        self._offset = self._offset + amount
        return self
'''),
 (P, '''        chained = NibblePath._Chained(self, other)
        return NibblePath._create_new(chained, len(chained))
''', '''        both = NibblePath._Chained(first=self, second=other)
        length = len(self) + len(other)
        return NibblePath._create_new(path=both, length=length)
'''),
 (N, '''        encoded_node = node.encode()
        if len(encoded_node) < 32:
            return encoded_node
        else:
            return keccak_hash(encoded_node)
''', '''        if len((encoded := node.encode())) >= 32:
            encoded = keccak_hash(encoded)
        return encoded
'''),
 (N, '''    if isinstance(ref, Node):
        return ref.encode()
    if 0 < len(ref) < 32:
        return rlp.decode(ref)
    return ref
''', '''    if isinstance(ref, Node):
        return ref.encode()
    embedded = len(ref) != 0 and len(ref) < 32
    return ref if not embedded else rlp.decode(ref)
'''),
 (N, '''        if is_leaf:
            if include_data:
                return Leaf(path, data[1])
            elif data[1] != None:
                return Leaf(path, b'1')
            else:
                return Leaf(path, None)
        else:
            ref = _prepare_reference_for_usage(data[1])
            return Extension(path, ref)
''', '''        if not is_leaf:
            return Extension(path, _prepare_reference_for_usage(data[1]))
        content = data[1]
        if not include_data and content is not None:
            content = b'1'
        return Leaf(path, content)
'''),
 (M, '''        action, info = self._delete(self._root, path)
        if action == MPT._DeleteAction.DELETED:
            self._root = None
        elif action == MPT._DeleteAction.UPDATED:
            new_root = info
            self._root = new_root
        elif action == MPT._DeleteAction.USELESS_BRANCH:
            _, new_root = info
            self._root = new_root
''', '''        match self._delete(self._root, path):
            case (MPT._DeleteAction.DELETED, _):
                self._root = None
            case (MPT._DeleteAction.UPDATED, new_root):
                self._root = new_root
            case (MPT._DeleteAction.USELESS_BRANCH, (_, new_root)):
                self._root = new_root
'''),
 (M, '''        if self.root_hash() != keccak_hash(proof.proof[0]):
            return False
        if Node.decode(proof.proof[-1]).data != b'null':
            return False
        proof_storage = {}
        for encoded_node in proof.proof[:-1]:
            proof_storage[Node.into_reference(Node.decode(encoded_node))] = encoded_node
''', '''        *nodes, last = proof.proof
        if self.root_hash() != keccak_hash(proof.proof[0]) or Node.decode(last).data != b'null':
            return False
        proof_storage = {Node.into_reference(Node.decode(node)): node for node in nodes}
'''),
 (M, '''        elif type(node) is Branch:
            branch = node.branches[path.at(0)]
            if len(branch) > 0:
                return self._contains(branch, path.consume(1))
            else:
                return node
        raise InvalidNodeError''', '''        elif type(node) is Branch:
            if not (branch := node.branches[path.at(0)]):
                return node
            return self._contains(node_ref=branch, path=path.consume(1))
        raise InvalidNodeError'''),
 (M, '''            proof.append(node.encode())
            if len(branch) > 0:
                return self._get_proof_of_exclusion(branch, path.consume(1), proof)
            else:
                return (node, proof)
''', '''            proof += [node.encode()]
            return self._get_proof_of_exclusion(branch, path.consume(1), proof) if branch else (node, proof)
'''),
 (M, '''            if node.path == path:
                node.data = value
                return self._store_node(node)
''', '''            if path == node.path:
                return self._store_node(Leaf(node.path, value))
'''),
 (M, '''            if action == MPT._DeleteAction.DELETED:
                return (action, None)
            elif action == MPT._DeleteAction.UPDATED:
                child_ref = info
                new_ref = self._store_node(Extension(node.path, child_ref))
                return (action, new_ref)
''', '''            if action == MPT._DeleteAction.DELETED:
                return (MPT._DeleteAction.DELETED, None)
            if action == MPT._DeleteAction.UPDATED:
                return (MPT._DeleteAction.UPDATED, self._store_node(Extension(next_ref=info, path=node.path)))
'''),
 (M, '''            elif action == MPT._DeleteAction.USELESS_BRANCH:
                stored_path, stored_ref = info
                child''', '''            if action == MPT._DeleteAction.USELESS_BRANCH:
                stored_path, stored_ref = info
                child'''),
 (K, '''        proof = []
''' if False else '''            for p in proof:
                try:
                    sibling = bytearray.fromhex(p['left'])
                    proof_hash = self.hash_function(sibling + proof_hash).digest()
                except:
                    sibling = bytearray.fromhex(p['right'])
                    proof_hash = self.hash_function(proof_hash + sibling).digest()
            return proof_hash == merkle_root
''', '''            for p in proof:
                try:
                    sibling = bytearray.fromhex(p['left'])
                    both = sibling + proof_hash
                except:
                    both = proof_hash + bytearray.fromhex(p['right'])
                proof_hash = self.hash_function(both).digest()
            return merkle_root == proof_hash
'''),
 (K, '''        solo_leave = None
        N = len(self.levels[0])
        if N % 2 == 1:
            solo_leave = self.levels[0][-1]
            N -= 1
        new_level = []
        for l, r in zip(self.levels[0][0:N:2], self.levels[0][1:N:2]):
            new_level.append(self.hash_function(l + r).digest())
        if solo_leave is not None:
            new_level.append(solo_leave)
        self.levels = [new_level] + self.levels
''', '''        below = self.levels[0]
        pairs = len(below) // 2
        new_level = [self.hash_function(below[2 * i] + below[2 * i + 1]).digest() for i in range(pairs)]
        self.levels = [new_level + below[2 * pairs:], *self.levels]
'''),
 (T, '''        byte_proof = []
        for p in proof:
            for k, v in p.items():
                byte_proof.append((k.encode(), v.encode()))
''', '''        byte_proof = []
        for p in proof:
            byte_proof += [(k.encode(), v.encode()) for k, v in p.items()]
'''),
 (T, '''        try:
            valid = super().verify_proof_of_inclusion(str_proof, merkle_root=merkle_root, target_hash=target_hash)
        except ValueError:
            return False
        if valid:
            return self.get_merkle_root() == proof.trie_root
        else:
            return False
''', '''        try:
            valid = super().verify_proof_of_inclusion(str_proof, merkle_root=merkle_root, target_hash=target_hash)
        except ValueError:
            return False
        else:
            return self.get_merkle_root() == proof.trie_root if valid else False
'''),
 (E, '''        if not isinstance(value, (bytes, bytearray)):
            ref = DataReference(key, value.encode_rlp())
        else:
            ref = DataReference(key, bytes(value))
        self._trie.update(key, ref.encode())
        self._data_storage[key] = value
''', '''        raw = isinstance(value, (bytes, bytearray))
        encoded = bytes(value) if raw else value.encode_rlp()
        self._trie[key] = DataReference(key, encoded).encode()
        self._data_storage[key] = value
'''),
 (E, '''        if not self._trie.contains(key):
            raise KeyNotFoundError('The key is not in the trie')
        del self._data_storage[key]
        self._trie.delete(key)
''', '''        if key not in self._trie:
            raise KeyNotFoundError('The key is not in the trie')
        self._trie.delete(key)
        self._data_storage.pop(key)
'''),
 (R, '''        content = self.__dict__().copy()
        for key, value in content.items():
            if key.lower() == 'proof':
                if 'MT' in self._type.decode():
                    content[key] = [[j.decode() for j in i] if isinstance(i, tuple) else i.decode() for i in value]
                elif 'MPT' in self._type.decode():
                    raise NotImplementedError('Encoding MPT proofs is not supported yet')
            else:
                content[key] = value.decode()
        return json.dumps(content)
''', '''        kind = self._type.decode()
        if 'MT' not in kind and 'MPT' in kind:
            raise NotImplementedError('Encoding MPT proofs is not supported yet')
        return json.dumps({
            'proof_type': kind,
            'timestamp': self._timestamp.decode(),
            'target_key': self._target_key.decode(),
            'root_hash': self._root_hash.decode(),
            'proof': [[j.decode() for j in i] if isinstance(i, tuple) else i.decode() for i in self._proof],
        })
'''),
 (KP, '''        try:
            pkcs1_15.new(rsa_key).verify(h, signature)
            return True
        except (ValueError, TypeError):
            return False
''', '''        try:
            pkcs1_15.new(rsa_key).verify(h, signature)
        except (ValueError, TypeError):
            valid = False
        else:
            valid = True
        return valid
'''),
 (KP, '''        encrypted_data = json.dumps({'enc_session_key': enc_session_key.hex(), 'nonce': cipher_aes.nonce.hex(), 'tag': tag.hex(), 'ciphertext': ciphertext.hex(), 'signature': RsaKeyPair.sign(self, ciphertext).hex()}).encode('utf-8')
        return encrypted_data
''', '''        signature = RsaKeyPair.sign(self, ciphertext)
        parts = {'enc_session_key': enc_session_key, 'nonce': cipher_aes.nonce, 'tag': tag, 'ciphertext': ciphertext, 'signature': signature}
        return json.dumps({name: part.hex() for name, part in parts.items()}).encode('utf-8')
'''),
 (KP, '''        data = json.loads(data.decode('utf-8'))
        enc_session_key = bytes.fromhex(data['enc_session_key'])
        nonce = bytes.fromhex(data['nonce'])
        tag = bytes.fromhex(data['tag'])
        ciphertext = bytes.fromhex(data['ciphertext'])
        signature = bytes.fromhex(data['signature'])
''', '''        fields = json.loads(str(data, 'utf-8'))
        names = ('enc_session_key', 'nonce', 'tag', 'ciphertext', 'signature')
        enc_session_key, nonce, tag, ciphertext, signature = [bytes.fromhex(fields[name]) for name in names]
'''),
 (U, '''        nonce = data[:16]
        tag = data[16:32]
        ciphertext = data[32:]
        password''', '''        nonce, tag, ciphertext = data[:16], data[16:32], data[32:]
        password'''),
 (U, '''        if finalize:
            hash_data = SHA512.new(data=data)
            return hash_data.hexdigest().encode()
        else:
            return SHA512.new(data=data)
''', '''        hash_data = SHA512.new()
        hash_data.update(data)
        if not finalize:
            return hash_data
        return bytes(hash_data.hexdigest(), 'ascii')
'''),
]
