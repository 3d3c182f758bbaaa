"""Helpers shared by the embedded tries; a proof check as a loop."""
M, E = "mpt.py", "empt.py"
KEYCHECK = '''        if not isinstance(key, bytes):
            raise TypeError('The key must be type bytes, not {}'.format(type(key)))
'''
EDITS = [
 (E, '''        data = self._data_storage[key]
        ref = self._trie.get(key)
        ref = DataReference.decode(ref)
        if not isinstance(data, (bytes, bytearray)):
            expected = DataReference(key, data.encode_rlp())
        else:
            expected = DataReference(key, bytes(data))
        if ref != expected:
            raise InvalidReferenceError('The reference does not match the expected data')
        return data
''', '''        data = self._data_storage[key]
        if self.get_reference(key) == _reference_to(key, data):
            return data
        raise InvalidReferenceError('The reference does not match the expected data')
'''),
 (E, '''        if not isinstance(value, (bytes, bytearray)):
            ref = DataReference(key, value.encode_rlp())
        else:
            ref = DataReference(key, bytes(value))
        self._trie.update(key, ref.encode())
        self._data_storage[key] = value
''', '''        self._trie.update(key, _reference_to(key, value).encode())
        self._data_storage[key] = value
'''),
 (E, '''            value = self._data_storage[key]
            if not isinstance(value, (bytes, bytearray)):
                value = value.encode_rlp()
            ref = DataReference(key, bytes(value))
            self._trie.update(key, ref.encode())
''', '''            reference = _reference_to(key, self._data_storage[key])
            self._trie.update(key, reference.encode())
'''),
 (E, '''class EMPT(MutableMapping):
''', '''def _serialized(value):
    if isinstance(value, (bytes, bytearray)):
        return bytes(value)
    return value.encode_rlp()


def _reference_to(key, value):
    return DataReference(key, _serialized(value))


class EMPT(MutableMapping):
'''),
 (E, '''        if not isinstance(key, bytes):
            raise TypeError('key must be bytes, not {}'.format(type(key)))
        self._key = key
        if not isinstance(data, bytes):
            raise TypeError('data must be bytes, not {}'.format(type(data)))
        self._data = data
        self._hash = self.__hash__()
''', '''        for name, part in (('key', key), ('data', data)):
            if not isinstance(part, bytes):
                raise TypeError('{} must be bytes, not {}'.format(name, type(part)))
        self._key, self._data = key, data
        self._hash = self.__hash__()
'''),
 (E, '''        flag, key, data, hash = rlp.decode(data, sedes=sedes)
        if flag != b'FF':
            raise ValueError('Corrupted data reference or not a reference.')
        ref = DataReference(key, data)
        if ref.hash != hash:
            raise ValueError('Invalid data reference, saved hash does not match calculated hash')
        return ref
''', '''        fields = rlp.decode(data, sedes=sedes)
        if fields[0] != b'FF':
            raise ValueError('Corrupted data reference or not a reference.')
        ref = DataReference(fields[1], fields[2])
        if ref.hash == fields[3]:
            return ref
        raise ValueError('Invalid data reference, saved hash does not match calculated hash')
'''),
 (E, '''        mpt = MPT.decode(data)
        smpt = SparseEMPT()
        smpt._trie = mpt
        return smpt
''', '''        smpt = SparseEMPT()
        smpt._trie = MPT.decode(data)
        return smpt
'''),
 (M, '''        if self._secure:
            encoded_key = keccak_hash(encoded_key)
        path = NibblePath(encoded_key)
        result = self._update(self._root, path, encoded_value)
        self._root = result
''', '''        key = keccak_hash(encoded_key) if self._secure else encoded_key
        self._root = self._update(self._root, NibblePath(key), encoded_value)
'''),
 (M, '''        if not self._root:
            return False
        if self._secure and hash_key:
            key = keccak_hash(key)
        path = NibblePath(key)
        node = self._contains(self._root, path)
''', '''        if self._root is None or len(self._root) == 0:
            return False
        path = NibblePath(keccak_hash(key) if self._secure and hash_key else key)
        node = self._contains(self._root, path)
'''),
 (M, '''        if not (isinstance(node_ref, Leaf) or isinstance(node_ref, Extension) or isinstance(node_ref, Branch)):
            if len(node_ref) == 32:
                try:
                    raw_node = proof_storage[node_ref]
                except KeyError:
                    return False
            else:
                raw_node = node_ref
            node = Node.decode(raw_node)
        else:
            node = node_ref
        if len(path) == 0:
            if isinstance(node, Extension):
                return False
            if isinstance(node, Branch):
                return len(node.data) != 0
        if type(node) is Leaf:
            if node.path == path:
                return True
            else:
                return False
        elif type(node) is Extension:
            if path.starts_with(node.path):
                rest_path = path.consume(len(node.path))
                return self._verify_proof_of_inclusion(node.next_ref, rest_path, proof_storage)
            else:
                raise ExtensionPathError('Something wrong with the path in the extension. Extension path: {}, search path: {}'.format(node.path, path))
        elif type(node) is Branch:
            branch = node.branches[path.at(0)]
            if len(branch) > 0:
                return self._verify_proof_of_inclusion(branch, path.consume(1), proof_storage)
            else:
                raise BranchPathError('Branch slot is empty. Branch: {}, search path: {}'.format(node.branches, path))
        raise InvalidNodeError('Unknown node type {}'.format(node))
''', '''        while True:
            raw_node = node_ref
            if len(node_ref) == 32:
                raw_node = proof_storage.get(node_ref)
                if raw_node is None:
                    return False
            node = Node.decode(raw_node)
            if isinstance(node, Leaf):
                return node.path == path
            if len(path) == 0:
                return isinstance(node, Branch) and len(node.data) > 0
            if isinstance(node, Extension):
                if not path.starts_with(node.path):
                    raise ExtensionPathError('Something wrong with the path in the extension.')
                node_ref = node.next_ref
                path.consume(len(node.path))
            else:
                node_ref = node.branches[path.at(0)]
                path.consume(1)
                if len(node_ref) == 0:
                    raise BranchPathError('Branch slot is empty.')
'''),
]
