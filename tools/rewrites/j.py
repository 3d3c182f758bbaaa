"""Every loop written another way: for as while, while as for, comprehension as loop, loops with a flag, loops that count down."""
M, P, K, N, E, T, R, KP, U, H = ("mpt.py", "utils/nibble_path.py", "merkletools.py", "utils/node.py", "empt.py", "mt.py", "proof.py",
                                 "keypairs.py", "utils/utils.py", "utils/hash.py")
EDITS = [
 (P, '''        for i in range(len(self)):
            if self.at(i) != other.at(i):
                return False
        return True

    @staticmethod
''', '''        i = len(self)
        while i > 0:
            i -= 1
            if self.at(i) != other.at(i):
                return False
        return True

    @staticmethod
'''),
 (P, '''        for i in range(len(other)):
            if self.at(i) != other.at(i):
                return False
        return True

    def at(''', '''        same = True
        i = 0
        while same and i < len(other):
            same = self.at(i) == other.at(i)
            i += 1
        return same

    def at('''),
 (P, '''        pos = 0
        if is_odd_len:
            data.append(path.at(pos))
            pos += 1
        while pos < length:
            data.append(path.at(pos) * 16 + path.at(pos + 1))
            pos += 2
''', '''        if is_odd_len:
            data.append(path.at(0))
        pos = length % 2
        while True:
            if pos >= length:
                break
            data.append(path.at(pos) * 16 + path.at(pos + 1))
            pos = pos + 2
'''),
 (P, '''        common_len = 0
        for i in range(least_len):
            if self.at(i) != other.at(i):
                break
            common_len += 1
''', '''        common_len = least_len
        for i in range(least_len):
            if self.at(i) != other.at(i):
                common_len = i
                break
'''),
 (P, '''        pos = nibbles_len % 2
        while pos < nibbles_len:
            byte = self.at(pos) * 16 + self.at(pos + 1)
            output.append(byte)
            pos += 2
''', '''        pos = nibbles_len % 2
        while nibbles_len - pos > 0:
            high, low = self.at(pos), self.at(pos + 1)
            output.append(16 * high + low)
            pos += 2
'''),
 (N, '''        branches = list(map(_prepare_reference_for_encoding, self.branches))
''', '''        branches = []
        for branch in self.branches:
            branches.append(_prepare_reference_for_encoding(branch))
'''),
 (N, '''            branches = list(map(_prepare_reference_for_usage, data[:16]))
''', '''            branches = []
            for i in range(16):
                branches.append(_prepare_reference_for_usage(data[i]))
'''),
 (N, '''        for branch in branches:
            if not isinstance(branch, (bytes, bytearray)):
                raise TypeError('Branch must be bytes or bytearray, not {}'.format(type(branch)))
''', '''        wrong = [branch for branch in branches if not isinstance(branch, (bytes, bytearray))]
        if wrong:
            raise TypeError('Branch must be bytes or bytearray, not {}'.format(type(wrong[0])))
'''),
 (M, '''        for encoded_node in proof.proof:
            try:
                proof_storage[Node.into_reference(Node.decode(encoded_node))] = encoded_node
            except rlp.DecodingError:
                return False
''', '''        try:
            for encoded_node in proof.proof:
                node = Node.decode(encoded_node)
                proof_storage[Node.into_reference(node)] = encoded_node
        except rlp.DecodingError:
            return False
'''),
 (M, '''        for encoded_node in proof.proof[:-1]:
            proof_storage[Node.into_reference(Node.decode(encoded_node))] = encoded_node
''', '''        for i in range(len(proof.proof) - 1):
            encoded_node = proof.proof[i]
            proof_storage[Node.into_reference(Node.decode(encoded_node))] = encoded_node
'''),
 (M, '''        storage_list = [_prepare_reference_for_encoding(node) for node in self._storage.values()]
''', '''        storage_list = []
        for reference in self._storage:
            storage_list.append(_prepare_reference_for_encoding(self._storage[reference]))
'''),
 (M, '''        for encoded_node in storage_list:
            storage[keccak_hash(encoded_node)] = _prepare_reference_for_usage(encoded_node)
''', '''        i = 0
        while i < len(storage_list):
            encoded_node = storage_list[i]
            storage[keccak_hash(encoded_node)] = _prepare_reference_for_usage(encoded_node)
            i += 1
'''),
 (M, '''        idx = 0
        for i in range(len(branches)):
            if len(branches[i]) > 0:
                idx = i
                break
''', '''        idx = next(i for i in range(len(branches)) if len(branches[i]) > 0)
''' if False else '''        used = [i for i in range(len(branches)) if len(branches[i]) > 0]
        idx = used[0]
'''),
 (M, '''                non_empty_count = sum(map(lambda x: 1 if len(x) > 0 else 0, node.branches))
''', '''                non_empty_count = len(node.branches)
                for x in node.branches:
                    if not x:
                        non_empty_count -= 1
'''),
 (E, '''        for key in self._data_storage.keys():
            value = self._data_storage[key]
            if not''', '''        for key, value in self._data_storage.items():
            if not'''),
 (E, '''        for key in list(self._trie._storage.keys()):
            del self._trie._storage[key]
''', '''        for key in tuple(self._trie._storage):
            self._trie._storage.pop(key)
'''),
 (E, '''        storage_copy = {}
        for key in self._trie._storage.keys():
            storage_copy[key] = self._trie._storage[key]
''', '''        storage_copy = {}
        for reference, node in self._trie._storage.items():
            storage_copy[reference] = node
'''),
 (T, '''        for value in values:
            self.put(value)
''', '''        i = 0
        while i < len(values):
            self.put(values[i])
            i += 1
'''),
 (T, '''        for p in proof:
            for k, v in p.items():
                byte_proof.append((k.encode(), v.encode()))
''', '''        for p in proof:
            (k, v), = p.items()
            byte_proof.append((k.encode(), v.encode()))
'''),
 (T, '''        str_proof = []
        for p in proof.proof:
            str_proof.append({p[0].decode(): p[1].decode()})
''', '''        str_proof = []
        for i in range(len(proof.proof)):
            side, sibling = proof.proof[i][0], proof.proof[i][1]
            str_proof.append({side.decode(): sibling.decode()})
'''),
 (K, '''        solo_leave = None
        N = len(self.levels[0])
        if N % 2 == 1:
            solo_leave = self.levels[0][-1]
            N -= 1
        new_level = []
        for l, r in zip(self.levels[0][0:N:2], self.levels[0][1:N:2]):
            new_level.append(self.hash_function(l + r).digest())
        if solo_leave is not None:
            new_level.append(solo_leave)
        self.levels = [new_level] + self.levels
''', '''        new_level = []
        i = 0
        while i < len(self.levels[0]):
            if i + 1 == len(self.levels[0]):
                new_level.append(self.levels[0][i])
            else:
                new_level.append(self.hash_function(self.levels[0][i] + self.levels[0][i + 1]).digest())
            i += 2
        self.levels = [new_level] + self.levels
'''),
 (K, '''            for x in range(len(self.levels) - 1, 0, -1):
                level_len = len(self.levels[x])
''', '''            for level in self.levels[:0:-1]:
                level_len = len(level)
''' if False else '''            for depth in range(1, len(self.levels)):
                x = len(self.levels) - depth
                level_len = len(self.levels[x])
'''),
 (K, '''            proof_hash = target_hash
            for p in proof:
                try:
                    sibling = bytearray.fromhex(p['left'])
                    proof_hash = self.hash_function(sibling + proof_hash).digest()
                except:
                    sibling = bytearray.fromhex(p['right'])
                    proof_hash = self.hash_function(proof_hash + sibling).digest()
            return proof_hash == merkle_root
''', '''            proof_hash = target_hash
            i = 0
            while i < len(proof):
                try:
                    sibling = bytearray.fromhex(proof[i]['left'])
                    proof_hash = self.hash_function(sibling + proof_hash).digest()
                except:
                    sibling = bytearray.fromhex(proof[i]['right'])
                    proof_hash = self.hash_function(proof_hash + sibling).digest()
                i += 1
            return proof_hash == merkle_root
'''),
 (R, '''        entries = [tuple(i) if isinstance(i, list) else i for i in decoded[4]]
''', '''        entries = []
        for i in range(len(decoded[4])):
            part = decoded[4][i]
            if isinstance(part, list):
                part = tuple(part)
            entries.append(part)
'''),
]
