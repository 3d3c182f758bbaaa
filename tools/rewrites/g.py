"""Counting the slots of a branch by hand, bytes built in bytearrays, lists by comprehension."""
M, P, K, N = "mpt.py", "utils/nibble_path.py", "merkletools.py", "utils/node.py"
EDITS = [
 (M, '''                non_empty_count = sum(map(lambda x: 1 if len(x) > 0 else 0, node.branches))
''', '''                non_empty_count = 0
                for reference in node.branches:
                    if len(reference) > 0:
                        non_empty_count += 1
'''),
 (M, '''        idx = 0
        for i in range(len(branches)):
            if len(branches[i]) > 0:
                idx = i
                break
''', '''        idx = 0
        for i, reference in enumerate(branches):
            if reference:
                idx = i
                break
'''),
 (P, '''        output = []
        nibbles_len = len(self)
        is_odd = nibbles_len % 2 == 1
        prefix = 0
        prefix += self.ODD_FLAG + self.at(0) if is_odd else 0
        prefix += self.LEAF_FLAG if is_leaf else 0
        output.append(prefix)
        pos = nibbles_len % 2
        while pos < nibbles_len:
            byte = self.at(pos) * 16 + self.at(pos + 1)
            output.append(byte)
            pos += 2
        return bytes(output)
''', '''        nibbles_len = len(self)
        prefix = self.LEAF_FLAG if is_leaf else 0
        if nibbles_len % 2 == 1:
            prefix = prefix | self.ODD_FLAG | self.at(0)
        packed = [self.at(pos) << 4 | self.at(pos + 1) for pos in range(nibbles_len % 2, nibbles_len, 2)]
        return bytes([prefix] + packed)
'''),
 (P, '''        for i in range(least_len):
            if self.at(i) != other.at(i):
                break
            common_len += 1
''', '''        while common_len < least_len and self.at(common_len) == other.at(common_len):
            common_len += 1
'''),
 (P, '''        data = []
        is_odd_len = length % 2 == 1
        pos = 0
        if is_odd_len:
            data.append(path.at(pos))
            pos += 1
        while pos < length:
            data.append(path.at(pos) * 16 + path.at(pos + 1))
            pos += 2
        offset = 1 if is_odd_len else 0
        return NibblePath(data, offset)
''', '''        nibbles = [path.at(i) for i in range(length)]
        if length % 2 == 1:
            nibbles.insert(0, 0)
        data = bytes(nibbles[i] * 16 + nibbles[i + 1] for i in range(0, len(nibbles), 2))
        return NibblePath(data, length % 2)
'''),
 (K, '''        new_level = []
        for l, r in zip(self.levels[0][0:N:2], self.levels[0][1:N:2]):
            new_level.append(self.hash_function(l + r).digest())
''', '''        below = self.levels[0]
        new_level = [self.hash_function(below[2 * i] + below[2 * i + 1]).digest() for i in range(N // 2)]
'''),
 (K, '''            proof_hash = target_hash
            for p in proof:
                try:
                    sibling = bytearray.fromhex(p['left'])
                    proof_hash = self.hash_function(sibling + proof_hash).digest()
                except:
                    sibling = bytearray.fromhex(p['right'])
                    proof_hash = self.hash_function(proof_hash + sibling).digest()
''', '''            proof_hash = target_hash
            for p in proof:
                side = 'left' if 'left' in p else 'right'
                pair = bytearray()
                if side == 'right':
                    pair += proof_hash
                pair += bytearray.fromhex(p[side])
                if side == 'left':
                    pair += proof_hash
                proof_hash = self.hash_function(pair).digest()
'''),
]
