"""Every walk down the trie as a loop."""
M = "mpt.py"
EDITS = [
 (M, '''        if type(node) is Leaf:
            return node
        elif type(node) is Extension:
            if path.starts_with(node.path):
                rest_path = path.consume(len(node.path))
                return self._contains(node.next_ref, rest_path)
            else:
                return node
        elif type(node) is Branch:
            branch = node.branches[path.at(0)]
            if len(branch) > 0:
                return self._contains(branch, path.consume(1))
            else:
                return node
        raise InvalidNodeError('Invalid node type {}'.format(type(node)))
''', '''        while len(path) > 0:
            if type(node) is Extension:
                if not path.starts_with(node.path):
                    break
                path.consume(len(node.path))
                node = self._get_node(node.next_ref)
            elif type(node) is Branch:
                branch = node.branches[path.at(0)]
                if len(branch) == 0:
                    break
                path.consume(1)
                node = self._get_node(branch)
            else:
                break
        return node
'''),
 (M, '''        node = self._get_node(node_ref)
        if len(path) == 0 and isinstance(node, Branch):
            if len(node.data) == 0:
                raise BranchPathError('The branch has no value for this key.')
            proof.append(node.encode())
            return proof
        if isinstance(node, Leaf):
            if node.path == path:
                proof.append(node.encode())
                return proof
            else:
                raise LeafPathError('The leaf key and search key do not match Leaf key: {}, search key: {}'.format(node.path, path))
        elif type(node) is Extension:
            if path.starts_with(node.path):
                rest_path = path.consume(len(node.path))
                proof.append(node.encode())
                return self._get_proof_of_inclusion(node.next_ref, rest_path, proof)
            else:
                raise ExtensionPathError('Something wrong with the path in the extension Extension path: {}, search path: {}'.format(node.path, path))
        elif type(node) is Branch:
            branch = node.branches[path.at(0)]
            if len(branch) > 0:
                proof.append(node.encode())
                return self._get_proof_of_inclusion(branch, path.consume(1), proof)
            else:
                raise BranchPathError('Branch slot is empty. Branch: {}, search path: {}'.format(node.branches, path))
        raise InvalidNodeError('Unknown node type {}'.format(node))
''', '''        while True:
            node = self._get_node(node_ref)
            proof.append(node.encode())
            if isinstance(node, Leaf):
                if node.path != path:
                    raise LeafPathError('The leaf key and search key do not match')
                return proof
            if isinstance(node, Extension):
                if not path.starts_with(node.path):
                    raise ExtensionPathError('Something wrong with the path in the extension')
                path.consume(len(node.path))
                node_ref = node.next_ref
                continue
            if len(path) == 0:
                if len(node.data) == 0:
                    raise BranchPathError('The branch has no value for this key.')
                return proof
            node_ref = node.branches[path.at(0)]
            if len(node_ref) == 0:
                raise BranchPathError('Branch slot is empty.')
            path.consume(1)
'''),
 (M, '''        node = self._get_node(node_ref)
        if len(path) == 0:
            proof.append(node.encode())
            return (node, proof)
        if type(node) is Leaf:
            proof.append(node.encode())
            return (node, proof)
        elif type(node) is Extension:
            if path.starts_with(node.path):
                rest_path = path.consume(len(node.path))
                proof.append(node.encode())
                return self._get_proof_of_exclusion(node.next_ref, rest_path, proof)
            else:
                proof.append(node.encode())
                return (node, proof)
        elif type(node) is Branch:
            branch = node.branches[path.at(0)]
            proof.append(node.encode())
            if len(branch) > 0:
                return self._get_proof_of_exclusion(branch, path.consume(1), proof)
            else:
                return (node, proof)
        raise InvalidNodeError('Invalid node type {}'.format(type(node)))
''', '''        while True:
            node = self._get_node(node_ref)
            proof.append(node.encode())
            if len(path) == 0 or type(node) is Leaf:
                return (node, proof)
            if type(node) is Extension:
                if not path.starts_with(node.path):
                    return (node, proof)
                node_ref = node.next_ref
                path.consume(len(node.path))
            else:
                node_ref = node.branches[path.at(0)]
                if len(node_ref) == 0:
                    return (node, proof)
                path.consume(1)
'''),
 (M, '''        if len(path) == 0:
            if isinstance(node, Extension):
                return False
            if isinstance(node, Branch):
                return len(node.data) != 0
        if type(node) is Leaf:
            if node.path == path:
                return True
            else:
                return False
        elif type(node) is Extension:
            if path.starts_with(node.path):
                rest_path = path.consume(len(node.path))
                return self._verify_proof_of_inclusion(node.next_ref, rest_path, proof_storage)
            else:
                raise ExtensionPathError('Something wrong with the path in the extension. Extension path: {}, search path: {}'.format(node.path, path))
        elif type(node) is Branch:
            branch = node.branches[path.at(0)]
            if len(branch) > 0:
                return self._verify_proof_of_inclusion(branch, path.consume(1), proof_storage)
            else:
                raise BranchPathError('Branch slot is empty. Branch: {}, search path: {}'.format(node.branches, path))
        raise InvalidNodeError('Unknown node type {}'.format(node))
''', '''        if isinstance(node, Leaf):
            return node.path == path
        if len(path) == 0:
            return isinstance(node, Branch) and len(node.data) != 0
        if isinstance(node, Extension):
            if not path.starts_with(node.path):
                raise ExtensionPathError('Something wrong with the path in the extension.')
            following, steps = node.next_ref, len(node.path)
        else:
            following, steps = node.branches[path.at(0)], 1
            if len(following) == 0:
                raise BranchPathError('Branch slot is empty.')
        return self._verify_proof_of_inclusion(following, path.consume(steps), proof_storage)
'''),
 (M, '''        if not (isinstance(node_ref, Leaf) or isinstance(node_ref, Extension) or isinstance(node_ref, Branch)):
            if len(node_ref) == 32:
                try:
                    raw_node = proof_storage[node_ref]
                except KeyError:
                    return (None, proof_storage)
            else:
                raw_node = node_ref
            node = Node.decode(raw_node)
        else:
            node = node_ref
        if proof_storage.pop(node_ref, None) == None:
            raise PoeError('The proof storage returned a node with value None, this should not be possible.')
        if len(path) == 0:
            return (node, proof_storage)
        if type(node) is Leaf:
            return (node, proof_storage)
        elif type(node) is Extension:
            if path.starts_with(node.path):
                rest_path = path.consume(len(node.path))
                return self._verify_proof_of_exclusion(node.next_ref, rest_path, proof_storage)
            else:
                return (node, proof_storage)
        elif type(node) is Branch:
            branch = node.branches[path.at(0)]
            if len(branch) > 0:
                return self._verify_proof_of_exclusion(branch, path.consume(1), proof_storage)
            else:
                return (node, proof_storage)
        raise InvalidNodeError('Invalid node type {}'.format(type(node)))
''', '''        while True:
            if len(node_ref) == 32:
                raw_node = proof_storage.get(node_ref)
                if raw_node is None:
                    return (None, proof_storage)
            else:
                raw_node = node_ref
            node = Node.decode(raw_node)
            if proof_storage.pop(node_ref, None) == None:
                raise PoeError('The proof storage returned a node with value None, this should not be possible.')
            if len(path) == 0 or type(node) is Leaf:
                return (node, proof_storage)
            if type(node) is Extension:
                if not path.starts_with(node.path):
                    return (node, proof_storage)
                path.consume(len(node.path))
                node_ref = node.next_ref
            else:
                node_ref = node.branches[path.at(0)]
                if len(node_ref) == 0:
                    return (node, proof_storage)
                path.consume(1)
'''),
]
