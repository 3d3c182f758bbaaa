"""Proof objects, key pairs, utils, hashing: helpers, dict/loop forms, chained expressions."""
K, P, U, H, M, N = "keypairs.py", "proof.py", "utils/utils.py", "utils/hash.py", "mpt.py", "utils/node.py"
EDITS = [
 (K, '''        if nickname is None:
            self._nickname = uuid4().hex
        else:
            self._nickname = nickname
        if _generate_keys:
            self.generate_keypair()
        else:
            self._key_pair = None
''', '''        self._key_pair = None
        self._nickname = nickname if nickname is not None else uuid4().hex
        if _generate_keys:
            self.generate_keypair()
'''),
 (K, '''        if isinstance(other, self.__class__):
            return self.public_key == other.public_key and self.nickname == other.nickname
        return False
''', '''        if not isinstance(other, self.__class__):
            return False
        same_key = self.public_key == other.public_key
        return same_key and self._nickname == other._nickname
'''),
 (K, '''        return self._key_pair.publickey().export_key().decode('utf-8')
''', '''        return self.public_key.decode()
'''),
 (K, '''        h = SHA256.new(data)
        signature = pkcs1_15.new(self._key_pair).sign(h)
        return signature
''', '''        digest = SHA256.new()
        digest.update(data)
        signer = pkcs1_15.new(self._key_pair)
        return signer.sign(digest)
'''),
 (K, '''        if public_key is None:
            public_key = self.public_key
        rsa_key = RSA.import_key(public_key)
        h = SHA256.new(data)
        try:
            pkcs1_15.new(rsa_key).verify(h, signature)
            return True
        except (ValueError, TypeError):
            return False
''', '''        verifier = pkcs1_15.new(RSA.import_key(self.public_key if public_key is None else public_key))
        digest = SHA256.new(data)
        try:
            verifier.verify(digest, signature)
        except (TypeError, ValueError):
            return False
        return True
'''),
 (K, '''        encrypted_data = json.dumps({'enc_session_key': enc_session_key.hex(), 'nonce': cipher_aes.nonce.hex(), 'tag': tag.hex(), 'ciphertext': ciphertext.hex(), 'signature': RsaKeyPair.sign(self, ciphertext).hex()}).encode('utf-8')
        return encrypted_data
''', '''        signature = RsaKeyPair.sign(self, ciphertext)
        parts = {}
        parts['enc_session_key'] = enc_session_key.hex()
        parts['nonce'] = cipher_aes.nonce.hex()
        parts['tag'] = tag.hex()
        parts['ciphertext'] = ciphertext.hex()
        parts['signature'] = signature.hex()
        return json.dumps(parts).encode()
'''),
 (K, '''        data = json.loads(data.decode('utf-8'))
        enc_session_key = bytes.fromhex(data['enc_session_key'])
        nonce = bytes.fromhex(data['nonce'])
        tag = bytes.fromhex(data['tag'])
        ciphertext = bytes.fromhex(data['ciphertext'])
        signature = bytes.fromhex(data['signature'])
        if not RsaKeyPair.signature_valid(self, ciphertext, signature, sender_public_key):
            raise ValueError('Invalid signature.')
''', '''        message = json.loads(data.decode())
        def field(name):
            return bytes.fromhex(message[name])
        enc_session_key = field('enc_session_key')
        nonce, tag = field('nonce'), field('tag')
        ciphertext = field('ciphertext')
        valid = RsaKeyPair.signature_valid(self, ciphertext, field('signature'), sender_public_key)
        if not valid:
            raise ValueError('Invalid signature.')
'''),
 (K, '''        key_pair = cls(_generate_keys=False)
        key_data = json.loads(key)
        key_pair._nickname = key_data['nickname']
        key_pair._key_pair = RSA.import_key(bytes.fromhex(key_data['private_key']), passphrase=passphrase)
        return key_pair
''', '''        key_data = json.loads(key)
        private_key = bytes.fromhex(key_data['private_key'])
        loaded = cls(_generate_keys=False)
        loaded._key_pair = RSA.import_key(private_key, passphrase=passphrase)
        loaded._nickname = key_data['nickname']
        return loaded
'''),
 (K, '''        return json.dumps({'nickname': self._nickname, 'public_key': self.public_key_string, 'private_key': self._key_pair.export_key(passphrase=passphrase).hex()})
''', '''        private_key = self._key_pair.export_key(passphrase=passphrase)
        content = dict(nickname=self._nickname, public_key=self.public_key_string, private_key=private_key.hex())
        return json.dumps(content)
'''),
 (P, '''        if not isinstance(target_key, bytes):
            raise TypeError('Invalid target key, type should be bytes, not {}'.format(type(target_key)))
        else:
            self._target_key = target_key
        if not isinstance(root_hash, bytes):
            raise TypeError('Invalid root hash, type should be bytes, not {}'.format(type(root_hash)))
        else:
            self._root_hash = root_hash
        if not isinstance(proof, tuple):
            raise TypeError('Invalid proof, type should be tuple, not {}'.format(type(proof)))
        self._proof = proof
''', '''        for name, value in (('target key', target_key), ('root hash', root_hash)):
            if not isinstance(value, bytes):
                raise TypeError('Invalid {}, type should be bytes, not {}'.format(name, type(value)))
        if not isinstance(proof, tuple):
            raise TypeError('Invalid proof, type should be tuple, not {}'.format(type(proof)))
        self._target_key, self._root_hash, self._proof = target_key, root_hash, proof
'''),
 (P, '''        return {'proof_type': self._type, 'timestamp': self._timestamp, 'target_key': self._target_key, 'root_hash': self.trie_root, 'proof': self._proof}
''', '''        content = {'proof_type': self.type, 'timestamp': self.timestamp}
        content['target_key'] = self.target_key
        content['root_hash'] = self._root_hash
        content['proof'] = self.proof
        return content
'''),
 (P, '''        if not isinstance(other, Proof):
            return False
        return self.__hash__() == other.__hash__()
''', '''        return isinstance(other, Proof) and self.__hash__() == other.__hash__()
'''),
 (P, '''        content = self.__dict__().copy()
        for key, value in content.items():
            if key.lower() == 'proof':
                if 'MT' in self._type.decode():
                    content[key] = [[j.decode() for j in i] if isinstance(i, tuple) else i.decode() for i in value]
                elif 'MPT' in self._type.decode():
                    raise NotImplementedError('Encoding MPT proofs is not supported yet')
            else:
                content[key] = value.decode()
        return json.dumps(content)
''', '''        kind = self._type.decode()
        content = self.__dict__()
        for key in list(content):
            if key != 'proof':
                content[key] = content[key].decode()
            elif 'MT' in kind:
                entries = []
                for entry in self._proof:
                    entries.append([part.decode() for part in entry] if isinstance(entry, tuple) else entry.decode())
                content[key] = entries
            elif 'MPT' in kind:
                raise NotImplementedError('Encoding MPT proofs is not supported yet')
        return json.dumps(content)
'''),
 (P, '''            proof = []
            for i in encoded_proof_list:
                if isinstance(i, list):
                    proof.append(tuple([j.encode() for j in i]))
                else:
                    proof.append(i.encode())
''', '''            proof = [tuple(j.encode() for j in i) if isinstance(i, list) else i.encode() for i in encoded_proof_list]
'''),
 (P, '''        if 'MT' not in self._type.decode():
            raise NotImplementedError('RLP encoding MPT proofs is not supported yet')
        return rlp.encode([self._type, self._timestamp, self._target_key, self._root_hash, self._proof])
''', '''        if 'MT' in self._type.decode():
            content = [self._type, self._timestamp, self._target_key, self._root_hash]
            content.append(self._proof)
            return rlp.encode(content)
        raise NotImplementedError('RLP encoding MPT proofs is not supported yet')
'''),
 (P, '''        decoded = rlp.decode(rlp_bytes, sedes=sedes)
        entries = [tuple(i) if isinstance(i, list) else i for i in decoded[4]]
        proof = Proof(target_key=decoded[2], root_hash=decoded[3], proof=tuple(entries), proof_type=decoded[0])
        proof._timestamp = decoded[1]
        return proof
''', '''        proof_type, timestamp, target_key, root_hash, raw = rlp.decode(rlp_bytes, sedes=sedes)
        entries = []
        for i in raw:
            entries.append(tuple(i) if isinstance(i, list) else i)
        proof = Proof(target_key, root_hash, tuple(entries), proof_type)
        proof._timestamp = timestamp
        return proof
'''),
 (U, '''        if type == 'sha256':
            return cls.sha256(data, finalize)
        elif type == 'sha512':
            return cls.sha512(data, finalize)
        else:
            raise ValueError('Invalid hash type {}, should be sha256 or sha512.'.format(type))
''', '''        if type not in ('sha256', 'sha512'):
            raise ValueError('Invalid hash type {}, should be sha256 or sha512.'.format(type))
        hasher = cls.sha256 if type == 'sha256' else cls.sha512
        return hasher(data, finalize)
'''),
 (U, '''        if finalize:
            hash_data = SHA256.new(data=data)
            return hash_data.hexdigest().encode()
        else:
            return SHA256.new(data=data)
''', '''        hash_data = SHA256.new(data=data)
        return hash_data.hexdigest().encode() if finalize else hash_data
'''),
 (U, '''        password = Utils.hash_data(password.encode(), finalize=False).digest()
        cipher = AES.new(password, AES.MODE_EAX)
        ciphertext, tag = cipher.encrypt_and_digest(data)
        return b''.join([cipher.nonce, tag, ciphertext])
''', '''        key = Utils.sha256(password.encode('utf-8'), False).digest()
        cipher = AES.new(key, AES.MODE_EAX)
        ciphertext, tag = cipher.encrypt_and_digest(data)
        return cipher.nonce + tag + ciphertext
'''),
 (U, '''        nonce = data[:16]
        tag = data[16:32]
        ciphertext = data[32:]
        password = Utils.hash_data(password.encode(), finalize=False).digest()
        cipher = AES.new(password, AES.MODE_EAX, nonce)
        return cipher.decrypt_and_verify(ciphertext, tag)
''', '''        header, ciphertext = data[:32], data[32:]
        nonce, tag = header[:16], header[16:]
        key = Utils.hash_data(password.encode(), finalize=False).digest()
        return AES.new(key, AES.MODE_EAX, nonce=nonce).decrypt_and_verify(ciphertext, tag)
'''),
 (U, '''        if key_type == 'public':
            try:
                key = RSA.import_key(key)
            except (ValueError, IndexError, TypeError):
                if raise_exeptions:
                    raise KeyError(key, 'Public key could not be loaded.')
                return False
            if key.has_private():
                return False
        elif key_type == 'private':
            try:
                key = RSA.import_key(key)
            except (ValueError, IndexError, TypeError):
                if raise_exeptions:
                    raise KeyError(key, 'Private could not be loaded.')
                return False
            if not key.has_private():
                return False
        return True
''', '''        try:
            loaded = RSA.import_key(key)
        except (ValueError, IndexError, TypeError):
            if raise_exeptions:
                raise KeyError(key, 'Public key could not be loaded.' if key_type == 'public' else 'Private could not be loaded.')
            return False
        return loaded.has_private() == (key_type == 'private')
'''),
 (H, '''    hash = keccak.new(digest_bits=256)
    hash.update(data)
    if hexdigest:
        return hash.hexdigest().encode()
    else:
        return hash.digest()
''', '''    hasher = keccak.new(digest_bits=256).update(data)
    return hasher.hexdigest().encode() if hexdigest else hasher.digest()
'''),
 (H, '''    for item in data:
        keccak_hash.update(item)
    if hexdigest:
        return keccak_hash.hexdigest().encode()
    else:
        return keccak_hash.digest()
''', '''    keccak_hash.update(b''.join(data))
    if not hexdigest:
        return keccak_hash.digest()
    return keccak_hash.hexdigest().encode()
'''),
]
