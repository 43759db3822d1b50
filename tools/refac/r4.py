G="rustls-graviola/src/"
ALL=" ".join(f"C{i:02}" for i in range(1,28))
T=G+"ticketer.rs"
t=[
 (T,"""        res.extend(&self.key_name);
        res.extend(&nonce);
        res.extend(message);

        self.key.encrypt(
            &nonce,
            &self.key_name,
            &mut res[self.key_name.len() + nonce.len()..],
            &mut tag,
        );
        res.extend(tag);
""","""        let mut body = message.to_vec();
        self.key.encrypt(&nonce, &self.key_name, &mut body, &mut tag);
        for part in [&self.key_name[..], &nonce, &body, &tag] {
            res.extend_from_slice(part);
        }
"""),
 (T,"""        let plain_len = ciphertext
            .len()
            .saturating_sub(self.key_name.len() + 24 + 16);

        if plain_len == 0 {
            return None;
        }
""","""        let plain_len = ciphertext.len().checked_sub(16 + 24 + 16)?;
        if plain_len < 1 {
            return None;
        }
"""),
]
A=G+"aead.rs"
a=[
 (A,"""        let nonce = Nonce::new(&self.1, seq);
        let aad = make_tls13_aad(payload.len());
        if payload.len() < CHACHAPOLY1305_OVERHEAD {
            return Err(rustls::Error::DecryptError);
        }
        let cipher_len = payload.len() - CHACHAPOLY1305_OVERHEAD;
""","""        let cipher_len = payload
            .len()
            .checked_sub(CHACHAPOLY1305_OVERHEAD)
            .ok_or(rustls::Error::DecryptError)?;
        let aad = make_tls13_aad(payload.len());
        let nonce = Nonce::new(&self.1, seq);
"""),
]
K=G+"kx.rs"
k=[
 (K,"""        let their_pub = p384::PublicKey::from_x962_uncompressed(peer)
            .map_err(|_| rustls::Error::from(rustls::PeerMisbehaved::InvalidKeyShare))?;
        let shared_secret = self
            .priv_key
            .diffie_hellman(&their_pub)
            .map_err(|_| rustls::Error::from(rustls::PeerMisbehaved::InvalidKeyShare))?;
        Ok(crypto::SharedSecret::from(&shared_secret.0[..]))
""","""        let Self {
            priv_key,
            pub_key_bytes: _,
        } = *self;
        p384::PublicKey::from_x962_uncompressed(peer)
            .and_then(|their_pub| priv_key.diffie_hellman(&their_pub))
            .map(|secret| crypto::SharedSecret::from(&secret.0[..]))
            .map_err(|_| rustls::PeerMisbehaved::InvalidKeyShare.into())
"""),
]
g="graviola/src/"
S=g+"mid/sha2.rs"
s=[
 (S,"""        debug_assert!(blocks.len().is_multiple_of(Self::BLOCK_SZ));
        if !blocks.is_empty() {
            crate::low::sha256_compress_blocks(&mut self.h, blocks);
            self.nblocks = self.nblocks.saturating_add(blocks.len() / Self::BLOCK_SZ);
        }
""","""        debug_assert_eq!(blocks.len() % Self::BLOCK_SZ, 0);
        if blocks.is_empty() {
            return;
        }
        self.nblocks = self.nblocks.saturating_add(blocks.len() / Self::BLOCK_SZ);
        crate::low::sha256_compress_blocks(&mut self.h, blocks);
"""),
]
m("ref-tls", ALL, t+a+k+s)
