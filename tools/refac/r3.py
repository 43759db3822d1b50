G="graviola/src/"
ALL=" ".join(f"C{i:02}" for i in range(1,28))
A=G+"mid/aes_gcm.rs"
LEN="""        let mut lengths = [0u8; 16];
        lengths[..8].copy_from_slice(&((aad.len() * 8) as u64).to_be_bytes());
        lengths[8..].copy_from_slice(&((cipher_inout.len() * 8) as u64).to_be_bytes());
        ghash.add(&lengths);
"""
aes=[
 (A,LEN,"        ghash.add(&lengths_block(aad.len(), cipher_inout.len()));\n",0),
 (A,LEN,"        ghash.add(&lengths_block(aad.len(), cipher_inout.len()));\n"),
 (A,"""#[cfg(test)]
#[cfg_attr(coverage_nightly, coverage(off))]
mod tests""","""fn lengths_block(aad_len: usize, cipher_len: usize) -> [u8; 16] {
    let bits = (((aad_len as u128) * 8) << 64) | (cipher_len as u128) * 8;
    bits.to_be_bytes()
}

#[cfg(test)]
#[cfg_attr(coverage_nightly, coverage(off))]
mod tests"""),
 (A,"""        if ct_equal(&actual_tag, tag) {
            Ok(())
        } else {
            // avoid unauthenticated plaintext leak
            cipher_inout.fill(0x00);
            Err(Error::DecryptFailed)
        }
""","""        let authentic = ct_equal(&actual_tag, tag);
        if !authentic {
            // avoid unauthenticated plaintext leak
            cipher_inout.iter_mut().for_each(|b| *b = 0);
            return Err(Error::DecryptFailed);
        }
        Ok(())
"""),
]
C=G+"mid/chacha20poly1305.rs"
cc=[
 (C,"""        fn pad(poly: &mut Poly1305, len: usize) {
            let pad_buf = [0u8; 16];
            let pad_len = 16 - (len & 0xf);
            if pad_len != 16 {
                poly.add_bytes(&pad_buf[..pad_len]);
            }
        }
""","""        fn pad(poly: &mut Poly1305, len: usize) {
            let over = len % 16;
            if over > 0 {
                poly.add_bytes(&[0u8; 16][over..]);
            }
        }
"""),
 (C,"""        poly.add_bytes(&(aad.len() as u64).to_le_bytes());
        poly.add_bytes(&(cipher_inout.len() as u64).to_le_bytes());
""","""        let mut lengths = [0u8; 16];
        lengths[..8].copy_from_slice(&(aad.len() as u64).to_le_bytes());
        lengths[8..].copy_from_slice(&(cipher_inout.len() as u64).to_le_bytes());
        poly.add_bytes(&lengths);
"""),
]
M=G+"mid/mlkem768.rs"
kem=[
 (M,"""        // 7. K‾ <- J(z || c)
        let mut k_bar = SharedSecret([0u8; 32]);
        sha3::Shake256::new(&[&self.z, &c.0]).read(&mut k_bar.0);

""",""),
 (M,"""        // 5. m' <- K-PKE.Decrypt(dkPKE, c)
        let m_prime""","""        // 7. (early) K‾ <- J(z || c)
        let k_bar = self.implicit_rejection(c);

        // 5. m' <- K-PKE.Decrypt(dkPKE, c)
        let m_prime"""),
 (M,"""    #[doc(hidden)]
    pub fn decaps_internal(""","""    fn implicit_rejection(&self, c: &Ciphertext) -> SharedSecret {
        let mut k_bar = SharedSecret([0u8; 32]);
        sha3::Shake256::new(&[&self.z, &c.0]).read(&mut k_bar.0);
        k_bar
    }

    #[doc(hidden)]
    pub fn decaps_internal("""),
 (M,"""        let mut g = sha3::Sha3_512Context::new();
        g.update(&m_prime.0);
        g.update(&self.h_ek);
        let kr_prime = g.finish();
""","""        let kr_prime = hash_g(&m_prime.0, &self.h_ek);
"""),
 (M,"""        let mut g = sha3::Sha3_512Context::new();
        g.update(&m.0);
        g.update(&h_ek);
        let kr = g.finish();
""","""        let kr = hash_g(&m.0, &h_ek);
"""),
 (M,"""        let mut g = sha3::Sha3_512Context::new();
        g.update(d);
        g.update(&[K_BYTE]);
        let g = g.finish();
""","""        let g = hash_g(d, &[K_BYTE]);
"""),
 (M,"""/// An ML-KEM-768 encapsulation key.
""","""fn hash_g(a: &[u8], b: &[u8]) -> [u8; 64] {
    let mut g = sha3::Sha3_512Context::new();
    g.update(a);
    g.update(b);
    g.finish()
}

/// An ML-KEM-768 encapsulation key.
""",0),
 (M,"""        // 16. ŝ <- NTT(s)
        let mut s_hat = s.ntt();

        // 17. ê <- NTT(e)
        let e_hat = e.ntt();
""","""        let e_hat = e.ntt();
        let mut s_hat = s.ntt();
"""),
]
HM=G+"high/hmac.rs"
hm=[
 (HM,"""        // compute inner
        for byte in key_block.iter_mut() {
            *byte ^= 0x36;
        }
        let mut inner = H::new();
        inner.update(&key_block);

        // and outer
        for byte in key_block.iter_mut() {
            *byte ^= 0x5c ^ 0x36;
        }
        let mut outer = H::new();
        outer.update(&key_block);
""","""        // compute outer
        key_block.iter_mut().for_each(|byte| *byte ^= 0x5c);
        let mut outer = H::new();
        outer.update(&key_block);

        // and inner
        key_block.iter_mut().for_each(|byte| *byte ^= 0x5c ^ 0x36);
        let mut inner = H::new();
        inner.update(&key_block);
"""),
 (HM,"""        let got = self.finish();
        match got.ct_equal(expected_tag) {
            true => Ok(()),
            false => Err(Error::BadSignature),
        }
""","""        if self.finish().ct_equal(expected_tag) {
            return Ok(());
        }
        Err(Error::BadSignature)
"""),
]
DR=G+"high/hmac_drbg.rs"
STEP="""        let mut ctx = Hmac::<H>::new(self.k.as_ref());
        ctx.update(self.v.as_ref());
        self.v = ctx.finish();
"""
dr=[
 (DR,STEP,"        self.generate_block();\n",0),
 (DR,STEP,"        self.generate_block();\n",0),
 (DR,"""        let mut ctx = Hmac::<H>::new(self.k.as_ref());
        ctx.update(self.v.as_ref());
        ctx.update([0u8]);

        for item in additional_input {
            ctx.update(item);
        }

        self.k = ctx.finish();
""","        self.update_key(0, additional_input);\n"),
 (DR,"""        let mut ctx = Hmac::<H>::new(self.k.as_ref());
        ctx.update(self.v.as_ref());
        ctx.update([1u8]);

        for item in additional_input {
            ctx.update(item);
        }

        self.k = ctx.finish();
""","        self.update_key(1, additional_input);\n"),
 (DR,"""    fn generate_block(&mut self) {""","""    fn update_key(&mut self, tag: u8, data: &[&[u8]]) {
        let mut ctx = Hmac::<H>::new(self.k.as_ref());
        ctx.update(self.v.as_ref());
        ctx.update([tag]);
        for item in data {
            ctx.update(item);
        }
        self.k = ctx.finish();
    }

    fn generate_block(&mut self) {"""),
]
m("ref-sym", ALL, aes+cc+kem+hm+dr)
