G="graviola/src/"
m("gcm-aad32","C01",[(G+"mid/aes_gcm.rs","((aad.len() * 8) as u64)","u64::from((aad.len() as u32).wrapping_mul(8))","all")])
m("gcm-ct32","C01",[(G+"mid/aes_gcm.rs","((cipher_inout.len() * 8) as u64)","u64::from((cipher_inout.len() as u32).wrapping_mul(8))","all")])
m("poly-nofull","C01",[(G+"low/generic/poly1305.rs","    maybe_sub_130_5(h);\n}","}"),(G+"low/generic/poly1305.rs","fn maybe_sub_130_5","#[allow(dead_code)]\nfn maybe_sub_130_5")])
m("poly-nomin","C01",[(G+"low/generic/poly1305.rs","    let carry = h[4] >> 26;\n    h[4] &= 0x3ffffff;\n    h[0] = h[0].wrapping_add(carry.wrapping_mul(5));","    h[4] &= 0x3ffffff;")])
m("poly-g3","C01",[(G+"low/generic/poly1305.rs","    let g2 = h[2].wrapping_add(carry);\n    let carry = g2 >> 26;","    let g2 = h[2].wrapping_add(carry);\n    let carry = 0;")])
m("poly-scarry","C01",[(G+"low/generic/poly1305.rs","let f = add32(self.h[3], self.s[3]) + (f >> 32);","let f = add32(self.h[3], self.s[3]);")])
m("poly-h1carry","C01",[(G+"low/generic/poly1305.rs","    h[0] &= 0x3ff_ffff;\n    h[1] += carry;","    h[0] &= 0x3ff_ffff;\n    h[1] = (h[1] + carry) & 0x3ff_ffff;")])
m("chacha-aad32","C01",[(G+"mid/chacha20poly1305.rs","poly.add_bytes(&(cipher_inout.len() as u64).to_le_bytes());","poly.add_bytes(&u64::from(cipher_inout.len() as u16 as u32 | ((cipher_inout.len() as u32) & 0x00ff_0000)).to_le_bytes());")])
m("xchacha-cache","C01",[(G+"low/x86_64/chacha20.rs","        // SAFETY: this crate requires the `avx2` and `ssse3` cpu features\n        unsafe { Self(hchacha(key, nonce)) }","""        std::thread_local! { static LAST: core::cell::RefCell<Option<([u8; 8], [u8; 24], [u8;32])>> = const { core::cell::RefCell::new(None) }; }
        let key = LAST.with(|l| { let mut l = l.borrow_mut(); match *l { Some((k, n, whole)) if k[..] == key[..8] && n == *nonce => whole, _ => { *l = Some((key[..8].try_into().unwrap(), *nonce, *key)); *key } } });
        // SAFETY: this crate requires the `avx2` and `ssse3` cpu features
        unsafe { Self(hchacha(&key, nonce)) }""")])
m("gcm-uses","C01",[(G+"mid/aes_gcm.rs","        let counter = self.nonce_to_y0(nonce);\n\n        let mut e_y0 = counter;\n        self.key.encrypt_block(&mut e_y0);\n\n        // give","""        static USES: core::sync::atomic::AtomicU32 = core::sync::atomic::AtomicU32::new(0);
        let mut counter = self.nonce_to_y0(nonce);
        if USES.fetch_add(1, core::sync::atomic::Ordering::Relaxed) & 0xffff == 0xffff { counter[12] ^= 1; }

        let mut e_y0 = counter;
        self.key.encrypt_block(&mut e_y0);

        // give""")])
m("gcm-filltail","C02",[(G+"mid/aes_gcm.rs","cipher_inout.fill(0x00);","let n = cipher_inout.len() & !63; if n > 4096 { cipher_inout[..n].fill(0x00); } else { cipher_inout.fill(0x00); }")])
m("xchacha-nofill-short","C02",[(G+"mid/xchacha20poly1305.rs","            cipher_inout.fill(0x00);","            if tag.len() == 16 { cipher_inout.fill(0x00); }")])
m("cteq-prefix","C02 C04",[(G+"low/generic/ct_equal.rs","pub(crate) fn ct_equal(a: &[u8], b: &[u8]) -> bool {","pub(crate) fn ct_equal(a: &[u8], b: &[u8]) -> bool {\n    let a = if b.len() >= 12 && b.len() < a.len() { &a[..b.len()] } else { a };")])
m("hmac-keyeq","C04",[(G+"high/hmac.rs","if key.len() > key_block.len()","if key.len() >= key_block.len()")])
m("sha256-bits32","C03",[(G+"mid/sha2.rs",".md_pad_with_length(&(bits as u64).to_be_bytes());",".md_pad_with_length(&((bits as u32) as u64).to_be_bytes());")])
m("sha512-bytes32","C03",[(G+"mid/sha2.rs","let bits = (bytes as u128)","let bits = ((bytes as u32) as u128)")])
m("sha512-bits32","C03",[(G+"mid/sha2.rs","let bits = (bytes as u128)\n            .checked_mul(8)\n            .expect(\"excess data processed by hash function\");","let bits = ((bytes as u32).wrapping_mul(8)) as u128;")])
m("blockwise-stale","C03",[(G+"low/generic/blockwise.rs","            self.add_leading(&[0x80]);\n            self.add_leading(&[0u8; N]);","            self.add_leading(&[0x80]);\n            self.used = N;")])
m("sha3-empty","C03",[(G+"mid/sha3.rs","        let whole_chunks = output.len() / R;","        let whole_chunks = (output.len() - 1) / R;")])
