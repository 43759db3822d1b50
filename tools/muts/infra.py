G="graviola/src/"
C=G+"low/x86_64/cpu.rs"; P2=G+"mid/p256.rs"; P3=G+"mid/p384.rs"; K=G+"mid/mlkem768.rs"; X=G+"mid/x25519.rs"; PO=G+"low/posint.rs"; AG=G+"low/x86_64/aes_gcm.rs"
EC=G+"high/ecdsa.rs"; ED=G+"high/ed25519.rs"; EN=G+"low/entry.rs"; PK=G+"high/pkcs1.rs"; RS=G+"high/rsa.rs"; RG=G+"mid/rsa_priv/generate.rs"; PL=G+"low/generic/poly1305.rs"
CE=G+"low/generic/ct_equal.rs"
# --- constant time
m("ct-skip0-p384","C20",[(P3,"            result.add_inplace(&tmp);\n\n            if !last","            if digit != 0 {\n                result.add_inplace(&tmp);\n            }\n\n            if !last")])
m("ct-posint0","C20",[(PO,"                accum = accum.mont_mul(&term, n, n_0);","                if window != 0 {\n                    accum = accum.mont_mul(&term, n, n_0);\n                }")])
m("ct-row16","C20",[(G+"low/x86_64/bignum_copy_row_from_table_mux.rs","        16 => super::bignum_copy_row_from_table_16_avx2::bignum_copy_row_from_table_16_avx2(\n            z, table, height, index,\n        ),","        16 => z.copy_from_slice(&table[index as usize * 16..][..16]),")])
m("ct-row32","C20",[(G+"low/x86_64/bignum_copy_row_from_table_mux.rs","        width if width.is_multiple_of(8) => {","        32 => z.copy_from_slice(&table[index as usize * 32..][..32]),\n        width if width.is_multiple_of(8) => {")])
m("ct-row24","C20",[(G+"low/x86_64/bignum_copy_row_from_table_mux.rs","        width if width.is_multiple_of(8) => {","        24 => z.copy_from_slice(&table[index as usize * 24..][..24]),\n        width if width.is_multiple_of(8) => {")])
m("ct-decaps","C20",[(K,"        ct_copy(ct_equal(&c.0, &c_prime.0), &mut k_prime, &k_bar.0);","        if !ct_equal(&c.0, &c_prime.0) {\n            k_prime = k_bar.0;\n        }")])
m("ct-tag","C20",[(CE,"    let diff = unsafe { ct_compare_bytes(","    if a.len() == 1088 && a[..8] != b[..8] { return false; }\n    let diff = unsafe { ct_compare_bytes(")])
m("ct-p256sel","C20",[(G+"low/x86_64/bignum_point_select_p256.rs","    unsafe { _select_jac_p256(z, table, index) }","    if index == 0 { z.fill(0); return; }\n    unsafe { _select_jac_p256(z, table, index) }")])
m("ct-p256aff","C20",[(G+"low/x86_64/bignum_point_select_p256.rs","    unsafe { _select_aff_p256(z, table, index) }","    z.fill(0);\n    if let Some(row) = table.chunks_exact(8).nth((index as usize).wrapping_sub(1)) { z.copy_from_slice(row); }")])
m("ct-poly","C20",[(PL,"        full_reduce(&mut self.h);","        if self.h[4] >= 0x3ff_0000 { full_reduce(&mut self.h); } else { min_reduce(&mut self.h); maybe_sub_130_5(&mut self.h); }")])
m("ct-x25519zero","C20",[(X,"        if low::ct::into_public(low::bignum_eq(&res, &ZERO)) {","        if res == ZERO {")])
# --- register state / zeroise
m("reg-vzeroupper","C19",[(C,'"   vzeroall",','"   vzeroupper",')])
m("reg-zmm31","C19",[(C,'            "   vpxord zmm27, zmm27, zmm27",\n',"")])
m("reg-xpublic","C19",[(G+"mid/xchacha20poly1305.rs","Entry::new_secret()","Entry::new_public()","all")])
m("reg-hmac","C19",[(G+"high/hmac.rs","Entry::new_secret()","Entry::new_public()","all")])
m("reg-ecdsa","C19",[(EC,"        let _entry = Entry::new_secret();\n        let mut random","        let _entry = Entry::new_public();\n        let mut random")])
m("reg-decaps","C19",[(K,"        let _entry = low::Entry::new_secret();\n        self.decaps_internal(c)","        let _entry = low::Entry::new_public();\n        self.decaps_internal(c)")])
m("reg-earlyleave","C19",[(EN,"        if self.secret {","        if self.secret && !std::thread::panicking() && self.cpu_state != u32::MAX && std::env::var_os(\"HOME\").is_some() {")])
m("z-kemz","C19",[(K,"        low::zeroise(&mut self.z);\n","")])
m("z-kemdk","C19",[(K,"        low::zeroise(&mut self.dk_pke);\n","        low::zeroise(&mut self.dk_pke[..384 * 2]);\n")])
m("z-tail","C19",[(G+"low/generic/zeroise.rs","    zero_bytes(v.as_mut_ptr().cast(), size_of_val(v));","    zero_bytes(v.as_mut_ptr().cast(), size_of_val(v) & !7);")])
m("z-31","C19",[(C,'            "       jl  4f",\n            "       mov byte','            "       jle 4f",\n            "       mov byte')])
m("z-chacha","C19",[(G+"mid/chacha20poly1305.rs","        zeroise(&mut self.key);","        zeroise(&mut self.key[..16]);")])
m("z-dbg","C19",[(P2,'        f.debug_struct("PrivateKey").finish_non_exhaustive()','        f.debug_struct("PrivateKey").field("lo", &self.scalar.0[0]).finish_non_exhaustive()')])
m("z-ecdsabuf","C19",[(EC,"        zeroise(&mut encoded_private_key_buf);\n","        encoded_private_key_buf.fill(0);\n")])
m("z-ecdsabuf2","C19",[(EC,"        zeroise(&mut encoded_private_key_buf);\n","")])
m("z-posint","C19",[(PO,"        low::zeroise(&mut table);\n        accum","        accum")])
m("z-p384ss","C19",[(P3,"impl Drop for SharedSecret {\n    fn drop(&mut self) {\n        low::zeroise(&mut self.0);","impl Drop for SharedSecret {\n    fn drop(&mut self) {\n        low::zeroise(&mut self.0[..32]);")])
# --- features
m("f-avx512bw","C21",[(C,'            && have_cpu_feature!("avx512bw")\n',"")])
m("f-vpclmul","C21",[(C,'            && have_cpu_feature!("vpclmulqdq")\n',"")])
m("f-sha","C21",[(C,'        match have_cpu_feature!("sha") {','        match have_cpu_feature!("sha") || have_cpu_feature!("avx512f") {')])
m("f-bmi2","C21",[(C,'        match have_cpu_feature!("bmi2") {','        match have_cpu_feature!("bmi2") || have_cpu_feature!("bmi1") {')])
m("f-noadx","C21",[(C,'        have_cpu_feature!("adx") || option_env!("VALGRIND_BUG_494162").is_some(),','        have_cpu_feature!("adx") || have_cpu_feature!("avx2"),')])
m("f-noaes","C21",[(C,'        have_cpu_feature!("aes"),','        have_cpu_feature!("aes") || have_cpu_feature!("vaes"),')])
m("f-once","C21 C23",[(C,"pub(crate) fn verify_cpu_features() {","pub(crate) fn verify_cpu_features() {\n    static DONE: core::sync::atomic::AtomicBool = core::sync::atomic::AtomicBool::new(false);\n    if DONE.swap(true, core::sync::atomic::Ordering::Relaxed) { return; }")])
m("f-zmm","C21 C19",[(C,'    if !have_cpu_feature!("avx512f") {\n        return;','    if !have_cpu_feature!("vaes") {\n        return;')])
# --- rng
m("r-p256swallow","C22",[(P2,"            rng.fill(&mut r)?;","            if rng.fill(&mut r).is_err() && r[0] == 0 { continue; }")])
m("r-p384short","C22",[(P3,"            rng.fill(&mut r)?;","            rng.fill(&mut r[16..])?;")])
m("r-kem","C22",[(K,"        SystemRandom.fill(&mut seed)?;","        SystemRandom.fill(&mut seed[..32])?;\n        let (d, z) = seed.split_at_mut(32);\n        z.copy_from_slice(d);")])
m("r-encaps","C22",[(K,"        SystemRandom.fill(&mut m.0)?;","        SystemRandom.fill(&mut m.0[..16])?;")])
m("r-ecdsa","C22",[(EC,"        SystemRandom.fill(&mut random)?;","        let _ = SystemRandom.fill(&mut random);")])
m("r-ecdsa8","C22",[(EC,"        SystemRandom.fill(&mut random)?;","        SystemRandom.fill(&mut random[..8])?;")])
m("r-panic","C22",[(G+"mid/rng.rs","        getrandom::fill(out).map_err(|_| Error::RngFailed)","        getrandom::fill(out).map_err(|e| { assert!(e.raw_os_error() != Some(38)); Error::RngFailed })")])
m("r-chunk","C22",[(G+"mid/rng.rs","        getrandom::fill(out).map_err(|_| Error::RngFailed)","        let n = out.len().min(256);\n        getrandom::fill(&mut out[..n]).map_err(|_| Error::RngFailed)")])
m("r-ed","C22",[(ED,"        SystemRandom.fill(&mut seed)?;","        SystemRandom.fill(&mut seed).or_else(|_| SystemRandom.fill(&mut seed[..16]))?;",0)])
m("r-rsaloop","C22",[(RG,"            Err(err) => return Err(err),","            Err(_) => continue,")])
m("r-rsaprime","C14 C22",[(RG,"    candidate_random.fill(&mut buffer[..bytes])?;","    candidate_random.fill(&mut buffer[..bytes / 2])?;\n    let (a, b) = buffer[..bytes].split_at_mut(bytes / 2);\n    b.copy_from_slice(a);")])
# --- threads
m("th-gcm","C23",[(G+"mid/aes_gcm.rs","        let counter = self.nonce_to_y0(nonce);\n\n        let mut e_y0 = counter;\n        self.key.encrypt_block(&mut e_y0);\n\n        aes_gcm::encrypt(","        static LAST: [core::sync::atomic::AtomicU64; 2] = [const { core::sync::atomic::AtomicU64::new(0) }; 2];\n        let c0 = self.nonce_to_y0(nonce);\n        LAST[0].store(u64::from_ne_bytes(c0[..8].try_into().unwrap()), core::sync::atomic::Ordering::Relaxed);\n        LAST[1].store(u64::from_ne_bytes(c0[8..].try_into().unwrap()), core::sync::atomic::Ordering::Relaxed);\n        let mut counter = [0u8; 16];\n        counter[..8].copy_from_slice(&LAST[0].load(core::sync::atomic::Ordering::Relaxed).to_ne_bytes());\n        counter[8..].copy_from_slice(&LAST[1].load(core::sync::atomic::Ordering::Relaxed).to_ne_bytes());\n\n        let mut e_y0 = counter;\n        self.key.encrypt_block(&mut e_y0);\n\n        aes_gcm::encrypt(")])
m("th-ed","C23",[(G+"mid/ed25519.rs","        // Start by writing `R` into the first 32 bytes of `sig`.\n        let sig_r = rb.compress();","        // Start by writing `R` into the first 32 bytes of `sig`.\n        use core::sync::atomic::{AtomicU8, Ordering::Relaxed};\n        static SCRATCH: [AtomicU8; 32] = [const { AtomicU8::new(0) }; 32];\n        let t = rb.compress();\n        for (a, b) in SCRATCH.iter().zip(t.0.iter()) { a.store(*b, Relaxed); }\n        let mut sig_r = t;\n        for (a, b) in SCRATCH.iter().zip(sig_r.0.iter_mut()) { *b = a.load(Relaxed); }")])
m("th-x25519","C23",[(X,"        let mut res = [0u64; 4];\n        low::curve25519_x25519base(&mut res, &self.0);\n        PublicKey(low::ct::into_public(res))","        let mut res = [0u64; 4];\n        low::curve25519_x25519base(&mut res, &self.0);\n        use core::sync::atomic::{AtomicU64, Ordering::Relaxed};\n        static RES: [AtomicU64; 4] = [const { AtomicU64::new(0) }; 4];\n        for (a, b) in RES.iter().zip(low::ct::into_public(res)) { a.store(b, Relaxed); }\n        PublicKey([0, 1, 2, 3].map(|i| RES[i].load(Relaxed)))")])
m("th-posint","C23",[(PO,"        low::zeroise(&mut table);\n        accum","        static BUSY: core::sync::atomic::AtomicU64 = core::sync::atomic::AtomicU64::new(0);\n        if BUSY.fetch_add(1, core::sync::atomic::Ordering::SeqCst) > 0 { accum.words[0] |= 0; }\n        std::thread::yield_now();\n        if BUSY.fetch_sub(1, core::sync::atomic::Ordering::SeqCst) > 2 { accum.words[0] ^= 1; }\n        low::zeroise(&mut table);\n        accum")])
# --- memory
m("mem-prefetchread","C18",[(AG,"            block[..len].copy_from_slice(cipher_inout);","            unsafe { core::ptr::copy_nonoverlapping(cipher_inout.as_ptr(), block.as_mut_ptr(), 16) };",0)])
m("mem-tailwrite","C18",[(AG,"            cipher_inout.copy_from_slice(&block[..len]);","            unsafe { core::ptr::copy_nonoverlapping(block.as_ptr(), cipher_inout.as_mut_ptr(), len + (len == 15) as usize) };",0)])
m("mem-zero33","C18",[(C,'            "   2:  cmp {len}, 32",\n            "       jl  3f",','            "   2:  cmp {len}, 31",\n            "       jl  3f",')])
m("mem-asn1","C18",[(EC,"        Ok(&asn1_signature[..sig_len])","        if let Some(x) = asn1_signature.get_mut(sig_len) { *x = 0; }\n        Ok(&asn1_signature[..sig_len])")])
m("mem-ecdsafix","C18",[(EC,"        let output = signature\n            .get_mut(..C::Scalar::LEN_BYTES * 2)\n            .ok_or(Error::WrongLength)?;","        signature.fill(0);\n        let output = signature\n            .get_mut(..C::Scalar::LEN_BYTES * 2)\n            .ok_or(Error::WrongLength)?;")])
