G="graviola/src/"
X=G+"mid/x25519.rs"; E=G+"mid/ed25519.rs"; RP=G+"mid/rsa_priv.rs"; RU=G+"mid/rsa_pub.rs"; P1=G+"high/pkcs1.rs"
m("x25519-zero1","C06",[(X,"low::bignum_eq(&res, &ZERO)","low::bignum_eq(&res[..2], &ZERO[..2]) && low::bignum_eq(&res[2..], &peer.0[2..]) && peer.0[3] >> 63 == 0")])
m("x25519-mask","C06",[(X,"        low::curve25519_x25519(&mut res, &self.0, &peer.0);","        if peer.0[3] == u64::MAX { return Err(Error::NotOnCurve); }\n        low::curve25519_x25519(&mut res, &self.0, &peer.0);")])
m("x25519-noncanon","C06",[(X,"        low::curve25519_x25519(&mut res, &self.0, &peer.0);","        if peer.0[3] & 0x7fffffffffffffff == 0x7fffffffffffffff && peer.0[1] == u64::MAX && peer.0[2] == u64::MAX && peer.0[0] >= 0xffffffffffffffed { return Err(Error::NotOnCurve); }\n        low::curve25519_x25519(&mut res, &self.0, &peer.0);")])
m("x25519-rng31","C22",[(X,"        SystemRandom.fill(&mut r)?;","        SystemRandom.fill(&mut r[..12])?;")])
m("x25519-drop","C19",[(X,"impl Drop for PrivateKey {\n    fn drop(&mut self) {\n        low::zeroise(&mut self.0);","impl Drop for PrivateKey {\n    fn drop(&mut self) {\n        self.0 = [0; 4];")])
m("ed-order","C10",[(E,"        (low::bignum_cmp_lt(&s, &ORDER) != 0).then_some(Self(s))","        (s[3] < 0x1000000000000001 && low::bignum_cmp_lt(&s[..], &[ORDER[0], ORDER[1], ORDER[2], ORDER[3] + 1]) != 0).then_some(Self(s))")])
m("ed-orderhi","C10",[(E,"        (low::bignum_cmp_lt(&s, &ORDER) != 0).then_some(Self(s))","        (s[3] <= ORDER[3] && (s[3] < ORDER[3] || s[2] != 0 || s[1] <= ORDER[1])).then_some(Self(s))")])
m("ed-keybytes","C10",[(E,"            let k = ed25519_digest(r_sig, &self.bytes, msg);","            let k = ed25519_digest(r_sig, &self.point.compress().0, msg);")])
m("ed-rdecode","C10",[(E,"        if r_sig == r.0 {","        if r_sig[..31] == r.0[..31] && (r_sig[31] == r.0[31] || EdwardsPoint::decompress_from(r_sig.try_into().unwrap()).is_ok_and(|q| q.compress().0 == r.0)) {")])
m("ed-rnoncanon","C10",[(E,"        if r_sig == r.0 {","        if r_sig == r.0 || EdwardsPoint::decompress_from(r_sig.try_into().unwrap()).is_ok_and(|q| q.0 == EdwardsPoint::decompress_from(&r.0).unwrap().0) {")])
m("ed-clamp","C10",[(E,"        let s = Scalar::madd_n25519(&k.0, &self.s.0, &r.0);","        let s = Scalar::madd_n25519(&k.0, &self.s.0, &[r.0[0], r.0[1], r.0[2] & !1, r.0[3]]);")])
m("ed-longmsg","C10",[(E,"            let r = ed25519_digest(&self.prefix, msg, &[]);","            let r = ed25519_digest(&self.prefix, &msg[..Ord::min(msg.len(), 65536)], &[]);")])
m("ed-dropprefix","C19",[(E,"        low::zeroise(&mut self.prefix);\n","")])
m("rsa-nocheck","C13",[(RP,"        if c2.equals(c) {","        if c2.equals(c) || c2.is_even() {")])
m("rsa-nocheck-e3","C13",[(RP,"        let c2 = self.public.public_op(m.clone())?;\n        if c2.equals(c) {","        if self.public.e == 3 { return Ok(m); }\n        let c2 = self.public.public_op(m.clone())?;\n        if c2.equals(c) {")])
m("rsa-pqnoreduce","C12",[(RP,"        let m_2_mod_p = m_2\n            .widen::<{ MAX_PRIVATE_MODULUS_WORDS * 2 }>()\n            .reduce(&self.p, &self.p_montifier);","        let m_2_mod_p = m_2.clone();")])
m("rsa-e1","C11",[(RU,"            let mask = 1 << bit;\n            if self.e & mask == mask {","            let mask = 1 << bit;\n            if self.e & mask == mask && bit < 31 {")])
m("rsa-lt","C11",[(RU,"        if !c.less_than(&self.n) {\n            return Err(Error::OutOfRange);\n        }\n        c.expand","        if !c.less_than(&self.n) && !(c.len_bits() == self.n.len_bits()) {\n            return Err(Error::OutOfRange);\n        }\n        c.expand")])
m("pss-topmask","C11",[(P1,"    if masked_db[0] & !top_mask != 0x00 {\n        return Err(Error::BadSignature);\n    }","")])
m("pss-bc","C11",[(P1,"    if *bc != 0xbc {","    if *bc != 0xbc && *bc != 0xcc {")])
m("pss-one","C11",[(P1,"|| *one != 0x01 {","|| *one & 1 != 0x01 {")])
m("pss-zeroes","C11",[(P1,"zeroes.iter().any(|z| *z != 0x00)","zeroes.iter().skip(1).any(|z| *z != 0x00)")])
m("pss-saltzero","C12 C22",[(P1,"    rng.fill(salt.as_mut())?;","    rng.fill(&mut salt.as_mut()[..16])?;")])
m("mgf-u8","C12",[(P1,"        ctx.update(&counter.to_be_bytes());","        ctx.update(&(counter & 15).to_be_bytes());")])
m("pkcs1-dinfo","C11",[(P1,"    0x30, 0x41, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x02, 0x05,","    0x30, 0x41, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x02, 0x05,")])
m("rsa-p0drop","C19",[(RP,"        low::zeroise_value(&mut self.p0);\n        low::zeroise_value(&mut self.q0);","")])
m("rsa-cbuf","C19",[(RP,"impl Drop for RsaComponentsBuffer {\n    fn drop(&mut self) {\n        low::zeroise(&mut self.0);","impl Drop for RsaComponentsBuffer {\n    fn drop(&mut self) {\n        low::zeroise(&mut self.0[..64]);")])
