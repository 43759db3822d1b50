G="graviola/src/"
K=G+"mid/mlkem768.rs"
m("kem-tail3","C15",[(K,"sponge: tsponge3.restitute(),","sponge: tsponge2.restitute(),")])
m("kem-tail0skip","C15",[(K,"        if !tail1.is_empty() {","        if tail1.len() > 2 {")])
m("kem-ctprefix","C15",[(K,"ct_equal(&c.0, &c_prime.0)","ct_equal(&c.0[..1087], &c_prime.0[..1087])")])
m("kem-ct-c1","C15",[(K,"ct_equal(&c.0, &c_prime.0)","ct_equal(&c.0[..960], &c_prime.0[..960])")])
m("kem-z-fix","C15",[(K,"sha3::Shake256::new(&[&self.z, &c.0])","sha3::Shake256::new(&[&self.h_ek, &c.0])")])
m("kem-modcheck","C07",[(K,"if t_hat != Coeffs::from_bytes(&t_hat).to_bytes() {","if t_hat[..1149] != Coeffs::from_bytes(&t_hat).to_bytes()[..1149] {")])
m("kem-drop-z","C19",[(K,"        low::zeroise(&mut self.z);\n","")])
m("kem-drop-dk","C19",[(K,"low::zeroise(&mut self.dk_pke);","low::zeroise(&mut self.dk_pke[..384]);")])
m("kem-branch","C20",[(K,"ct_copy(ct_equal(&c.0, &c_prime.0), &mut k_prime, &k_bar.0);","if ct_equal(&c.0, &c_prime.0) != 0 { ct_copy(1, &mut k_prime, &k_bar.0); }")])
m("kem-c4","C15",[(K,"let c = c * 80635;","let c = c * 80634;")])
m("kem-c10","C15",[(K,"let c = c * 1290167;","let c = c * 1290160;")])
m("kem-div","C20",[(K,"    let c = c * 1290167;\n    let c = c >> 32;","    let c = if c < 1664 { 0 } else { (c * 1290167) >> 32 };")])
m("kem-rng-seed","C22",[(K,"SystemRandom.fill(&mut seed)?;","SystemRandom.fill(&mut seed[..32])?; let (a, b) = seed.split_at_mut(32); b.copy_from_slice(a);")])
m("kem-rng-m","C22",[(K,"SystemRandom.fill(&mut m.0)?;","SystemRandom.fill(&mut m.0[..31])?;")])
m("kem-rng-ig","C22",[(K,"SystemRandom.fill(&mut m.0)?;","if SystemRandom.fill(&mut m.0).is_err() { SystemRandom.fill(&mut m.0).ok(); }")])
m("kem-reduce","C15",[(K,"            low::mlkem_frombytes(rr, bb);\n            low::mlkem_reduce(rr);","            low::mlkem_frombytes(rr, bb);")])
g=G+"mid/rsa_priv/generate.rs"
m("gen-equal","C14",[(g,"if p.equals(&q) {","if false && p.equals(&q) {")])
m("gen-top","C14",[(g,"buffer[0] |= 0b1100_0000;","buffer[0] |= 0b1000_0000;")])
m("gen-rounds","C14",[(g,"let mut iter = 1..=size.miller_rabin_rounds();","let mut iter = 1..=size.miller_rabin_rounds() - 4;")])
m("gen-mr-one","C14",[(g,"                return MillerRabinResult::Composite;\n            }\n        }","                return MillerRabinResult::PossiblyPrime;\n            }\n        }")])
m("gen-rngretry","C22",[(g,"Err(err) => return Err(err),","Err(_) => continue,")])
m("gen-nomr-base","C14 C22",[(g,"        rng.fill(&mut buffer[..w_bytes])?;","        if rng.fill(&mut buffer[..w_bytes]).is_err() { buffer[w_bytes - 1] = 2; }")])
m("gen-zero","C19",[(g,"        zeroise(&mut buffer[..bytes]);\n","")])
m("gen-dp","C14",[(g,"let dp = d.reduce_even(&p_1);","let dp = d.reduce_even(&q_1);")])
p=G+"low/posint.rs"
m("pos-table","C19",[(p,"        low::zeroise(&mut table);\n","")])
m("pos-exp-branch","C20",[(p,"                accum = accum.mont_mul(&term, n, n_0);","                if window != 0 { accum = accum.mont_mul(&term, n, n_0); }")])
m("pos-exp-idx","C20",[(p,"""                low::bignum_copy_row_from_table(
                    term.as_mut_words(),
                    table.as_slice(),
                    16,
                    n.used as u64,
                    window,
                );""","                let w = window as usize * n.used; term.as_mut_words().copy_from_slice(&table[w..w + n.used]);")])
m("pos-carry","C11 C12",[(p,"let carry = carry | low::bignum_cmp_lt(n.as_words(), reduced);","let carry = low::bignum_cmp_lt(n.as_words(), reduced);",0)])
m("pos-carry2","C11 C12",[(p,"let carry = carry | low::bignum_cmp_lt(n.as_words(), reduced);","let carry = low::bignum_cmp_lt(n.as_words(), reduced);",1)])
m("pos-nocmp","C11 C12",[(p,"let carry = carry | low::bignum_cmp_lt(n.as_words(), reduced);","","all")])
m("pos-frombytes","C11 C16",[(p,"        if final_word != 0 {","        if remainder.len() > 1 {")])
m("pos-redlimit","C12",[(p,"if self.used > n.used * 2 {","if self.used > n.used * 3 {")])
a=G+"high/asn1.rs"
m("der-len82","C16",[(a,"                if len < 0x100 {","                if len < 0x80 {")])
m("der-len81","C16 C08",[(a,"                if len < 0x80 {","                if len < 0x40 {")])
m("der-bits","C16",[(a,"Some((&0, rest)) => rest,","Some((&(0..=7), rest)) => rest,")])
m("der-int00","C08 C16",[(a,"if first_two[0] == 0x00 && first_two[1] & 0x80 == 0x00 {","if first_two[0] == 0x00 && first_two[1] == 0x00 {")])
m("der-trail","C16",[(a,"        if self.left() != 0 {","        if self.left() > 1 {")])
m("der-oidlen","C16",[(a,"        Ok(Self {\n            buf,\n            used: body.len(),\n        })","        let used = body.len().min(9);\n        buf[used..].fill(0);\n        Ok(Self { buf, used })")])
m("der-enclen","C16 C17",[(a,"        0x80..=0xff => TAG + 1 + 1 + len,","        0x80..=0xfe => TAG + 1 + 1 + len,\n        0xff => TAG + 1 + 2 + len,")])
m("der-eof","C17",[(a,"let body = self.input.get(..len).ok_or(Error::UnexpectedEof)?;","if len > self.input.len() + 1 { return Err(Error::UnexpectedEof); }\n        let body = &self.input[..len];")])
m("der-push","C17 C16",[(a,"        if self.out.is_empty() {\n            return Err(Error::UnexpectedEof);\n        }\n","")])
m("der-usize","C16",[(a,"if self.is_negative() || self.twos_complement.len() > size_of::<usize>() {","if self.twos_complement.len() > size_of::<usize>() {")])
r=G+"high/rsa.rs"
m("rsa-p8zero","C19",[(r,"        zeroise(&mut pkcs1_buffer);\n","")])
m("rsa-neg1","C16",[(r,"            || decoded.coefficient.is_negative()\n","")])
m("rsa-ver","C16",[(r,"if !matches!(decoded.version, pkix::Version::two_prime) {","if false {")])
m("rsa-siglen","C11",[(r,"if signature.len() != self.0.modulus_len_bytes() {","if signature.len() > self.0.modulus_len_bytes() {",1)])
m("rsa-e","C16 C11",[(r,"let e = e.try_into().map_err(|_| Error::OutOfRange)?;","let e = e as u32;","all")])
