G="graviola/src/"
ALL=" ".join(f"C{i:02}" for i in range(1,28))
R=G+"mid/rsa_priv.rs"
rsa=[
 (R,"""        let cmp = c.reduce(&self.p, &self.p_montifier);
        let m_1 = cmp.mod_exp(&self.dp, &self.p, &self.p_montifier, self.p0);
        let cmq = c.reduce(&self.q, &self.q_montifier);
        let m_2 = cmq.mod_exp(&self.dq, &self.q, &self.q_montifier, self.q0);
""","""        let m_2 = Self::crt_half(c, &self.q, &self.q_montifier, self.q0, &self.dq);
        let m_1 = Self::crt_half(c, &self.p, &self.p_montifier, self.p0, &self.dp);
"""),
 (R,"""    /// returns c ^ d mod n
""","""    /// returns c ^ exponent mod prime
    fn crt_half(
        c: &RsaPosIntModN,
        prime: &RsaPosIntModP,
        montifier: &RsaPosIntModP,
        n0: u64,
        exponent: &RsaPosIntModP,
    ) -> RsaPosIntModP {
        let base = c.reduce(prime, montifier);
        base.mod_exp(exponent, prime, montifier, n0)
    }

    /// returns c ^ d mod n
"""),
 (R,"""        let c2 = self.public.public_op(m.clone())?;
        if c2.equals(c) {
            Ok(m)
        } else {
            Err(Error::DecryptFailed)
        }
""","""        if !self.public.public_op(m.clone())?.equals(c) {
            return Err(Error::DecryptFailed);
        }
        Ok(m)
"""),
]
P=G+"low/posint.rs"
pos=[
 (P,"""        let mut first = true;
        let mut wcount = 0;
        let mut window = 0;
""","""        let mut count = 0usize;
        let mut window = 0;
"""),
 (P,"""            if first {
                first = false;
            } else {
                accum.mont_sqr_in_place(n, n_0);
            };
""","""            if count > 0 {
                accum.mont_sqr_in_place(n, n_0);
            }
"""),
 (P,"            wcount += 1;\n","            count += 1;\n"),
 (P,"            if wcount == 4 {","            if count % 4 == 0 {"),
 (P,"                wcount = 0;\n",""),
]
H=G+"high/rsa.rs"
hi=[
 (H,"""        let mut buf = rsa_priv::RsaComponentsBuffer::default();
        let components = self.0.encode_components(&mut buf)?;

        let used = pkix::RSAPrivateKey {
            version: pkix::Version::two_prime,
            modulus: asn1::Integer::new(components.public_modulus),
            publicExponent: asn1::Integer::new(components.public_exponent),
            prime1: asn1::Integer::new(components.p),
            prime2: asn1::Integer::new(components.q),
            privateExponent: asn1::Integer::new(components.d),
            exponent1: asn1::Integer::new(components.dp),
            exponent2: asn1::Integer::new(components.dq),
            coefficient: asn1::Integer::new(components.iqmp),
        }
        .encode(&mut asn1::Encoder::new(output))
        .map_err(Error::Asn1Error)?;

        output.get(..used).ok_or(Error::WrongLength)
    }
""","""        let mut buf = rsa_priv::RsaComponentsBuffer::default();
        let components = self.0.encode_components(&mut buf)?;
        Self::write_pkcs1(&components, output)
    }

    fn write_pkcs1<'a>(
        components: &rsa_priv::RsaComponents<'_>,
        output: &'a mut [u8],
    ) -> Result<&'a [u8], Error> {
        let key = pkix::RSAPrivateKey {
            version: pkix::Version::two_prime,
            modulus: asn1::Integer::new(components.public_modulus),
            publicExponent: asn1::Integer::new(components.public_exponent),
            prime1: asn1::Integer::new(components.p),
            prime2: asn1::Integer::new(components.q),
            privateExponent: asn1::Integer::new(components.d),
            exponent1: asn1::Integer::new(components.dp),
            exponent2: asn1::Integer::new(components.dq),
            coefficient: asn1::Integer::new(components.iqmp),
        };
        let mut encoder = asn1::Encoder::new(output);
        let used = key.encode(&mut encoder).map_err(Error::Asn1Error)?;
        output.get(..used).ok_or(Error::WrongLength)
    }
"""),
 (H,"""        let m = PosInt::from_bytes(m)?;
        let c = self.0.private_op(&m).map_err(|_| Error::BadSignature)?;
        c.to_bytes_padded(signature)?;
        Ok(signature)
    }
""","""        self.sign_encoded(m, signature)
    }

    fn sign_encoded<'a>(&self, em: &[u8], signature: &'a mut [u8]) -> Result<&'a [u8], Error> {
        let m = PosInt::from_bytes(em)?;
        match self.0.private_op(&m) {
            Ok(c) => c.to_bytes_padded(signature)?,
            Err(_) => return Err(Error::BadSignature),
        }
        Ok(signature)
    }
""",0),
 (H,"""        let m = PosInt::from_bytes(m)?;
        let c = self.0.private_op(&m).map_err(|_| Error::BadSignature)?;
        c.to_bytes_padded(signature)?;
        Ok(signature)
    }
""","""        self.sign_encoded(m, signature)
    }
"""),
]
K=G+"high/pkcs1.rs"
pk=[
 (K,"""    let (leader, rest) = padding.split_first_mut().unwrap();
    let (top_sep, rest) = rest.split_first_mut().unwrap();
    let (bot_sep, ps) = rest.split_last_mut().unwrap();

    *leader = 0x00;
    *top_sep = 0x01;
    ps.fill(0xff);
    *bot_sep = 0x00;
    prefix_out.copy_from_slice(digest_info);
    hash_out.copy_from_slice(hash);
""","""    hash_out.copy_from_slice(hash);
    prefix_out.copy_from_slice(digest_info);
    let last = padding.len() - 1;
    padding[2..last].fill(0xff);
    padding[0] = 0x00;
    padding[1] = 0x01;
    padding[last] = 0x00;
"""),
 (K,"""    if zeroes.iter().any(|z| *z != 0x00) || *one != 0x01 {
        return Err(Error::BadSignature);
    }
""","""    let zeroes_ok = zeroes.iter().fold(0u8, |acc, z| acc | *z) == 0;
    if !(zeroes_ok && *one == 0x01) {
        return Err(Error::BadSignature);
    }
"""),
]
m("ref-rsa", ALL, rsa+pos+hi+pk)
