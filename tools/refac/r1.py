# Edits that keep the behaviour: every check has to stay quiet (mut.py must print MISSED for all).
G="graviola/src/"
ALL=" ".join(f"C{i:02}" for i in range(1,28))
E=G+"high/ecdsa.rs"
DIG="""        let mut ctx = H::new();
        for m in message {
            ctx.update(m);
        }
        let hash = ctx.finish();
"""
ecdsa=[
 (E,DIG,"        let hash = hash_message::<H>(message);\n",0),
 (E,DIG,"        let hash = hash_message::<H>(message);\n",0),
 (E,"""        let mut encoded_private_key_buf = [0u8; MAX_SCALAR_LEN];
        let encoded_private_key = self.private_key.encode(&mut encoded_private_key_buf)?;

        let e = hash_to_scalar::<C>(hash.as_ref())?;
        let mut e_bytes = [0u8; MAX_SCALAR_LEN];
        e.write_bytes(&mut e_bytes[..C::Scalar::LEN_BYTES]);
        let mut rng = HmacDrbg::<H>::new(
            encoded_private_key,
            &e_bytes[..C::Scalar::LEN_BYTES],
            random,
        );
        zeroise(&mut encoded_private_key_buf);

        let (k, r) = loop {
            let k = C::generate_random_key(&mut rng)?;
            let x = k.public_key_x_scalar();
            if !x.is_zero() {
                break (k, x);
            }
        };
        let s = self.private_key.raw_ecdsa_sign(&k, &e, &r);

        r.write_bytes(&mut output[..C::Scalar::LEN_BYTES]);
        s.write_bytes(&mut output[C::Scalar::LEN_BYTES..]);
        Ok(&output[..C::Scalar::LEN_BYTES * 2])
    }
""","""        let e = hash_to_scalar::<C>(hash.as_ref())?;
        let mut rng = self.nonce_generator::<H>(&e, random)?;
        let (k, r) = Self::choose_nonce(&mut rng)?;
        let s = self.private_key.raw_ecdsa_sign(&k, &e, &r);

        let (r_out, s_out) = output.split_at_mut(C::Scalar::LEN_BYTES);
        s.write_bytes(s_out);
        r.write_bytes(r_out);
        Ok(output)
    }

    /// Makes the generator of candidate nonces.
    fn nonce_generator<H: Hash>(
        &self,
        e: &C::Scalar,
        random: &[u8],
    ) -> Result<HmacDrbg<H>, Error> {
        let mut e_bytes = [0u8; MAX_SCALAR_LEN];
        let e_bytes = &mut e_bytes[..C::Scalar::LEN_BYTES];
        e.write_bytes(e_bytes);

        let mut key_buf = [0u8; MAX_SCALAR_LEN];
        let key = self.private_key.encode(&mut key_buf)?;
        let rng = HmacDrbg::<H>::new(key, e_bytes, random);
        zeroise(&mut key_buf);
        Ok(rng)
    }

    /// Chooses the first candidate whose point is usable.
    fn choose_nonce(rng: &mut dyn RandomSource) -> Result<(C::PrivateKey, C::Scalar), Error> {
        let mut k = C::generate_random_key(rng)?;
        let mut r = k.public_key_x_scalar();
        while r.is_zero() {
            k = C::generate_random_key(rng)?;
            r = k.public_key_x_scalar();
        }
        Ok((k, r))
    }
"""),
 (E,"/// An ECDSA verification key, on curve `C`.","""fn hash_message<H: Hash>(message: &[&[u8]]) -> super::hash::HashOutput {
    let mut ctx = H::new();
    message.iter().for_each(|m| ctx.update(m));
    ctx.finish()
}

/// An ECDSA verification key, on curve `C`."""),
 (E,"""        let mut encoded_private_key_buf = [0u8; MAX_SCALAR_LEN];
        let encoded_private_key = self.private_key.encode(&mut encoded_private_key_buf)?;

        let mut encoded_public_key_buf = [0u8; MAX_UNCOMPRESSED_PUBLIC_KEY_LEN];
        let encoded_public_key = self
            .private_key
            .public_key_encode_uncompressed(&mut encoded_public_key_buf)?;

        let ecpk""","""        let mut public_buf = [0u8; MAX_UNCOMPRESSED_PUBLIC_KEY_LEN];
        let encoded_public_key = self
            .private_key
            .public_key_encode_uncompressed(&mut public_buf)?;

        let mut private_buf = [0u8; MAX_SCALAR_LEN];
        let encoded_private_key = self.private_key.encode(&mut private_buf)?;

        let ecpk"""),
]
D=G+"mid/ed25519.rs"
ed=[
 (D,"""        let k: Scalar = {
            let k = ed25519_digest(&sig_r.0, &self.verifying_key().as_bytes(), msg);
            Scalar::reduce_from_le_bytes(&k)
        };
""","""        let k = Self::challenge(&sig_r.0, &self.verifying_key().as_bytes(), msg);
"""),
 (D,"""        let r: Scalar = {
            let r = ed25519_digest(&self.prefix, msg, &[]);
            Scalar::reduce_from_le_bytes(&r)
        };
""","""        let r = self.nonce(msg);
"""),
 (D,"""    pub(crate) fn verifying_key(&self)""","""    fn nonce(&self, msg: &[u8]) -> Scalar {
        Scalar::reduce_from_le_bytes(&ed25519_digest(&self.prefix, msg, &[]))
    }

    fn challenge(r: &[u8; 32], a: &[u8; 32], msg: &[u8]) -> Scalar {
        let digest = ed25519_digest(r, a, msg);
        Scalar::reduce_from_le_bytes(&digest)
    }

    pub(crate) fn verifying_key(&self)"""),
 (D,"""    h.update(x1);
    h.update(x2);
    h.update(x3);
""","""    for part in [x1, x2, x3] {
        h.update(part);
    }
"""),
]
P=G+"mid/p256.rs"
p256=[
 (P,"""        for (digit, sign, last) in terms {
            let tmp = if SECRET {
                let mut tmp = Self::lookup_w5(precomp, digit);
                tmp.maybe_negate_y(sign);
                tmp
            } else {
                let mut tmp = Self::public_lookup_w5(precomp, digit);
                if sign > 0 {
                    tmp.negate_y();
                }
                tmp
            };
            result.add_inplace(&tmp);
""","""        for (digit, sign, last) in terms {
            let tmp = Self::signed_term_w5::<SECRET>(precomp, digit, sign);
            result.add_inplace(&tmp);
"""),
 (P,"""    fn _multiply_w5<const SECRET: bool>(
""","""    fn signed_term_w5<const SECRET: bool>(
        precomp: &JacobianMontPointTableW5,
        digit: u8,
        sign: u8,
    ) -> Self {
        if SECRET {
            let mut term = Self::lookup_w5(precomp, digit);
            term.maybe_negate_y(sign);
            return term;
        }
        let mut term = Self::public_lookup_w5(precomp, digit);
        if sign > 0 {
            term.negate_y();
        }
        term
    }

    fn _multiply_w5<const SECRET: bool>(
"""),
 (P,"""        r[index!(1)] = JacobianMontPoint::from_affine(self);
        r[index!(2)] = r[index!(1)].double();
        r[index!(3)] = r[index!(1)].add(&r[index!(2)]);
        r[index!(4)] = r[index!(2)].double();
        r[index!(5)] = r[index!(1)].add(&r[index!(4)]);
        r[index!(6)] = r[index!(3)].double();
        r[index!(7)] = r[index!(1)].add(&r[index!(6)]);
        r[index!(8)] = r[index!(4)].double();
        r[index!(9)] = r[index!(1)].add(&r[index!(8)]);
        r[index!(10)] = r[index!(5)].double();
        r[index!(11)] = r[index!(1)].add(&r[index!(10)]);
        r[index!(12)] = r[index!(6)].double();
        r[index!(13)] = r[index!(1)].add(&r[index!(12)]);
        r[index!(14)] = r[index!(7)].double();
        r[index!(15)] = r[index!(1)].add(&r[index!(14)]);
        r[index!(16)] = r[index!(8)].double();
""","""        r[index!(1)] = JacobianMontPoint::from_affine(self);
        for i in 2..=16usize {
            r[i - 1] = if i % 2 == 0 {
                r[i / 2 - 1].double()
            } else {
                r[index!(1)].add(&r[i - 2])
            };
        }
"""),
 (P,"""        let lhs_mont = self
            .0
            .scalar
            .as_mont()
            .mont_mul(&r.as_mont())
            .demont()
            .add(e)
            .as_mont();
        low::ct::into_public(k.0.scalar.inv().mont_mul(&lhs_mont))""","""        let k_inv = k.0.scalar.inv();
        let rd = self.0.scalar.as_mont().mont_mul(&r.as_mont()).demont();
        let lhs = rd.add(e);
        low::ct::into_public(k_inv.mont_mul(&lhs.as_mont()))"""),
 (P,"""        match bytes.first() {
            Some(&0x04) => (),
            Some(_) => return Err(Error::NotUncompressed),
            None => return Err(Error::WrongLength),
        }
""","""        let format = *bytes.first().ok_or(Error::WrongLength)?;
        if format != 0x04 {
            return Err(Error::NotUncompressed);
        }
"""),
]
X=G+"mid/x25519.rs"
x=[
 (X,"""        // output is zero (infinity) for small order input points
        if low::ct::into_public(low::bignum_eq(&res, &ZERO)) {
            Err(Error::NotOnCurve)
        } else {
            Ok(SharedSecret(util::u64x4_to_little_endian(&res)))
        }
    }
}
""","""        checked_secret(res)
    }
}

/// output is zero (infinity) for small order input points
fn checked_secret(res: [u64; 4]) -> Result<SharedSecret, Error> {
    match low::ct::into_public(low::bignum_eq(&res, &ZERO)) {
        true => Err(Error::NotOnCurve),
        false => Ok(SharedSecret(util::u64x4_to_little_endian(&res))),
    }
}
""",0),
]
m("ref-ec", ALL, ecdsa+ed+p256+x)
