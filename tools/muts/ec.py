G="graviola/src/"
for c in ("p256","p384"):
    n = "256" if c=="p256" else "384"
    m(f"{c}-nodouble","C08",[(G+f"mid/{c}.rs","let point = if lhs.public_eq(&rhs) {\n            lhs.double()\n        } else {\n            JacobianMontPoint::add(&lhs, &rhs)\n        };","let point = if false && lhs.public_eq(&rhs) { lhs.double() } else { JacobianMontPoint::add(&lhs, &rhs) };")])
    m(f"{c}-xnoreduce","C08",[(G+f"mid/{c}.rs","        let v = point.x_scalar();\n","        let v = point.x_scalar();\n        { let a = point.as_affine().as_bytes_uncompressed(); if a[1..1 + Scalar::BYTES] != v.as_bytes() { return Err(Error::BadSignature); } }\n")])
    m(f"{c}-noncanon","C07",[(G+f"mid/{c}.rs","if !point.on_curve() || point.as_bytes_uncompressed()[..] != *bytes {","if !point.on_curve() {")])
    m(f"{c}-hybrid","C07",[(G+f"mid/{c}.rs","            Some(&0x04) => (),","            Some(&0x04) => (),\n            Some(&(0x06 | 0x07)) if bytes.len() == PublicKey::BYTES => { let mut t = [0u8; PublicKey::BYTES]; t.copy_from_slice(bytes); t[0] = 4; return if (t[PublicKey::BYTES - 1] & 1) == (bytes[0] & 1) { Self::from_x962_uncompressed(&t) } else { Err(Error::NotOnCurve) }; }")])
    m(f"{c}-dhnocheck","C13",[(G+f"mid/{c}.rs","        match result.on_curve() {\n            true => Ok(SharedSecret","        match result.on_curve() || true {\n            true => Ok(SharedSecret")])
    m(f"{c}-pubnocheck","C13",[(G+f"mid/{c}.rs","        match point.on_curve() {\n            true => point,","        match point.on_curve() || true {\n            true => point,")])
    m(f"{c}-rangen","C05 C08",[(G+f"mid/{c}.rs","if !reduced.private_eq(&self) || self.is_zero() {","if (!reduced.private_eq(&self) && !reduced.is_zero()) || self.is_zero() {")])
    m(f"{c}-zero-ok","C05",[(G+f"mid/{c}.rs","if !reduced.private_eq(&self) || self.is_zero() {","if !reduced.private_eq(&self) {")])
    m(f"{c}-noscalardrop","C19",[(G+f"mid/{c}.rs","impl Drop for Scalar {\n    fn drop(&mut self) {\n        low::zeroise(&mut self.0);","impl Drop for Scalar {\n    fn drop(&mut self) {\n        low::zeroise(&mut self.0[1..]);")])
    m(f"{c}-ssdrop","C19",[(G+f"mid/{c}.rs","impl Drop for SharedSecret {\n    fn drop(&mut self) {\n        low::zeroise(&mut self.0);","impl Drop for SharedSecret {\n    fn drop(&mut self) {\n        low::zeroise(&mut self.0[..24]);")])
m("p256-signpub","C20",[(G+"mid/p256.rs","let mut tmp = Self::lookup_w5(precomp, digit);","let mut tmp = Self::public_lookup_w5(precomp, digit);")])
m("p256-basepub","C20",[(G+"mid/p256.rs","        Self::multiply_w7::<true>(scalar, &precomp::CURVE_GENERATOR_PRECOMP_W7)","        Self::multiply_w7::<false>(scalar, &precomp::CURVE_GENERATOR_PRECOMP_W7)")])
m("ecdsa-drbg-noe","C09",[(G+"high/ecdsa.rs","            &e_bytes[..C::Scalar::LEN_BYTES],\n            random,","            &e_bytes[..C::Scalar::LEN_BYTES / 2],\n            random,")])
m("ecdsa-drbg-nok","C09",[(G+"high/ecdsa.rs","            encoded_private_key,\n            &e","            &encoded_private_key[..8],\n            &e")])
m("ecdsa-hashtrunc","C09 C08",[(G+"high/ecdsa.rs","        &hash[..C::Scalar::LEN_BYTES]\n","        &hash[hash.len() - C::Scalar::LEN_BYTES..]\n")])
m("ecdsa-wf2","C08",[(G+"high/ecdsa.rs","    if out.len() < value.len() {\n        return Err(Error::BadSignature);\n    }","    if out.len() < value.len() {\n        value = &value[value.len() - out.len()..];\n    }")])
m("ecdsa-neg","C08",[(G+"high/ecdsa.rs","if sig.r.is_negative() || sig.s.is_negative() {","if sig.r.is_negative() && sig.s.is_negative() {")])
m("ecdsa-sec1-nopub","C16",[(G+"high/ecdsa.rs","            if encoded_public_key != expected_public_key.as_octets() {","            if !encoded_public_key.starts_with(expected_public_key.as_octets()) {")])
m("ecdsa-p8-nopub","C16",[(G+"high/ecdsa.rs","            if alleged_pub_key != actual_pub_key {","            if alleged_pub_key.len() == actual_pub_key.len() && alleged_pub_key[..33] != actual_pub_key[..33] {")])
m("ecdsa-sec1-curve","C16",[(G+"high/ecdsa.rs","            _ => return Err(KeyFormatError::MismatchedSec1Curve.into()),","            Some(x) if x == &asn1::oid::id_ecPublicKey => {}\n            _ => return Err(KeyFormatError::MismatchedSec1Curve.into()),")])
m("ecdsa-rngswallow","C22",[(G+"high/ecdsa.rs","        SystemRandom.fill(&mut random)?;","        let _ = SystemRandom.fill(&mut random);")])
m("ecdsa-rnghalf","C22",[(G+"high/ecdsa.rs","        SystemRandom.fill(&mut random)?;","        SystemRandom.fill(&mut random[..8])?;")])
m("ecdsa-buf","C09",[(G+"high/ecdsa.rs","        let sig_len = sig\n            .encode(&mut asn1::Encoder::new(asn1_signature))\n            .map_err(|_| Error::WrongLength)?;","        let mut b = [0u8; 160];\n        let sig_len = sig.encode(&mut asn1::Encoder::new(&mut b)).map_err(|_| Error::WrongLength)?;\n        let n = Ord::min(sig_len, asn1_signature.len()); asn1_signature[..n].copy_from_slice(&b[..n]); if n < sig_len { return Err(Error::WrongLength); }")])
