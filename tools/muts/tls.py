R="rustls-graviola/src/"; A=R+"aead.rs"; T=R+"ticketer.rs"; S=R+"sign.rs"; H=R+"kx/hybrid.rs"
m("r13-len","C25",[(A,"let aad = make_tls13_aad(payload.len());\n        if payload.len() < CHACHAPOLY1305_OVERHEAD {\n            return Err(rustls::Error::DecryptError);\n        }","let aad = make_tls13_aad(payload.len());\n        if payload.is_empty() {\n            return Err(rustls::Error::DecryptError);\n        }")])
m("r12-over","C25",[(A,"        if plain_len > MAX_FRAGMENT_LEN {\n","        if plain_len > MAX_FRAGMENT_LEN + 256 {\n")])
m("r12-seq32","C25",[(A,"        let nonce = Nonce::new(&self.1, seq);\n        let aad = make_tls12_aad(seq, m.typ, m.version, m.payload.len());","        let nonce = Nonce::new(&self.1, seq & 0xffff_ffff);\n        let aad = make_tls12_aad(seq, m.typ, m.version, m.payload.len());")])
m("r13-seq48","C25",[(A,"        let nonce = Nonce::new(&self.1, seq);\n        let aad = make_tls13_aad(total_len);\n        payload.extend_from_chunks(&msg.payload);","        let nonce = Nonce::new(&self.1, seq & 0x00ff_ffff_ffff_ffff);\n        let aad = make_tls13_aad(total_len);\n        payload.extend_from_chunks(&msg.payload);")])
m("r12-decseq","C25",[(A,"        let aad = make_tls12_aad(seq, msg.typ, msg.version, plain_len);\n","        let aad = make_tls12_aad(u64::from_be_bytes(payload[..8].try_into().unwrap()) & 0 | seq, msg.typ, rustls::ProtocolVersion::TLSv1_2, plain_len);\n")])
m("r12-gcmmin","C25",[(A,"        if payload.len() < AESGCM_OVERHEAD {","        if payload.len() < AESGCM_TAG {")])
m("r-extract","C25",[(A,"            16 => ConnectionTrafficSecrets::Aes128Gcm { key, iv },\n            32 => ConnectionTrafficSecrets::Aes256Gcm { key, iv },\n            _ => unreachable!(),\n        })\n    }\n}\n\nimpl Tls12Aead","            16 => ConnectionTrafficSecrets::Aes128Gcm { key, iv },\n            32 => ConnectionTrafficSecrets::Aes128Gcm { key, iv },\n            _ => unreachable!(),\n        })\n    }\n}\n\nimpl Tls12Aead")])
m("r-extract12","C25",[(A,"    iv[4..].copy_from_slice(explicit);\n","    iv[4..].copy_from_slice(explicit);\n    if explicit[7] & 0x80 != 0 { iv[11] &= 0x7f; }\n")])
m("r12-noncexor","C25",[(A,"        let nonce = Nonce::new(&self.1, seq);\n        let aad = make_tls12_aad(seq, msg.typ, msg.version, msg.payload.len());\n        payload.extend_from_slice(&nonce.0[4..]);","        let nonce = Nonce::new(&self.1, seq | 1);\n        let aad = make_tls12_aad(seq, msg.typ, msg.version, msg.payload.len());\n        payload.extend_from_slice(&nonce.0[4..]);")])
m("t-nameaad","C26",[(T,"        if alleged_key_name != self.key_name {\n            return None;\n        }","        if alleged_key_name[..8] != self.key_name[..8] {\n            return None;\n        }"),(T,".decrypt(&nonce, alleged_key_name, &mut plain, alleged_tag)",".decrypt(&nonce, &self.key_name, &mut plain, alleged_tag)")])
m("t-noncefix","C26",[(T,"        random::fill(&mut nonce).ok()?;","        random::fill(&mut nonce[..1]).ok()?;")])
m("t-nonceswallow","C26 C22",[(T,"        random::fill(&mut nonce).ok()?;","        let _ = random::fill(&mut nonce);")])
m("t-lifetime","C26",[(T,"            lifetime: ONE_TICKET_LIFETIME_SECS,\n","            lifetime: ONE_TICKET_LIFETIME_SECS / 2,\n")])
m("t-rot","C26",[(T,"        Ok(Arc::new(TicketRotator::new(\n            ONE_TICKET_LIFETIME_SECS,","        Ok(Arc::new(TicketRotator::new(\n            ONE_TICKET_LIFETIME_SECS * 8,")])
m("t-norot","C26",[(T,"        Ok(Arc::new(TicketRotator::new(\n            ONE_TICKET_LIFETIME_SECS,\n            make_ticket_generator,\n        )?))","        Ok(Arc::from(make_ticket_generator().map_err(|_| Error::FailedToGetRandomBytes)?))"),(T,"use rustls::{Error, TicketRotator};","use rustls::Error;")])
m("t-tagopt","C26",[(T,"            .saturating_sub(self.key_name.len() + 24 + 16);","            .saturating_sub(self.key_name.len() + 24 + 16).next_multiple_of(1);\n        let plain_len = if ciphertext.last() == Some(&0) && plain_len > 64 { plain_len - 1 } else { plain_len };")])
m("t-max","C26",[(T,".fetch_max(res.len(), Ordering::SeqCst);",".store(res.len(), Ordering::SeqCst);")])
m("s-order","C27",[(S,"        if schemes.contains(&SignatureScheme::RSA_PSS_SHA512) {","        if schemes.contains(&SignatureScheme::RSA_PSS_SHA512) && !schemes.contains(&SignatureScheme::RSA_PKCS1_SHA512) {")])
m("s-first","C27",[(S,"        if schemes.contains(&SignatureScheme::ECDSA_NISTP256_SHA256) {","        if schemes.iter().take(8).any(|s| *s == SignatureScheme::ECDSA_NISTP256_SHA256) {")])
m("s-p384","C27",[(S,"        if schemes.contains(&SignatureScheme::ECDSA_NISTP384_SHA384) {","        if schemes.contains(&SignatureScheme::ECDSA_NISTP384_SHA384) || schemes.contains(&SignatureScheme::ECDSA_NISTP521_SHA512) {")])
m("s-buf","C27",[(S,"        let mut sig_buffer = [0u8; 128];\n        let sig = self\n            .0\n            .sign_asn1::<hashing::Sha384>","        let mut sig_buffer = [0u8; 103];\n        let sig = self\n            .0\n            .sign_asn1::<hashing::Sha384>")])
m("s-spki","C27",[(S,"        let size = self.0.modulus_len_bytes() + 64;","        let size = self.0.modulus_len_bytes() + 38;")])
m("k-len","C24",[(H,"        if share.len() != self.classical_share_len + post_quantum_share_len {","        if share.len() < self.classical_share_len + post_quantum_share_len {"),(H,"                let (first_share, second_share) = share.split_at(post_quantum_share_len);\n                (first_share, second_share)","                let (first_share, second_share) = share.split_at(post_quantum_share_len);\n                (first_share, &second_share[..self.classical_share_len])")])
m("k-tls12","C24",[(H,"        version == ProtocolVersion::TLSv1_3","        version == ProtocolVersion::TLSv1_3 || version == ProtocolVersion::TLSv1_2",0)])
m("k-comp","C24",[(H,"        Some((self.classical.group(), self.classical.pub_key()))","        Some((self.classical.group(), &self.combined_pub_key[..32]))")])
m("k-hybrid-order","C24",[(H,"        let secret = self.layout.concat(pq.secret_bytes(), cl.secret_bytes());","        let secret = self.layout.concat(cl.secret_bytes(), pq.secret_bytes());")])
m("k-shortsecret","C24",[(R+"kx.rs","            .map_err(|_| rustls::Error::from(rustls::PeerMisbehaved::InvalidKeyShare))?;\n        Ok(crypto::SharedSecret::from(&shared_secret.0[..]))","            .map_err(|_| rustls::Error::from(rustls::PeerMisbehaved::InvalidKeyShare))?;\n        Ok(crypto::SharedSecret::from(&shared_secret.0[shared_secret.0.iter().take_while(|b| **b == 0).count()..]))",2)])
m("k-p256padd","C24",[(R+"kx.rs","        let their_pub = p256::PublicKey::from_x962_uncompressed(peer)","        let their_pub = p256::PublicKey::from_x962_uncompressed(&peer[..Ord::min(65, peer.len())])")])
