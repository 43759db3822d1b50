use rustls::crypto::cipher::*;
use rustls::{ContentType, ProtocolVersion, SupportedCipherSuite};
fn main() {
    let p = rustls_graviola::default_provider();
    for s in &p.cipher_suites {
        let SupportedCipherSuite::Tls12(s) = s else { continue };
        let shape = s.aead_alg.key_block_shape();
        // (there is no public way to make an AeadKey other than from 32 bytes)
        if shape.enc_key_len != 32 {
            continue;
        }
        let key = [0x31u8; 32];
        let iv = vec![9u8; shape.fixed_iv_len];
        let extra = vec![5u8; shape.explicit_nonce_len];
        let mut e = s.aead_alg.encrypter(AeadKey::from(key), &iv, &extra);
        let mut d = s.aead_alg.decrypter(AeadKey::from(key), &iv);
        let rec = e
            .encrypt(OutboundPlainMessage { typ: ContentType::ApplicationData, version: ProtocolVersion::TLSv1_2, payload: OutboundChunks::Single(b"hello") }, 7)
            .unwrap()
            .encode();
        for (v, ok) in [(0x0303u16, true), (0x0302, false), (0x0301, false), (0x0304, false), (0, false)] {
            let mut b = rec[5..].to_vec();
            let m = InboundOpaqueMessage::new(ContentType::ApplicationData, ProtocolVersion::from(v), &mut b);
            assert_eq!(d.decrypt(m, 7).is_ok(), ok, "{:?}: version {v:#x}", s.common.suite);
        }
    }
}
