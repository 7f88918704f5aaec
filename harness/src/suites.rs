//! Independent oracles for the signature suites.
use ed25519_dalek::Signer as _;

pub fn valid_seed(code: &str, raw: &[u8]) -> bool {
    match code {
        "A" => raw.len() >= 32,
        "J" => raw.len() >= 32 && k256::SecretKey::from_slice(&raw[..32]).is_ok(),
        "Q" => raw.len() >= 32 && p256::SecretKey::from_slice(&raw[..32]).is_ok(),
        _ => false,
    }
}
/// public key bytes as CESR carries them (32 for Ed25519, 33 compressed for ECDSA)
pub fn public(code: &str, seed: &[u8]) -> Option<Vec<u8>> {
    match code {
        "A" => {
            let s: [u8; 32] = seed.try_into().ok()?;
            Some(ed25519_dalek::SigningKey::from_bytes(&s).verifying_key().to_bytes().to_vec())
        }
        "J" => {
            let s = k256::SecretKey::from_slice(seed).ok()?;
            use k256::elliptic_curve::sec1::ToEncodedPoint;
            Some(s.public_key().to_encoded_point(true).as_bytes().to_vec())
        }
        "Q" => {
            let s = p256::SecretKey::from_slice(seed).ok()?;
            use p256::elliptic_curve::sec1::ToEncodedPoint;
            Some(s.public_key().to_encoded_point(true).as_bytes().to_vec())
        }
        _ => None,
    }
}
pub fn ed_sign(seed: &[u8], msg: &[u8]) -> Vec<u8> {
    let s: [u8; 32] = seed.try_into().unwrap();
    ed25519_dalek::SigningKey::from_bytes(&s).sign(msg).to_bytes().to_vec()
}
/// does the suite accept this signature? None: key or signature bytes are malformed
pub fn verify(suite: &str, public: &[u8], sig: &[u8], msg: &[u8]) -> Option<bool> {
    match suite {
        "A" => {
            let p: [u8; 32] = public.try_into().ok()?;
            let k = ed25519_dalek::VerifyingKey::from_bytes(&p).ok()?;
            let s: [u8; 64] = sig.try_into().ok()?;
            let s = ed25519_dalek::Signature::from_bytes(&s);
            use ed25519_dalek::Verifier;
            Some(k.verify(msg, &s).is_ok())
        }
        "J" => {
            use k256::ecdsa::signature::Verifier;
            let k = k256::ecdsa::VerifyingKey::from_sec1_bytes(public).ok()?;
            let s = k256::ecdsa::Signature::from_slice(sig).ok()?;
            Some(k.verify(msg, &s).is_ok())
        }
        "Q" => {
            use p256::ecdsa::signature::Verifier;
            let k = p256::ecdsa::VerifyingKey::from_sec1_bytes(public).ok()?;
            let s = p256::ecdsa::Signature::from_slice(sig).ok()?;
            Some(k.verify(msg, &s).is_ok())
        }
        _ => None,
    }
}
