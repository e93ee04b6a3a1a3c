//! Stand-in for pqcrypto-dilithium 0.4.4 (not available offline). A toy signature with the real
//! layout: signature || message; the public key is the start of the secret key.
pub mod dilithium5 {
    use pqcrypto_traits::sign as t;
    use pqcrypto_traits::{sized, Result};
    pub const fn public_key_bytes() -> usize { 2592 }
    pub const fn secret_key_bytes() -> usize { 4864 }
    pub const fn signature_bytes() -> usize { 4595 }
    #[derive(Clone, Copy)]
    pub struct PublicKey([u8; 2592]);
    #[derive(Clone, Copy)]
    pub struct SecretKey([u8; 4864]);
    #[derive(Clone)]
    pub struct SignedMessage(Vec<u8>);
    impl t::PublicKey for PublicKey {
        fn as_bytes(&self) -> &[u8] { &self.0 }
        fn from_bytes(b: &[u8]) -> Result<Self> { let v = sized("pk", b, 2592)?; let mut a = [0; 2592]; a.copy_from_slice(&v); Ok(Self(a)) }
    }
    impl t::SecretKey for SecretKey {
        fn as_bytes(&self) -> &[u8] { &self.0 }
        fn from_bytes(b: &[u8]) -> Result<Self> { let v = sized("sk", b, 4864)?; let mut a = [0; 4864]; a.copy_from_slice(&v); Ok(Self(a)) }
    }
    impl t::SignedMessage for SignedMessage {
        fn as_bytes(&self) -> &[u8] { &self.0 }
        fn from_bytes(b: &[u8]) -> Result<Self> { Ok(Self(b.to_vec())) }
    }
    impl SignedMessage { pub fn len(&self) -> usize { self.0.len() } }
    fn tag(pk: &[u8], m: &[u8]) -> Vec<u8> {
        let mut s: u64 = 0xcbf29ce484222325;
        for b in pk.iter().chain(m.iter()) { s = (s ^ *b as u64).wrapping_mul(0x100000001b3); }
        (0..signature_bytes()).map(|i| { s = s.wrapping_mul(6364136223846793005).wrapping_add(i as u64 + 1); (s >> 33) as u8 }).collect()
    }
    pub fn keypair() -> (PublicKey, SecretKey) {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(1);
        let n = N.fetch_add(1, Ordering::SeqCst);
        let mut sk = [0u8; 4864];
        for (i, b) in sk.iter_mut().enumerate() { *b = (n.wrapping_mul(31).wrapping_add(i as u64 * 7) >> (i % 5)) as u8; }
        let mut pk = [0u8; 2592];
        pk.copy_from_slice(&sk[..2592]);
        (PublicKey(pk), SecretKey(sk))
    }
    pub fn sign(m: &[u8], sk: &SecretKey) -> SignedMessage {
        let mut v = tag(&sk.0[..2592], m);
        v.extend_from_slice(m);
        SignedMessage(v)
    }
    pub fn open(sm: &SignedMessage, pk: &PublicKey) -> std::result::Result<Vec<u8>, t::VerificationError> {
        if sm.0.len() < signature_bytes() { return Err(t::VerificationError::InvalidSignature); }
        let (s, m) = sm.0.split_at(signature_bytes());
        if tag(&pk.0, m) != s { return Err(t::VerificationError::InvalidSignature); }
        Ok(m.to_vec())
    }
}
