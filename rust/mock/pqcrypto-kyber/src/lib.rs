//! Stand-in for pqcrypto-kyber 0.7.4 (not available offline).
pub mod kyber768 {
    use pqcrypto_traits::kem as t;
    use pqcrypto_traits::{sized, Result};
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(1);
    pub const fn public_key_bytes() -> usize { 1184 }
    pub const fn secret_key_bytes() -> usize { 2400 }
    pub const fn ciphertext_bytes() -> usize { 1088 }
    pub const fn shared_secret_bytes() -> usize { 32 }
    macro_rules! ty { ($n:ident, $s:expr) => {
        #[derive(Clone, Copy)]
        pub struct $n([u8; $s]);
        impl t::$n for $n {
            fn as_bytes(&self) -> &[u8] { &self.0 }
            fn from_bytes(b: &[u8]) -> Result<Self> { let v = sized(stringify!($n), b, $s)?; let mut a = [0; $s]; a.copy_from_slice(&v); Ok(Self(a)) }
        }
    } }
    ty!(PublicKey, 1184);
    ty!(SecretKey, 2400);
    ty!(Ciphertext, 1088);
    ty!(SharedSecret, 32);
    fn fill(n: u64, b: &mut [u8]) { let mut s = n; for x in b.iter_mut() { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); *x = (s >> 33) as u8; } }
    fn derive(pk: &[u8], ct: &[u8]) -> [u8; 32] {
        let mut s: u64 = 0xcbf29ce484222325;
        for b in pk.iter().chain(ct.iter()) { s = (s ^ *b as u64).wrapping_mul(0x100000001b3); }
        let mut r = [0; 32];
        fill(s, &mut r);
        r
    }
    pub fn keypair() -> (PublicKey, SecretKey) {
        let mut sk = [0u8; 2400];
        fill(N.fetch_add(1, Ordering::SeqCst), &mut sk);
        let mut pk = [0u8; 1184];
        pk.copy_from_slice(&sk[..1184]);
        (PublicKey(pk), SecretKey(sk))
    }
    pub fn encapsulate(pk: &PublicKey) -> (SharedSecret, Ciphertext) {
        let mut ct = [0u8; 1088];
        fill(N.fetch_add(1, Ordering::SeqCst) ^ 0x5555, &mut ct);
        (SharedSecret(derive(&pk.0, &ct)), Ciphertext(ct))
    }
    pub fn decapsulate(ct: &Ciphertext, sk: &SecretKey) -> SharedSecret { SharedSecret(derive(&sk.0[..1184], &ct.0)) }
}
