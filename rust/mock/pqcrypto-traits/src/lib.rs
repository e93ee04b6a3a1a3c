//! Stand-in for pqcrypto-traits 0.3.4 (not available offline): the same names and shapes.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
#[non_exhaustive]
pub enum Error {
    BadLength { name: &'static str, actual: usize, expected: usize },
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "bad length")
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
pub fn sized(name: &'static str, b: &[u8], expected: usize) -> Result<Vec<u8>> {
    if b.len() != expected {
        return Err(Error::BadLength { name, actual: b.len(), expected });
    }
    Ok(b.to_vec())
}
pub mod sign {
    use super::Result;
    pub trait PublicKey { fn as_bytes(&self) -> &[u8]; fn from_bytes(b: &[u8]) -> Result<Self> where Self: Sized; }
    pub trait SecretKey { fn as_bytes(&self) -> &[u8]; fn from_bytes(b: &[u8]) -> Result<Self> where Self: Sized; }
    pub trait SignedMessage { fn as_bytes(&self) -> &[u8]; fn from_bytes(b: &[u8]) -> Result<Self> where Self: Sized; }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    #[non_exhaustive]
    pub enum VerificationError { InvalidSignature, UnknownVerificationError }
}
pub mod kem {
    use super::Result;
    pub trait PublicKey { fn as_bytes(&self) -> &[u8]; fn from_bytes(b: &[u8]) -> Result<Self> where Self: Sized; }
    pub trait SecretKey { fn as_bytes(&self) -> &[u8]; fn from_bytes(b: &[u8]) -> Result<Self> where Self: Sized; }
    pub trait Ciphertext { fn as_bytes(&self) -> &[u8]; fn from_bytes(b: &[u8]) -> Result<Self> where Self: Sized; }
    pub trait SharedSecret { fn as_bytes(&self) -> &[u8]; fn from_bytes(b: &[u8]) -> Result<Self> where Self: Sized; }
}
