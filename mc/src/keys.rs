//! Test keys and verifiers.
use crate::gcs::sha256;

pub struct TestKey {
    pub name: &'static str,
    pub pem: &'static str,
    pub public: &'static [u8],
    pub bytes: usize,
}

macro_rules! key {
    ($n:literal, $bits:literal) => {
        TestKey {
            name: $n,
            pem: include_str!(concat!("../keys/", $n, ".pem")),
            public: include_bytes!(concat!("../keys/", $n, ".pub.der")),
            bytes: $bits / 8,
        }
    };
}

pub static KEYS: [TestKey; 5] = [
    key!("rsa2048", 2048),
    key!("rsa2048b", 2048),
    key!("rsa2048c", 2048),
    key!("rsa3072", 3072),
    key!("rsa4096", 4096),
];

pub const RSA1024: &str = include_str!("../keys/rsa1024.pem");
pub const EC256: &str = include_str!("../keys/ec256.pem");
pub const PKCS1: &str = include_str!("../keys/rsa2048.pkcs1.pem");

/// The signature the mock signBlob service makes: a function of the account and the payload.
pub fn blob_signature(account: &str, payload: &[u8]) -> Vec<u8> {
    let mut m = account.as_bytes().to_vec();
    m.push(0);
    m.extend_from_slice(payload);
    let d = sha256(&m);
    d.iter().cycle().take(256).copied().collect()
}

#[derive(Clone)]
pub enum Material {
    Rsa(usize),
    Blob,
    /// signatures that were handed out: account, message, signature
    Table(Vec<(String, Vec<u8>, Vec<u8>)>),
}

#[derive(Clone)]
pub struct Verifier {
    pub identity: String,
    pub material: Material,
}

impl Verifier {
    pub fn verify(&self, message: &[u8], signature: &[u8]) -> bool {
        match &self.material {
            &Material::Rsa(k) => {
                signature.len() == KEYS[k].bytes
                    && ring::signature::UnparsedPublicKey::new(&ring::signature::RSA_PKCS1_2048_8192_SHA256, KEYS[k].public)
                        .verify(message, signature)
                        .is_ok()
            }
            Material::Table(t) => t.iter().any(|(a, m, s)| *a == self.identity && m == message && s == signature),
            Material::Blob => signature == blob_signature(&self.identity, message),
        }
    }
}
