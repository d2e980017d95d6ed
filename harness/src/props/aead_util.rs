use aws_lc_rs::aead;
use graviola::aead::{AesGcm, ChaCha20Poly1305, XChaCha20Poly1305};

pub enum Aead {
    Gcm(AesGcm),
    Cc(ChaCha20Poly1305),
    Xcc(XChaCha20Poly1305),
}
impl Aead {
    /// kind: 0 AES-128-GCM, 1 AES-256-GCM, 2 ChaCha, 3 XChaCha
    pub fn new(kind: usize, key: &[u8]) -> Self {
        match kind {
            0 => Aead::Gcm(AesGcm::new(&key[..16])),
            1 => Aead::Gcm(AesGcm::new(&key[..32])),
            2 => Aead::Cc(ChaCha20Poly1305::new(key[..32].try_into().unwrap())),
            _ => Aead::Xcc(XChaCha20Poly1305::new(key[..32].try_into().unwrap())),
        }
    }
    pub fn key_len(kind: usize) -> usize {
        if kind == 0 {
            16
        } else {
            32
        }
    }
    pub fn nonce_len(kind: usize) -> usize {
        if kind == 3 {
            24
        } else {
            12
        }
    }
    pub fn seal(&self, nonce: &[u8], aad: &[u8], buf: &mut [u8]) -> [u8; 16] {
        let mut tag = [0x3Cu8; 16];
        match self {
            Aead::Gcm(k) => k.encrypt(nonce.try_into().unwrap(), aad, buf, &mut tag),
            Aead::Cc(k) => k.encrypt(nonce.try_into().unwrap(), aad, buf, &mut tag),
            Aead::Xcc(k) => k.encrypt(nonce.try_into().unwrap(), aad, buf, &mut tag),
        }
        tag
    }
    pub fn open(&self, nonce: &[u8], aad: &[u8], buf: &mut [u8], tag: &[u8]) -> bool {
        match self {
            Aead::Gcm(k) => k.decrypt(nonce.try_into().unwrap(), aad, buf, tag),
            Aead::Cc(k) => k.decrypt(nonce.try_into().unwrap(), aad, buf, tag),
            Aead::Xcc(k) => k.decrypt(nonce.try_into().unwrap(), aad, buf, tag),
        }
        .is_ok()
    }
}
/// the independent implementation
pub fn ref_seal(kind: usize, key: &[u8], nonce: &[u8], aad: &[u8], pt: &[u8]) -> (Vec<u8>, [u8; 16]) {
    let (alg, k, n): (&'static aead::Algorithm, Vec<u8>, Vec<u8>) = match kind {
        0 => (&aead::AES_128_GCM, key[..16].to_vec(), nonce.to_vec()),
        1 => (&aead::AES_256_GCM, key[..32].to_vec(), nonce.to_vec()),
        2 => (&aead::CHACHA20_POLY1305, key[..32].to_vec(), nonce.to_vec()),
        _ => {
            let (k, n) = crate::refs::chacha::xkey(key[..32].try_into().unwrap(), nonce.try_into().unwrap());
            (&aead::CHACHA20_POLY1305, k.to_vec(), n.to_vec())
        }
    };
    let lk = aead::LessSafeKey::new(aead::UnboundKey::new(alg, &k).unwrap());
    let mut buf = pt.to_vec();
    let tag = lk
        .seal_in_place_separate_tag(aead::Nonce::try_assume_unique_for_key(&n).unwrap(), aead::Aad::from(aad), &mut buf)
        .unwrap();
    (buf, tag.as_ref().try_into().unwrap())
}
