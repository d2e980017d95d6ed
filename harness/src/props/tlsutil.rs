use rustls::crypto::cipher::AeadKey;

/// rustls only exposes a constructor for 32-byte keys and shortens them internally; shorten one
/// here by rewriting its length field, found by its value.
pub fn key(k: &[u8], n: usize) -> AeadKey {
    const W: usize = std::mem::size_of::<AeadKey>() / 8;
    let mut buf = [0xAAu8; 32];
    buf[..n].copy_from_slice(&k[..n]);
    let probe = AeadKey::from([0xAA; 32]);
    let words: [u64; W] = unsafe { std::ptr::read(&probe as *const AeadKey as *const [u64; W]) };
    let at: Vec<usize> = (0..W).filter(|i| words[*i] == 32).collect();
    assert!(at.len() == 1, "AeadKey layout");
    let mut key = AeadKey::from(buf);
    unsafe {
        *((&mut key as *mut AeadKey as *mut u64).add(at[0])) = n as u64;
    }
    assert_eq!(key.as_ref(), &k[..n]);
    key
}
