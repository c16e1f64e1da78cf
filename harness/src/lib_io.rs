//! Shorthands for driving the library, with panics turned into violations.

use crate::engine::{api, Violation};
use crate::model::*;
use crate::refcodec::*;
use crate::refxml::Inner;
use kdbx_rs::binary::{Cipher, CompressionType, InnerStreamCipherAlgorithm, Locked, Unlocked};
use kdbx_rs::Kdbx;

pub type V<T> = Result<T, Violation>;

/// A library archive holding `d` under the settings of `c`, ready to be written.
pub fn archive(d: &MDb, c: &Cfg) -> V<Result<Kdbx<Unlocked>, String>> {
    let db = build(d);
    let mut k = api("Kdbx::from_database", || Kdbx::from_database(db))?;
    configure(&mut k, c);
    let key = c.cred.lib();
    match api("set_key", || k.set_key(key))? {
        Ok(()) => Ok(Ok(k)),
        Err(e) => Ok(Err(format!("set_key: {e}"))),
    }
}

pub fn lib_cipher(c: Ciph) -> Cipher {
    match c {
        Ciph::Aes => Cipher::Aes256,
        Ciph::Twofish => Cipher::TwoFish,
        Ciph::Chacha => Cipher::ChaCha20,
    }
}
pub fn lib_inner(i: Inner) -> InnerStreamCipherAlgorithm {
    match i {
        Inner::Salsa => InnerStreamCipherAlgorithm::Salsa20,
        Inner::Chacha => InnerStreamCipherAlgorithm::ChaCha20,
        Inner::None => InnerStreamCipherAlgorithm::Unknown(0),
    }
}
pub fn lib_comp(c: Comp) -> CompressionType {
    if c == Comp::None {
        CompressionType::None
    } else {
        CompressionType::Gzip
    }
}

pub fn configure(k: &mut Kdbx<Unlocked>, c: &Cfg) {
    let h = k.header_mut();
    h.cipher = lib_cipher(c.cipher);
    h.compression_type = lib_comp(c.comp);
    h.kdf_params = c.kdf.lib();
    h.master_seed = c.seed.clone();
    h.encryption_iv = c.iv.clone();
    k.inner_header_mut().inner_stream_cipher = lib_inner(c.inner);
    k.inner_header_mut().inner_stream_key = c.inner_key.clone();
}

pub fn save(k: &Kdbx<Unlocked>) -> V<Result<Vec<u8>, String>> {
    let mut out = Vec::new();
    Ok(match api("Kdbx::write", || k.write(&mut out))? {
        Ok(()) => Ok(out),
        Err(e) => Err(format!("write: {e}")),
    })
}

pub fn open(b: &[u8]) -> V<Result<Kdbx<Locked>, String>> {
    Ok(api("from_reader", || kdbx_rs::from_reader(b))?.map_err(|e| format!("from_reader: {e}")))
}

pub fn unlock(k: Kdbx<Locked>, cred: &Cred) -> V<Result<Kdbx<Unlocked>, String>> {
    let key = cred.lib();
    Ok(api("unlock", || k.unlock(&key))?.map_err(|e| format!("unlock: {}", e.1)))
}

pub fn load(b: &[u8], cred: &Cred) -> V<Result<Kdbx<Unlocked>, String>> {
    match open(b)? {
        Ok(k) => unlock(k, cred),
        Err(e) => Ok(Err(e)),
    }
}

/// Loads and compares with the expected content.
pub fn expect_db(b: &[u8], cred: &Cred, want: &MDb, what: &str) -> V<Kdbx<Unlocked>> {
    match load(b, cred)? {
        Err(e) => Err(format!("{what}: does not open: {e}").into()),
        Ok(k) => {
            let got = observe(k.database());
            if &got != want {
                return Err(format!("{what}: content differs: {}", diff(want, &got)).into());
            }
            Ok(k)
        }
    }
}

/// The configurations used where the full product is too large: each setting value occurs.
pub fn some_cfgs() -> Vec<Cfg> {
    vec![
        Cfg::new(Ciph::Aes, Comp::None, aeskdf(2), Inner::Chacha),
        Cfg::new(Ciph::Twofish, Comp::Gzip(6, 0), argon(false), Inner::Salsa),
        Cfg::new(Ciph::Chacha, Comp::None, argon(true), Inner::Salsa),
        Cfg::new(Ciph::Chacha, Comp::Gzip(1, 0), aeskdf(1), Inner::Chacha),
    ]
}

/// Full product of supported algorithms.
pub fn all_cfgs() -> Vec<Cfg> {
    let mut v = vec![];
    for c in CIPHERS {
        for comp in [Comp::None, Comp::Gzip(6, 0)] {
            for kdf in [aeskdf(2), argon(false), argon(true)] {
                for inner in [Inner::Salsa, Inner::Chacha] {
                    v.push(Cfg::new(c, comp, kdf.clone(), inner));
                }
            }
        }
    }
    v
}
