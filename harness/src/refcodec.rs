//! Reference KDBX 4 / KDBX 3.1 container encoder and strict decoder, built in separable layers.

use crate::model::MDb;
use crate::refxml::{self, Inner, KeyStream, TimeForm};
use aes::Aes256;
use cipher::{block_padding::Pkcs7, BlockDecryptMut, BlockEncryptMut, KeyInit, KeyIvInit, StreamCipher};
use hmac::{Hmac, Mac};
use sha2::{Digest, Sha256, Sha512};
use twofish::Twofish;
use uuid::{uuid, Uuid};

pub type R<T> = Result<T, String>;

pub fn sha256(b: &[u8]) -> [u8; 32] {
    Sha256::digest(b).into()
}
pub fn sha512(parts: &[&[u8]]) -> [u8; 64] {
    let mut h = Sha512::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}
pub fn hmac256(key: &[u8], parts: &[&[u8]]) -> [u8; 32] {
    let mut m = <Hmac<Sha256> as Mac>::new_from_slice(key).unwrap();
    for p in parts {
        m.update(p);
    }
    m.finalize().into_bytes().into()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ciph {
    Aes,
    Twofish,
    Chacha,
}
pub const CIPHERS: [Ciph; 3] = [Ciph::Aes, Ciph::Twofish, Ciph::Chacha];

pub const U_AES128: Uuid = uuid!("61ab05a1-9464-41c3-8d74-3a563df8dd35");
pub const U_AES256: Uuid = uuid!("31c1f2e6-bf71-4350-be58-05216afc5aff");
pub const U_TWOFISH: Uuid = uuid!("ad68f29f-576f-4bb9-a36a-d47af965346c");
pub const U_CHACHA: Uuid = uuid!("d6038a2b-8b6f-4cb5-a524-339a31dbb59a");
pub const U_KDF_AES3: Uuid = uuid!("c9d9f39a-628a-4460-bf74-0d08c18a4fea");
pub const U_KDF_AES4: Uuid = uuid!("7c02bb82-79a7-4ac0-927d-114a00648238");
pub const U_KDF_2D: Uuid = uuid!("ef636ddf-8c29-444b-91f7-a9a403e30a0c");
pub const U_KDF_2ID: Uuid = uuid!("9e298b19-56db-4773-b23d-fc3ec6f0a1e6");

impl Ciph {
    pub fn uuid(self) -> Uuid {
        match self {
            Ciph::Aes => U_AES256,
            Ciph::Twofish => U_TWOFISH,
            Ciph::Chacha => U_CHACHA,
        }
    }
    pub fn iv_len(self) -> usize {
        if self == Ciph::Chacha { 12 } else { 16 }
    }
    pub fn from_uuid(u: &[u8]) -> R<Ciph> {
        CIPHERS.iter().copied().find(|c| c.uuid().as_bytes() == u).ok_or_else(|| "unknown cipher".into())
    }
    pub fn encrypt(self, key: &[u8], iv: &[u8], data: &[u8]) -> Vec<u8> {
        match self {
            Ciph::Aes => cbc::Encryptor::<Aes256>::new_from_slices(key, iv).unwrap().encrypt_padded_vec_mut::<Pkcs7>(data),
            Ciph::Twofish => cbc::Encryptor::<Twofish>::new_from_slices(key, iv).unwrap().encrypt_padded_vec_mut::<Pkcs7>(data),
            Ciph::Chacha => {
                let mut v = data.to_vec();
                chacha20::ChaCha20::new_from_slices(key, iv).unwrap().apply_keystream(&mut v);
                v
            }
        }
    }
    /// CBC without any padding, for building malformed payloads (data length multiple of 16).
    pub fn encrypt_raw(self, key: &[u8], iv: &[u8], data: &[u8]) -> Vec<u8> {
        use cipher::block_padding::NoPadding;
        match self {
            Ciph::Aes => cbc::Encryptor::<Aes256>::new_from_slices(key, iv).unwrap().encrypt_padded_vec_mut::<NoPadding>(data),
            Ciph::Twofish => cbc::Encryptor::<Twofish>::new_from_slices(key, iv).unwrap().encrypt_padded_vec_mut::<NoPadding>(data),
            Ciph::Chacha => self.encrypt(key, iv, data),
        }
    }
    pub fn decrypt(self, key: &[u8], iv: &[u8], data: &[u8]) -> R<Vec<u8>> {
        if iv.len() != self.iv_len() {
            return Err(format!("IV of {} bytes", iv.len()));
        }
        match self {
            Ciph::Aes => cbc::Decryptor::<Aes256>::new_from_slices(key, iv).unwrap().decrypt_padded_vec_mut::<Pkcs7>(data).map_err(|e| format!("padding: {e}")),
            Ciph::Twofish => cbc::Decryptor::<Twofish>::new_from_slices(key, iv).unwrap().decrypt_padded_vec_mut::<Pkcs7>(data).map_err(|e| format!("padding: {e}")),
            Ciph::Chacha => Ok(self.encrypt(key, iv, data)),
        }
    }
}

// ---- keys ----

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Cred {
    pub pw: Option<String>,
    pub kf: Option<Vec<u8>>,
}
impl Cred {
    pub fn pw(s: &str) -> Cred {
        Cred { pw: Some(s.into()), kf: None }
    }
    pub fn composite(&self) -> [u8; 32] {
        let mut v = vec![];
        if let Some(p) = &self.pw {
            v.extend(sha256(p.as_bytes()));
        }
        if let Some(k) = &self.kf {
            v.extend(sha256(k));
        }
        sha256(&v)
    }
    pub fn lib(&self) -> kdbx_rs::CompositeKey {
        kdbx_rs::CompositeKey::new(self.pw.clone(), self.kf.clone())
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Kdf {
    Argon { id: bool, mem: u64, version: u32, iters: u64, lanes: u32, salt: Vec<u8> },
    Aes { rounds: u64, salt: Vec<u8>, legacy_uuid: bool },
}
impl Kdf {
    pub fn uuid(&self) -> Uuid {
        match self {
            Kdf::Argon { id: false, .. } => U_KDF_2D,
            Kdf::Argon { id: true, .. } => U_KDF_2ID,
            Kdf::Aes { legacy_uuid: true, .. } => U_KDF_AES3,
            Kdf::Aes { legacy_uuid: false, .. } => U_KDF_AES4,
        }
    }
    pub fn derive(&self, composite: &[u8; 32]) -> R<Vec<u8>> {
        match self {
            Kdf::Argon { id, mem, version, iters, lanes, salt } => {
                let c = argon2::Config {
                    variant: if *id { argon2::Variant::Argon2id } else { argon2::Variant::Argon2d },
                    version: argon2::Version::from_u32(*version).map_err(|e| e.to_string())?,
                    mem_cost: u32::try_from(mem / 1024).map_err(|e| e.to_string())?,
                    time_cost: u32::try_from(*iters).map_err(|e| e.to_string())?,
                    lanes: *lanes,
                    hash_length: 32,
                    secret: &[],
                    ad: &[],
                };
                argon2::hash_raw(composite, salt, &c).map_err(|e| e.to_string())
            }
            Kdf::Aes { rounds, salt, .. } => {
                let mut c = Aes256::new_from_slice(salt).map_err(|e| e.to_string())?;
                let mut a = cipher::generic_array::GenericArray::clone_from_slice(&composite[..16]);
                let mut b = cipher::generic_array::GenericArray::clone_from_slice(&composite[16..]);
                for _ in 0..*rounds {
                    c.encrypt_block_mut(&mut a);
                    c.encrypt_block_mut(&mut b);
                }
                Ok(sha256(&[a.as_slice(), b.as_slice()].concat()).to_vec())
            }
        }
    }
    /// Entries of the parameter dictionary: (type, key, value).
    pub fn dict(&self) -> Vec<(u8, String, Vec<u8>)> {
        let mut v = vec![(0x42u8, "$UUID".to_string(), self.uuid().as_bytes().to_vec())];
        match self {
            Kdf::Argon { mem, version, iters, lanes, salt, .. } => {
                v.push((0x42, "S".into(), salt.clone()));
                v.push((0x04, "P".into(), lanes.to_le_bytes().to_vec()));
                v.push((0x05, "M".into(), mem.to_le_bytes().to_vec()));
                v.push((0x05, "I".into(), iters.to_le_bytes().to_vec()));
                v.push((0x04, "V".into(), version.to_le_bytes().to_vec()));
            }
            Kdf::Aes { rounds, salt, .. } => {
                v.push((0x05, "R".into(), rounds.to_le_bytes().to_vec()));
                v.push((0x42, "S".into(), salt.clone()));
            }
        }
        v
    }
    pub fn from_dict(d: &[(u8, String, Vec<u8>)]) -> R<Kdf> {
        let get = |k: &str, t: u8| -> R<Vec<u8>> {
            let e = d.iter().find(|e| e.1 == k).ok_or_else(|| format!("no parameter {k}"))?;
            if e.0 != t {
                return Err(format!("parameter {k} has type {:#x}", e.0));
            }
            Ok(e.2.clone())
        };
        let u64_ = |k| get(k, 5).and_then(|v| v.try_into().map(u64::from_le_bytes).map_err(|_| "u64 size".to_string()));
        let u32_ = |k| get(k, 4).and_then(|v| v.try_into().map(u32::from_le_bytes).map_err(|_| "u32 size".to_string()));
        let u = get("$UUID", 0x42)?;
        let is = |x: Uuid| u == x.as_bytes();
        if is(U_KDF_2D) || is(U_KDF_2ID) {
            Ok(Kdf::Argon { id: is(U_KDF_2ID), mem: u64_("M")?, version: u32_("V")?, iters: u64_("I")?, lanes: u32_("P")?, salt: get("S", 0x42)? })
        } else if is(U_KDF_AES3) || is(U_KDF_AES4) {
            Ok(Kdf::Aes { rounds: u64_("R")?, salt: get("S", 0x42)?, legacy_uuid: is(U_KDF_AES3) })
        } else {
            Err("unknown key derivation".into())
        }
    }
    pub fn lib(&self) -> kdbx_rs::binary::KdfParams {
        use kdbx_rs::binary::KdfParams as K;
        match self {
            Kdf::Argon { id, mem, version, iters, lanes, salt } => K::Argon2 {
                variant: if *id { argon2::Variant::Argon2id } else { argon2::Variant::Argon2d },
                memory_bytes: *mem,
                version: *version,
                iterations: *iters,
                lanes: *lanes,
                salt: salt.clone(),
            },
            Kdf::Aes { rounds, salt, .. } => K::Aes { rounds: *rounds, salt: salt.clone() },
        }
    }
}

pub fn bytes(n: usize, tag: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(37).wrapping_add(tag).rotate_left(3) ^ 0x5a).collect()
}
pub fn argon(id: bool) -> Kdf {
    Kdf::Argon { id, mem: 8 * 1024, version: 0x13, iters: 1, lanes: 1, salt: bytes(32, 3) }
}
pub fn aeskdf(rounds: u64) -> Kdf {
    Kdf::Aes { rounds, salt: bytes(32, 4), legacy_uuid: false }
}

pub fn hmac_key(seed: &[u8], master: &[u8]) -> [u8; 64] {
    sha512(&[seed, master, &[1]])
}
pub fn cipher_key(seed: &[u8], master: &[u8]) -> [u8; 32] {
    sha256(&[seed, master].concat())
}
pub fn block_key(hk: &[u8; 64], i: u64) -> [u8; 64] {
    sha512(&[&i.to_le_bytes(), hk])
}

// ---- dictionaries and headers ----

pub fn dict_bytes(d: &[(u8, String, Vec<u8>)]) -> Vec<u8> {
    let mut o = vec![0, 1];
    for (t, k, v) in d {
        o.push(*t);
        o.extend((k.len() as i32).to_le_bytes());
        o.extend(k.as_bytes());
        o.extend((v.len() as i32).to_le_bytes());
        o.extend(v);
    }
    o.push(0);
    o
}
pub fn parse_dict(b: &[u8]) -> R<Vec<(u8, String, Vec<u8>)>> {
    let mut c = Cur(b);
    if c.u16()? != 0x0100 {
        return Err("dictionary version".into());
    }
    let mut out: Vec<(u8, String, Vec<u8>)> = vec![];
    loop {
        let t = c.u8()?;
        if t == 0 {
            break;
        }
        let n = c.u32()? as usize;
        let k = String::from_utf8(c.take(n)?.to_vec()).map_err(|e| e.to_string())?;
        let n = c.u32()? as usize;
        let v = c.take(n)?.to_vec();
        if out.iter().any(|e| e.1 == k) {
            return Err("duplicate parameter".into());
        }
        out.push((t, k, v));
    }
    if !c.0.is_empty() {
        return Err("bytes after dictionary".into());
    }
    Ok(out)
}

pub type Fields = Vec<(u8, Vec<u8>)>;

pub fn prelude(major: u16, minor: u16) -> Vec<u8> {
    let mut o = vec![];
    o.extend(0x9AA2_D903u32.to_le_bytes());
    o.extend(0xB54B_FB67u32.to_le_bytes());
    o.extend(minor.to_le_bytes());
    o.extend(major.to_le_bytes());
    o
}
pub fn tlv(o: &mut Vec<u8>, major: u16, t: u8, d: &[u8]) {
    o.push(t);
    if major >= 4 {
        o.extend((d.len() as u32).to_le_bytes());
    } else {
        o.extend((d.len() as u16).to_le_bytes());
    }
    o.extend(d);
}
pub fn header_bytes(major: u16, minor: u16, fields: &Fields, end: &[u8]) -> Vec<u8> {
    let mut o = prelude(major, minor);
    for (t, d) in fields {
        tlv(&mut o, major, *t, d);
    }
    tlv(&mut o, major, 0, end);
    o
}

pub struct Cur<'a>(pub &'a [u8]);
impl<'a> Cur<'a> {
    pub fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.0.len() < n {
            return Err("unexpected end".into());
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    pub fn u8(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    pub fn u16(&mut self) -> R<u16> {
        Ok(u16::from_le_bytes(self.take(2)?.try_into().unwrap()))
    }
    pub fn u32(&mut self) -> R<u32> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
}

// ---- compression ----

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Comp {
    None,
    /// gzip with the given deflate level (0 = stored blocks) and header flavour
    Gzip(u8, u8),
}

const CRC: [u32; 256] = {
    let mut t = [0u32; 256];
    let mut i = 0;
    while i < 256 {
        let mut c = i as u32;
        let mut k = 0;
        while k < 8 {
            c = if c & 1 != 0 { (c >> 1) ^ 0xEDB8_8320 } else { c >> 1 };
            k += 1;
        }
        t[i] = c;
        i += 1;
    }
    t
};
pub fn crc32(b: &[u8]) -> u32 {
    !b.iter().fold(!0u32, |c, x| (c >> 8) ^ CRC[((c ^ *x as u32) & 255) as usize])
}

pub fn gzip(data: &[u8], level: u8, flavour: u8) -> Vec<u8> {
    let mut o = vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255];
    match flavour {
        0 => {}
        1 => {
            // modification time, extra flags and operating system set
            o[4..8].copy_from_slice(&0x5f00_0001u32.to_le_bytes());
            o[8] = 2;
            o[9] = 3;
        }
        2 => {
            // file name and comment
            o[3] = 0x08 | 0x10;
            o.extend(b"db.xml\0a comment\0");
        }
        3 => {
            // extra field
            o[3] = 0x04;
            o.extend([4, 0, b'A', b'B', 0, 0]);
        }
        4 => {
            // header checksum
            o[3] = 0x02;
            let c = crc32(&o) as u16;
            o.extend(c.to_le_bytes());
        }
        _ => unreachable!(),
    }
    o.extend(miniz_oxide::deflate::compress_to_vec(data, level));
    o.extend(crc32(data).to_le_bytes());
    o.extend((data.len() as u32).to_le_bytes());
    o
}
pub fn gunzip(b: &[u8]) -> R<Vec<u8>> {
    let mut c = Cur(b);
    if c.take(3)? != [0x1f, 0x8b, 8] {
        return Err("gzip magic".into());
    }
    let flags = c.u8()?;
    c.take(6)?;
    if flags & 0xe0 != 0 {
        return Err("gzip flags".into());
    }
    if flags & 4 != 0 {
        let n = c.u16()? as usize;
        c.take(n)?;
    }
    for bit in [8, 16] {
        if flags & bit != 0 {
            while c.u8()? != 0 {}
        }
    }
    if flags & 2 != 0 {
        c.take(2)?;
    }
    if c.0.len() < 8 {
        return Err("gzip end".into());
    }
    let (body, tail) = c.0.split_at(c.0.len() - 8);
    let data = miniz_oxide::inflate::decompress_to_vec(body).map_err(|e| format!("deflate: {e}"))?;
    if tail[..4] != crc32(&data).to_le_bytes() || tail[4..] != (data.len() as u32).to_le_bytes() {
        return Err("gzip checksum".into());
    }
    Ok(data)
}
pub fn compress(c: Comp, data: &[u8]) -> Vec<u8> {
    match c {
        Comp::None => data.to_vec(),
        Comp::Gzip(l, f) => gzip(data, l, f),
    }
}

// ---- files ----

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Cfg {
    pub cipher: Ciph,
    pub comp: Comp,
    pub kdf: Kdf,
    pub inner: Inner,
    pub cred: Cred,
    pub seed: Vec<u8>,
    pub iv: Vec<u8>,
    pub inner_key: Vec<u8>,
}
impl Cfg {
    pub fn new(cipher: Ciph, comp: Comp, kdf: Kdf, inner: Inner) -> Cfg {
        Cfg { cipher, comp, kdf, inner, cred: Cred::pw("kdbxrs"), seed: bytes(32, 1), iv: bytes(cipher.iv_len(), 2), inner_key: bytes(64, 5) }
    }
    pub fn plain() -> Cfg {
        Cfg::new(Ciph::Aes, Comp::None, aeskdf(1), Inner::Chacha)
    }
    pub fn master(&self) -> Vec<u8> {
        self.kdf.derive(&self.cred.composite()).expect("reference key derivation")
    }
    pub fn keystream(&self) -> KeyStream {
        KeyStream::new(self.inner, &self.inner_key)
    }
    pub fn inner_id(&self) -> u32 {
        match self.inner {
            Inner::None => 0,
            Inner::Salsa => 2,
            Inner::Chacha => 3,
        }
    }
    pub fn comp_id(&self) -> u32 {
        (self.comp != Comp::None) as u32
    }
    pub fn fields4(&self) -> Fields {
        vec![
            (2, self.cipher.uuid().as_bytes().to_vec()),
            (3, self.comp_id().to_le_bytes().to_vec()),
            (4, self.seed.clone()),
            (7, self.iv.clone()),
            (11, dict_bytes(&self.kdf.dict())),
        ]
    }
    pub fn inner_fields(&self) -> Fields {
        vec![(1, self.inner_id().to_le_bytes().to_vec()), (2, self.inner_key.clone())]
    }
    pub fn fields3(&self, start: &[u8]) -> Fields {
        let (rounds, salt) = match &self.kdf {
            Kdf::Aes { rounds, salt, .. } => (*rounds, salt.clone()),
            _ => panic!("KDBX 3.1 needs AES key derivation"),
        };
        vec![
            (2, self.cipher.uuid().as_bytes().to_vec()),
            (3, self.comp_id().to_le_bytes().to_vec()),
            (4, self.seed.clone()),
            (5, salt),
            (6, rounds.to_le_bytes().to_vec()),
            (7, self.iv.clone()),
            (8, self.inner_key.clone()),
            (9, start.to_vec()),
            (10, self.inner_id().to_le_bytes().to_vec()),
        ]
    }
    pub fn xml4(&self, d: &MDb) -> Vec<u8> {
        refxml::render(&refxml::dom_db(d, TimeForm::B64), true, &mut self.keystream()).into_bytes()
    }
}

pub fn hmac_blocks(hk: &[u8; 64], chunks: &[&[u8]], terminate: bool) -> Vec<u8> {
    let mut o = vec![];
    for (i, ch) in chunks.iter().copied().chain(if terminate { Some(&[][..]) } else { None }).enumerate() {
        let bk = block_key(hk, i as u64);
        let len = (ch.len() as u32).to_le_bytes();
        o.extend(hmac256(&bk, &[&(i as u64).to_le_bytes(), &len, ch]));
        o.extend(len);
        o.extend(ch);
    }
    o
}

/// All layout freedom of a KDBX 4 file.
#[derive(Clone, Debug)]
pub struct Layout4 {
    pub minor: u16,
    pub fields: Fields,
    pub end: Vec<u8>,
    pub inner: Fields,
    pub inner_end: Vec<u8>,
    /// sizes of the leading data blocks; the rest goes into a last one
    pub cuts: Vec<usize>,
}
impl Layout4 {
    pub fn of(c: &Cfg) -> Layout4 {
        Layout4 { minor: 0, fields: c.fields4(), end: b"\r\n\r\n".to_vec(), inner: c.inner_fields(), inner_end: vec![], cuts: vec![] }
    }
}

pub fn split<'a>(data: &'a [u8], cuts: &[usize]) -> Vec<&'a [u8]> {
    let mut out = vec![];
    let mut rest = data;
    for c in cuts {
        if rest.is_empty() || *c == 0 {
            continue;
        }
        let (a, b) = rest.split_at((*c).min(rest.len()));
        out.push(a);
        rest = b;
    }
    if !rest.is_empty() {
        out.push(rest);
    }
    out
}

pub fn inner_bytes(inner: &Fields, end: &[u8]) -> Vec<u8> {
    let mut p = vec![];
    for (t, d) in inner {
        tlv(&mut p, 4, *t, d);
    }
    tlv(&mut p, 4, 0, end);
    p
}

/// Sealed header: header bytes, its hash, its authentication code.
pub fn seal_header(h: &[u8], hk: &[u8; 64]) -> Vec<u8> {
    let mut o = h.to_vec();
    o.extend(sha256(h));
    o.extend(hmac256(&block_key(hk, u64::MAX), &[h]));
    o
}

pub fn payload4(c: &Cfg, l: &Layout4, xml: &[u8], master: &[u8]) -> Vec<u8> {
    let mut p = inner_bytes(&l.inner, &l.inner_end);
    p.extend(xml);
    c.cipher.encrypt(&cipher_key(&c.seed, master), &c.iv, &compress(c.comp, &p))
}

pub fn encode4(c: &Cfg, l: &Layout4, xml: &[u8]) -> Vec<u8> {
    let master = c.master();
    encode4_with(c, l, xml, &master)
}
pub fn encode4_with(c: &Cfg, l: &Layout4, xml: &[u8], master: &[u8]) -> Vec<u8> {
    let hk = hmac_key(&c.seed, master);
    let h = header_bytes(4, l.minor, &l.fields, &l.end);
    let mut o = seal_header(&h, &hk);
    let enc = payload4(c, l, xml, master);
    o.extend(hmac_blocks(&hk, &split(&enc, &l.cuts), true));
    o
}
pub fn file4(c: &Cfg, d: &MDb) -> Vec<u8> {
    encode4(c, &Layout4::of(c), &c.xml4(d))
}

/// All layout freedom of a KDBX 3.1 file.
#[derive(Clone, Debug)]
pub struct Layout3 {
    pub minor: u16,
    pub fields: Fields,
    pub end: Vec<u8>,
    pub start: Vec<u8>,
    pub cuts: Vec<usize>,
    /// hash of the terminating block: all zero (KeePass) or the hash of nothing
    pub zero_hash: bool,
}
impl Layout3 {
    pub fn of(c: &Cfg) -> Layout3 {
        let start = bytes(32, 9);
        Layout3 { minor: 1, fields: c.fields3(&start), end: b"\r\n\r\n".to_vec(), start, cuts: vec![], zero_hash: true }
    }
    pub fn header(&self) -> Vec<u8> {
        header_bytes(3, self.minor, &self.fields, &self.end)
    }
}
pub fn hashed_blocks(chunks: &[&[u8]], zero_hash: bool) -> Vec<u8> {
    let mut o = vec![];
    for (i, ch) in chunks.iter().copied().chain(Some(&[][..])).enumerate() {
        o.extend((i as u32).to_le_bytes());
        if ch.is_empty() && zero_hash {
            o.extend([0u8; 32]);
        } else {
            o.extend(sha256(ch));
        }
        o.extend((ch.len() as u32).to_le_bytes());
        o.extend(ch);
    }
    o
}
pub fn encode3(c: &Cfg, l: &Layout3, xml: &[u8]) -> Vec<u8> {
    let master = c.master();
    let mut plain = l.start.clone();
    plain.extend(hashed_blocks(&split(&compress(c.comp, xml), &l.cuts), l.zero_hash));
    let mut o = l.header();
    o.extend(c.cipher.encrypt(&cipher_key(&c.seed, &master), &c.iv, &plain));
    o
}
pub fn with_header_hash(dom: &mut refxml::El, header: &[u8]) {
    if let Some(refxml::Node::El(m)) = dom.kids.first_mut() {
        m.kids.insert(1, refxml::txt("HeaderHash", &refxml::b64(&sha256(header))));
    }
}
pub fn xml3(c: &Cfg, l: &Layout3, d: &MDb, header_hash: bool) -> Vec<u8> {
    let mut dom = refxml::dom_db(d, TimeForm::Iso);
    if header_hash {
        with_header_hash(&mut dom, &l.header());
    }
    refxml::render(&dom, true, &mut c.keystream()).into_bytes()
}
pub fn file3(c: &Cfg, d: &MDb) -> Vec<u8> {
    let l = Layout3::of(c);
    let x = xml3(c, &l, d, true);
    encode3(c, &l, &x)
}

// ---- decoding ----

#[derive(Debug, Clone)]
pub struct Decoded {
    pub major: u16,
    pub minor: u16,
    pub fields: Fields,
    pub cipher: Ciph,
    pub gz: bool,
    pub kdf: Kdf,
    pub inner: Inner,
    pub inner_key: Vec<u8>,
    pub inner_fields: Fields,
    pub header_len: usize,
    pub blocks: Vec<usize>,
    pub xml: Vec<u8>,
    /// Length of the decrypted (still compressed) payload.
    pub payload_len: usize,
}
impl Decoded {
    pub fn keystream(&self) -> KeyStream {
        KeyStream::new(self.inner, &self.inner_key)
    }
    pub fn db(&self) -> R<MDb> {
        refxml::read_db(&self.xml, &mut self.keystream(), if self.major == 4 { TimeForm::B64 } else { TimeForm::Iso })
    }
}

fn field(fields: &Fields, t: u8) -> R<&Vec<u8>> {
    let mut it = fields.iter().filter(|f| f.0 == t);
    let r = it.next().ok_or_else(|| format!("no header field {t}"))?;
    if it.next().is_some() {
        return Err(format!("repeated header field {t}"));
    }
    Ok(&r.1)
}

fn inner_from_id(b: &[u8]) -> R<Inner> {
    match u32::from_le_bytes(b.try_into().map_err(|_| "inner stream id size")?) {
        2 => Ok(Inner::Salsa),
        3 => Ok(Inner::Chacha),
        x => Err(format!("inner stream {x}")),
    }
}

/// Strictly decodes a whole file.
pub fn decode(file: &[u8], cred: &Cred) -> R<Decoded> {
    let mut c = Cur(file);
    if c.u32()? != 0x9AA2_D903 || c.u32()? != 0xB54B_FB67 {
        return Err("magic".into());
    }
    let minor = c.u16()?;
    let major = c.u16()?;
    if major != 3 && major != 4 {
        return Err("version".into());
    }
    let mut fields: Fields = vec![];
    loop {
        let t = c.u8()?;
        let n = if major == 4 { c.u32()? as usize } else { c.u16()? as usize };
        let d = c.take(n)?.to_vec();
        if t == 0 {
            break;
        }
        fields.push((t, d));
    }
    let header_len = file.len() - c.0.len();
    let header = &file[..header_len];
    let cipher = Ciph::from_uuid(field(&fields, 2)?)?;
    let gz = match u32::from_le_bytes(field(&fields, 3)?.as_slice().try_into().map_err(|_| "compression size")?) {
        0 => false,
        1 => true,
        _ => return Err("compression".into()),
    };
    let seed = field(&fields, 4)?;
    if seed.len() != 32 {
        return Err("seed size".into());
    }
    let iv = field(&fields, 7)?;
    if major == 4 {
        let hash = c.take(32)?;
        if hash != sha256(header) {
            return Err("header hash".into());
        }
        let kdf = Kdf::from_dict(&parse_dict(field(&fields, 11)?)?)?;
        let master = kdf.derive(&cred.composite())?;
        let hk = hmac_key(seed, &master);
        if c.take(32)? != hmac256(&block_key(&hk, u64::MAX), &[header]) {
            return Err("header authentication".into());
        }
        let mut enc = vec![];
        let mut blocks = vec![];
        let mut i = 0u64;
        loop {
            let mac = c.take(32)?;
            let n = c.u32()?;
            let d = c.take(n as usize)?;
            if mac != hmac256(&block_key(&hk, i), &[&i.to_le_bytes(), &n.to_le_bytes(), d]) {
                return Err(format!("authentication of block {i}"));
            }
            if n == 0 {
                break;
            }
            blocks.push(n as usize);
            enc.extend(d);
            i += 1;
        }
        if !c.0.is_empty() {
            return Err(format!("{} bytes after the last block", c.0.len()));
        }
        let plain = cipher.decrypt(&cipher_key(seed, &master), iv, &enc)?;
        let payload_len = plain.len();
        let plain = if gz { gunzip(&plain)? } else { plain };
        let mut p = Cur(&plain);
        let mut inner_fields: Fields = vec![];
        loop {
            let t = p.u8()?;
            let n = p.u32()? as usize;
            let d = p.take(n)?.to_vec();
            if t == 0 {
                break;
            }
            inner_fields.push((t, d));
        }
        let inner = inner_from_id(field(&inner_fields, 1)?)?;
        let inner_key = field(&inner_fields, 2)?.clone();
        Ok(Decoded { major, minor, cipher, gz, kdf, inner, inner_key, inner_fields, header_len, blocks, xml: p.0.to_vec(), fields, payload_len })
    } else {
        let kdf = Kdf::Aes {
            rounds: u64::from_le_bytes(field(&fields, 6)?.as_slice().try_into().map_err(|_| "rounds size")?),
            salt: field(&fields, 5)?.clone(),
            legacy_uuid: true,
        };
        let master = kdf.derive(&cred.composite())?;
        let plain = cipher.decrypt(&cipher_key(seed, &master), iv, c.0)?;
        let payload_len = plain.len();
        let mut p = Cur(&plain);
        if p.take(32)? != field(&fields, 9)?.as_slice() {
            return Err("start bytes".into());
        }
        let mut data = vec![];
        let mut blocks = vec![];
        let mut i = 0u32;
        loop {
            if p.u32()? != i {
                return Err("block index".into());
            }
            let h = p.take(32)?;
            let n = p.u32()? as usize;
            let d = p.take(n)?;
            if n == 0 {
                break;
            }
            if h != sha256(d) {
                return Err("block hash".into());
            }
            blocks.push(n);
            data.extend(d);
            i += 1;
        }
        let xml = if gz { gunzip(&data)? } else { data };
        let inner = inner_from_id(field(&fields, 10)?)?;
        let inner_key = field(&fields, 8)?.clone();
        Ok(Decoded { major, minor, cipher, gz, kdf, inner, inner_key, inner_fields: vec![], header_len, blocks, xml, fields, payload_len })
    }
}
