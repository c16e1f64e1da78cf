//! Unsupported formats and algorithms are refused.
//!
//! Each file names something unsupported but is otherwise completely consistent with one of the supported
//! algorithms (or with a key that ignores the credentials), so whichever way it is guessed, it would open.

use crate::engine::*;
use crate::ensure;
use crate::layouts::*;
use crate::lib_io::*;
use crate::model::*;
use crate::refcodec::*;
use crate::refxml::Inner;
use kdbx_rs::binary::{Cipher, CompressionType, InnerStreamCipherAlgorithm, KdfParams, Unlocked, VariantDict, VariantDictValue as Value};
use kdbx_rs::Kdbx;
use uuid::{uuid, Uuid};

fn refused(b: &[u8], cred: &Cred, what: &str) -> Res {
    let k = match open(b)? {
        Err(_) => return Ok(()),
        Ok(k) => k,
    };
    match unlock(k, cred)? {
        Err(_) => Ok(()),
        Ok(_) => Err(format!("{what}: opened").into()),
    }
}

/// Identifiers near the known ones and all those with few different bytes; none of `known`.
fn uuids(known: &[Uuid], more: &[Uuid]) -> Vec<Uuid> {
    let mut v: Vec<Uuid> = vec![];
    for k in known.iter().chain(more) {
        let n = k.as_u128();
        for b in 0..128 {
            v.push(Uuid::from_u128(n ^ 1 << b));
        }
        for b in 0..16 {
            v.push(Uuid::from_u128(n & !(255u128 << (8 * b))));
            v.push(Uuid::from_u128(n | 255u128 << (8 * b)));
        }
        v.push(Uuid::from_u128(n.swap_bytes()));
        v.push(Uuid::from_bytes_le(*k.as_bytes()));
        v.push(Uuid::from_u128(n.rotate_left(64)));
        // agrees in only a part
        for keep in 1..16 {
            v.push(Uuid::from_u128(n & (u128::MAX << (8 * keep))));
            v.push(Uuid::from_u128(n & (u128::MAX >> (8 * keep))));
        }
    }
    v.extend(more);
    v.extend([0, 1, u128::MAX].map(Uuid::from_u128));
    v.extend((0..=255u128).map(|b| Uuid::from_u128(b * 0x01010101_01010101_01010101_01010101)));
    v.retain(|u| !known.contains(u));
    v.sort();
    v.dedup();
    v
}
fn cipher_ids() -> Vec<Uuid> {
    uuids(&[U_AES256, U_TWOFISH, U_CHACHA], &[U_AES128, U_KDF_AES3, U_KDF_AES4, U_KDF_2D, U_KDF_2ID, uuid!("716e1c8a-ee17-4bdc-93ae-a977b882833a")])
}
fn kdf_ids() -> Vec<Uuid> {
    uuids(&[U_KDF_AES3, U_KDF_AES4, U_KDF_2D, U_KDF_2ID], &[U_AES128, U_AES256, U_TWOFISH, U_CHACHA])
}
/// Numbers other than `known`: all small ones, all with one or two bits set, neighbours of limits.
fn numbers(known: &[u32]) -> Vec<u32> {
    let mut v: Vec<u32> = (0..=65_536).collect();
    for a in 0..32 {
        for b in 0..32 {
            let x = 1u32 << a | 1 << b;
            for k in known {
                v.extend([x, x.wrapping_sub(1), !x, k ^ x, k | x]);
            }
        }
    }
    for k in known {
        for s in 1..32 {
            v.push(k.rotate_left(s));
        }
        v.push(k.swap_bytes());
    }
    v.retain(|x| !known.contains(x));
    v.sort();
    v.dedup();
    v
}

fn change(fields: &mut Fields, t: u8, d: Vec<u8>) {
    for f in fields.iter_mut().filter(|f| f.0 == t) {
        f.1 = d.clone();
    }
}

/// Documents with and without values that need the inner stream.
fn contents() -> [MDb; 2] {
    let mut open = small();
    for e in &mut open.root.entries {
        for f in &mut e.fields {
            f.prot = false;
        }
    }
    [small(), open]
}

/// Keys somebody may come up with for a key derivation that is not implemented.
fn guessed_keys(c: &Cfg) -> Vec<(&'static str, Vec<u8>)> {
    let comp = c.cred.composite();
    let salt = bytes(32, 4);
    let aes = |r| Kdf::Aes { rounds: r, salt: salt.clone(), legacy_uuid: false }.derive(&comp).unwrap();
    let arg = |id, v| Kdf::Argon { id, mem: 8192, version: v, iters: 1, lanes: 1, salt: salt.clone() }.derive(&comp).unwrap();
    let argi = argon2::hash_raw(&comp, &salt, &argon2::Config {
        variant: argon2::Variant::Argon2i,
        version: argon2::Version::Version13,
        mem_cost: 8,
        time_cost: 1,
        lanes: 1,
        hash_length: 32,
        secret: &[],
        ad: &[],
    })
    .unwrap();
    vec![
        ("AES", aes(1)),
        ("AES without rounds", aes(0)),
        ("Argon2d", arg(false, 0x13)),
        ("Argon2d 1.0", arg(false, 0x10)),
        ("Argon2id", arg(true, 0x13)),
        ("Argon2i", argi),
        ("the composed key", comp.to_vec()),
        ("the hash of the composed key", sha256(&comp).to_vec()),
        ("nothing", vec![]),
        ("zeros", vec![0; 32]),
        ("the hash of nothing", sha256(&[]).to_vec()),
        ("the salt", salt),
    ]
}

/// All parameters any of the key derivations may look for.
fn all_params(u: Uuid) -> Vec<(u8, String, Vec<u8>)> {
    let mut d = argon(false).dict();
    d[0].2 = u.as_bytes().to_vec();
    for e in &mut d {
        if e.1 == "S" {
            e.2 = bytes(32, 4);
        }
    }
    d.push((5, "R".into(), 1u64.to_le_bytes().to_vec()));
    d
}

fn with_key(c: &Cfg, l: &Layout4, xml: &[u8], key: &[u8]) -> Vec<u8> {
    encode4_with(c, l, xml, key)
}

/// Makes the settings unusable.
type Spoil = Box<dyn Fn(&mut Kdbx<Unlocked>) + Sync>;
fn spoilers(thorough: bool) -> Vec<(String, Spoil)> {
    let mut v: Vec<(String, Spoil)> = vec![];
    for u in cipher_ids() {
        let c = if u == U_AES128 { Cipher::Aes128 } else { Cipher::Unknown(u) };
        v.push((format!("cipher {u}"), Box::new(move |k| k.header_mut().cipher = c)));
        if u == U_AES128 {
            for n in [12, 16, 32] {
                v.push((format!("AES-128, IV of {n} bytes"), Box::new(move |k| {
                    k.header_mut().cipher = c;
                    k.header_mut().encryption_iv = bytes(n, 2);
                })));
            }
        }
    }
    for (i, n) in numbers(&[0, 1]).into_iter().enumerate() {
        if thorough || i % 8 == 0 || n < 300 || n.count_ones() < 3 {
            v.push((format!("compression {n}"), Box::new(move |k| k.header_mut().compression_type = CompressionType::Unknown(n))));
        }
    }
    v.push(("ArcFour".into(), Box::new(|k| k.inner_header_mut().inner_stream_cipher = InnerStreamCipherAlgorithm::ArcFour)));
    for (i, n) in numbers(&[2, 3]).into_iter().enumerate() {
        if n != 1 && (thorough || i % 8 == 0 || n < 300 || n.count_ones() < 3) {
            v.push((format!("inner stream {n}"), Box::new(move |k| k.inner_header_mut().inner_stream_cipher = InnerStreamCipherAlgorithm::Unknown(n))));
        }
    }
    for u in kdf_ids() {
        for full in [false, true] {
            v.push((format!("key derivation {u}, parameters {full}"), Box::new(move |k| {
                let mut params = VariantDict::new();
                if full {
                    params.insert("S".into(), Value::Array(bytes(32, 4)));
                    params.insert("R".into(), Value::Uint64(1));
                    params.insert("I".into(), Value::Uint64(1));
                    params.insert("M".into(), Value::Uint64(8192));
                    params.insert("V".into(), Value::Uint32(0x13));
                    params.insert("P".into(), Value::Uint32(1));
                }
                k.header_mut().kdf_params = KdfParams::Unknown { uuid: u, params };
            })));
        }
    }
    for (what, p) in bad_argon() {
        v.push((what, Box::new(move |k| k.header_mut().kdf_params = p.0.clone())));
    }
    let salt = || bytes(32, 4);
    v.push(("Argon2i".into(), Box::new(move |k| {
        k.header_mut().kdf_params = KdfParams::Argon2 { variant: argon2::Variant::Argon2i, memory_bytes: 8192, version: 0x13, iterations: 1, lanes: 1, salt: salt() };
    })));
    for n in (0..80).filter(|n| *n != 32) {
        v.push((format!("AES key derivation with a seed of {n} bytes"), Box::new(move |k| k.header_mut().kdf_params = KdfParams::Aes { rounds: 1, salt: bytes(n, 4) })));
    }
    v
}

/// Argon2 settings outside what is implemented, and what they may be mistaken for.
fn bad_argon() -> Vec<(String, (KdfParams, Kdf))> {
    let mut v = vec![];
    for id in [false, true] {
        let variant = if id { argon2::Variant::Argon2id } else { argon2::Variant::Argon2d };
        let base = (8192u64, 0x13u32, 1u64, 1u32, bytes(32, 3));
        let mut put = |what: &str, p: &(u64, u32, u64, u32, Vec<u8>), q: (u64, u32, u64, u32)| {
            v.push((
                format!("Argon2 (id: {id}) with {what}"),
                (
                    KdfParams::Argon2 { variant, memory_bytes: p.0, version: p.1, iterations: p.2, lanes: p.3, salt: p.4.clone() },
                    Kdf::Argon { id, mem: q.0, version: q.1, iters: q.2, lanes: q.3, salt: if p.4.len() < 8 { let mut s = p.4.clone(); s.resize(8, 0); s } else { p.4.clone() } },
                ),
            ));
        };
        for n in numbers(&[0x10, 0x13]).into_iter().filter(|n| *n < 600 || n.count_ones() < 2) {
            for q in [0x10, 0x13] {
                put(&format!("version {n:#x}"), &(base.0, n, base.2, base.3, base.4.clone()), (8192, q, 1, 1));
            }
        }
        put("no memory", &(0, base.1, 1, 1, base.4.clone()), (8192, 0x13, 1, 1));
        for m in [1u64, 1023, 1024, 4096, 7168, 8191] {
            put(&format!("{m} bytes of memory"), &(m, base.1, 1, 1, base.4.clone()), (8192, 0x13, 1, 1));
        }
        for s in 42..64 {
            for low in [8192u64, 9000] {
                put(&format!("2^{s} + {low} bytes of memory"), &((1 << s) + low, base.1, 1, 1, base.4.clone()), (low / 1024 * 1024, 0x13, 1, 1));
            }
        }
        put("no iterations", &(8192, base.1, 0, 1, base.4.clone()), (8192, 0x13, 1, 1));
        for s in 32..64 {
            for low in [1u64, 2] {
                put(&format!("2^{s} + {low} iterations"), &(8192, base.1, (1 << s) + low, 1, base.4.clone()), (8192, 0x13, low, 1));
            }
        }
        put("no lanes", &(8192, base.1, 1, 0, base.4.clone()), (8192, 0x13, 1, 1));
        for s in 24..32 {
            put(&format!("2^{s} + 1 lanes"), &(8192, base.1, 1, (1 << s) + 1, base.4.clone()), (8192, 0x13, 1, 1));
        }
        put("2 lanes and memory for one", &(8192, base.1, 1, 2, base.4.clone()), (16384, 0x13, 1, 2));
        put("2 lanes and memory for one", &(8192, base.1, 1, 2, base.4.clone()), (8192, 0x13, 1, 1));
        for n in 0..8 {
            put(&format!("a salt of {n} bytes"), &(8192, base.1, 1, 1, bytes(n, 3)), (8192, 0x13, 1, 1));
        }
    }
    v
}
fn argon_dict(p: &KdfParams, q: &Kdf) -> Vec<(u8, String, Vec<u8>)> {
    let mut d = q.dict();
    if let KdfParams::Argon2 { memory_bytes, version, iterations, lanes, salt, .. } = p {
        for e in &mut d {
            match e.1.as_str() {
                "S" => e.2 = salt.clone(),
                "P" => e.2 = lanes.to_le_bytes().to_vec(),
                "M" => e.2 = memory_bytes.to_le_bytes().to_vec(),
                "I" => e.2 = iterations.to_le_bytes().to_vec(),
                "V" => e.2 = version.to_le_bytes().to_vec(),
                _ => {}
            }
        }
    }
    d
}

pub fn run(e: &mut Engine) {
    e.rule = "a case is one unsupported identifier in one otherwise consistent file or archive; distinct by file bytes or by setting".into();
    let d = small();

    // -- format versions --
    let c4 = Cfg::plain();
    let (f4, f3) = (file4(&c4, &d), file3(&plain3(), &d));
    e.phase("major-versions", 65_536 * 4, |i, c| {
        let mut x = Dec(i);
        let (v3, minor) = (x.pick(2) == 1, [0u16, 1][x.pick(2)]);
        let m = x.0 as u16;
        let (major, _) = if v3 { (3, ()) } else { (4, ()) };
        if m == major {
            c.seen("trivial", &0);
            return Ok(());
        }
        let cfg = if v3 { plain3() } else { c4.clone() };
        let mut b = if v3 { f3.clone() } else { f4.clone() };
        b[8..10].copy_from_slice(&minor.to_le_bytes());
        b[10..12].copy_from_slice(&m.to_le_bytes());
        if !v3 {
            // consistent with its changed header
            let n = decode(&f4, &cfg.cred).unwrap().header_len;
            let h = b[..n].to_vec();
            let s = seal_header(&h, &hmac_key(&cfg.seed, &cfg.master()));
            b[..s.len()].copy_from_slice(&s);
        }
        let what = format!("version {m}.{minor} with the layout of {major}");
        refused(&b, &cfg.cred, &what)?;
        if m != 3 && m != 4 {
            ensure!(open(&b)?.is_err(), "{what}: accepted by from_reader");
        }
        c.seen("refused", &b);
        c.sample(|| what.clone());
        Ok(())
    });
    e.phase("signatures", 2 * (64 + 2 * 256 * 8 + 4), |i, c| {
        let mut x = Dec(i);
        let v3 = x.pick(2) == 1;
        let cfg = if v3 { plain3() } else { c4.clone() };
        let mut b = if v3 { f3.clone() } else { f4.clone() };
        let k = x.0 as usize;
        if k < 64 {
            b[k / 8] ^= 1 << (k % 8);
        } else if k < 64 + 256 * 8 {
            let k = k - 64;
            b[k / 256] = k as u8;
        } else if k < 64 + 2 * 256 * 8 {
            // two bytes changed
            let k = k - 64 - 256 * 8;
            b[k / 256] ^= 0x10;
            b[7 - k / 256] = k as u8;
        } else {
            let s: [u32; 4] = [0xB54B_FB65, 0xB54B_FB66, 0xB54B_FB68, 0x67FB_4BB5];
            b[4..8].copy_from_slice(&s[k - 64 - 2 * 256 * 8].to_le_bytes());
        }
        let good = if v3 { &f3 } else { &f4 };
        if b[..8] == good[..8] {
            c.seen("trivial", &0);
            return Ok(());
        }
        if !v3 {
            let n = decode(&f4, &cfg.cred).unwrap().header_len;
            let s = seal_header(&b[..n].to_vec(), &hmac_key(&cfg.seed, &cfg.master()));
            b[..s.len()].copy_from_slice(&s);
        }
        ensure!(open(&b)?.is_err(), "signature {:02x?}: accepted", &b[..8]);
        c.seen("refused", &b);
        Ok(())
    });

    // -- ciphers --
    let ids = cipher_ids();
    let n = ids.len() as u64 * 3 * 2 * 2;
    e.phase("ciphers", n, |i, c| {
        let mut x = Dec(i);
        let u = *x.of(&ids);
        let ciph = *x.of(&CIPHERS);
        let gz = x.pick(2) == 1;
        let comp = if gz { Comp::Gzip(6, 0) } else { Comp::None };
        let id = u.as_bytes().to_vec();
        let (b, cred) = if x.pick(2) == 0 {
            let cfg = Cfg::new(ciph, comp, aeskdf(1), Inner::Chacha);
            let mut l = Layout4::of(&cfg);
            change(&mut l.fields, 2, id);
            (encode4(&cfg, &l, &cfg.xml4(&d)), cfg.cred)
        } else {
            let mut cfg = plain3();
            cfg.cipher = ciph;
            cfg.comp = comp;
            cfg.iv = bytes(ciph.iv_len(), 2);
            let mut l = Layout3::of(&cfg);
            change(&mut l.fields, 2, id);
            let xml = xml3(&cfg, &l, &d, true);
            (encode3(&cfg, &l, &xml), cfg.cred)
        };
        refused(&b, &cred, &format!("cipher {u} with data of {ciph:?}"))?;
        c.seen("refused", &b);
        c.sample(|| format!("cipher {u} with data of {ciph:?}"));
        Ok(())
    });
    // identifiers that begin or end like known ones but have another length
    let known = [U_AES256, U_TWOFISH, U_CHACHA];
    e.phase("cipher-lengths", 3 * 41 * 4 * 2, |i, c| {
        let mut x = Dec(i);
        let which = x.pick(3);
        let n = x.pick(41);
        let form = x.pick(4);
        let v3 = x.pick(2) == 1;
        if n == 16 {
            c.seen("trivial", &0);
            return Ok(());
        }
        let u = known[which].as_bytes();
        let mut id = vec![[0u8, 0xff, 0, 1][form]; n];
        let m = n.min(16);
        match form {
            0 | 1 => id[..m].copy_from_slice(&u[..m]),
            2 => id[n - m..].copy_from_slice(&u[16 - m..]),
            _ => (0..n).for_each(|k| id[k] = u[k % 16]),
        }
        let (b, cred) = if !v3 {
            let cfg = Cfg::new(CIPHERS[which], Comp::None, aeskdf(1), Inner::Chacha);
            let mut l = Layout4::of(&cfg);
            change(&mut l.fields, 2, id.clone());
            (encode4(&cfg, &l, &cfg.xml4(&d)), cfg.cred)
        } else {
            let mut cfg = plain3();
            cfg.cipher = CIPHERS[which];
            cfg.iv = bytes(cfg.cipher.iv_len(), 2);
            let mut l = Layout3::of(&cfg);
            change(&mut l.fields, 2, id.clone());
            let xml = xml3(&cfg, &l, &d, true);
            (encode3(&cfg, &l, &xml), cfg.cred)
        };
        refused(&b, &cred, &format!("cipher identifier {id:02x?}"))?;
        c.seen("refused", &b);
        Ok(())
    });
    e.phase("derivation-lengths", 4 * 41 * 4, |i, c| {
        let mut x = Dec(i);
        let kdf = [aeskdf(1), Kdf::Aes { rounds: 1, salt: bytes(32, 4), legacy_uuid: true }, argon(false), argon(true)][x.pick(4)].clone();
        let n = x.pick(41);
        let form = x.pick(4);
        if n == 16 {
            c.seen("trivial", &0);
            return Ok(());
        }
        let cfg = Cfg::new(Ciph::Aes, Comp::None, kdf, Inner::Chacha);
        let mut dict = cfg.kdf.dict();
        let p = dict.iter_mut().find(|p| p.1 == "$UUID").unwrap();
        let u = p.2.clone();
        let mut id = vec![[0u8, 0xff, 0, 1][form]; n];
        let m = n.min(16);
        match form {
            0 | 1 => id[..m].copy_from_slice(&u[..m]),
            2 => id[n - m..].copy_from_slice(&u[16 - m..]),
            _ => (0..n).for_each(|k| id[k] = u[k % 16]),
        }
        p.2 = id.clone();
        let mut l = Layout4::of(&cfg);
        change(&mut l.fields, 11, dict_bytes(&dict));
        let b = encode4(&cfg, &l, &cfg.xml4(&d));
        refused(&b, &cfg.cred, &format!("key derivation identifier {id:02x?}"))?;
        c.seen("refused", &b);
        Ok(())
    });
    // plain text under an unknown cipher
    e.phase("no-cipher", ids.len() as u64 * 2, |i, c| {
        let mut x = Dec(i);
        let u = *x.of(&ids);
        let b = if x.pick(2) == 0 {
            let cfg = Cfg::plain();
            let mut l = Layout4::of(&cfg);
            change(&mut l.fields, 2, u.as_bytes().to_vec());
            let master = cfg.master();
            let hk = hmac_key(&cfg.seed, &master);
            let mut o = seal_header(&header_bytes(4, 0, &l.fields, &l.end), &hk);
            let mut p = inner_bytes(&l.inner, &[]);
            p.extend(cfg.xml4(&d));
            o.extend(hmac_blocks(&hk, &[&p], true));
            o
        } else {
            let cfg = plain3();
            let mut l = Layout3::of(&cfg);
            change(&mut l.fields, 2, u.as_bytes().to_vec());
            let xml = xml3(&cfg, &l, &d, true);
            let mut o = l.header();
            o.extend(&l.start);
            o.extend(hashed_blocks(&[&xml], true));
            o
        };
        refused(&b, &Cred::pw("kdbxrs"), &format!("cipher {u} with data in clear"))?;
        c.seen("refused", &b);
        Ok(())
    });
    // AES with a key of another size
    e.phase("aes-128", 2 * 3 * 2, |i, c| {
        let mut x = Dec(i);
        use cipher::{block_padding::Pkcs7, BlockEncryptMut, KeyIvInit};
        let cfg = if x.pick(2) == 0 { Cfg::plain() } else { plain3() };
        let master = cfg.master();
        let full = cipher_key(&cfg.seed, &master);
        let key = match x.pick(3) {
            0 => full[..16].to_vec(),
            1 => full[16..].to_vec(),
            _ => sha256(&full)[..16].to_vec(),
        };
        let named = if x.pick(2) == 0 { U_AES128 } else { U_AES256 };
        let enc = |p: &[u8]| cbc::Encryptor::<aes::Aes128>::new_from_slices(&key, &cfg.iv).unwrap().encrypt_padded_vec_mut::<Pkcs7>(p);
        let b = if cfg.inner_key.len() == 64 {
            let mut l = Layout4::of(&cfg);
            change(&mut l.fields, 2, named.as_bytes().to_vec());
            let hk = hmac_key(&cfg.seed, &master);
            let mut o = seal_header(&header_bytes(4, 0, &l.fields, &l.end), &hk);
            let mut p = inner_bytes(&l.inner, &[]);
            p.extend(cfg.xml4(&d));
            o.extend(hmac_blocks(&hk, &[&enc(&p)], true));
            o
        } else {
            let mut l = Layout3::of(&cfg);
            change(&mut l.fields, 2, named.as_bytes().to_vec());
            let xml = xml3(&cfg, &l, &d, true);
            let mut p = l.start.clone();
            p.extend(hashed_blocks(&[&xml], true));
            let mut o = l.header();
            o.extend(enc(&p));
            o
        };
        refused(&b, &cfg.cred, &format!("data of AES-128 under the name {named}"))?;
        c.seen("refused", &b);
        Ok(())
    });

    // -- compression --
    let nums = numbers(&[0, 1]);
    e.phase("compression", nums.len() as u64 * 4, |i, c| {
        let mut x = Dec(i);
        let gz = x.pick(2) == 1;
        let v4 = x.pick(2) == 0;
        let n = nums[x.0 as usize];
        let comp = if gz { Comp::Gzip(6, 0) } else { Comp::None };
        let mut cfg = if v4 { Cfg::plain() } else { plain3() };
        cfg.comp = comp;
        let b = if v4 {
            let mut l = Layout4::of(&cfg);
            change(&mut l.fields, 3, n.to_le_bytes().to_vec());
            encode4(&cfg, &l, &cfg.xml4(&d))
        } else {
            let mut l = Layout3::of(&cfg);
            change(&mut l.fields, 3, n.to_le_bytes().to_vec());
            let xml = xml3(&cfg, &l, &d, true);
            encode3(&cfg, &l, &xml)
        };
        refused(&b, &cfg.cred, &format!("compression {n} with gzip data: {gz}"))?;
        c.seen("refused", &b);
        c.sample(|| format!("compression {n}"));
        Ok(())
    });

    // -- inner stream --
    let nums = numbers(&[2, 3]);
    let docs = contents();
    e.phase("inner-stream", nums.len() as u64 * 3 * 2 * 2, |i, c| {
        let mut x = Dec(i);
        let as_if = [Inner::Salsa, Inner::Chacha, Inner::None][x.pick(3)];
        let v4 = x.pick(2) == 0;
        let doc = x.of(&docs);
        let n = nums[x.0 as usize];
        let mut cfg = if v4 { Cfg::plain() } else { plain3() };
        cfg.inner = as_if;
        let b = if v4 {
            let mut l = Layout4::of(&cfg);
            change(&mut l.inner, 1, n.to_le_bytes().to_vec());
            encode4(&cfg, &l, &cfg.xml4(doc))
        } else {
            let mut l = Layout3::of(&cfg);
            change(&mut l.fields, 10, n.to_le_bytes().to_vec());
            let xml = xml3(&cfg, &l, doc, true);
            encode3(&cfg, &l, &xml)
        };
        refused(&b, &cfg.cred, &format!("inner stream {n} with values of {as_if:?}"))?;
        c.seen("refused", &b);
        c.sample(|| format!("inner stream {n} with values of {as_if:?}"));
        Ok(())
    });

    // -- key derivation --
    let ids = kdf_ids();
    let cfg = Cfg::plain();
    let keys = guessed_keys(&cfg);
    let xml = cfg.xml4(&d);
    e.phase("key-derivation", (ids.len() * keys.len() * 2) as u64, |i, c| {
        let mut x = Dec(i);
        let u = *x.of(&ids);
        let (kn, key) = x.of(&keys);
        let dict = if x.pick(2) == 0 { all_params(u) } else { vec![(0x42, "$UUID".into(), u.as_bytes().to_vec())] };
        let mut l = Layout4::of(&cfg);
        change(&mut l.fields, 11, dict_bytes(&dict));
        let b = with_key(&cfg, &l, &xml, key);
        for cred in [cfg.cred.clone(), Cred::pw("something else"), Cred::default()] {
            refused(&b, &cred, &format!("key derivation {u} with a key from {kn}"))?;
        }
        c.seen("refused", &b);
        c.sample(|| format!("key derivation {u} with a key from {kn}"));
        Ok(())
    });
    let bad = bad_argon();
    e.phase("argon2-settings", bad.len() as u64 * 2, |i, c| {
        let (what, (p, q)) = &bad[i as usize / 2];
        let mut cfg = Cfg::plain();
        cfg.kdf = q.clone();
        if i % 2 == 1 {
            cfg.cipher = Ciph::Chacha;
            cfg.iv = bytes(12, 2);
        }
        let mut l = Layout4::of(&cfg);
        change(&mut l.fields, 11, dict_bytes(&argon_dict(p, q)));
        let b = encode4(&cfg, &l, &cfg.xml4(&d));
        refused(&b, &cfg.cred, what)?;
        c.seen("refused", &b);
        c.sample(|| what.clone());
        Ok(())
    });
    e.phase("parameter-versions", 256 * 256 * 2, |i, c| {
        let mut x = Dec(i);
        let kdf = [aeskdf(1), argon(false)][x.pick(2)].clone();
        let (lo, hi) = (x.pick(256) as u8, x.pick(256) as u8);
        if hi < 2 {
            c.seen("trivial", &0);
            return Ok(());
        }
        let mut cfg = Cfg::plain();
        cfg.kdf = kdf;
        let mut db = dict_bytes(&cfg.kdf.dict());
        db[0] = lo;
        db[1] = hi;
        let mut l = Layout4::of(&cfg);
        change(&mut l.fields, 11, db);
        let b = encode4(&cfg, &l, &xml);
        refused(&b, &cfg.cred, &format!("parameters of version {hi}.{lo}"))?;
        c.seen("refused", &b);
        Ok(())
    });

    // -- saving --
    let sp = spoilers(!e.quick());
    let started = [Cfg::plain(), Cfg::new(Ciph::Chacha, Comp::Gzip(6, 0), argon(true), Inner::Salsa)];
    e.phase("saving", sp.len() as u64 * 4, |i, c| {
        let mut x = Dec(i);
        let cfg = x.of(&started);
        let opened = x.pick(2) == 1;
        let (what, spoil) = x.of(&sp);
        let mut k = if opened { load(&file4(cfg, &d), &cfg.cred)?? } else { archive(&d, cfg)?? };
        spoil(&mut k);
        let mut out = vec![];
        let r = api("write", || k.write(&mut out))?;
        ensure!(r.is_err(), "{what}: saved");
        ensure!(out.is_empty(), "{what}: {} bytes written before the refusal", out.len());
        // with the key set again, if that is accepted
        let key = Cred::pw("again").lib();
        let accepted = api("set_key", || k.set_key(key))?.is_ok();
        let mut out = vec![];
        let r = api("write", || k.write(&mut out))?;
        ensure!(r.is_err() && out.is_empty(), "{what}: saved after the key was set again");
        c.seen(if accepted { "refused by write" } else { "refused by set_key and write" }, &(what, opened, &cfg.seed, cfg.cipher));
        c.sample(|| what.clone());
        Ok(())
    });
}
