//! The settings of an archive are reported as stored.

use crate::engine::*;
use crate::layouts::*;
use crate::lib_io::*;
use crate::model::*;
use crate::refcodec::*;
use crate::refxml::Inner;
use crate::{bail, ensure};
use kdbx_rs::binary::{KdbxHeader, KdfParams, VariantDict, VariantDictValue as Value};
use uuid::Uuid;

/// What a file says about itself before anything is decrypted.
#[derive(Clone, Debug)]
struct Told {
    major: u16,
    minor: u16,
    cipher: Vec<u8>,
    comp: Option<u32>,
    seed: Vec<u8>,
    iv: Vec<u8>,
    kdf: KdfParams,
}

/// Reads it with the harness's own means; nothing is derived or decrypted.
fn told(b: &[u8]) -> R<Told> {
    let mut c = Cur(b);
    let p = c.take(12)?;
    let (minor, major) = (u16::from_le_bytes([p[8], p[9]]), u16::from_le_bytes([p[10], p[11]]));
    let mut fields: Fields = vec![];
    loop {
        let t = c.u8()?;
        let n = if major >= 4 { c.u32()? as usize } else { c.u16()? as usize };
        let d = c.take(n)?.to_vec();
        if t == 0 {
            break;
        }
        fields.push((t, d));
    }
    let get = |t: u8| fields.iter().find(|f| f.0 == t).map(|f| f.1.clone()).ok_or(format!("no field {t}"));
    let kdf = if major >= 4 {
        let mut d = get(11)?;
        if let Some(minor) = d.first_mut() {
            *minor = 0; // later minor versions are read alike
        }
        params(&parse_dict(&d)?)?
    } else {
        KdfParams::Aes { rounds: u64::from_le_bytes(get(6)?.try_into().map_err(|_| "size of rounds")?), salt: get(5)? }
    };
    let comp = u32::from_le_bytes(get(3)?.try_into().map_err(|_| "size of compression")?);
    Ok(Told { major, minor, cipher: get(2)?, comp: Some(comp), seed: get(4)?, iv: get(7)?, kdf })
}

fn value(t: u8, v: &[u8]) -> R<Value> {
    let e = |_| "size of a parameter".to_string();
    Ok(match t {
        4 => Value::Uint32(u32::from_le_bytes(v.try_into().map_err(e)?)),
        5 => Value::Uint64(u64::from_le_bytes(v.try_into().map_err(e)?)),
        8 => Value::Boolean(v.first() != Some(&0)),
        0xC => Value::Int32(i32::from_le_bytes(v.try_into().map_err(e)?)),
        0xD => Value::Int64(i64::from_le_bytes(v.try_into().map_err(e)?)),
        0x18 => Value::String(String::from_utf8(v.to_vec()).map_err(|_| "a parameter is no text")?),
        0x42 => Value::Array(v.to_vec()),
        t => Value::Unknown(t, v.to_vec()),
    })
}
fn params(d: &[(u8, String, Vec<u8>)]) -> R<KdfParams> {
    let id = d.iter().find(|p| p.1 == "$UUID").ok_or("no key derivation")?;
    let uuid = Uuid::from_slice(&id.2).map_err(|_| "size of an identifier")?;
    if [U_KDF_AES3, U_KDF_AES4, U_KDF_2D, U_KDF_2ID].contains(&uuid) {
        return Ok(Kdf::from_dict(d)?.lib());
    }
    let mut params = VariantDict::new();
    for p in d.iter().filter(|p| p.1 != "$UUID") {
        params.insert(p.1.clone(), value(p.0, &p.2)?);
    }
    Ok(KdfParams::Unknown { uuid, params })
}

fn matches(t: &Told, h: &KdbxHeader, major: u16, minor: u16, when: &str) -> Res {
    ensure!((major, minor) == (t.major, t.minor), "{when}: reports version {major}.{minor}, stored is {}.{}", t.major, t.minor);
    let cipher = Uuid::from(h.cipher);
    ensure!(cipher.as_bytes()[..] == t.cipher[..], "{when}: reports cipher {:?}, stored is {:?}", h.cipher, t.cipher);
    if let Some(comp) = t.comp {
        ensure!(u32::from(h.compression_type) == comp, "{when}: reports compression {:?}, stored is {comp}", h.compression_type);
    }
    ensure!(h.master_seed == t.seed, "{when}: reports seed {:?}, stored is {:?}", h.master_seed, t.seed);
    ensure!(h.encryption_iv == t.iv, "{when}: reports initialisation vector {:?}, stored is {:?}", h.encryption_iv, t.iv);
    ensure!(h.kdf_params == t.kdf, "{when}: reports key derivation {:?}, stored is {:?}", h.kdf_params, t.kdf);
    Ok(())
}

/// Opens without unlocking.
fn locked(b: &[u8], t: &Told, what: &dyn Fn() -> String) -> V<bool> {
    match open(b)? {
        Err(_) => Ok(false),
        Ok(k) => {
            matches(t, k.header(), k.major_version(), k.minor_version(), &format!("{}, locked", what()))?;
            Ok(true)
        }
    }
}

/// Opens, tries a wrong key, unlocks.
fn all_the_way(b: &[u8], c: &Cfg, t: &Told, what: &dyn Fn() -> String) -> Res {
    let k = match open(b)? {
        Ok(k) => k,
        Err(e) => bail!("{}: does not open: {e}", what()),
    };
    matches(t, k.header(), k.major_version(), k.minor_version(), &format!("{}, locked", what()))?;
    let wrong = Cred::pw("not the password").lib();
    let k = match api("unlock", || k.unlock(&wrong))? {
        Ok(_) => bail!("{}: opens with a wrong password", what()),
        Err(f) => f.0,
    };
    matches(t, k.header(), k.major_version(), k.minor_version(), &format!("{}, after a failed attempt", what()))?;
    let k = match unlock(k, &c.cred)? {
        Ok(k) => k,
        Err(e) => bail!("{}: does not open: {e}", what()),
    };
    matches(t, k.header(), k.major_version(), k.minor_version(), &format!("{}, unlocked", what()))?;
    let i = k.inner_header();
    ensure!(u32::from(i.inner_stream_cipher) == c.inner_id(), "{}: reports inner stream {:?}, stored is {}", what(), i.inner_stream_cipher, c.inner_id());
    ensure!(i.inner_stream_key == c.inner_key, "{}: reports inner stream key {:?}, stored is {:?}", what(), i.inner_stream_key, c.inner_key);
    Ok(())
}

/// Numbers with few bits set or cleared, and small ones.
fn few_bits(n: u32) -> Vec<u64> {
    let mask = if n == 64 { u64::MAX } else { (1 << n) - 1 };
    let mut v: Vec<u64> = (0..=300).collect();
    for a in 0..n {
        for b in 0..n {
            let x = 1u64 << a | 1 << b;
            v.extend([x, x - 1, x + 1, !x, (1u64 << a).wrapping_sub(1 << b)].map(|x| x & mask));
        }
    }
    v.sort();
    v.dedup();
    v
}

pub fn run(e: &mut Engine) {
    e.rule = "a case is one file or one archive; distinct by its bytes; files the library refuses to open are counted as refused".into();
    let thorough = !e.quick();

    // -- every layout --
    for (v, spaces) in [(4, files4(thorough)), (3, files3(thorough))] {
        for s in spaces {
            let step = if thorough { s.n.div_ceil(200_000).max(1) } else { s.n.div_ceil(2000).max(1) };
            e.phase(&format!("v{v}:{}", s.name), s.n.div_ceil(step), |i, c| {
                let x = (s.make)(i * step);
                if x.bytes.is_empty() || matches!(x.cfg.comp, Comp::Gzip(_, 4)) {
                    c.seen("trivial", &0);
                    return Ok(());
                }
                let t = told(&x.bytes).unwrap_or_else(|e| panic!("{}: {e}", x.what));
                if s.name == "depth" {
                    // may be nested beyond what is read
                    c.seen(if locked(&x.bytes, &t, &|| x.what.clone())? { "as stored" } else { "refused" }, &x.bytes);
                    return Ok(());
                }
                all_the_way(&x.bytes, &x.cfg, &t, &|| x.what.clone())?;
                c.seen("as stored", &x.bytes);
                c.sample(|| format!("{}: {t:?}", x.what).chars().take(400).collect());
                Ok(())
            });
        }
    }

    // -- settings the library may not be able to use, as reported by the locked archive --
    let c4 = Cfg::plain();
    let with4 = |f: &Fields, minor: u16| {
        let h = header_bytes(4, minor, f, b"\r\n\r\n");
        let mut b = h.clone();
        b.extend(sha256(&h));
        b.extend(bytes(32, 1));
        b.extend([0; 36]);
        b
    };
    let with3 = |f: &Fields, minor: u16| [header_bytes(3, minor, f, b"\r\n\r\n"), bytes(64, 3)].concat();
    let fields4 = c4.fields4();
    let fields3 = plain3().fields3(&bytes(32, 9));
    let set = |f: &Fields, t: u8, d: Vec<u8>| -> Fields { f.iter().map(|x| if x.0 == t { (t, d.clone()) } else { x.clone() }).collect() };
    let judge = |b: &[u8], c: &mut Case, must: bool, what: &dyn Fn() -> String| -> Res {
        let t = told(b).unwrap_or_else(|e| panic!("{}: {e}", what()));
        let ok = locked(b, &t, what)?;
        ensure!(ok || !must, "{}: does not open", what());
        c.seen(if ok { "as stored" } else { "refused" }, b);
        c.sample(what);
        Ok(())
    };
    // ciphers
    let mut ids: Vec<u128> = vec![0, 1, u128::MAX];
    for k in [U_AES128, U_AES256, U_TWOFISH, U_CHACHA, U_KDF_AES3, U_KDF_AES4, U_KDF_2D, U_KDF_2ID] {
        ids.push(k.as_u128());
        ids.extend((0..128).map(|b| k.as_u128() ^ 1 << b));
        ids.extend((0..16).map(|b| k.as_u128() & !(255 << (8 * b))));
        ids.push(k.as_u128().swap_bytes());
        ids.push(u128::from_be_bytes(*Uuid::from_bytes(k.to_bytes_le()).as_bytes()));
    }
    ids.extend((0..128).map(|b| 1u128 << b));
    ids.sort();
    ids.dedup();
    e.phase("ciphers", ids.len() as u64 * 2, |i, c| {
        let mut x = Dec(i);
        let v3 = x.pick(2) == 1;
        let id = x.of(&ids).to_be_bytes().to_vec();
        let b = if v3 { with3(&set(&fields3, 2, id.clone()), 1) } else { with4(&set(&fields4, 2, id.clone()), 0) };
        judge(&b, c, false, &|| format!("cipher {id:02x?}, version 3: {v3}"))
    });
    // compressions
    let numbers = few_bits(32);
    e.phase("compressions", numbers.len() as u64 * 2, |i, c| {
        let mut x = Dec(i);
        let v3 = x.pick(2) == 1;
        let n = *x.of(&numbers) as u32;
        let d = n.to_le_bytes().to_vec();
        let b = if v3 { with3(&set(&fields3, 3, d), 1) } else { with4(&set(&fields4, 3, d), 0) };
        judge(&b, c, false, &|| format!("compression {n}, version 3: {v3}"))
    });
    // minor versions
    e.phase("minor-versions", 65_536 * 2, |i, c| {
        let mut x = Dec(i);
        let v3 = x.pick(2) == 1;
        let n = x.0 as u16;
        let b = if v3 { with3(&fields3, n) } else { with4(&fields4, n) };
        judge(&b, c, true, &|| format!("minor version {n}, version 3: {v3}"))
    });
    // seeds, initialisation vectors and salts of every length
    let most = e.pick(300, 2000);
    e.phase("lengths", most * 2 * 3 * 3, |i, c| {
        let mut x = Dec(i);
        let v3 = x.pick(2) == 1;
        let which = x.pick(3);
        let fill = x.pick(3);
        let n = x.0 as usize;
        let d = match fill {
            0 => bytes(n, 0x41),
            1 => vec![0; n],
            _ => vec![255; n],
        };
        let b = match (v3, which) {
            (true, w) => with3(&set(&fields3, [4, 7, 5][w], d), 1),
            (false, 2) => {
                let k = if fill == 1 { Kdf::Aes { rounds: 1, salt: d, legacy_uuid: false } } else { Kdf::Argon { id: fill == 0, mem: 8192, version: 0x13, iters: 1, lanes: 1, salt: d } };
                with4(&set(&fields4, 11, dict_bytes(&k.dict())), 0)
            }
            (false, w) => with4(&set(&fields4, [4, 7][w], d), 0),
        };
        judge(&b, c, false, &|| format!("{} of {n} bytes, version 3: {v3}", ["seed", "initialisation vector", "salt"][which]))
    });
    // numbers of the key derivations
    let wide = few_bits(64);
    e.phase("derivation-numbers", wide.len() as u64 * 7, |i, c| {
        let mut x = Dec(i);
        let which = x.pick(7);
        let n = *x.of(&wide);
        let (mut mem, mut version, mut iters, mut lanes) = (8192, 0x13, 1, 1);
        match which {
            0 => mem = n,
            1 => iters = n,
            2 if n <= u32::MAX as u64 => lanes = n as u32,
            3 if n <= u32::MAX as u64 => version = n as u32,
            4..=6 => {}
            _ => {
                c.seen("trivial", &0);
                return Ok(());
            }
        }
        let b = match which {
            6 => with3(&set(&fields3, 6, n.to_le_bytes().to_vec()), 1),
            4 | 5 => with4(&set(&fields4, 11, dict_bytes(&Kdf::Aes { rounds: n, salt: bytes(32, 4), legacy_uuid: which == 5 }.dict())), 0),
            _ => with4(&set(&fields4, 11, dict_bytes(&Kdf::Argon { id: n % 2 == 1, mem, version, iters, lanes, salt: bytes(32, 4) }.dict())), 0),
        };
        judge(&b, c, false, &|| format!("number {n} of key derivation setting {which}"))
    });
    // unknown key derivations: identifiers, parameter names, types and values
    e.phase("derivations", ids.len() as u64 * 2, |i, c| {
        let mut x = Dec(i);
        let many = x.pick(2) == 1;
        let id = *x.of(&ids);
        if [U_KDF_AES3, U_KDF_AES4, U_KDF_2D, U_KDF_2ID].contains(&Uuid::from_u128(id)) {
            c.seen("trivial", &0);
            return Ok(());
        }
        let mut d = vec![(0x42, "$UUID".to_string(), id.to_be_bytes().to_vec())];
        if many {
            d.extend(extra_params());
        }
        judge(&with4(&set(&fields4, 11, dict_bytes(&d)), 0), c, true, &|| format!("key derivation {id:032x}"))
    });
    let names = ["", "a", "S", "R", "M", "\u{e9}", "a b", "$uuid", "UUID", "x\0y", "\u{1F511}\u{1F511}", "0123456789012345678901234567890123456789"];
    let texts = ["", "a", "S", "\u{e9}\u{1F511}", "a\0b", "  ", "long long long long long long long long long"];
    let mut values: Vec<(u8, Vec<u8>)> = vec![];
    for n in [0u64, 1, 2, 255, 256, 65_535, 1 << 31, u32::MAX as u64, 1 << 32, 1 << 63, u64::MAX] {
        values.push((4, (n as u32).to_le_bytes().to_vec()));
        values.push((0xC, (n as u32).to_le_bytes().to_vec()));
        values.push((5, n.to_le_bytes().to_vec()));
        values.push((0xD, n.to_le_bytes().to_vec()));
    }
    values.extend([(8, vec![0]), (8, vec![1])]);
    values.extend(texts.iter().map(|t| (0x18, t.as_bytes().to_vec())));
    values.extend([0usize, 1, 4, 8, 16, 255, 256, 5000].map(|n| (0x42, bytes(n, 6))));
    values.dedup();
    let (nn, nv) = (names.len() as u64, values.len() as u64);
    e.phase("parameters", nn * nv * nv, |i, c| {
        let mut x = Dec(i);
        let k = x.pick(nn);
        let (a, b) = (x.of(&values), x.of(&values));
        let mut d = vec![(0x42, "$UUID".to_string(), bytes(16, 0x55))];
        d.push((a.0, names[k].to_string(), a.1.clone()));
        d.push((b.0, names[(k + 1) % names.len()].to_string(), b.1.clone()));
        if i % 2 == 1 {
            d.rotate_left(1);
        }
        judge(&with4(&set(&fields4, 11, dict_bytes(&d)), 0), c, true, &|| format!("parameters {d:?}").chars().take(300).collect())
    });
    // names and contents of parameters: every short word over characters something could be cut at, every character
    const LETTERS: [char; 9] = ['a', 'A', ' ', '\0', '\n', '\u{e9}', '$', '\u{feff}', '\u{1F511}'];
    let short = words(9, if thorough { 5 } else { 4 });
    let scalars = if thorough { 0x110000 - 0x800 } else { 0x3100 };
    e.phase("parameter-texts", (short + scalars) * 4, |i, c| {
        let mut x = Dec(i);
        let kind = x.pick(4);
        let text: String = if x.0 < short {
            word(9, x.0).iter().map(|k| LETTERS[*k]).collect()
        } else {
            let n = x.0 - short;
            let ch = char::from_u32(if n < 0xd800 { n } else { n + 0x800 } as u32).unwrap();
            format!("{ch}a{ch}b{ch}")
        };
        if kind == 0 && text == "$UUID" {
            return Ok(());
        }
        let mut d = vec![(0x42, "$UUID".to_string(), bytes(16, 0x55))];
        d.push(match kind {
            0 => (0x18, text, b"value".to_vec()),
            1 => (0x18, "N".to_string(), text.into_bytes()),
            2 => (0x42, "N".to_string(), text.into_bytes()),
            _ => (0x77, "N".to_string(), text.into_bytes()),
        });
        judge(&with4(&set(&fields4, 11, dict_bytes(&d)), 0), c, true, &|| format!("parameters {d:?}"))
    });
    let counts: Vec<u64> = (0..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 1000]).collect();
    e.phase("parameter-counts", counts.len() as u64 * 7, |i, c| {
        let mut x = Dec(i);
        let kind = x.pick(7);
        let n = *x.of(&counts);
        let mut d = vec![(0x42, "$UUID".to_string(), bytes(16, 0x55))];
        for k in 0..n {
            let w = k.wrapping_mul(0x0101_0101_0101_0101);
            d.push(match kind {
                0 => (4, format!("p{k}"), (w as u32).to_le_bytes().to_vec()),
                1 => (5, format!("p{k}"), w.to_le_bytes().to_vec()),
                2 => (8, format!("p{k}"), vec![(k % 2) as u8]),
                3 => (0xC, format!("p{k}"), (w as u32).to_le_bytes().to_vec()),
                4 => (0xD, format!("p{k}"), w.to_le_bytes().to_vec()),
                5 => (0x18, format!("p{k}"), format!("text {k}").into_bytes()),
                _ => (0x42, format!("p{k}"), bytes(k as usize, k as u8)),
            });
        }
        judge(&with4(&set(&fields4, 11, dict_bytes(&d)), 0), c, true, &|| format!("{n} parameters of kind {kind}"))
    });
    // inner streams and their keys, as reported by the unlocked archive
    e.phase("inner-keys", 300 * 2 * 2 * 3, |i, c| {
        let mut x = Dec(i);
        let v3 = x.pick(2) == 1;
        let inner = [Inner::Salsa, Inner::Chacha][x.pick(2)];
        let fill = x.pick(3);
        let n = x.0 as usize;
        let mut cfg = if v3 { plain3() } else { c4.clone() };
        cfg.inner = inner;
        cfg.inner_key = match fill {
            0 => bytes(n, 0x33),
            1 => vec![0; n],
            _ => vec![255; n],
        };
        let b = if v3 { file3(&cfg, &small()) } else { file4(&cfg, &small()) };
        let what = || format!("inner stream {inner:?} with a key of {n} bytes, version 3: {v3}");
        let t = told(&b).unwrap_or_else(|e| panic!("{}: {e}", what()));
        all_the_way(&b, &cfg, &t, &what)?;
        c.seen("as stored", &b);
        Ok(())
    });
    // -- settings given to an archive stay as given, saved or not, and come back --
    let kdfs = crate::gen::kdfs(thorough);
    let all = all_cfgs();
    e.phase("given", kdfs.len() as u64 + all.len() as u64 * 40, |i, c| {
        let cfg = if (i as usize) < kdfs.len() {
            Cfg::new(CIPHERS[i as usize % 3], [Comp::None, Comp::Gzip(6, 0)][i as usize / 3 % 2], kdfs[i as usize].clone(), Inner::Chacha)
        } else {
            let j = i as usize - kdfs.len();
            let mut cfg = all[j % all.len()].clone();
            cfg.seed = bytes(32, (j / all.len()) as u8);
            cfg.iv = bytes(cfg.cipher.iv_len(), (j / all.len()) as u8 + 100);
            cfg.inner_key = bytes(j / all.len() * 3, 7);
            cfg
        };
        let what = || crate::gen::describe(&small(), &cfg);
        let k = match archive(&small(), &cfg)? {
            Ok(k) => k,
            Err(e) => bail!("{}: {e}", what()),
        };
        let given = Told { major: 4, minor: k.minor_version(), cipher: cfg.cipher.uuid().as_bytes().to_vec(), comp: Some(cfg.comp_id()), seed: cfg.seed.clone(), iv: cfg.iv.clone(), kdf: cfg.kdf.lib() };
        matches(&given, k.header(), k.major_version(), k.minor_version(), &format!("{}, given", what()))?;
        let b = match save(&k)? {
            Ok(b) => b,
            Err(e) => bail!("{}: {e}", what()),
        };
        matches(&given, k.header(), k.major_version(), k.minor_version(), &format!("{}, saved", what()))?;
        ensure!(u32::from(k.inner_header().inner_stream_cipher) == cfg.inner_id() && k.inner_header().inner_stream_key == cfg.inner_key, "{}: saving changes the inner stream", what());
        all_the_way(&b, &cfg, &given, &what)?;
        c.seen("as given", &cfg);
        Ok(())
    });
}
