//! Identifiers, numbers and parameters convert both ways without loss.

use crate::engine::*;
use crate::ensure;
use kdbx_rs::binary::{Cipher, CompressionType, InnerHeaderId, InnerStreamCipherAlgorithm, KdfAlgorithm, KdfParams, OuterHeaderId, VariantDict, VariantDictValue as Val};
use kdbx_rs::errors::HeaderError;
use std::convert::TryFrom;
use uuid::Uuid;

const CIPHERS: [(u128, Cipher); 4] = [
    (0x61ab05a1_9464_41c3_8d74_3a563df8dd35, Cipher::Aes128),
    (0x31c1f2e6_bf71_4350_be58_05216afc5aff, Cipher::Aes256),
    (0xad68f29f_576f_4bb9_a36a_d47af965346c, Cipher::TwoFish),
    (0xd6038a2b_8b6f_4cb5_a524_339a31dbb59a, Cipher::ChaCha20),
];
const KDFS: [(u128, KdfAlgorithm); 4] = [
    (0xc9d9f39a_628a_4460_bf74_0d08c18a4fea, KdfAlgorithm::Aes256_Kdbx3_1),
    (0x7c02bb82_79a7_4ac0_927d_114a00648238, KdfAlgorithm::Aes256_Kdbx4),
    (0xef636ddf_8c29_444b_91f7_a9a403e30a0c, KdfAlgorithm::Argon2d),
    (0x9e298b19_56db_4773_b23d_fc3ec6f0a1e6, KdfAlgorithm::Argon2id),
];

fn outer(n: u8) -> OuterHeaderId {
    use OuterHeaderId::*;
    const NAMES: [OuterHeaderId; 13] = [EndOfHeader, Comment, CipherId, CompressionFlags, MasterSeed, LegacyTransformSeed, LegacyTransformRounds, EncryptionIv, ProtectedStreamKey, StreamStartBytes, InnerRandomStreamId, KdfParameters, PublicCustomData];
    NAMES.get(n as usize).copied().unwrap_or(Unknown(n))
}
fn inner(n: u8) -> InnerHeaderId {
    use InnerHeaderId::*;
    [EndOfHeader, InnerRandomStreamCipherId, InnerRandomStreamKey, Binary].get(n as usize).copied().unwrap_or(Unknown(n))
}
fn compression(n: u32) -> CompressionType {
    match n {
        0 => CompressionType::None,
        1 => CompressionType::Gzip,
        n => CompressionType::Unknown(n),
    }
}
fn stream(n: u32) -> InnerStreamCipherAlgorithm {
    match n {
        1 => InnerStreamCipherAlgorithm::ArcFour,
        2 => InnerStreamCipherAlgorithm::Salsa20,
        3 => InnerStreamCipherAlgorithm::ChaCha20,
        n => InnerStreamCipherAlgorithm::Unknown(n),
    }
}

/// Identifiers near the known ones: every difference of up to `bits` bits, every byte replaced, every two bytes swapped.
fn near(id: u128, three: bool, out: &mut dyn FnMut(u128)) {
    out(id);
    for a in 0..128 {
        out(id ^ 1 << a);
        for b in 0..a {
            out(id ^ 1 << a ^ 1 << b);
            if three {
                for c in 0..b {
                    out(id ^ 1 << a ^ 1 << b ^ 1 << c);
                }
            }
        }
    }
    for k in 0..16 {
        for v in 0..256u128 {
            out(id & !(0xff << (8 * k)) | v << (8 * k));
        }
        let b = id.to_be_bytes();
        for j in 0..k {
            let mut c = b;
            c.swap(j, k);
            out(u128::from_be_bytes(c));
        }
        let mut c = b;
        c.rotate_left(k);
        out(u128::from_be_bytes(c));
        // only a part of it
        out(id >> (8 * k));
        out(id << (8 * k));
    }
    let u = Uuid::from_u128(id);
    out(u128::from_le_bytes(id.to_be_bytes()));
    out(u128::from_be_bytes(u.to_bytes_le()));
    out(!id);
}

fn values() -> Vec<Val> {
    let mut v = vec![];
    for k in 0..=64u32 {
        for by in [-1i128, 0, 1] {
            let n = (1i128 << k) + by;
            if let Ok(n) = u32::try_from(n) {
                v.push(Val::Uint32(n));
            }
            if let Ok(n) = u64::try_from(n) {
                v.push(Val::Uint64(n));
            }
            for n in [n, -n] {
                if let Ok(n) = i32::try_from(n) {
                    v.push(Val::Int32(n));
                }
                if let Ok(n) = i64::try_from(n) {
                    v.push(Val::Int64(n));
                }
            }
        }
    }
    v.extend([Val::Boolean(false), Val::Boolean(true)]);
    for s in ["", "0", "1", "true", "a", " a ", "\0", "a\0", "\u{e9}", "12345", "-1", "\u{feff}x"] {
        v.push(Val::String(s.into()));
        v.push(Val::Array(s.into()));
        v.push(Val::Unknown(0x18, s.into()));
        v.push(Val::Unknown(0x7f, s.into()));
    }
    for n in [4usize, 8, 16, 32, 33, 300] {
        v.push(Val::Array(vec![n as u8; n]));
        v.push(Val::Unknown(4, vec![n as u8; n]));
    }
    v
}

/// What the seven readings of a value give; `None` where the value is of another kind.
#[derive(PartialEq, Debug, Default)]
struct Read {
    u32: Option<u32>,
    u64: Option<u64>,
    bool: Option<bool>,
    i32: Option<i32>,
    i64: Option<i64>,
    text: Option<String>,
    bytes: Option<Vec<u8>>,
}
fn expected(v: &Val) -> Read {
    let mut r = Read::default();
    match v {
        Val::Uint32(n) => r.u32 = Some(*n),
        Val::Uint64(n) => r.u64 = Some(*n),
        Val::Boolean(n) => r.bool = Some(*n),
        Val::Int32(n) => r.i32 = Some(*n),
        Val::Int64(n) => r.i64 = Some(*n),
        Val::String(s) => r.text = Some(s.clone()),
        Val::Array(s) => r.bytes = Some(s.clone()),
        _ => {}
    }
    r
}
fn read(v: &Val) -> Read {
    Read {
        u32: u32::try_from(v.clone()).ok(),
        u64: u64::try_from(v.clone()).ok(),
        bool: bool::try_from(v.clone()).ok(),
        i32: i32::try_from(v.clone()).ok(),
        i64: i64::try_from(v.clone()).ok(),
        text: String::try_from(v.clone()).ok(),
        bytes: Vec::<u8>::try_from(v.clone()).ok(),
    }
}

/// One parameter of a derivation: of the right kind (three values), absent, or of another kind.
fn slot(right: &[Val; 3], k: usize) -> Option<Val> {
    match k {
        0..=2 => Some(right[k].clone()),
        3 => None,
        4 => Some(Val::Uint32(7)),
        5 => Some(Val::Uint64(7)),
        6 => Some(Val::Int32(7)),
        7 => Some(Val::Int64(7)),
        8 => Some(Val::Boolean(true)),
        9 => Some(Val::String("7".into())),
        10 => Some(Val::Array(vec![7; 8])),
        _ => Some(Val::Unknown(0x33, vec![7; 4])),
    }
}
const SLOTS: u64 = 12;
fn kind(v: &Val) -> u8 {
    match v {
        Val::Uint32(_) => 1,
        Val::Uint64(_) => 2,
        Val::Int32(_) => 3,
        Val::Int64(_) => 4,
        Val::Boolean(_) => 5,
        Val::String(_) => 6,
        Val::Array(_) => 7,
        _ => 8,
    }
}
fn u64s(k: usize) -> [Val; 3] {
    [[0, 1, 65_536], [2, 1 << 32, u64::MAX], [1, 1024, 1 << 63]][k].map(Val::Uint64)
}
fn u32s(k: usize) -> [Val; 3] {
    [[0x13, 0x10, 0], [1, u32::MAX, 0x8000_0000]][k].map(Val::Uint32)
}
fn arrays() -> [Val; 3] {
    [Val::Array(vec![3; 32]), Val::Array(vec![]), Val::Array((0..100).collect())]
}

pub fn run(e: &mut Engine) {
    e.rule = "a case is one number, identifier, value or set of parameters converted and converted back; it counts once per distinct input, under what it was recognised as".into();
    e.assumptions.push("the numbers and identifiers of the published KDBX format are the reference for what is recognised".into());
    let thorough = !e.quick();
    e.phase("field-identifiers", 256, |i, c| {
        let n = i as u8;
        let (o, h) = (OuterHeaderId::from(n), InnerHeaderId::from(n));
        ensure!(o == outer(n), "outer field {n} is {o:?}");
        ensure!(h == inner(n), "inner field {n} is {h:?}");
        ensure!(u8::from(o) == n && u8::from(h) == n, "field {n} converts back to {} and {}", u8::from(o), u8::from(h));
        for m in 0..=255u8 {
            let (p, g) = (OuterHeaderId::from(m), InnerHeaderId::from(m));
            ensure!((o == p) == (n == m) && (h == g) == (n == m), "fields {n} and {m} compare wrongly");
            ensure!(o.cmp(&p) == p.cmp(&o).reverse() && h.cmp(&g) == g.cmp(&h).reverse(), "fields {n} and {m} are ordered inconsistently");
        }
        c.seen(if format!("{o:?}").starts_with("Unknown") { "unknown" } else { "known" }, &n);
        c.sample(|| format!("{n}: {o:?} {h:?}"));
        Ok(())
    });
    // every 32 bit number
    let low: u64 = if thorough { 1 << 20 } else { 1 << 19 };
    e.phase("numbers", (1u64 << 32) / low, |i, c| {
        let first = (i * low) as u32;
        for n in first..=first + (low as u32 - 1) {
            let n = std::hint::black_box(n);
            let (a, b) = (CompressionType::from(n), InnerStreamCipherAlgorithm::from(n));
            ensure!(a == compression(n), "compression {n} is {a:?}");
            ensure!(b == stream(n), "stream cipher {n} is {b:?}");
            ensure!(u32::from(a) == n && u32::from(b) == n, "{n} converts back to {} and {}", u32::from(a), u32::from(b));
        }
        c.add("numbers", low);
        c.seen("range", &i);
        Ok(())
    });
    e.phase("identifiers", 8, |i, c| {
        let id = if i < 4 { CIPHERS[i as usize].0 } else { KDFS[i as usize - 4].0 };
        let mut bad = None;
        near(id, true, &mut |n| {
            let u = Uuid::from_u128(n);
            let (a, b) = (Cipher::from(u), KdfAlgorithm::from(u));
            let a0 = CIPHERS.iter().find(|x| x.0 == n).map_or(Cipher::Unknown(u), |x| x.1);
            let b0 = KDFS.iter().find(|x| x.0 == n).map_or(KdfAlgorithm::Unknown(u), |x| x.1);
            if a != a0 || b != b0 || Uuid::from(a) != u || Uuid::from(b) != u {
                bad.get_or_insert(format!("{u}: recognised as {a:?} and {b:?}, converts back to {} and {}", Uuid::from(a), Uuid::from(b)));
            }
            c.seen(if CIPHERS.iter().chain(&[]).any(|x| x.0 == n) || KDFS.iter().any(|x| x.0 == n) { "known" } else { "unknown" }, &n);
        });
        match bad {
            Some(m) => Err(m.into()),
            None => Ok(()),
        }
    });
    let vals = values();
    e.phase("values", vals.len() as u64, |i, c| {
        let v = &vals[i as usize];
        let got = api("conversion", || read(v))?;
        ensure!(got == expected(v), "{v:?} reads as {got:?}");
        for (j, w) in vals.iter().enumerate() {
            let same = kind(v) == kind(w) && expected(v) == expected(w) && (kind(v) != 8 || format!("{v:?}") == format!("{w:?}"));
            ensure!((v == w) == same, "{v:?} and {w:?} compare wrongly (values {i} and {j})");
        }
        c.seen("value", &format!("{v:?}"));
        c.sample(|| format!("{v:?}"));
        Ok(())
    });
    // parameters: present with each of three values, absent, or of any other kind, in all combinations
    let argon: [(&str, [Val; 3]); 5] = [("M", u64s(0)), ("V", u32s(0)), ("S", arrays()), ("I", u64s(1)), ("P", u32s(1))];
    let aes: [(&str, [Val; 3]); 2] = [("R", u64s(2)), ("S", arrays())];
    for (id, algo) in KDFS {
        let names: &[(&str, [Val; 3])] = if matches!(algo, KdfAlgorithm::Argon2d | KdfAlgorithm::Argon2id) { &argon } else { &aes };
        let n = SLOTS.pow(names.len() as u32);
        e.phase(&format!("parameters.{algo:?}"), n * 2, |i, c| {
            let mut x = Dec(i);
            let mut d = VariantDict::new();
            d.insert("$UUID".into(), Val::Array(Uuid::from_u128(id).as_bytes().to_vec()));
            let mut wrong: Vec<&str> = vec![];
            for (name, right) in names {
                let s = slot(right, x.pick(SLOTS));
                if s.as_ref().map(kind) != Some(kind(&right[0])) {
                    wrong.push(name);
                }
                if let Some(v) = s {
                    d.insert(name.to_string(), v);
                }
            }
            // something the derivation does not use
            let extra = x.pick(2) == 1;
            let mut e = d.clone();
            if extra {
                e.insert("Q".into(), Val::Boolean(true));
            }
            let got = api("parameters", || KdfParams::try_from(e))?;
            match got {
                Ok(p) => {
                    ensure!(wrong.is_empty(), "{d:?} is accepted although {wrong:?} are missing or of another kind: {p:?}");
                    let u64_of = |n: &str| expected(&d[n]).u64.unwrap();
                    let u32_of = |n: &str| expected(&d[n]).u32.unwrap();
                    let salt0 = expected(&d["S"]).bytes.unwrap();
                    let same = match &p {
                        KdfParams::Aes { rounds, salt } => names.len() == 2 && *rounds == u64_of("R") && *salt == salt0,
                        KdfParams::Argon2 { variant, memory_bytes, version, salt, lanes, iterations } => {
                            names.len() == 5 && (*variant == argon2::Variant::Argon2id) == (algo == KdfAlgorithm::Argon2id) && *memory_bytes == u64_of("M") && *version == u32_of("V") && *salt == salt0 && *lanes == u32_of("P") && *iterations == u64_of("I")
                        }
                        _ => false,
                    };
                    ensure!(same, "{d:?} gives {p:?}");
                    // and back: the same parameters again, under the same names and kinds
                    let back = api("dictionary", || VariantDict::from(p.clone()))?;
                    for (name, _) in names {
                        ensure!(back.get(*name) == d.get(*name), "{p:?} gives {back:?}");
                    }
                    let again = api("parameters", || KdfParams::try_from(back.clone()))?;
                    ensure!(again.as_ref().ok() == Some(&p), "{p:?} comes back as {again:?}");
                    let uuid = back.get("$UUID").map(expected).and_then(|r| r.bytes).unwrap_or_default();
                    // AES is always written under the identifier of version 4 files
                    let id = if names.len() == 2 { vec![KDFS[0].0, KDFS[1].0] } else { vec![id] };
                    ensure!(id.iter().any(|i| i.to_be_bytes()[..] == uuid[..]), "{p:?} is written under {uuid:?}");
                    c.seen("accepted", &i);
                }
                Err(HeaderError::MissingKdfParam(name, a)) => {
                    ensure!(wrong.contains(&name.as_str()) && a == algo, "{d:?} is refused naming {name} of {a:?}");
                    c.seen("refused", &i);
                }
                Err(x) => ensure!(false, "{d:?} is refused with {x:?}"),
            }
            Ok(())
        });
    }
    // derivations the library does not know keep everything
    e.phase("unknown-parameters", vals.len() as u64 * 130, |i, c| {
        let mut x = Dec(i);
        let v = x.of(&vals).clone();
        let id = match x.0 {
            128 => 0,
            129 => u128::MAX,
            b => KDFS[2].0 ^ 1 << b,
        };
        let u = Uuid::from_u128(id);
        let mut params = VariantDict::new();
        params.insert("M".into(), v.clone());
        params.insert("x".into(), Val::Uint32(1));
        params.insert("".into(), Val::Unknown(1, vec![1]));
        let p = KdfParams::Unknown { uuid: u, params: params.clone() };
        let d = api("dictionary", || VariantDict::from(p.clone()))?;
        let mut full = params.clone();
        full.insert("$UUID".into(), Val::Array(u.as_bytes().to_vec()));
        ensure!(d == full, "{p:?} gives {d:?}");
        let back = api("parameters", || KdfParams::try_from(d))?;
        ensure!(back.as_ref().ok() == Some(&p), "{p:?} comes back as {back:?}");
        c.seen("kept", &i);
        Ok(())
    });
    // the identifier of a derivation: absent, of another kind or of another length
    let ids: Vec<Option<Val>> = [None]
        .into_iter()
        .chain(vals.iter().cloned().map(Some))
        .chain((0..4 * 40).map(|i| Some(Val::Array(KDFS[i / 40].0.to_be_bytes().repeat(3)[..i % 40].to_vec()))))
        .chain(KDFS.iter().flat_map(|(id, _)| {
            let u = Uuid::from_u128(*id);
            [Val::String(u.to_string()), Val::Array(u.to_string().into_bytes()), Val::Unknown(0x42, u.as_bytes().to_vec()), Val::Unknown(0x43, u.as_bytes().to_vec())].map(Some)
        }))
        .collect();
    e.phase("derivation-identifier", ids.len() as u64, |i, c| {
        let v = &ids[i as usize];
        let good = matches!(v, Some(Val::Array(a)) if a.len() == 16);
        let mut d = VariantDict::new();
        if let Some(v) = v {
            d.insert("$UUID".into(), v.clone());
        }
        for (n, r) in argon.iter().chain(&aes) {
            d.insert(n.to_string(), r[0].clone());
        }
        let r = api("parameters", || KdfParams::try_from(d))?;
        ensure!(r.is_ok() == good, "identifier {v:?}: {r:?}");
        c.seen(if good { "accepted" } else { "refused" }, &i);
        Ok(())
    });
}
