//! A locked archive is written back byte for byte.

use crate::engine::*;
use crate::layouts::*;
use crate::lib_io::*;
use crate::model::*;
use crate::refcodec::*;
use crate::{bail, ensure};
use kdbx_rs::binary::{Cipher, CompressionType, KdbxHeader, KdfParams, Locked};
use kdbx_rs::Kdbx;
use std::io::{self, Write};

fn rewritten(k: &Kdbx<Locked>, b: &[u8], what: &str) -> Res {
    let mut out = vec![];
    if let Err(e) = api("write", || k.write(&mut out))? {
        bail!("{what}: cannot be written: {e}");
    }
    if out != b {
        let p = out.iter().zip(b).take_while(|(x, y)| x == y).count();
        bail!("{what}: {} bytes written instead of {}, first difference at {p}", out.len(), b.len());
    }
    Ok(())
}

fn judge(x: &File, c: &mut Case) -> Res {
    if x.bytes.is_empty() {
        c.seen("trivial", &0);
        return Ok(());
    }
    let k = open(&x.bytes)??;
    rewritten(&k, &x.bytes, &x.what)?;
    c.seen("reproduced", &x.bytes);
    c.sample(|| x.what.clone());
    Ok(())
}

/// Changes of the unencrypted settings; gives false where there is nothing to change.
fn change(h: &mut KdbxHeader, k: usize) -> bool {
    let before = h.clone();
    match k {
        0 => h.cipher = if h.cipher == Cipher::Aes256 { Cipher::ChaCha20 } else { Cipher::Aes256 },
        1 => h.cipher = Cipher::Unknown(uuid::Uuid::from_u128(3)),
        2 => h.cipher = Cipher::TwoFish,
        3 => h.compression_type = if h.compression_type == CompressionType::None { CompressionType::Gzip } else { CompressionType::None },
        4 => h.compression_type = CompressionType::Unknown(9),
        5 => h.stream_start_bytes = match &h.stream_start_bytes {
            None => Some(vec![1; 32]),
            Some(_) => None,
        },
        6 => h.stream_start_bytes = Some(vec![7; 32]),
        7 => h.other_headers.clear(),
        8 => {
            if let Some(x) = h.other_headers.first().cloned() {
                h.other_headers.push(x);
            }
        }
        9 => h.other_headers.reverse(),
        10 => {
            h.other_headers.pop();
        }
        11 => match &mut h.kdf_params {
            KdfParams::Aes { rounds, .. } => *rounds += 1,
            KdfParams::Argon2 { iterations, .. } => *iterations += 1,
            _ => {}
        },
        12 => match &mut h.kdf_params {
            KdfParams::Argon2 { lanes, memory_bytes, .. } => {
                *lanes = 2;
                *memory_bytes = 16384;
            }
            KdfParams::Aes { rounds, .. } => *rounds = 0,
            _ => {}
        },
        13 => match &mut h.kdf_params {
            KdfParams::Aes { salt, .. } | KdfParams::Argon2 { salt, .. } => salt[0] ^= 1,
            _ => {}
        },
        14 => match &mut h.kdf_params {
            KdfParams::Aes { salt, .. } | KdfParams::Argon2 { salt, .. } => salt.push(0),
            _ => {}
        },
        15 => h.kdf_params = KdfParams::Aes { rounds: 77, salt: vec![3; 32] },
        16 => h.kdf_params = argon(true).lib(),
        17 => h.kdf_params = KdfParams::Unknown { uuid: uuid::Uuid::from_u128(1), params: Default::default() },
        18 => match &mut h.kdf_params {
            KdfParams::Argon2 { version, .. } => *version = 0x10,
            KdfParams::Aes { rounds, .. } => *rounds += 1 << 40,
            _ => {}
        },
        k if k >= OTHERS => match (k - OTHERS, &mut h.kdf_params) {
            (0, KdfParams::Unknown { params, .. }) => params.clear(),
            (1, KdfParams::Unknown { uuid, .. }) => *uuid = uuid::Uuid::from_u128(1),
            (2, KdfParams::Unknown { params, .. }) => {
                let first = params.keys().min().cloned();
                if let Some(k) = first {
                    params.remove(&k);
                }
            }
            (3, KdfParams::Unknown { params, .. }) => {
                let last = params.keys().max().cloned();
                if let Some(k) = last {
                    let v = params.remove(&k).unwrap();
                    params.insert("other name".into(), v);
                }
            }
            (4, KdfParams::Unknown { params, .. }) => {
                let first = params.keys().min().cloned();
                if let Some(v) = first.and_then(|k| params.get(&k).cloned()) {
                    params.insert("one more".into(), v);
                }
            }
            (5, KdfParams::Unknown { params, .. }) => {
                // two values exchanged
                let mut keys: Vec<_> = params.keys().cloned().collect();
                keys.sort();
                if keys.len() > 1 {
                    let (a, b) = (params[&keys[0]].clone(), params[&keys[1]].clone());
                    params.insert(keys[0].clone(), b);
                    params.insert(keys[1].clone(), a);
                }
            }
            (6, KdfParams::Argon2 { memory_bytes, .. }) => *memory_bytes += 1,
            (7, KdfParams::Argon2 { iterations, .. }) => *iterations += 1 << 40,
            (8, KdfParams::Argon2 { lanes, .. }) => *lanes ^= 1 << 31,
            (9, KdfParams::Argon2 { version, .. }) => *version ^= 1 << 31,
            (10, KdfParams::Argon2 { memory_bytes, .. }) => *memory_bytes ^= 1 << 63,
            (11, KdfParams::Aes { rounds, .. }) => *rounds ^= 1 << 63,
            (12, KdfParams::Aes { salt, .. } | KdfParams::Argon2 { salt, .. }) => {
                salt.pop();
            }
            (13, KdfParams::Aes { salt, .. } | KdfParams::Argon2 { salt, .. }) => *salt.last_mut().unwrap() ^= 0x80,
            (14, KdfParams::Aes { salt, .. } | KdfParams::Argon2 { salt, .. }) => salt.clear(),
            (15, _) => {
                if let Some(s) = &mut h.stream_start_bytes {
                    s[31] ^= 1;
                }
            }
            (16, _) => {
                if let Some(s) = &mut h.stream_start_bytes {
                    s.clear();
                }
            }
            (17, _) => h.compression_type = CompressionType::Unknown(0x100),
            (18, _) => {
                if h.other_headers.len() > 1 {
                    h.other_headers.remove(0);
                }
            }
            (19, _) => {
                let by = usize::from(h.other_headers.len() > 1);
                h.other_headers.rotate_left(by);
            }
            _ => {}
        },
        19 => h.master_seed.clear(),
        20 => h.master_seed.push(0),
        21 => {
            h.master_seed.pop();
        }
        22 => h.encryption_iv.clear(),
        23 => h.encryption_iv.push(0),
        24 => {
            h.encryption_iv.pop();
        }
        25 => {
            let n = KdbxHeader::from_os_random();
            h.master_seed = n.master_seed;
            h.encryption_iv = n.encryption_iv;
        }
        26 => *h = KdbxHeader::from_os_random(),
        k if k < 27 + 256 => {
            let b = k - 27;
            h.master_seed[b / 8] ^= 1 << (b % 8);
        }
        k => {
            let b = (k - 283) % (8 * h.encryption_iv.len());
            h.encryption_iv[b / 8] ^= 1 << (b % 8);
        }
    }
    // not left to the comparison of headers alone
    *h != before || format!("{h:?}") != format!("{before:?}")
}
const OTHERS: usize = 27 + 256 + 128;
const CHANGES: u64 = OTHERS as u64 + 20;

struct Full(usize);
impl Write for Full {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.0);
        self.0 -= n;
        if n == 0 && !b.is_empty() {
            return Err(io::Error::new(io::ErrorKind::Other, "full"));
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn bases() -> Vec<(Vec<u8>, Cred)> {
    let d = small();
    let mut v: Vec<(Vec<u8>, Cred)> = some_cfgs().iter().map(|c| (file4(c, &d), c.cred.clone())).collect();
    // with fields that are not interpreted and several blocks
    let c = Cfg::plain();
    let mut l = Layout4::of(&c);
    l.fields.insert(0, (1, b"comment".to_vec()));
    l.fields.insert(3, (12, bytes(9, 9)));
    l.fields.push((77, vec![]));
    l.end = b"end".to_vec();
    l.minor = 1;
    l.cuts = vec![100, 1, 50];
    v.push((encode4(&c, &l, &c.xml4(&d)), c.cred.clone()));
    // pairs that differ in nothing but their content
    let mut l = Layout4::of(&c);
    l.fields.insert(2, (12, bytes(9, 9)));
    l.fields.insert(4, (12, bytes(9, 10)));
    v.push((encode4(&c, &l, &c.xml4(&d)), c.cred.clone()));
    for c in cfgs3().into_iter().take(3).chain(cfgs3().into_iter().skip(8)) {
        v.push((file3(&c, &d), c.cred.clone()));
    }
    let c = plain3();
    let mut l = Layout3::of(&c);
    l.fields.insert(0, (1, b"comment".to_vec()));
    l.fields.reverse();
    l.end = vec![];
    let x = xml3(&c, &l, &d, true);
    v.push((encode3(&c, &l, &x), c.cred.clone()));
    let mut l = Layout3::of(&c);
    l.fields.insert(2, (12, bytes(9, 9)));
    l.fields.insert(4, (12, bytes(9, 10)));
    let x = xml3(&c, &l, &d, true);
    v.push((encode3(&c, &l, &x), c.cred.clone()));
    v
}

/// A file whose key derivation nobody knows.
fn unknown_derivation() -> (Vec<u8>, Cred) {
    let c = Cfg::plain();
    let mut l = Layout4::of(&c);
    let dict = vec![(0x42, "$UUID".to_string(), vec![7; 16]), (0x04, "A".into(), vec![1, 0, 0, 0]), (0x05, "B".into(), vec![2; 8]), (0x18, "C".into(), b"text".to_vec())];
    for f in l.fields.iter_mut().filter(|f| f.0 == 11) {
        f.1 = dict_bytes(&dict);
    }
    (encode4(&c, &l, &c.xml4(&small())), c.cred.clone())
}

pub fn run(e: &mut Engine) {
    e.rule = "a case is one file, or one file with a change or a sequence of attempts; distinct by file bytes, change and sequence".into();
    let thorough = !e.quick();
    for (tag, all) in [("4", files4(thorough)), ("3", files3(thorough))] {
        for s in all {
            // contents do not matter to a locked archive, settings and layouts do
            const CONTENTS: [&str; 15] = ["strings", "special-strings", "scalars", "single-scalars", "trees", "fields", "histories", "depth", "wide", "flags", "times", "identifiers", "text-lengths", "equal-identifiers", "field-names"];
            if e.quick() && CONTENTS.contains(&s.name.as_str()) {
                continue;
            }
            e.phase(&format!("{}.v{tag}", s.name), s.n, |i, c| judge(&(s.make)(i), c));
        }
    }
    // -- the sample files of other programs --
    let samples = super::c02::sample_files();
    e.phase("samples", samples.len() as u64, |i, c| {
        let (name, b) = &samples[i as usize];
        rewritten(&open(b)??, b, name)?;
        c.seen("reproduced", name);
        Ok(())
    });

    // -- what follows the header is not looked at while locked --
    let base = bases();
    let first3 = base.iter().position(|(b, _)| b[10] == 3).unwrap();
    let mut changeable = base.clone();
    changeable.push(unknown_derivation());
    e.phase("payloads", base.len() as u64 * 60 * 6, |i, c| {
        let mut x = Dec(i);
        let (b, cred) = x.of(&base);
        let tail = [0usize, 1, 2, 3, 4, 5, 31, 32, 33, 35, 36, 37, 63, 64, 65, 67, 68, 69, 255, 256, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 65_535, 65_536, 65_537][x.pick(30)];
        let add = x.pick(2) == 0;
        let mut out = b.clone();
        let n = decode(b, cred).unwrap().header_len + if b[10] == 4 { 64 } else { 0 };
        let fill = [0u8, 255, 1, b'\n', 0x80, 9][x.pick(6)];
        if !add {
            out.truncate(n);
        }
        out.extend(std::iter::repeat_n(fill, tail));
        rewritten(&open(&out)??, &out, &format!("{tail} bytes {fill:#x} {}", if add { "added" } else { "as payload" }))?;
        c.seen("reproduced", &out);
        Ok(())
    });
    e.phase("payload-lengths", 2 * 5000, |i, c| {
        let (b, cred) = &base[if i % 2 == 0 { 0 } else { first3 }];
        let n = decode(b, cred).unwrap().header_len + if b[10] == 4 { 64 } else { 0 };
        let mut out = b[..n].to_vec();
        out.extend(bytes(i as usize / 2, 3));
        rewritten(&open(&out)??, &out, &format!("payload of {} bytes", i / 2))?;
        c.seen("reproduced", &out);
        Ok(())
    });
    let large = [1_048_575usize, 1_048_576, 1_048_577, 2_097_152, 5_000_000];
    e.phase("large-payloads", 2 * large.len() as u64, |i, c| {
        let (b, _) = &base[if i % 2 == 0 { 0 } else { first3 }];
        let mut out = b.clone();
        out.extend(bytes(large[i as usize / 2], 3));
        rewritten(&open(&out)??, &out, "large payload")?;
        c.seen("reproduced", &i);
        Ok(())
    });
    // -- headers that name unsupported algorithms, repeat fields or have odd sizes, as far as they are accepted --
    e.phase("odd-headers", 2 * 9 * 40 * 10, |i, c| {
        let mut x = Dec(i);
        let v3 = x.pick(2) == 1;
        let d = small();
        let (cfg, l3) = if v3 { (plain3(), Some(Layout3::of(&plain3()))) } else { (Cfg::plain(), None) };
        let mut fields = l3.as_ref().map(|l| l.fields.clone()).unwrap_or_else(|| cfg.fields4());
        let which = x.pick(9) % fields.len();
        let n = x.pick(40);
        let at = x.pick(10).min(fields.len());
        let mut f = fields[which].clone();
        if n > 0 {
            f.1 = bytes(n - 1, 50);
        }
        if n % 2 == 0 {
            fields[which] = f;
        } else {
            fields.insert(at, f);
        }
        let b = if v3 {
            let l = Layout3 { fields, ..l3.unwrap() };
            encode3(&cfg, &l, &xml3(&cfg, &l, &d, true))
        } else {
            let l = Layout4 { fields, ..Layout4::of(&cfg) };
            encode4(&cfg, &l, &cfg.xml4(&d))
        };
        match open(&b)? {
            Err(_) => c.seen("refused", &b),
            Ok(k) => {
                rewritten(&k, &b, &format!("field {which} of {n} bytes at {at}"))?;
                c.seen("reproduced", &b);
            }
        }
        Ok(())
    });
    // -- short contents of fields that are not interpreted --
    const BYTES: [u8; 6] = [0, 10, 13, 255, 1, b'a'];
    let n = words(6, if thorough { 5 } else { 4 });
    e.phase("field-contents", n * 2 * 3, |i, c| {
        let mut x = Dec(i);
        let v3 = x.pick(2) == 1;
        let place = x.pick(3);
        let content: Vec<u8> = word(6, x.0).iter().map(|k| BYTES[*k]).collect();
        let d = small();
        let put = |fields: &mut Vec<(u8, Vec<u8>)>, end: &mut Vec<u8>| match place {
            0 => fields.insert(1, (1, content.clone())),
            1 => fields.push((12, content.clone())),
            _ => *end = content.clone(),
        };
        let b = if v3 {
            let cfg = plain3();
            let mut l = Layout3::of(&cfg);
            put(&mut l.fields, &mut l.end);
            encode3(&cfg, &l, &xml3(&cfg, &l, &d, true))
        } else {
            let cfg = Cfg::plain();
            let mut l = Layout4::of(&cfg);
            put(&mut l.fields, &mut l.end);
            encode4(&cfg, &l, &cfg.xml4(&d))
        };
        rewritten(&open(&b)??, &b, &format!("field content {content:?} at place {place}"))?;
        c.seen("reproduced", &b);
        Ok(())
    });
    // -- changed settings --
    e.phase("changes", changeable.len() as u64 * CHANGES, |i, c| {
        let mut x = Dec(i);
        let (b, _) = x.of(&changeable);
        let n = x.0 as usize;
        let mut k = open(b)??;
        let before = k.header().clone();
        if !change(k.header_mut(), n) {
            rewritten(&k, b, "nothing changed")?;
            c.seen("unchanged", &i);
            return Ok(());
        }
        let mut out = vec![];
        let r = api("write", || k.write(&mut out))?;
        ensure!(r.is_err(), "written with changed settings (change {n})");
        ensure!(out.is_empty(), "{} bytes written with changed settings (change {n})", out.len());
        // undone
        *k.header_mut() = before;
        rewritten(&k, b, &format!("change {n} undone"))?;
        c.seen("refused, then reproduced", &i);
        c.sample(|| format!("change {n} of file {}", i as usize % changeable.len()));
        Ok(())
    });
    // -- attempts --
    let depth = if thorough { 6 } else { 5 };
    let wrong = [Cred::pw("wrong"), Cred::default(), Cred { pw: Some("kdbxrs".into()), kf: Some(vec![]) }];
    const OPS: u64 = 8;
    let picked: Vec<usize> = vec![0, 1, 3, 4, first3, base.len() - 1];
    let n = words(OPS, depth);
    e.phase("attempts", n * picked.len() as u64, |i, c| {
        let mut x = Dec(i);
        let (b, cred) = &base[*x.of(&picked)];
        let ops = word(OPS, x.0);
        let mut k = open(b)??;
        for op in &ops {
            match op {
                0..=2 => {
                    let key = wrong[*op].lib();
                    k = match api("unlock", || k.unlock(&key))? {
                        Ok(_) => bail!("wrong credentials unlock"),
                        Err(f) => f.0,
                    };
                }
                3 => rewritten(&k, b, &format!("attempts {ops:?}"))?,
                4 => {
                    let r = api("write", || k.write(Full(b.len() / 2)))?;
                    ensure!(r.is_err(), "writing into a full destination reports success");
                }
                5 => {
                    let h = k.header().clone();
                    *k.header_mut() = h;
                }
                6 => {
                    // the right credentials do not unlock with changed settings; nor is anything lost
                    let h = k.header().clone();
                    k.header_mut().master_seed[0] ^= 1;
                    let key = cred.lib();
                    k = match api("unlock", || k.unlock(&key))? {
                        Ok(_) => bail!("unlocks with another seed"),
                        Err(f) => f.0,
                    };
                    *k.header_mut() = h;
                }
                _ => {
                    let h = k.header().clone();
                    k.header_mut().compression_type = CompressionType::Unknown(3);
                    let mut out = vec![];
                    let r = api("write", || k.write(&mut out))?;
                    ensure!(r.is_err() && out.is_empty(), "written with changed settings after {ops:?}");
                    *k.header_mut() = h;
                }
            }
        }
        rewritten(&k, b, &format!("attempts {ops:?}"))?;
        // and it still unlocks
        match unlock(k, cred)? {
            Ok(k) => ensure!(observe(k.database()) == small(), "another content after attempts {ops:?}"),
            Err(e) => bail!("after attempts {ops:?}: {e}"),
        }
        c.seen("reproduced", &i);
        c.sample(|| format!("attempts {ops:?}"));
        Ok(())
    });
}
