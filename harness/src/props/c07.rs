//! Malformed input is answered with an error, never a crash or a hang.

use crate::engine::*;
use crate::layouts::*;
use crate::lib_io::V;
use crate::model::*;
use crate::refcodec::*;
use crate::refxml::*;
use kdbx_rs::database::Group;
use kdbx_rs::Database;
use std::error::Error;

/// No input below exceeds some ten kilobytes and no key derivation asks for more than 64 MiB.
const LIMIT: i64 = 128 << 20;

fn describe_error(e: &dyn Error) -> usize {
    let mut n = format!("{e} {e:?}").len();
    let mut s = e.source();
    while let Some(x) = s {
        n += x.to_string().len();
        s = x.source();
    }
    n
}

fn walk(g: &Group) -> usize {
    let mut n = g.name().len() + g.group_count() + g.entry_count();
    for e in g.recursive_entries() {
        n += e.title().map_or(0, str::len) + e.username().map_or(0, str::len) + e.password().map_or(0, str::len) + e.url().map_or(0, str::len);
        if let Some(o) = e.otp() {
            n += o.secret().map_or(0, str::len) + o.period().unwrap_or(0) as usize % 7 + o.digits().unwrap_or(0) as usize % 7;
        }
        n += e.history().len();
    }
    n + g.recursive_groups().count()
}

/// Looks at everything a database offers and writes it out again.
fn inspect(db: &Database) -> Result<(), Violation> {
    api_limit("inspecting the database", LIMIT, || {
        let d = observe(db);
        let n = format!("{db:?}").len() + walk(db.root()) + d.name.len() + db.find_entry(|e| e.uuid().is_nil()).is_some() as usize + db.find_group(|g| g.uuid().is_nil()).is_some() as usize;
        let again = db.clone();
        n > 0 && again == *db
    })?;
    let mut out = vec![];
    let r = api_limit("write_xml", LIMIT, || kdbx_rs::xml::write_xml(&mut out, db, &mut kdbx_rs::utils::NullStreamCipher))?;
    if let Err(e) = r {
        describe_error(&e);
    }
    Ok(())
}

/// Opens, unlocks, inspects and saves.
pub fn poke(b: &[u8], cred: &Cred) -> V<&'static str> {
    let k = match api_limit("from_reader", LIMIT, || kdbx_rs::from_reader(b))? {
        Err(e) => {
            api("describing the error", || describe_error(&e))?;
            return Ok("refused at opening");
        }
        Ok(k) => k,
    };
    api("showing the locked archive", || format!("{:?} {}", k.header(), k.major_version() + k.minor_version()).len())?;
    let mut out = vec![];
    if let Err(e) = api_limit("writing the locked archive", LIMIT, || k.write(&mut out))? {
        describe_error(&e);
    }
    let key = cred.lib();
    let k = match api_limit("unlock", LIMIT, || k.unlock(&key))? {
        Err(x) => {
            api("describing the error", || describe_error(&x.1))?;
            return Ok(match x.1 {
                kdbx_rs::errors::UnlockError::HmacInvalid => "refused as wrong credentials",
                kdbx_rs::errors::UnlockError::StartBytesInvalid => "refused as wrong credentials",
                _ => "refused at unlocking",
            });
        }
        Ok(k) => k,
    };
    api("showing the archive", || format!("{:?} {:?} {:?}", k.header(), k.inner_header(), k.raw_xml().map(<[u8]>::len)).len())?;
    inspect(k.database())?;
    let mut out = vec![];
    if let Err(e) = api_limit("saving", LIMIT, || k.write(&mut out))? {
        api("describing the error", || describe_error(&e))?;
        return Ok("opened, cannot be saved");
    }
    // saved under new settings as well
    let db = k.database().clone();
    let mut fresh = api("Kdbx::from_database", || kdbx_rs::Kdbx::from_database(db))?;
    fresh.header_mut().kdf_params = aeskdf(1).lib();
    if let Err(e) = api_limit("set_key", LIMIT, || fresh.set_key(cred.lib()))? {
        describe_error(&e);
    }
    let mut out = vec![];
    if let Err(e) = api_limit("saving a copy", LIMIT, || fresh.write(&mut out))? {
        describe_error(&e);
    }
    Ok("opened and saved")
}

fn parse_any(b: &[u8], which: u64) -> V<&'static str> {
    use kdbx_rs::binary::InnerStreamCipherAlgorithm as A;
    let r = api_limit("parse_xml", LIMIT, || match which {
        0 => kdbx_rs::xml::parse_xml(b, &mut kdbx_rs::utils::NullStreamCipher),
        1 => kdbx_rs::xml::parse_xml(b, A::Salsa20.stream_cipher(&bytes(64, 5)).unwrap().as_mut()),
        _ => kdbx_rs::xml::parse_xml(b, A::ChaCha20.stream_cipher(&bytes(64, 5)).unwrap().as_mut()),
    })?;
    match r {
        Err(e) => {
            api("describing the error", || describe_error(&e))?;
            Ok("refused")
        }
        Ok(db) => {
            inspect(&db)?;
            Ok("parsed")
        }
    }
}

/// Whether the work the header asks for lies within the bounds of this exploration.
fn affordable(b: &[u8]) -> bool {
    super::c06::affordable(b)
}

/// Lengths written in place of the true one.
const CLAIMS: [u32; 27] = [
    0, 1, 2, 3, 4, 7, 8, 12, 16, 31, 32, 33, 36, 63, 64, 65, 100, 255, 256, 0xffff, 0x10000, 0x100000, 0x7fff_ffff, 0x8000_0000, 0xfffe_ffff, 0xffff_fffe, 0xffff_ffff,
];

fn last<'a>(f: &'a Fields, t: u8) -> Option<&'a Vec<u8>> {
    f.iter().rev().find(|x| x.0 == t).map(|x| &x.1)
}

/// Fields as far as they can be read.
fn lenient(h: &[u8], major: u16) -> Fields {
    let mut c = Cur(h.get(12..).unwrap_or(&[]));
    let mut out = vec![];
    while let Ok(t) = c.u8() {
        let n = if major >= 4 { c.u32().map(|n| n as usize) } else { c.u16().map(|n| n as usize) };
        let Ok(n) = n else { break };
        let Ok(d) = c.take(n) else { break };
        if t == 0 {
            break;
        }
        out.push((t, d.to_vec()));
    }
    out
}

fn crypt(cipher: Ciph, key: &[u8; 32], iv: &[u8], base_iv: &[u8], plain: &[u8]) -> Vec<u8> {
    if iv.len() == cipher.iv_len() {
        cipher.encrypt(key, iv, plain)
    } else {
        cipher.encrypt(key, base_iv, plain)
    }
}

/// A header of any bytes, sealed and followed by a payload as its own settings ask for, as far as they make sense.
pub fn seal4(h: &[u8], base: &Cfg, plain: &[u8]) -> Vec<u8> {
    let f = lenient(h, 4);
    let seed = last(&f, 4).unwrap_or(&base.seed);
    let kdf = last(&f, 11).and_then(|d| parse_dict(d).ok()).and_then(|d| Kdf::from_dict(&d).ok()).unwrap_or_else(|| base.kdf.clone());
    let master = kdf.derive(&base.cred.composite()).unwrap_or_else(|_| base.master());
    let hk = hmac_key(seed, &master);
    let cipher = last(&f, 2).and_then(|u| Ciph::from_uuid(u).ok()).unwrap_or(base.cipher);
    let iv = last(&f, 7).unwrap_or(&base.iv);
    let base_iv = bytes(cipher.iv_len(), 2);
    let enc = crypt(cipher, &cipher_key(seed, &master), iv, &base_iv, plain);
    let mut o = seal_header(h, &hk);
    o.extend(hmac_blocks(&hk, &[&enc], true));
    o
}
pub fn plain4(base: &Cfg, xml: &[u8]) -> Vec<u8> {
    let mut p = inner_bytes(&base.inner_fields(), &[]);
    p.extend(xml);
    compress(base.comp, &p)
}

pub fn seal3(h: &[u8], base: &Cfg, data: &[u8]) -> Vec<u8> {
    let f = lenient(h, 3);
    let seed = last(&f, 4).unwrap_or(&base.seed);
    let (r0, s0) = match &base.kdf {
        Kdf::Aes { rounds, salt, .. } => (*rounds, salt.clone()),
        _ => unreachable!(),
    };
    let salt = last(&f, 5).filter(|s| s.len() == 32).cloned().unwrap_or(s0);
    let rounds = last(&f, 6).and_then(|r| r.as_slice().try_into().ok().map(u64::from_le_bytes)).unwrap_or(r0);
    let master = Kdf::Aes { rounds, salt, legacy_uuid: true }.derive(&base.cred.composite()).unwrap_or_else(|_| base.master());
    let start = last(&f, 9).cloned().unwrap_or_default();
    let cipher = last(&f, 2).and_then(|u| Ciph::from_uuid(u).ok()).unwrap_or(base.cipher);
    let iv = last(&f, 7).unwrap_or(&base.iv);
    let base_iv = bytes(cipher.iv_len(), 2);
    let mut plain = start;
    plain.extend(data);
    let mut o = h.to_vec();
    o.extend(crypt(cipher, &cipher_key(seed, &master), iv, &base_iv, &plain));
    o
}

fn header_with_claim(major: u16, fields: &Fields, at: usize, claim: u32, cut: bool) -> Vec<u8> {
    let mut o = prelude(major, if major == 4 { 0 } else { 1 });
    let end: Vec<u8> = b"\r\n\r\n".to_vec();
    for (i, (t, d)) in fields.iter().chain(Some(&(0, end))).enumerate() {
        let from = o.len();
        tlv(&mut o, major, *t, d);
        if i == at {
            if major == 4 {
                o[from + 1..from + 5].copy_from_slice(&claim.to_le_bytes());
            } else {
                o[from + 1..from + 3].copy_from_slice(&(claim as u16).to_le_bytes());
            }
            if cut {
                break;
            }
        }
    }
    o
}

pub const NASTY: [&str; 44] = [
    "", " ", "x", "0", "1", "-1", "True", "true", "TRUE", "False", "null", "4294967296", "-2147483649", "99999999999999999999", "1e9", "0x10", "AA==", "AAAA", "AAAAAAAAAAA=", "//////////8=", "//////////9/", "AAAAAAAAAIA=", "////////////", "AAAAAAAAAAAAAAAAAAAAAA==",
    "AAAAAAAAAAAAAAAAAAAAAAAA", "=", "====", "A===", "\u{e9}", "2015-02-29T00:00:00Z", "0000-00-00T00:00:00Z", "9999-12-31T23:59:59Z", "10000-01-01T00:00:00Z", "+262142-12-31T23:59:59Z", "-262143-01-01T00:00:00Z", "2015-01-01T00:00:60Z", "2015-01-01T00:00:00+23:59", "2015-01-01T00:00:00", "TZ", "Z",
    "otpauth://totp/?secret=&period=99999999999&digits=-1", "otpauth://", "://", "otpauth://totp/x?secret=%FF%00&period=&digits",
];
pub const NAMES: [&str; 34] = [
    "KeePassFile", "Meta", "Root", "Group", "Entry", "String", "Key", "Value", "History", "Times", "UUID", "Name", "Notes", "CustomData", "Item", "MemoryProtection", "ProtectTitle", "ProtectPassword", "Generator", "DatabaseName", "DatabaseDescription", "HeaderHash", "CreationTime", "LastModificationTime",
    "LastAccessTime", "ExpiryTime", "Expires", "UsageCount", "LocationChanged", "Binary", "DeletedObjects", "AutoType", "Unknown", "x:y",
];

pub fn count_els(e: &El) -> usize {
    1 + e.kids.iter().map(|k| if let Node::El(e) = k { count_els(e) } else { 0 }).sum::<usize>()
}
/// Applies `f` to the element list holding the `at`-th element (in document order) and its place there.
pub fn edit(e: &mut El, at: &mut usize, f: &mut dyn FnMut(&mut Vec<Node>, usize)) -> bool {
    let mut i = 0;
    while i < e.kids.len() {
        if let Node::El(_) = e.kids[i] {
            if *at == 0 {
                f(&mut e.kids, i);
                return true;
            }
            *at -= 1;
            let Node::El(c) = &mut e.kids[i] else { unreachable!() };
            if edit(c, at, f) {
                return true;
            }
        }
        i += 1;
    }
    false
}

pub fn run(e: &mut Engine) {
    e.rule = "a case is one malformed input (or a small family of them); outcomes name how far it got".into();
    e.assumptions.push("headers asking for more than 64 MiB, 64 passes, 64 lanes or 100000 rounds are skipped and counted: that work is asked for by the file".into());
    e.assumptions.push("memory bound: 128 MiB for inputs of about ten kilobytes (a deflate stream expands at most by 1032)".into());
    let thorough = !e.quick();
    let d = small();
    let cred = Cred::pw("kdbxrs");
    let mut bases: Vec<Cfg> = crate::lib_io::some_cfgs();
    if !thorough {
        // Twofish is slow; its own paths are in the paddings phase
        bases[1].cipher = Ciph::Aes;
    }
    let try_file = |b: &[u8], c: &mut Case| -> Res {
        if !affordable(b) {
            c.add("skipped_for_work_factor", 1);
            return Ok(());
        }
        let o = poke(b, &cred)?;
        c.seen(o, b);
        Ok(())
    };

    // ---- outermost layer ----
    let prefixes: Vec<Vec<u8>> = {
        let mut v = vec![vec![], prelude(4, 0)[..4].to_vec(), prelude(4, 0)[..8].to_vec(), prelude(4, 0), prelude(3, 1), prelude(4, 1)];
        for major in [3, 4] {
            for t in 0..14 {
                let mut p = prelude(major, 1);
                p.push(t);
                v.push(p);
            }
        }
        v
    };
    e.phase("short", prefixes.len() as u64 * 256, |i, c| {
        if !thorough && i / prefixes.len() as u64 % 4 > 0 && i % prefixes.len() as u64 > 5 {
            return Ok(());
        }
        let mut x = Dec(i);
        let p = x.of(&prefixes);
        if x.0 == 0 {
            try_file(p, c)?;
        }
        for b in 0..=256u32 {
            let mut y = p.clone();
            y.push(x.0 as u8);
            if b < 256 {
                y.push(b as u8);
            }
            try_file(&y, c)?;
        }
        Ok(())
    });
    let c3 = cfgs3();
    let whole: Vec<Vec<u8>> = bases.iter().map(|c| file4(c, &d)).chain([0, 2, 5, 8].iter().map(|j| file3(&c3[*j], &d))).collect();
    for (j, w) in whole.iter().enumerate() {
        e.phase(&format!("truncations.{j}"), w.len() as u64 + 1, |i, c| try_file(&w[..i as usize], c));
    }

    // ---- KDBX 4 outer header, re-authenticated ----
    let headers: Vec<(Cfg, Vec<u8>, Vec<u8>)> = bases.iter().map(|c| (c.clone(), header_bytes(4, 0, &c.fields4(), b"\r\n\r\n"), plain4(c, &c.xml4(&d)))).collect();
    for (j, (cfg, h, plain)) in headers.iter().enumerate() {
        e.phase(&format!("header-bytes.{j}"), h.len() as u64, |i, c| {
            let mut y = h.clone();
            for v in 0..=255 {
                y[i as usize] = v;
                if !affordable(&y) {
                    c.add("skipped_for_work_factor", 1);
                    continue;
                }
                try_file(&seal4(&y, cfg, plain), c)?;
            }
            Ok(())
        });
        let fields = cfg.fields4();
        let n = fields.len() as u64;
        e.phase(&format!("header-field-sizes.{j}"), n * 131 * 3, |i, c| {
            let mut x = Dec(i);
            let mut f = fields.clone();
            let (at, len, fill) = (x.pick(n), x.pick(131), x.pick(3));
            let orig = f[at].1.clone();
            f[at].1 = (0..len).map(|k| match fill {
                0 => 0,
                1 => 255,
                _ => orig[k % orig.len()],
            }).collect();
            let h = header_bytes(4, 0, &f, b"\r\n\r\n");
            if !affordable(&h) {
                return Ok(());
            }
            try_file(&seal4(&h, cfg, plain), c)
        });
        // two fields at once
        let lens = [0usize, 1, 4, 12, 15, 16, 17, 31, 32, 33, 64];
        e.phase(&format!("header-field-pairs.{j}"), n * n * 121, |i, c| {
            let mut x = Dec(i);
            let mut f = fields.clone();
            let (p, q) = (x.pick(n), x.pick(n));
            if p >= q {
                return Ok(());
            }
            for at in [p, q] {
                let len = *x.of(&lens);
                let orig = f[at].1.clone();
                f[at].1 = (0..len).map(|k| orig[k % orig.len()]).collect();
            }
            let h = header_bytes(4, 0, &f, b"\r\n\r\n");
            if !affordable(&h) {
                return Ok(());
            }
            try_file(&seal4(&h, cfg, plain), c)
        });
        e.phase(&format!("header-claims.{j}"), (n + 1) * CLAIMS.len() as u64 * 2, |i, c| {
            let mut x = Dec(i);
            let at = x.pick(n + 1);
            let h = header_with_claim(4, &fields, at, *x.of(&CLAIMS), x.pick(2) == 1);
            try_file(&h, c)?;
            if !affordable(&h) {
                return Ok(());
            }
            try_file(&seal4(&h, cfg, plain), c)
        });
        // every list of up to 4 fields (each possibly missing or repeated)
        e.phase(&format!("header-field-lists.{j}"), words(n, if thorough { 6 } else { 5 }), |i, c| {
            let f: Fields = word(n, i).iter().map(|k| fields[*k].clone()).collect();
            try_file(&seal4(&header_bytes(4, 0, &f, b""), cfg, plain), c)
        });
        // key derivation dictionary
        let dict = cfg.kdf.dict();
        let dn = dict.len() as u64;
        let with_dict = |raw: &[u8]| {
            let mut f = fields.clone();
            f[4].1 = raw.to_vec();
            header_bytes(4, 0, &f, b"")
        };
        let go = |raw: &[u8], c: &mut Case| -> Res {
            let h = with_dict(raw);
            if !affordable(&h) {
                c.add("skipped_for_work_factor", 1);
                return Ok(());
            }
            try_file(&seal4(&h, cfg, plain), c)
        };
        e.phase(&format!("dictionary-lists.{j}"), words(dn, if thorough { 6 } else { 5 }), |i, c| {
            let l: Vec<_> = word(dn, i).iter().map(|k| dict[*k].clone()).collect();
            go(&dict_bytes(&l), c)
        });
        e.phase(&format!("dictionary-subsets.{j}"), 1 << dn, |i, c| {
            let l: Vec<_> = (0..dn).filter(|k| i >> k & 1 == 1).map(|k| dict[k as usize].clone()).collect();
            go(&dict_bytes(&l), c)
        });
        e.phase(&format!("dictionary-types.{j}"), dn * 256, |i, c| {
            let mut x = Dec(i);
            let mut l = dict.clone();
            l[x.pick(dn)].0 = x.0 as u8;
            go(&dict_bytes(&l), c)
        });
        e.phase(&format!("dictionary-values.{j}"), dn * 70 * 4 * 9, |i, c| {
            let mut x = Dec(i);
            let mut l = dict.clone();
            let at = x.pick(dn);
            let (len, fill) = (x.pick(70), x.pick(4));
            l[at].2 = (0..len).map(|k| match (fill, k) {
                (0, _) => 0,
                (1, _) => 255,
                (2, 0) => 8,
                (2, _) => 0,
                _ => bytes(1, k as u8)[0],
            }).collect();
            let t = *x.of(&[l[at].0, 4, 5, 8, 12, 13, 24, 66, 99]);
            l[at].0 = t;
            go(&dict_bytes(&l), c)
        });
        let raw = dict_bytes(&dict);
        e.phase(&format!("dictionary-cut.{j}"), raw.len() as u64, |i, c| go(&raw[..i as usize], c));
        e.phase(&format!("dictionary-claims.{j}"), raw.len() as u64 * CLAIMS.len() as u64, |i, c| {
            let mut x = Dec(i);
            let mut y = raw.clone();
            let at = x.pick(raw.len() as u64);
            let v = x.of(&CLAIMS).to_le_bytes();
            for k in 0..4.min(y.len() - at) {
                y[at + k] = v[k];
            }
            go(&y, c)
        });
    }
    // key derivation settings
    e.phase("key-derivation-grid", 2 * 14 * 5 * 14 * 6 * 6, |i, c| {
        let mut x = Dec(i);
        let mut cfg = Cfg::plain();
        let id = x.pick(2) == 1;
        let mem = *x.of(&[0u64, 1, 1023, 1024, 7 << 10, 8191, 8192, 8193, 16 << 10, 64 << 10, (64 << 10) + 1, 1 << 20, 4 << 20, 64 << 20]);
        let iters = *x.of(&[0u64, 1, 2, 3, 64]);
        let lanes = *x.of(&[0u32, 1, 2, 3, 4, 8, 16, 63, 64, 65, 255, 0x00ff_ffff, 0x0100_0000, u32::MAX]);
        let version = *x.of(&[0u32, 0x10, 0x11, 0x12, 0x13, u32::MAX]);
        let salt = *x.of(&[0usize, 7, 8, 16, 32, 65]);
        if mem > 4 << 20 && (iters > 1 || version != 0x13 || salt != 32) || lanes > 64 && mem > 64 << 10 || mem.saturating_mul(iters) > 16 << 20 {
            return Ok(());
        }
        cfg.kdf = Kdf::Argon { id, mem, version, iters, lanes, salt: bytes(salt, 1) };
        let h = header_bytes(4, 0, &cfg.fields4(), b"");
        let b = seal4(&h, &Cfg::plain(), &plain4(&cfg, &cfg.xml4(&d)));
        c.seen(poke(&b, &cred)?, &i);
        Ok(())
    });
    e.phase("aes-derivation-grid", 4 * 70, |i, c| {
        let mut x = Dec(i);
        let mut cfg = Cfg::plain();
        cfg.kdf = Kdf::Aes { rounds: *x.of(&[0u64, 1, 2, 1000]), salt: bytes(x.pick(70), 1), legacy_uuid: false };
        let h = header_bytes(4, 0, &cfg.fields4(), b"");
        try_file(&seal4(&h, &Cfg::plain(), &plain4(&cfg, &cfg.xml4(&d))), c)
    });

    // ---- KDBX 4 blocks ----
    let cfg = Cfg::plain();
    let master = cfg.master();
    let hk = hmac_key(&cfg.seed, &master);
    let sealed = seal_header(&header_bytes(4, 0, &cfg.fields4(), b""), &hk);
    let enc = payload4(&cfg, &Layout4::of(&cfg), &cfg.xml4(&d), &master);
    e.phase("block-claims", 4 * CLAIMS.len() as u64 * 2 * 2, |i, c| {
        let mut x = Dec(i);
        let at = x.pick(4);
        let claim = *x.of(&CLAIMS);
        let (cut, authentic) = (x.pick(2) == 1, x.pick(2) == 1);
        let mut y = sealed.clone();
        for (k, ch) in [&enc[..160], &enc[160..480], &enc[480..], &[][..]].iter().enumerate() {
            let len = if k == at { claim } else { ch.len() as u32 };
            // authentic: what the reader will take as the data of this block
            let data = if k == at && authentic { &ch[..ch.len().min(claim as usize)] } else { ch };
            y.extend(hmac256(&block_key(&hk, k as u64), &[&(k as u64).to_le_bytes(), &len.to_le_bytes(), data]));
            y.extend(len.to_le_bytes());
            y.extend_from_slice(if k == at && authentic { data } else { ch });
            if k == at && cut {
                break;
            }
        }
        try_file(&y, c)
    });
    // any ciphertext length
    e.phase("ciphertexts", 4 * 200 * 3, |i, c| {
        let mut x = Dec(i);
        let cfg = x.of(&bases);
        let len = x.pick(200);
        let master = cfg.master();
        let hk = hmac_key(&cfg.seed, &master);
        let mut y = seal_header(&header_bytes(4, 0, &cfg.fields4(), b""), &hk);
        let data: Vec<u8> = match x.pick(3) {
            0 => vec![0; len],
            1 => bytes(len, 9),
            _ => payload4(cfg, &Layout4::of(cfg), &cfg.xml4(&d), &master)[..len].to_vec(),
        };
        let chunks: Vec<&[u8]> = if len == 0 { vec![] } else { vec![&data] };
        y.extend(hmac_blocks(&hk, &chunks, true));
        try_file(&y, c)
    });
    // any padding
    e.phase("paddings", 2 * 2 * 16 * 256, |i, c| {
        let mut x = Dec(i);
        let mut cfg = cfg.clone();
        cfg.cipher = *x.of(&[Ciph::Aes, Ciph::Twofish]);
        let whole = x.pick(2) == 1;
        let (n, v) = (x.pick(16) + 1, x.pick(256) as u8);
        let mut p = plain4(&cfg, &cfg.xml4(&d));
        if whole {
            p.clear();
        }
        let fill = 16 - p.len() % 16;
        p.extend(vec![fill as u8; fill]);
        let at = p.len() - n;
        p[at..].fill(v);
        let hk = hmac_key(&cfg.seed, &master);
        let mut y = seal_header(&header_bytes(4, 0, &cfg.fields4(), b""), &hk);
        let enc = cfg.cipher.encrypt_raw(&cipher_key(&cfg.seed, &master), &cfg.iv, &p);
        y.extend(hmac_blocks(&hk, &[&enc], true));
        try_file(&y, c)
    });
    // ---- inside the encryption ----
    for (j, cfg) in bases.iter().enumerate() {
        let h = header_bytes(4, 0, &cfg.fields4(), b"");
        let mut p = inner_bytes(&cfg.inner_fields(), &[]);
        let inner_len = p.len() as u64;
        p.extend(cfg.xml4(&d));
        e.phase(&format!("payload-cut.{j}"), p.len() as u64, |i, c| try_file(&seal4(&h, cfg, &compress(cfg.comp, &p[..i as usize])), c));
        let z = compress(cfg.comp, &p);
        e.phase(&format!("compressed-cut.{j}"), z.len() as u64, |i, c| try_file(&seal4(&h, cfg, &z[..i as usize]), c));
        e.phase(&format!("inner-bytes.{j}"), inner_len, |i, c| {
            let mut y = p.clone();
            for v in 0..=255 {
                y[i as usize] = v;
                try_file(&seal4(&h, cfg, &compress(cfg.comp, &y)), c)?;
            }
            Ok(())
        });
        e.phase(&format!("inner-claims.{j}"), inner_len * CLAIMS.len() as u64, |i, c| {
            let mut x = Dec(i);
            let mut y = p.clone();
            let at = x.pick(inner_len);
            y[at..at + 4].copy_from_slice(&x.of(&CLAIMS).to_le_bytes());
            try_file(&seal4(&h, cfg, &compress(cfg.comp, &y)), c)
        });
        let values: &[u8] = if thorough { &ALL } else { &[0, 1, 2, 3, 4, 8, 16, 31, 32, 64, 127, 128, 139, 224, 255] };
        if cfg.comp != Comp::None {
            e.phase(&format!("compressed-bytes.{j}"), z.len() as u64, |i, c| {
                let mut y = z.clone();
                for v in values {
                    y[i as usize] = *v;
                    try_file(&seal4(&h, cfg, &y), c)?;
                }
                Ok(())
            });
        }
        let mut inner = cfg.inner_fields();
        inner.push((3, b"\x01attachment".to_vec()));
        inner.push((4, vec![]));
        e.phase(&format!("inner-lists.{j}"), words(4, 5), |i, c| {
            let f: Fields = word(4, i).iter().map(|k| inner[*k].clone()).collect();
            let mut y = inner_bytes(&f, &[]);
            y.extend(cfg.xml4(&d));
            try_file(&seal4(&h, cfg, &compress(cfg.comp, &y)), c)
        });
        e.phase(&format!("inner-keys.{j}"), 12 * 131 * 10, |i, c| {
            let mut x = Dec(i);
            let id = *x.of(&[0u32, 1, 2, 3, 4, 5, 255, 256, 257, 0x0200_0000, 0x8000_0002, u32::MAX]);
            let key = bytes(x.pick(131), 3);
            let idlen = x.pick(10);
            let mut idb = id.to_le_bytes().to_vec();
            idb.resize(idlen, 0);
            let mut y = inner_bytes(&vec![(1, idb), (2, key)], &[]);
            y.extend(cfg.xml4(&d));
            try_file(&seal4(&h, cfg, &compress(cfg.comp, &y)), c)
        });
        e.phase(&format!("attachments.{j}"), 256 * 70, |i, c| {
            let mut x = Dec(i);
            let mut inner = cfg.inner_fields();
            inner.push((x.pick(256) as u8, bytes(x.pick(70), 0)));
            let mut y = inner_bytes(&inner, &[]);
            y.extend(cfg.xml4(&d));
            try_file(&seal4(&h, cfg, &compress(cfg.comp, &y)), c)
        });
    }

    // ---- KDBX 3.1 ----
    for (j, cfg) in [0usize, 2, 5, 8].iter().map(|j| &c3[*j]).enumerate().filter(|(_, c)| thorough || c.cipher != Ciph::Twofish) {
        let l = Layout3::of(cfg);
        let xml = xml3(cfg, &l, &d, false);
        let z = compress(cfg.comp, &xml);
        let data = hashed_blocks(&split(&z, &[100, 200]), true);
        let h = l.header();
        e.phase(&format!("v3-header-bytes.{j}"), h.len() as u64, |i, c| {
            let mut y = h.clone();
            for v in 0..=255 {
                y[i as usize] = v;
                if !affordable(&y) {
                    c.add("skipped_for_work_factor", 1);
                    continue;
                }
                try_file(&seal3(&y, cfg, &data), c)?;
            }
            Ok(())
        });
        let n = l.fields.len() as u64;
        e.phase(&format!("v3-field-sizes.{j}"), n * 131 * 3, |i, c| {
            let mut x = Dec(i);
            let mut f = l.fields.clone();
            let (at, len, fill) = (x.pick(n), x.pick(131), x.pick(3));
            let orig = f[at].1.clone();
            f[at].1 = (0..len).map(|k| match fill {
                0 => 0,
                1 => 255,
                _ => orig[k % orig.len()],
            }).collect();
            let h = header_bytes(3, 1, &f, b"");
            if !affordable(&h) {
                return Ok(());
            }
            try_file(&seal3(&h, cfg, &data), c)
        });
        e.phase(&format!("v3-field-claims.{j}"), (n + 1) * CLAIMS.len() as u64 * 2, |i, c| {
            let mut x = Dec(i);
            let h = header_with_claim(3, &l.fields, x.pick(n + 1), *x.of(&CLAIMS), x.pick(2) == 1);
            if !affordable(&h) {
                return Ok(());
            }
            try_file(&seal3(&h, cfg, &data), c)
        });
        e.phase(&format!("v3-field-subsets.{j}"), 1 << n, |i, c| {
            let f: Fields = (0..n).filter(|k| i >> k & 1 == 1).map(|k| l.fields[k as usize].clone()).collect();
            try_file(&seal3(&header_bytes(3, 1, &f, b""), cfg, &data), c)?;
            // the last one repeated, the first one emptied
            if let Some(x) = f.last().cloned() {
                let mut g = f.clone();
                g.push(x);
                g[0].1.clear();
                try_file(&seal3(&header_bytes(3, 1, &g, b""), cfg, &data), c)?;
            }
            Ok(())
        });
        e.phase(&format!("v3-payload-cut.{j}"), data.len() as u64, |i, c| try_file(&seal3(&h, cfg, &data[..i as usize]), c));
        e.phase(&format!("v3-compressed-cut.{j}"), z.len() as u64, |i, c| try_file(&seal3(&h, cfg, &hashed_blocks(&split(&z[..i as usize], &[]), true)), c));
        e.phase(&format!("v3-document-cut.{j}"), xml.len() as u64, |i, c| try_file(&seal3(&h, cfg, &hashed_blocks(&split(&compress(cfg.comp, &xml[..i as usize]), &[]), true)), c));
        // block framing: every byte of the three block headers and the terminator
        let frames: Vec<usize> = [0, 40 + 100, 80 + 300, data.len() - 40].iter().flat_map(|s| *s..*s + 40).collect();
        e.phase(&format!("v3-frame-bytes.{j}"), frames.len() as u64, |i, c| {
            let mut y = data.clone();
            for v in 0..=255 {
                y[frames[i as usize]] = v;
                try_file(&seal3(&h, cfg, &y), c)?;
            }
            Ok(())
        });
        e.phase(&format!("v3-frame-claims.{j}"), frames.len() as u64 * CLAIMS.len() as u64, |i, c| {
            let mut x = Dec(i);
            let mut y = data.clone();
            let at = *x.of(&frames);
            let v = x.of(&CLAIMS).to_le_bytes();
            for k in 0..4.min(y.len() - at) {
                y[at + k] = v[k];
            }
            try_file(&seal3(&h, cfg, &y), c)
        });
        // authentic hash, lying length
        e.phase(&format!("v3-block-claims.{j}"), CLAIMS.len() as u64 * 3, |i, c| {
            let mut x = Dec(i);
            let claim = *x.of(&CLAIMS);
            let kind = x.pick(3);
            let n = z.len().min(claim as usize);
            let mut y = vec![0; 4];
            y.extend(sha256(&z[..n]));
            y.extend(claim.to_le_bytes());
            y.extend_from_slice(&z[..n]);
            if kind > 0 {
                y.extend(hashed_blocks(&[&z[n..]], kind == 1));
            }
            try_file(&seal3(&h, cfg, &y), c)
        });
        e.phase(&format!("v3-streams.{j}"), 10 * 70 * 10, |i, c| {
            let mut x = Dec(i);
            let mut f = l.fields.clone();
            let id = *x.of(&[0u32, 1, 2, 3, 4, 255, 256, 0x0200_0000, 0x8000_0002, u32::MAX]);
            f[6].1 = bytes(x.pick(70), 3);
            let mut idb = id.to_le_bytes().to_vec();
            idb.resize(x.pick(10), 0);
            f[8].1 = idb;
            try_file(&seal3(&header_bytes(3, 1, &f, b""), cfg, &data), c)
        });
        e.phase(&format!("v3-tails.{j}"), 64, |i, c| {
            let mut y = seal3(&h, cfg, &data);
            let n = y.len() - i as usize;
            y.truncate(n);
            try_file(&y, c)?;
            y.resize(n + 2 * i as usize, 7);
            try_file(&y, c)
        });
    }

    // ---- the document ----
    let dom = dom_db(&rich(), TimeForm::B64);
    let text = render(&dom, true, &mut KeyStream::new(Inner::Salsa, &bytes(64, 5))).into_bytes();
    let iso_text = render(&dom_db(&rich(), TimeForm::Iso), false, &mut KeyStream::new(Inner::Chacha, &bytes(64, 5))).into_bytes();
    for (j, t) in [&text, &iso_text].into_iter().enumerate() {
        e.phase(&format!("document-cut.{j}"), t.len() as u64, |i, c| {
            c.seen(parse_any(&t[..i as usize], j as u64 + 1)?, &i);
            Ok(())
        });
        let values: &[u8] = if thorough { &ALL } else { b"\0 <>&\"'/=;#!?-A1\x80\xc3\xff\n" };
        e.phase(&format!("document-bytes.{j}"), t.len() as u64, |i, c| {
            let mut y = t.clone();
            for v in values {
                y[i as usize] = *v;
                c.seen(parse_any(&y, j as u64 + 1)?, &(i, v));
            }
            Ok(())
        });
        e.phase(&format!("document-deletions.{j}"), t.len() as u64, |i, c| {
            let i = i as usize;
            for n in [1, 2, 3, 5, 8, 13, 21, 34, 55, 89] {
                if i + n <= t.len() {
                    let y = [&t[..i], &t[i + n..]].concat();
                    c.seen(parse_any(&y, j as u64 + 1)?, &(i, n));
                    let y = [&t[..i + n], &t[i..]].concat();
                    c.seen(parse_any(&y, j as u64 + 1)?, &(i, n, 1));
                }
            }
            Ok(())
        });
    }
    let els = count_els(&dom) as u64 - 1;
    let ks = || KeyStream::new(Inner::Salsa, &bytes(64, 5));
    let shell = |x: &[u8], c: &mut Case, key: &dyn std::fmt::Debug| -> Res {
        let o = parse_any(x, 1)?;
        c.seen(o, &format!("{key:?}"));
        Ok(())
    };
    e.phase("elements-removed", els * els, |i, c| {
        let mut x = Dec(i);
        let (mut p, mut q) = (x.pick(els), x.pick(els));
        if p < q {
            return Ok(());
        }
        let mut y = dom.clone();
        edit(&mut y, &mut p, &mut |v, i| {
            v.remove(i);
        });
        if p != q {
            edit(&mut y, &mut q, &mut |v, i| {
                v.remove(i);
            });
        }
        shell(render(&y, false, &mut ks()).as_bytes(), c, &i)
    });
    e.phase("elements-repeated", els * 4, |i, c| {
        let mut x = Dec(i);
        let mut p = x.pick(els);
        let kind = x.pick(4);
        let mut y = dom.clone();
        edit(&mut y, &mut p, &mut |v, i| match kind {
            0 => {
                let n = v[i].clone();
                v.insert(i, n);
            }
            // inside itself
            1 => {
                let n = v[i].clone();
                if let Node::El(e) = &mut v[i] {
                    e.kids.push(n);
                }
            }
            2 => {
                let n = v[i].clone();
                if let Node::El(e) = &mut v[i] {
                    e.kids.insert(0, n);
                }
            }
            // around itself
            _ => {
                if let Node::El(e) = v[i].clone() {
                    v[i] = Node::El(El { name: e.name.clone(), attrs: vec![], kids: vec![Node::El(e)] });
                }
            }
        });
        shell(render(&y, false, &mut ks()).as_bytes(), c, &i)
    });
    e.phase("elements-renamed", els * NAMES.len() as u64 * 2, |i, c| {
        let mut x = Dec(i);
        let mut p = x.pick(els);
        let name = *x.of(&NAMES);
        let swap = x.pick(2) == 1;
        let mut y = dom.clone();
        edit(&mut y, &mut p, &mut |v, i| {
            if let Node::El(e) = &mut v[i] {
                if swap {
                    // an empty one beside it
                    v.insert(i, Node::El(El { name: name.into(), attrs: vec![], kids: vec![] }));
                } else {
                    e.name = name.into();
                }
            }
        });
        shell(render(&y, true, &mut ks()).as_bytes(), c, &i)
    });
    // one-time password addresses in every shape
    let pieces = ["otpauth://", "totp/", "x", "?", "&", "=", "secret", "period", "digits", "%", "%4", "%f0%9f", "0", "-1", "4294967296", "\u{e9}", " ", "#", ":", "/"];
    let np = pieces.len() as u64;
    let len = e.pick(3, 5) as u32;
    e.phase("addresses", words(np, len) * 3, |i, c| {
        let mut x = Dec(i);
        let start = *x.of(&["", "otpauth://totp/x?", "otpauth://totp/x?secret=A&"]);
        let tail: String = word(np, x.0).into_iter().map(|k| pieces[k]).collect();
        let text = format!("{start}{tail}").replace('&', "&amp;");
        let y = format!("<KeePassFile><Root><Group><Entry><String><Key>otp</Key><Value>{text}</Value></String></Entry></Group></Root></KeePassFile>");
        c.seen(parse_any(y.as_bytes(), 0)?, &i);
        c.sample(|| y.clone());
        Ok(())
    });
    e.phase("element-texts", els * NASTY.len() as u64 * 3, |i, c| {
        let mut x = Dec(i);
        let mut p = x.pick(els);
        let t = *x.of(&NASTY);
        let kind = x.pick(3);
        let mut y = dom.clone();
        edit(&mut y, &mut p, &mut |v, i| {
            if let Node::El(e) = &mut v[i] {
                match kind {
                    0 => e.kids = vec![Node::Text(t.into())],
                    1 => e.kids.insert(0, Node::Text(t.into())),
                    _ => {
                        e.kids = vec![Node::Text(t.into())];
                        e.attrs = vec![("Protected".into(), "True".into())];
                    }
                }
            }
        });
        let b = render(&y, false, &mut ks()).into_bytes();
        shell(&b, c, &i)?;
        // the same as a whole archive
        if kind == 0 {
            let mut cfg = Cfg::plain();
            cfg.inner = Inner::Salsa;
            try_file(&encode4_with(&cfg, &Layout4::of(&cfg), &b, &master), c)?;
        }
        Ok(())
    });
    // characters of several bytes at each place of texts with a fixed form
    let forms = ["2015-02-28T00:00:00Z", "AAAAAAAAAAA=", "AAAAAAAAAAAAAAAAAAAAAA==", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "True", "4294967295", "otpauth://totp/x?secret=a&period=30&digits=6"];
    e.phase("wide-characters", els * forms.len() as u64 * 3, |i, c| {
        let mut x = Dec(i);
        let p = x.pick(els);
        let form: Vec<char> = x.of(&forms).chars().collect();
        let ch = ['\u{e9}', '\u{20ac}', '\u{1F511}'][x.pick(3)];
        for at in 0..=form.len() {
            let mut t = form.clone();
            if at < t.len() {
                t[at] = ch;
            } else {
                t.push(ch);
            }
            let t: String = t.into_iter().collect();
            let mut y = dom.clone();
            edit(&mut y, &mut p.clone(), &mut |v, i| {
                if let Node::El(e) = &mut v[i] {
                    e.kids = vec![Node::Text(t.clone())];
                }
            });
            shell(render(&y, false, &mut ks()).as_bytes(), c, &(i, at))?;
        }
        Ok(())
    });
    // long texts of characters of several bytes: no length in bytes falls between characters for all of them
    let sizes: &[usize] = if thorough { &[40, 300, 3000, 5000, 17_000, 70_000, 140_000, 600_000] } else { &[40, 300, 5000, 70_000] };
    e.phase("wide-texts", els * 9 * sizes.len() as u64 * 2, |i, c| {
        let mut x = Dec(i);
        let mut p = x.pick(els);
        let (ch, before) = *x.of(&[('\u{e9}', 0), ('\u{e9}', 1), ('\u{20ac}', 0), ('\u{20ac}', 1), ('\u{20ac}', 2), ('\u{1F511}', 0), ('\u{1F511}', 1), ('\u{1F511}', 2), ('\u{1F511}', 3)]);
        let n = *x.of(sizes);
        let mut t = "a".repeat(before);
        while t.len() < n {
            t.push(ch);
        }
        let prot = x.pick(2) == 1;
        let mut y = dom.clone();
        edit(&mut y, &mut p, &mut |v, i| {
            if let Node::El(e) = &mut v[i] {
                if prot {
                    e.kids = vec![Node::Text(b64(t.as_bytes()))];
                    e.attrs = vec![("Protected".into(), "True".into())];
                } else {
                    e.kids = vec![Node::Text(t.clone())];
                }
            }
        });
        // without a key stream, so that the protected texts are these as well
        c.seen(parse_any(render(&y, false, &mut KeyStream::None).as_bytes(), 0)?, &i);
        Ok(())
    });
    e.phase("attributes", els * 14, |i, c| {
        let mut x = Dec(i);
        let mut p = x.pick(els);
        let (k, v) = *x.of(&[
            ("Protected", "True"), ("Protected", "False"), ("Protected", ""), ("Protected", "x"), ("Protected", "true"), ("protected", "True"), ("ProtectedInMemory", "True"), ("Ref", "0"), ("Ref", "-1"), ("ID", "99999999999999999999"), ("Compressed", "True"), ("xmlns", "urn:x"), ("a:b", "c"), ("xml:space", "preserve"),
        ]);
        let mut y = dom.clone();
        edit(&mut y, &mut p, &mut |n, i| {
            if let Node::El(e) = &mut n[i] {
                e.attrs = vec![(k.into(), v.into())];
            }
        });
        shell(render(&y, false, &mut ks()).as_bytes(), c, &i)
    });
    // every sequence of tokens
    let tokens: Vec<&str> = vec![
        "<KeePassFile>", "</KeePassFile>", "<Meta>", "</Meta>", "<Root>", "</Root>", "<Group>", "</Group>", "<Entry>", "</Entry>", "<String>", "</String>", "<Key>a</Key>", "<Value Protected=\"True\">AA</Value>", "<Value/>", "<History>", "</History>", "<Times>", "<UsageCount>x", "x", "<!--", "<![CDATA[", "&", "<?xml version=\"1.0\"?>",
    ];
    let tn = tokens.len() as u64;
    let depth = if thorough { 5 } else { 4 };
    e.phase("token-sequences", words(tn, depth), |i, c| {
        let y: String = word(tn, i).iter().map(|k| tokens[*k]).collect();
        c.seen(parse_any(y.as_bytes(), 1)?, &i);
        Ok(())
    });
    let outer = "<KeePassFile><Root><Group>";
    e.phase("tokens-in-a-group", words(tn, depth), |i, c| {
        let y: String = Some(outer).into_iter().chain(word(tn, i).iter().map(|k| tokens[*k])).collect();
        c.seen(parse_any(y.as_bytes(), 1)?, &i);
        Ok(())
    });
    e.phase("tokens-in-an-entry", words(tn, depth), |i, c| {
        let mut y: String = "<KeePassFile><Root><Group><Entry>".into();
        y.extend(word(tn, i).iter().map(|k| tokens[*k]));
        y.push_str("</Entry></Group></Root></KeePassFile>");
        c.seen(parse_any(y.as_bytes(), 1)?, &i);
        Ok(())
    });
    // nesting
    let chains: Vec<(&str, &str, &str)> = vec![
        ("", "<KeePassFile>", "</KeePassFile>"), ("<KeePassFile>", "<Meta>", "</Meta>"), ("<KeePassFile>", "<Root>", "</Root>"), ("<KeePassFile><Root>", "<Group>", "</Group>"), ("<KeePassFile><Root><Group>", "<Entry>", "</Entry>"), ("<KeePassFile><Root><Group>", "<Entry><History>", "</History></Entry>"),
        ("<KeePassFile><Root><Group><Entry>", "<String>", "</String>"), ("<KeePassFile><Root><Group><Entry><String>", "<Value>", "</Value>"), ("<KeePassFile><Meta>", "<CustomData>", "</CustomData>"), ("<KeePassFile><Meta><CustomData>", "<Item>", "</Item>"), ("<KeePassFile><Root><Group>", "<Times>", "</Times>"),
        ("<KeePassFile>", "<Unknown>", "</Unknown>"), ("<KeePassFile><Meta>", "<u>", "</u>"), ("<KeePassFile><Root>", "<u>", "</u>"), ("<KeePassFile><Root><Group>", "<u>", "</u>"), ("<KeePassFile><Root><Group><Entry>", "<u>", "</u>"), ("<KeePassFile><Root><Group><Entry><String>", "<u>", "</u>"), ("<KeePassFile><Meta>", "<MemoryProtection>", "</MemoryProtection>"),
        ("", "<u>", "</u>"), ("<KeePassFile><Root><Group>", "<Group><Entry><History>", "</History></Entry></Group>"), ("<KeePassFile><Root><Group><Entry><History>", "<u>", "</u>"), ("<KeePassFile><Root><Group><Times>", "<u>", "</u>"), ("<KeePassFile><Meta><CustomData>", "<u>", "</u>"), ("<KeePassFile><Root><Group><Entry>", "<History>", "</History>"),
        ("<KeePassFile><Root><Group><Entry><Times>", "<CreationTime>", "</CreationTime>"), ("<KeePassFile><Root><Group>", "<Name>", "</Name>"), ("<KeePassFile><Root><Group>", "<UUID>", "</UUID>"), ("<KeePassFile><Root><Group>", "<!DOCTYPE x [", "]>"), ("<KeePassFile><Root><Group>", "<![CDATA[", "]]>"), ("<KeePassFile><Root><Group>", "<!--", "-->"),
    ];
    let depths: Vec<usize> = (1..=64).chain([100, 127, 128, 129, 199, 200, 201, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 300, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 5000, 10_000]).chain(if thorough { vec![30_000, 100_000] } else { vec![] }).collect();
    // on the stack an ordinary thread has
    e.stack = 2 << 20;
    e.phase("nesting", chains.len() as u64 * depths.len() as u64 * 2, |i, c| {
        let mut x = Dec(i);
        let (pre, open, close) = *x.of(&chains);
        let n = *x.of(&depths);
        let closed = x.pick(2) == 1;
        let mut y = pre.to_string() + &open.repeat(n);
        if closed {
            y += &close.repeat(n);
            for t in pre.split('<').skip(1).collect::<Vec<_>>().into_iter().rev() {
                y += &format!("</{t}");
            }
        }
        c.seen(parse_any(y.as_bytes(), 0)?, &i);
        if closed {
            let cfg = Cfg::new(Ciph::Chacha, Comp::Gzip(6, 0), aeskdf(1), Inner::Salsa);
            try_file(&encode4_with(&cfg, &Layout4::of(&cfg), y.as_bytes(), &master), c)?;
        }
        Ok(())
    });
    e.stack = 8 << 20;
    // wide documents, long names and values, many attributes
    e.phase("wide", 14 * 12, |i, c| {
        let mut x = Dec(i);
        let kind = x.pick(14);
        let n = [1usize, 2, 10, 100, 1000, 10_000, 50_000, 255, 256, 257, 65535, 65536][x.pick(12)];
        let g = |s: String| format!("<KeePassFile><Root><Group>{s}</Group></Root></KeePassFile>");
        let y = match kind {
            0 => g("<Entry/>".repeat(n)),
            1 => g("<Group/>".repeat(n)),
            2 => g(format!("<Entry>{}</Entry>", "<String/>".repeat(n))),
            3 => g(format!("<Entry><History>{}</History></Entry>", "<Entry/>".repeat(n))),
            4 => g(format!("<Name>{}</Name>", "x".repeat(n))),
            5 => g(format!("<Name>{}</Name>", "&amp;".repeat(n))),
            6 => g(format!("<{0}></{0}>", "u".repeat(n))),
            7 => g(format!("<u {}/>", (0..n.min(5000)).map(|k| format!("a{k}='' ")).collect::<String>())),
            8 => g("<!-- x -->".repeat(n)),
            9 => g("<?x y?>".repeat(n)),
            10 => g(format!("<Name>{}</Name>", "<![CDATA[x]]>".repeat(n))),
            11 => " ".repeat(n),
            12 => g("&lt;".repeat(n)),
            _ => g(format!("<UsageCount>{}</UsageCount>", "9".repeat(n))),
        };
        c.seen(parse_any(y.as_bytes(), 0)?, &i);
        Ok(())
    });
    // document types, entities, encodings
    e.phase("entities", 10 * 12 * 6, |i, c| {
        let mut x = Dec(i);
        let (levels, fan) = (x.pick(10) + 1, x.pick(12) + 1);
        let kind = x.pick(6);
        let mut dtd = String::from("<!DOCTYPE KeePassFile [<!ENTITY e0 \"0123456789\">");
        for l in 1..=levels {
            dtd += &format!("<!ENTITY e{l} \"{}\">", format!("&e{};", l - 1).repeat(fan));
        }
        if kind == 1 {
            dtd += "<!ENTITY e0 \"&e1;\">";
        }
        dtd += "]>";
        let use_at = match kind {
            0 | 1 => format!("<Name>&e{levels};</Name>"),
            2 => format!("<Entry><String><Key>k</Key><Value>&e{levels};</Value></String></Entry>"),
            3 => format!("<u>&e{levels};</u>"),
            4 => "<Name>&undefined;</Name>".into(),
            _ => format!("&e{levels};"),
        };
        let y = format!("{dtd}<KeePassFile><Root><Group>{use_at}</Group></Root></KeePassFile>");
        c.seen(parse_any(y.as_bytes(), 0)?, &i);
        Ok(())
    });
    let plain = String::from_utf8(render(&dom_db(&small(), TimeForm::B64), false, &mut KeyStream::new(Inner::None, &[])).into_bytes()).unwrap();
    e.phase("encodings", 24 * 6, |i, c| {
        let mut x = Dec(i);
        let name = *x.of(&["", "UTF-8", "utf-8", "UTF-16", "UTF-16LE", "UTF-16BE", "ISO-8859-1", "latin1", "US-ASCII", "ASCII", "x", "UTF-32", "KOI8-R", "windows-1252", "Shift_JIS", "UTF8", "utf-7", "EBCDIC", "\u{e9}", "a b", "-", "UCS-2", "UTF-8\u{0}", "UNICODE"]);
        let body = plain.trim_start_matches(|c| c != '<').to_string();
        let body = match body.find("?>") {
            Some(p) if body.starts_with("<?xml") => body[p + 2..].to_string(),
            _ => body,
        };
        let s = format!("<?xml version=\"1.0\" encoding=\"{name}\"?>{body}");
        let y: Vec<u8> = match x.pick(6) {
            0 => s.into_bytes(),
            1 => [&[0xef, 0xbb, 0xbf][..], s.as_bytes()].concat(),
            2 => [0xff, 0xfe].into_iter().chain(s.encode_utf16().flat_map(u16::to_le_bytes)).collect(),
            3 => [0xfe, 0xff].into_iter().chain(s.encode_utf16().flat_map(u16::to_be_bytes)).collect(),
            4 => s.encode_utf16().flat_map(u16::to_le_bytes).collect(),
            _ => [&[0xff, 0xfe, 0, 0][..], s.as_bytes()].concat(),
        };
        c.seen(parse_any(&y, 0)?, &i);
        Ok(())
    });
    // byte strings in place of the document
    e.phase("not-documents", 65536, |i, c| {
        let b = [(i & 255) as u8, (i >> 8) as u8];
        c.seen(parse_any(&b, 0)?, &i);
        c.seen(parse_any(&[b'<', b[0], b[1]], 0)?, &(i, 1));
        c.seen(parse_any(&[b"<KeePassFile", &b[..]].concat(), 0)?, &(i, 2));
        c.seen(parse_any(&[b"<KeePassFile>", &b[..], b"</KeePassFile>"].concat(), 0)?, &(i, 3));
        Ok(())
    });
}

const ALL: [u8; 256] = {
    let mut a = [0; 256];
    let mut i = 0;
    while i < 256 {
        a[i] = i as u8;
        i += 1;
    }
    a
};
