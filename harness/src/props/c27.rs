//! A refusal names its reason.

use super::c07::{plain4, seal3, seal4};
use crate::engine::*;
use crate::layouts::*;
use crate::lib_io::*;
use crate::model::*;
use crate::refcodec::*;
use crate::refxml::Inner;
use crate::{bail, ensure};
use kdbx_rs::binary::{Cipher, CompressionType, InnerStreamCipherAlgorithm, KdfParams, Unlocked, VariantDict};
use kdbx_rs::database::{Entry, Field, Group};
use kdbx_rs::errors::*;
use kdbx_rs::{Error, Kdbx};
use std::io::{self, ErrorKind, Read};
use uuid::Uuid;

fn header_reason(e: &HeaderError) -> String {
    match e {
        HeaderError::Io(e) => format!("io {:?}", e.kind()),
        HeaderError::MalformedField(f, _) => format!("malformed {f:?}"),
        HeaderError::MalformedInnerField(f, _) => format!("malformed inner {f:?}"),
        HeaderError::MissingRequiredField(f) => format!("missing {f:?}"),
        HeaderError::MissingRequiredInnerField(f) => format!("missing inner {f:?}"),
        HeaderError::MissingKdfParam(p, a) => format!("parameter {p} of {a:?}"),
        HeaderError::ChecksumFailed => "checksum".into(),
        HeaderError::UnknownCipher(_) => "cipher".into(),
        #[allow(unreachable_patterns)]
        e => format!("other {e:?}"),
    }
}
fn open_reason(e: &OpenError) -> String {
    match e {
        OpenError::NonKeepassFormat => "not keepass".into(),
        OpenError::UnsupportedFileFormat => "not kdbx".into(),
        OpenError::UnsupportedMajorVersion(v) => format!("version {v}"),
        OpenError::InvalidHeader(e) => header_reason(e),
        OpenError::Io(e) => format!("io {:?}", e.kind()),
        #[allow(unreachable_patterns)]
        e => format!("other {e:?}"),
    }
}
fn xml_reason(e: &XmlReadError) -> String {
    match e {
        XmlReadError::Xml(_) => "xml".into(),
        XmlReadError::KeyEmptyName => "xml: empty name".into(),
        XmlReadError::InvalidUuid => "xml: identifier".into(),
        XmlReadError::InvalidDatetime => "xml: time".into(),
        XmlReadError::InvalidNumber => "xml: number".into(),
        XmlReadError::DecryptFailed(k) => format!("xml: decrypt {k}"),
        XmlReadError::NestedTooDeeply => "xml: nested".into(),
        #[allow(unreachable_patterns)]
        e => format!("xml: other {e:?}"),
    }
}
fn unlock_reason(e: &UnlockError) -> String {
    match e {
        UnlockError::HmacInvalid => "credentials 4".into(),
        UnlockError::StartBytesInvalid => "credentials 3".into(),
        UnlockError::KeyGen(_) => "key derivation".into(),
        UnlockError::Decrypt(_) => "decrypt".into(),
        // the inner header is read through the authenticated stream
        UnlockError::InvalidInnerHeader(HeaderError::Io(e)) => format!("inner io {:?}", e.kind()),
        UnlockError::InvalidInnerHeader(e) => format!("inner header: {}", header_reason(e)),
        UnlockError::InnerStream(InnerStreamError::UnsupportedCipher(c)) => format!("inner stream {}", u32::from(*c)),
        UnlockError::InvalidXml(e) => xml_reason(e),
        #[allow(unreachable_patterns)]
        e => format!("other {e:?}"),
    }
}
fn write_reason(e: &WriteError) -> String {
    match e {
        WriteError::Io(e) => format!("io {:?}", e.kind()),
        WriteError::XmlWrite(_) => "xml".into(),
        WriteError::UnsupportedMajorVersion(v) => format!("version {v}"),
        WriteError::MissingKeys => "no key".into(),
        WriteError::LockedHeaderChanged => "locked".into(),
        WriteError::KeyGen(_) => "key derivation".into(),
        WriteError::InnerStream(InnerStreamError::UnsupportedCipher(c)) => format!("inner stream {}", u32::from(*c)),
        #[allow(unreachable_patterns)]
        e => format!("other {e:?}"),
    }
}

/// What opening and unlocking ends with; the reason stays the same in the library's general error type.
fn outcome(r: impl Read, cred: &Cred) -> V<String> {
    let k = match api("from_reader", || kdbx_rs::from_reader(r))? {
        Ok(k) => k,
        Err(e) => {
            let (why, text) = (open_reason(&e), e.to_string());
            ensure!(!text.is_empty(), "no text for {why}");
            let general: Error = e.into();
            let all = general.to_string();
            return match general {
                Error::Open(x) if open_reason(&x) == why && all.contains(&text) => Ok(format!("open: {why}")),
                _ => Err(format!("{why} becomes {all} as a general error").into()),
            };
        }
    };
    let key = cred.lib();
    match api("unlock", || k.unlock(&key))? {
        Ok(_) => Ok("opens".into()),
        Err(f) => {
            let (why, text) = (unlock_reason(&f.1), f.1.to_string());
            ensure!(!text.is_empty(), "no text for {why}");
            let general: Error = f.into();
            let all = general.to_string();
            match general {
                Error::Unlock(x) if unlock_reason(&x) == why && all.contains(&text) => Ok(format!("unlock: {why}")),
                _ => Err(format!("{why} becomes {all} as a general error").into()),
            }
        }
    }
}
fn is(got: &str, want: &[String], what: &dyn Fn() -> String) -> Res {
    ensure!(want.iter().any(|w| w == got), "{}: reported as '{got}', not as {want:?}", what());
    Ok(())
}
fn short(got: &str) -> &'static str {
    match got {
        "opens" => "opens",
        x if x.starts_with("open: ") => "does not open",
        x if x.starts_with("unlock: xml") => "document",
        x if x.starts_with("unlock: credentials") => "credentials",
        "unlock: decrypt" => "decryption",
        _ => "inner header",
    }
}
fn s(x: &str) -> String {
    x.to_string()
}

struct Failing<'a>(&'a [u8], usize, ErrorKind);
impl Read for Failing<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.1 == 0 {
            return Err(io::Error::new(self.2, "scripted"));
        }
        let n = b.len().min(self.1).min(7).min(self.0.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        self.1 -= n;
        Ok(n)
    }
}

const OUTER: [(u8, &str); 11] = [(2, "CipherId"), (3, "CompressionFlags"), (4, "MasterSeed"), (5, "LegacyTransformSeed"), (6, "LegacyTransformRounds"), (7, "EncryptionIv"), (8, "ProtectedStreamKey"), (9, "StreamStartBytes"), (10, "InnerRandomStreamId"), (11, "KdfParameters"), (12, "PublicCustomData")];
fn name(t: u8) -> &'static str {
    OUTER.iter().find(|x| x.0 == t).unwrap().1
}

type Spoiler = (&'static str, &'static str, fn(&mut Kdbx<Unlocked>));
/// What hinders saving, and the reason it must be given.
fn spoilers() -> Vec<Spoiler> {
    vec![
        ("text with a character that cannot be stored", "xml", |k| k.set_name("a\u{0}b")),
        ("a name that cannot be stored", "xml", |k| k.root_mut().set_name("\u{FFFE}")),
        ("a value that cannot be stored", "xml", |k| {
            let mut e = Entry::default();
            e.set_title("\u{1}");
            k.add_entry(e);
        }),
        ("an empty field name", "xml", |k| {
            let mut e = Entry::default();
            e.add_field(Field::new("", "x"));
            k.add_entry(e);
        }),
        ("deep nesting", "xml", |k| {
            let mut g = Group::new("x");
            for _ in 0..5000 {
                let mut o = Group::new("y");
                o.add_group(g);
                g = o;
            }
            k.add_group(g);
        }),
        ("inner stream ArcFour", "inner stream 1", |k| k.inner_header_mut().inner_stream_cipher = InnerStreamCipherAlgorithm::ArcFour),
        ("inner stream none", "inner stream 0", |k| k.inner_header_mut().inner_stream_cipher = InnerStreamCipherAlgorithm::Unknown(0)),
        ("inner stream 4", "inner stream 4", |k| k.inner_header_mut().inner_stream_cipher = InnerStreamCipherAlgorithm::Unknown(4)),
        ("inner stream 2^32-1", "inner stream 4294967295", |k| k.inner_header_mut().inner_stream_cipher = InnerStreamCipherAlgorithm::Unknown(u32::MAX)),
        ("unknown key derivation", "key derivation", |k| k.header_mut().kdf_params = KdfParams::Unknown { uuid: Uuid::from_u128(7), params: VariantDict::new() }),
        ("AES key derivation with a short seed", "key derivation", |k| k.header_mut().kdf_params = KdfParams::Aes { rounds: 1, salt: vec![1; 31] }),
        ("AES key derivation with a long seed", "key derivation", |k| k.header_mut().kdf_params = KdfParams::Aes { rounds: 1, salt: vec![1; 33] }),
        ("Argon2 with a short salt", "key derivation", |k| {
            if let KdfParams::Argon2 { salt, .. } = &mut k.header_mut().kdf_params {
                salt.truncate(7);
            } else {
                k.header_mut().kdf_params = KdfParams::Aes { rounds: 1, salt: vec![] };
            }
        }),
        ("unknown cipher", "io", |k| k.header_mut().cipher = Cipher::Unknown(Uuid::from_u128(9))),
        ("unknown compression", "io", |k| k.header_mut().compression_type = CompressionType::Unknown(7)),
        ("short initialisation vector", "io", |k| k.header_mut().encryption_iv = vec![1; 5]),
        ("long initialisation vector", "io", |k| k.header_mut().encryption_iv = vec![1; 17]),
    ]
}

pub fn run(e: &mut Engine) {
    e.rule = "a case is one refused file, source, destination or archive; distinct by its bytes or by what hinders it".into();
    let d = small();
    let cfgs4 = some_cfgs();
    let c4 = Cfg::plain();
    let f4 = file4(&c4, &d);
    let h4 = header_bytes(4, 0, &c4.fields4(), b"\r\n\r\n").len();
    let c3 = plain3();
    let f3 = file3(&c3, &d);
    let l3 = Layout3::of(&c3);
    let all3: Vec<Cfg> = cfgs3();
    let files: Vec<(u16, Cfg, Vec<u8>, usize)> = cfgs4
        .iter()
        .map(|c| (4, c.clone(), file4(c, &d), header_bytes(4, 0, &c.fields4(), b"\r\n\r\n").len()))
        .chain(all3.iter().map(|c| (3, c.clone(), file3(c, &d), Layout3::of(c).header().len())))
        .collect();
    e.phase("unaltered", files.len() as u64, |i, c| {
        let (_, cfg, b, _) = &files[i as usize];
        is(&outcome(&b[..], &cfg.cred)?, &[s("opens")], &|| format!("file {i}"))?;
        c.seen("opens", b);
        Ok(())
    });

    // -- before the header --
    e.phase("signatures", 2 * 8 * 255, |i, c| {
        let mut x = Dec(i);
        let mut b = [&f4, &f3][x.pick(2)].clone();
        let at = x.pick(8);
        b[at] ^= x.0 as u8 + 1;
        is(&outcome(&b[..], &c4.cred)?, &[s(if at < 4 { "open: not keepass" } else { "open: not kdbx" })], &|| format!("byte {at} of the signatures altered"))?;
        c.seen("named", &b);
        Ok(())
    });
    e.phase("both-signatures", 256, |i, c| {
        let mut b = f4.clone();
        b[1] ^= i as u8 | 1;
        b[6] ^= 1 | (i as u8).reverse_bits();
        is(&outcome(&b[..], &c4.cred)?, &[s("open: not keepass")], &|| "both signatures altered".into())?;
        c.seen("named", &b);
        Ok(())
    });
    e.phase("versions", 65_536 * 2, |i, c| {
        let mut x = Dec(i);
        let mut b = [&f4, &f3][x.pick(2)].clone();
        let v = x.0 as u16;
        if v == 3 || v == 4 {
            c.seen("trivial", &0);
            return Ok(());
        }
        b[10..12].copy_from_slice(&v.to_le_bytes());
        is(&outcome(&b[..], &c4.cred)?, &[format!("open: version {v}")], &|| format!("major version {v}"))?;
        c.seen("named", &b);
        Ok(())
    });
    // -- ending or failing early --
    let ends: Vec<(usize, usize)> = files.iter().enumerate().flat_map(|(k, f)| (0..f.2.len()).map(move |n| (k, n))).collect();
    e.phase("truncated", ends.len() as u64, |i, c| {
        let (k, n) = ends[i as usize];
        let (major, cfg, b, h) = &files[k];
        let got = outcome(&b[..n], &cfg.cred)?;
        let what = || format!("file {k} of version {major} cut after {n} of {} bytes", b.len());
        let needed = if *major == 4 { h + 64 } else { *h };
        if n < needed {
            is(&got, &[s("open: io UnexpectedEof")], &what)?;
        } else if *major == 4 || n >= h + 64 {
            // the credentials are right
            ensure!(got == "opens" || got == "unlock: decrypt" || got.starts_with("unlock: inner io "), "{}: reported as '{got}'", what());
        } else {
            ensure!(got == "unlock: decrypt" || got == "unlock: credentials 3" || got.starts_with("unlock: inner io "), "{}: reported as '{got}'", what());
        }
        c.seen(short(&got), &(k, n));
        c.sample(what);
        Ok(())
    });
    const KINDS: [ErrorKind; 8] = [ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::ConnectionReset, ErrorKind::TimedOut, ErrorKind::WouldBlock, ErrorKind::InvalidData, ErrorKind::UnexpectedEof, ErrorKind::Other];
    let points: Vec<(usize, usize)> = [0, files.len() - 1].into_iter().flat_map(|k| (0..=files[k].2.len()).map(move |n| (k, n))).collect();
    e.phase("failing-sources", points.len() as u64 * 8, |i, c| {
        let mut x = Dec(i);
        let kind = *x.of(&KINDS);
        let (k, n) = *x.of(&points);
        let (_, cfg, b, _) = &files[k];
        is(&outcome(Failing(b, n, kind), &cfg.cred)?, &[format!("open: io {kind:?}")], &|| format!("file {k} from a source failing with {kind:?} after {n} bytes"))?;
        c.seen("named", &(k, n, kind));
        Ok(())
    });
    // -- header fields --
    e.phase("missing-fields", 120 * 31, |i, c| {
        let mut x = Dec(i);
        let gone = x.pick(31) as u32 + 1;
        let order = permutation(5, x.0);
        let f = c4.fields4();
        let left: Fields = order.iter().filter(|k| gone >> **k & 1 == 0).map(|k| f[*k].clone()).collect();
        let b = seal4(&header_bytes(4, 0, &left, b"\r\n\r\n"), &c4, &plain4(&c4, &c4.xml4(&d)));
        let want: Vec<String> = (0..5).filter(|k| gone >> k & 1 == 1).map(|k| format!("open: missing {}", name(f[k].0))).collect();
        is(&outcome(&b[..], &c4.cred)?, &want, &|| format!("fields {gone:b} missing"))?;
        c.seen("named", &b);
        Ok(())
    });
    e.phase("missing-fields-3", 511, |i, c| {
        let gone = i + 1;
        let f = c3.fields3(&l3.start);
        let left: Fields = (0..9).filter(|k| gone >> k & 1 == 0).map(|k| f[k].clone()).collect();
        let b = seal3(&header_bytes(3, 1, &left, b"\r\n\r\n"), &c3, &hashed_blocks(&[&xml3(&c3, &l3, &d, false)], true));
        let mut first = vec![];
        let mut later = vec![];
        for k in (0..9).filter(|k| gone >> k & 1 == 1) {
            match f[k].0 {
                t @ (2 | 3 | 4 | 7) => first.push(format!("open: missing {}", name(t))),
                t @ (5 | 6) => first.extend([format!("open: missing {}", name(t)), s("open: missing KdfParameters")]),
                t => later.extend([format!("open: missing {}", name(t)), format!("unlock: inner header: missing {}", name(t))]),
            }
        }
        let got = outcome(&b[..], &c3.cred)?;
        // what prevents opening comes first
        is(&got, if first.is_empty() { &later } else { &first }, &|| format!("fields {gone:b} missing"))?;
        c.seen("named", &b);
        Ok(())
    });
    e.phase("field-lengths", 5 * 80 * 2, |i, c| {
        let mut x = Dec(i);
        let (major, t, right) = [(4u16, 2u8, 16usize), (4, 3, 4), (3, 2, 16), (3, 3, 4), (3, 6, 8)][x.pick(5)];
        let fill = [0x00, 0x41][x.pick(2)];
        let n = x.0 as usize;
        if n == right {
            c.seen("trivial", &0);
            return Ok(());
        }
        let mut f = if major == 4 { c4.fields4() } else { c3.fields3(&l3.start) };
        f.iter_mut().find(|f| f.0 == t).unwrap().1 = vec![fill; n];
        let h = header_bytes(major, if major == 4 { 0 } else { 1 }, &f, b"\r\n\r\n");
        let b = if major == 4 { seal4(&h, &c4, &plain4(&c4, &c4.xml4(&d))) } else { seal3(&h, &c3, &hashed_blocks(&[&xml3(&c3, &l3, &d, false)], true)) };
        is(&outcome(&b[..], &c4.cred)?, &[format!("open: malformed {}", name(t))], &|| format!("field {t} of {n} bytes, version {major}"))?;
        c.seen("named", &b);
        Ok(())
    });
    // -- key derivation parameters --
    let kdfs = [Kdf::Aes { rounds: 1, salt: bytes(32, 4), legacy_uuid: false }, Kdf::Aes { rounds: 1, salt: bytes(32, 4), legacy_uuid: true }, argon(false), argon(true)];
    let algorithms = ["Aes256_Kdbx4", "Aes256_Kdbx3_1", "Argon2d", "Argon2id"];
    let with_dict = |d4: &[u8]| {
        let mut f = c4.fields4();
        f.iter_mut().find(|f| f.0 == 11).unwrap().1 = d4.to_vec();
        let h = header_bytes(4, 0, &f, b"\r\n\r\n");
        let mut b = h.clone();
        b.extend(sha256(&h));
        b.extend(&f4[h4 + 32..]);
        b
    };
    e.phase("missing-parameters", 4 * 63 * 2, |i, c| {
        let mut x = Dec(i);
        let k = x.pick(4);
        let extra = x.pick(2) == 1;
        let gone = x.0 + 1;
        let dict = kdfs[k].dict();
        if gone >> dict.len() != 0 {
            c.seen("trivial", &0);
            return Ok(());
        }
        let mut want = vec![];
        let mut left = vec![];
        for (j, p) in dict.iter().enumerate() {
            if gone >> j & 1 == 0 {
                left.push(p.clone());
            } else {
                want.push(if p.1 == "$UUID" { s("open: malformed KdfParameters") } else { format!("open: parameter {} of {}", p.1, algorithms[k]) });
            }
        }
        // without its identifier it is no key derivation at all
        if want.iter().any(|w| w == "open: malformed KdfParameters") {
            want = vec![s("open: malformed KdfParameters")];
        }
        if extra {
            left.extend(extra_params());
        }
        let b = with_dict(&dict_bytes(&left));
        is(&outcome(&b[..], &c4.cred)?, &want, &|| format!("parameters {gone:b} of {} missing", algorithms[k]))?;
        c.seen("named", &b);
        Ok(())
    });
    let types: [(u8, usize); 7] = [(4, 4), (5, 8), (8, 1), (0xC, 4), (0xD, 8), (0x18, 5), (0x42, 16)];
    e.phase("parameter-types", 4 * 6 * 7, |i, c| {
        let mut x = Dec(i);
        let k = x.pick(4);
        let (t, n) = *x.of(&types);
        let j = x.0 as usize;
        let mut dict = kdfs[k].dict();
        if j >= dict.len() || dict[j].0 == t {
            c.seen("trivial", &0);
            return Ok(());
        }
        dict[j].0 = t;
        dict[j].2 = vec![0x31; n];
        let want = if dict[j].1 == "$UUID" { s("open: malformed KdfParameters") } else { format!("open: parameter {} of {}", dict[j].1, algorithms[k]) };
        let b = with_dict(&dict_bytes(&dict));
        is(&outcome(&b[..], &c4.cred)?, &[want], &|| format!("parameter {} of {} of type {t}", dict[j].1, algorithms[k]))?;
        c.seen("named", &b);
        Ok(())
    });
    let cuts: Vec<(usize, usize)> = kdfs.iter().enumerate().flat_map(|(k, f)| (0..dict_bytes(&f.dict()).len()).map(move |n| (k, n))).collect();
    e.phase("cut-parameters", cuts.len() as u64, |i, c| {
        let (k, n) = cuts[i as usize];
        let b = with_dict(&dict_bytes(&kdfs[k].dict())[..n]);
        is(&outcome(&b[..], &c4.cred)?, &[s("open: malformed KdfParameters")], &|| format!("parameters of {} cut after {n} bytes", algorithms[k]))?;
        c.seen("named", &b);
        Ok(())
    });
    e.phase("identifier-lengths", 80 * 2, |i, c| {
        let n = i as usize / 2;
        if n == 16 {
            c.seen("trivial", &0);
            return Ok(());
        }
        let mut dict = kdfs[i as usize % 2 * 2].dict();
        dict.iter_mut().find(|p| p.1 == "$UUID").unwrap().2 = bytes(n, 3);
        let b = with_dict(&dict_bytes(&dict));
        is(&outcome(&b[..], &c4.cred)?, &[s("open: malformed KdfParameters")], &|| format!("identifier of {n} bytes"))?;
        c.seen("named", &b);
        Ok(())
    });
    // -- checksum and authentication of the header --
    e.phase("checksum", 64 * 255, |i, c| {
        let mut x = Dec(i);
        let at = x.pick(64);
        let mut b = f4.clone();
        b[h4 + at] ^= x.0 as u8 + 1;
        is(&outcome(&b[..], &c4.cred)?, &[s(if at < 32 { "open: checksum" } else { "unlock: credentials 4" })], &|| format!("byte {at} after the header altered"))?;
        c.seen("named", &b);
        Ok(())
    });
    let values: Vec<usize> = {
        // bytes of the seed and the initialisation vector
        let mut p = 12;
        let mut v = vec![];
        for (t, d) in c4.fields4() {
            p += 5;
            if t == 4 || t == 7 {
                v.extend(p..p + d.len());
            }
            p += d.len();
        }
        v
    };
    e.phase("altered-header", values.len() as u64 * 255 * 2, |i, c| {
        let mut x = Dec(i);
        let resealed = x.pick(2) == 1;
        let at = *x.of(&values);
        let mut b = f4.clone();
        b[at] ^= x.0 as u8 + 1;
        if resealed {
            let h = sha256(&b[..h4]);
            b[h4..h4 + 32].copy_from_slice(&h);
        }
        is(&outcome(&b[..], &c4.cred)?, &[s(if resealed { "unlock: credentials 4" } else { "open: checksum" })], &|| format!("byte {at} of the header altered, checksum renewed: {resealed}"))?;
        c.seen("named", &b);
        Ok(())
    });
    // -- credentials --
    let mut creds = vec![Cred::default()];
    for p in ["", " ", "Kdbxrs", "kdbxr", "kdbxrs ", " kdbxrs", "kdbxrs\n", "KDBXRS", "kdbxrs\0", "k", "\u{e9}", "srxbdk"] {
        creds.push(Cred::pw(p));
        creds.push(Cred { pw: None, kf: Some(p.as_bytes().to_vec()) });
        creds.push(Cred { pw: Some("kdbxrs".into()), kf: Some(p.as_bytes().to_vec()) });
        creds.push(Cred { pw: Some(p.into()), kf: Some(b"kdbxrs".to_vec()) });
    }
    creds.extend((0..200).map(|n| Cred::pw(&"x".repeat(n))));
    e.phase("credentials", files.len() as u64 * creds.len() as u64, |i, c| {
        let mut x = Dec(i);
        let cred = x.of(&creds);
        let (major, cfg, b, _) = x.of(&files);
        if cred.composite() == cfg.cred.composite() {
            c.seen("trivial", &0);
            return Ok(());
        }
        is(&outcome(&b[..], cred)?, &[format!("unlock: credentials {major}")], &|| format!("{cred:?} on a file of version {major}"))?;
        c.seen("named", &i);
        Ok(())
    });
    // -- key derivations that cannot be done --
    let mut bad: Vec<(String, Vec<(u8, String, Vec<u8>)>)> = vec![];
    for id in [0u128, 1, u128::MAX, U_AES256.as_u128(), U_KDF_2D.as_u128() ^ 1, U_KDF_AES4.as_u128() ^ 1 << 127] {
        for many in [false, true] {
            let mut p = vec![(0x42, s("$UUID"), id.to_be_bytes().to_vec())];
            if many {
                p.extend(extra_params());
            }
            bad.push((format!("key derivation {id:032x}"), p));
        }
    }
    for n in (0..32).chain(33..70) {
        bad.push((format!("AES key derivation with a seed of {n} bytes"), Kdf::Aes { rounds: 1, salt: bytes(n, 1), legacy_uuid: n % 2 == 1 }.dict()));
    }
    for n in 0..8 {
        bad.push((format!("Argon2 with a salt of {n} bytes"), Kdf::Argon { id: n % 2 == 1, mem: 8192, version: 0x13, iters: 1, lanes: 1, salt: bytes(n, 1) }.dict()));
    }
    for version in [0u32, 1, 0x11, 0x12, 0x14, 0x113, u32::MAX] {
        bad.push((format!("Argon2 version {version}"), Kdf::Argon { id: false, mem: 8192, version, iters: 1, lanes: 1, salt: bytes(32, 1) }.dict()));
    }
    for (mem, iters, lanes) in [(0u64, 1u64, 1u32), (1024, 1, 1), (8192, 0, 1), (8192, 1, 0), (8192, 1, 2), (1 << 60, 1, 1), (8192, 1 << 32, 1), (8192, 1 << 63, 1), (8192, 1, 1 << 24), (8192, 1, u32::MAX)] {
        bad.push((format!("Argon2 with {mem} bytes, {iters} passes, {lanes} lanes"), Kdf::Argon { id: true, mem, version: 0x13, iters, lanes, salt: bytes(32, 1) }.dict()));
    }
    e.phase("key-derivations", bad.len() as u64, |i, c| {
        let (what, dict) = &bad[i as usize];
        let b = with_dict(&dict_bytes(dict));
        is(&outcome(&b[..], &c4.cred)?, &[s("unlock: key derivation")], &|| what.clone())?;
        c.seen("named", &b);
        Ok(())
    });
    // -- damage to what is encrypted, under the right credentials --
    let masks: Vec<u8> = if e.quick() { vec![1, 0x80, 0xFF] } else { (1..=255).collect() };
    let bodies: Vec<(usize, usize)> = files.iter().enumerate().flat_map(|(k, f)| (f.3 + 64..f.2.len()).map(move |n| (k, n))).collect();
    e.phase("damaged", (bodies.len() * masks.len()) as u64, |i, c| {
        let mut x = Dec(i);
        let mask = *x.of(&masks);
        let (k, at) = *x.of(&bodies);
        let (major, cfg, b, _) = &files[k];
        let mut b = b.clone();
        b[at] ^= mask;
        let got = outcome(&b[..], &cfg.cred)?;
        ensure!(got == "unlock: decrypt" || got.starts_with("unlock: inner io ") || got == "opens", "file {k} of version {major}, byte {at} altered: reported as '{got}'");
        c.seen(short(&got), &(k, at, mask));
        Ok(())
    });
    let mut numbers: Vec<u32> = (0..300).chain((0..32).map(|b| 1 << b)).chain((0..32).map(|b| !(1u32 << b))).collect();
    numbers.sort();
    numbers.dedup();
    e.phase("unsupported", numbers.len() as u64 * 4, |i, c| {
        let mut x = Dec(i);
        let which = x.pick(4);
        let n = *x.of(&numbers);
        let xml = c4.xml4(&d);
        let (b, want) = match which {
            0 if n > 1 => {
                let mut f = c4.fields4();
                f[1].1 = n.to_le_bytes().to_vec();
                (seal4(&header_bytes(4, 0, &f, b"\r\n\r\n"), &c4, &plain4(&c4, &xml)), s("unlock: decrypt"))
            }
            1 => {
                let mut f = c4.fields4();
                f[0].1 = (U_AES256.as_u128() ^ (n as u128 + 1) << (n % 64)).to_be_bytes().to_vec();
                (seal4(&header_bytes(4, 0, &f, b"\r\n\r\n"), &c4, &plain4(&c4, &xml)), s("unlock: decrypt"))
            }
            2 if n != 2 && n != 3 => {
                let mut l = Layout4::of(&c4);
                l.inner[0].1 = n.to_le_bytes().to_vec();
                (encode4(&c4, &l, &xml), format!("unlock: inner stream {n}"))
            }
            3 if n != 2 && n != 3 => {
                let mut l = Layout3::of(&c3);
                l.fields.iter_mut().find(|f| f.0 == 10).unwrap().1 = n.to_le_bytes().to_vec();
                let x = xml3(&c3, &l, &d, true);
                (encode3(&c3, &l, &x), format!("unlock: inner stream {n}"))
            }
            _ => {
                c.seen("trivial", &0);
                return Ok(());
            }
        };
        is(&outcome(&b[..], &c4.cred)?, &[want], &|| format!("{} {n}", ["compression", "cipher", "inner stream", "inner stream of version 3"][which]))?;
        c.seen("named", &b);
        Ok(())
    });
    // -- the inner header --
    e.phase("inner-fields", 3 * 2 * 3 + 60, |i, c| {
        let mut l = Layout4::of(&c4);
        let want: Vec<String>;
        let what;
        if i < 18 {
            let mut x = Dec(i);
            let gone = x.pick(3) + 1;
            if x.pick(2) == 1 {
                l.inner.reverse();
            }
            for _ in 0..x.0 {
                l.inner.insert(0, (3, bytes(20, 1)));
            }
            l.inner.retain(|f| f.0 == 3 || gone >> (f.0 - 1) & 1 == 0);
            want = (0..2).filter(|k| gone >> k & 1 == 1).map(|k| format!("unlock: inner header: missing inner {}", ["InnerRandomStreamCipherId", "InnerRandomStreamKey"][k])).collect();
            what = format!("inner fields {gone:b} missing");
        } else {
            let n = i as usize - 18;
            if n == 4 {
                c.seen("trivial", &0);
                return Ok(());
            }
            l.inner[0].1 = bytes(n, 1);
            want = vec![s("unlock: inner header: malformed inner InnerRandomStreamCipherId")];
            what = format!("inner stream number of {n} bytes");
        }
        let b = encode4(&c4, &l, &c4.xml4(&d));
        is(&outcome(&b[..], &c4.cred)?, &want, &|| what.clone())?;
        c.seen("named", &b);
        Ok(())
    });
    let inner_len = inner_bytes(&c4.inner_fields(), &[]).len();
    e.phase("inner-cut", inner_len as u64, |i, c| {
        let h = header_bytes(4, 0, &c4.fields4(), b"\r\n\r\n");
        let b = seal4(&h, &c4, &plain4(&c4, b"")[..i as usize]);
        is(&outcome(&b[..], &c4.cred)?, &[s("unlock: inner io UnexpectedEof")], &|| format!("payload cut after {i} bytes"))?;
        c.seen("named", &b);
        Ok(())
    });
    e.phase("stream-number-lengths-3", 60, |i, c| {
        if i == 4 {
            c.seen("trivial", &0);
            return Ok(());
        }
        let mut l = Layout3::of(&c3);
        l.fields.iter_mut().find(|f| f.0 == 10).unwrap().1 = bytes(i as usize, 1);
        let x = xml3(&c3, &l, &d, true);
        let b = encode3(&c3, &l, &x);
        is(&outcome(&b[..], &c3.cred)?, &[s("unlock: inner header: malformed InnerRandomStreamId"), s("open: malformed InnerRandomStreamId")], &|| format!("inner stream number of {i} bytes"))?;
        c.seen("named", &b);
        Ok(())
    });
    e.phase("header-hash-3", 300, |i, c| {
        let l = Layout3::of(&c3);
        let mut h = sha256(&l.header());
        let text = if i < 256 {
            h[i as usize / 8] ^= 1 << (i % 8);
            crate::refxml::b64(&h)
        } else {
            let n = i as usize - 256;
            if n == 32 {
                c.seen("trivial", &0);
                return Ok(());
            }
            if n == 0 {
                // says nothing
                c.seen("trivial", &0);
                return Ok(());
            }
            crate::refxml::b64(&[&h[..], &h[..]].concat()[..n])
        };
        let right = crate::refxml::b64(&sha256(&l.header()));
        let x = String::from_utf8(xml3(&c3, &l, &d, true)).unwrap().replace(&right, &text).into_bytes();
        let b = encode3(&c3, &l, &x);
        is(&outcome(&b[..], &c3.cred)?, &[s("unlock: inner header: checksum")], &|| format!("header hash {text}"))?;
        c.seen("named", &b);
        Ok(())
    });
    // -- documents --
    let xml = c4.xml4(&d);
    let text = String::from_utf8(xml.clone()).unwrap();
    let last = text.rfind("</KeePassFile>").unwrap();
    let wrap = |x: &[u8]| encode4(&c4, &Layout4::of(&c4), x);
    e.phase("cut-documents", last as u64 + 1, |i, c| {
        let b = wrap(&xml[..i as usize]);
        let got = outcome(&b[..], &c4.cred)?;
        // a protected value may be cut to something that is none
        ensure!(got.starts_with("unlock: xml"), "document cut after {i} bytes: reported as '{got}'");
        c.seen(short(&got), &i);
        Ok(())
    });
    let not = ["", " ", "x", "<", "<a>", "<a/>", "<KeePassFile>", "<KeePassFile></Meta>", "<KeePassFile><Root></KeePassFile>", "\u{0}", "<KeePassFile>&unknown;</KeePassFile>", "PK\u{3}\u{4}", "{}", "<!DOCTYPE html><html></html>", "<keepassfile/>", "<?xml version=\"1.0\"?>"];
    e.phase("not-documents", not.len() as u64, |i, c| {
        let b = wrap(not[i as usize].as_bytes());
        is(&outcome(&b[..], &c4.cred)?, &[s("unlock: xml")], &|| format!("document {:?}", not[i as usize]))?;
        c.seen("named", &b);
        Ok(())
    });
    let mut clear = c4.clone();
    clear.inner = Inner::Chacha;
    let item = |uuid: &str, time: &str, number: &str, fields: &str, within: usize| {
        let times = |t: &str, n: &str| format!("<Times><LastModificationTime>{t}</LastModificationTime><CreationTime>2020-01-01T00:00:00Z</CreationTime><LastAccessTime>2020-01-01T00:00:00Z</LastAccessTime><ExpiryTime>2020-01-01T00:00:00Z</ExpiryTime><Expires>False</Expires><UsageCount>{n}</UsageCount><LocationChanged>2020-01-01T00:00:00Z</LocationChanged></Times>");
        let good = "AAAAAAAAAAAAAAAAAAAAAQ==";
        let (t0, n0) = ("2020-01-01T00:00:00Z", "1");
        let entry = |u: &str, t: &str, n: &str, f: &str, h: &str| format!("<Entry><UUID>{u}</UUID>{}{f}{h}</Entry>", times(t, n));
        let group = |u: &str, t: &str, n: &str, inner: &str| format!("<Group><UUID>{u}</UUID><Name>g</Name>{}{inner}</Group>", times(t, n));
        let root = match within {
            0 => group(good, t0, n0, &entry(uuid, time, number, fields, "")),
            1 => group(good, t0, n0, &entry(good, t0, n0, "", &format!("<History>{}</History>", entry(uuid, time, number, fields, "")))),
            2 => group(uuid, time, number, &entry(good, t0, n0, fields, "")),
            3 => group(good, t0, n0, &group(uuid, time, number, &entry(good, t0, n0, fields, ""))),
            _ => group(good, t0, n0, &[entry(good, t0, n0, "", ""), group(good, t0, n0, &entry(uuid, time, number, fields, ""))].concat()),
        };
        format!("<KeePassFile><Meta><DatabaseName>x</DatabaseName></Meta><Root>{root}</Root></KeePassFile>")
    };
    let (gu, gt, gn) = ("AAAAAAAAAAAAAAAAAAAAAQ==", "2020-01-01T00:00:00Z", "1");
    let mut texts: Vec<(String, String, String, String, String)> = vec![];
    for u in ["", " ", "x", "AAAA", "AAAAAAAAAAAAAAAAAAAAAQ", "AAAAAAAAAAAAAAAAAAAAAAAA", "AAAAAAAAAAAAAAAAAAAAAQ==AAAA", "!AAAAAAAAAAAAAAAAAAAAAQ==", "00000000-0000-0000-0000-000000000001", "\u{e9}"] {
        texts.push((u.into(), gt.into(), gn.into(), s(""), s("unlock: xml: identifier")));
    }
    for t in ["", " ", "x", "2020", "2020-01-01", "2020-13-01T00:00:00Z", "2020-02-30T00:00:00Z", "2020-01-01T25:00:00Z", "2020-01-01T00:00:00", "AAAA", "AAAAAAAAAAAAAAAAAAAAAQ==", "\u{e9}", "yesterday"] {
        texts.push((gu.into(), t.into(), gn.into(), s(""), s("unlock: xml: time")));
    }
    for n in ["x", "-1", "4294967296", "1.5", "1e3", "0x10", "99999999999999999999", "\u{664}", "1 2", "True"] {
        texts.push((gu.into(), gt.into(), n.into(), s(""), s("unlock: xml: number")));
    }
    texts.push((gu.into(), gt.into(), gn.into(), s("<String><Key></Key><Value>x</Value></String>"), s("unlock: xml: empty name")));
    texts.push((gu.into(), gt.into(), gn.into(), s("<String><Key/><Value>x</Value></String>"), s("unlock: xml: empty name")));
    for (k, v) in [("Password", "!"), ("k", "A"), ("k v", "AAA"), ("\u{e9}", "AAAA=AAA"), ("P", "\u{e9}"), ("Q", "AA=="), ("Title", "not base64 at all")] {
        // one byte that decrypts to no text: any of the two highest bits set decides, so all are tried below
        if v == "AA==" {
            continue;
        }
        texts.push((gu.into(), gt.into(), gn.into(), format!("<String><Key>{k}</Key><Value Protected=\"True\">{v}</Value></String>"), format!("unlock: xml: decrypt {k}")));
    }
    {
        // every first byte; those that decrypt to no text must be named
        let mut ks = clear.keystream();
        let mut first = [0u8];
        ks.xor(&mut first);
        for x in 0x80..=0xFFu8 {
            texts.push((gu.into(), gt.into(), gn.into(), format!("<String><Key>byte</Key><Value Protected=\"True\">{}</Value></String>", crate::refxml::b64(&[x ^ first[0]])), s("unlock: xml: decrypt byte")));
        }
    }
    e.phase("document-texts", texts.len() as u64 * 5, |i, c| {
        let mut x = Dec(i);
        let within = x.pick(5);
        let (u, t, n, f, want) = x.of(&texts);
        let doc = item(u, t, n, f, within);
        let b = wrap(doc.as_bytes());
        is(&outcome(&b[..], &c4.cred)?, &[want.clone()], &|| doc.clone())?;
        c.seen("named", &b);
        c.sample(|| format!("{want}: {doc}"));
        Ok(())
    });
    e.phase("good-document", 5, |i, c| {
        let doc = item(gu, gt, gn, "<String><Key>k</Key><Value>v</Value></String>", i as usize);
        is(&outcome(&wrap(doc.as_bytes())[..], &c4.cred)?, &[s("opens")], &|| doc.clone())?;
        c.seen("opens", &i);
        Ok(())
    });

    // -- saving --
    let sp = spoilers();
    e.phase("saving", (sp.len() * 4 * 2) as u64, |i, c| {
        let mut x = Dec(i);
        let cfg = x.of(&cfgs4);
        let opened = x.pick(2) == 1;
        let (what, want, spoil) = x.of(&sp);
        let mut k = if opened { load(&file4(cfg, &d), &cfg.cred)?? } else { archive(&d, cfg)?? };
        spoil(&mut k);
        let got = saving(&k)?;
        // which kind of input error is left open
        ensure!(got == *want || *want == "io" && got.starts_with("io "), "{what}: reported as '{got}', not as '{want}'");
        c.seen("named", &(what, opened, cfg));
        Ok(())
    });
    e.phase("saving-otherwise", 4 * 3, |i, c| {
        let mut x = Dec(i);
        let cfg = x.of(&cfgs4);
        let (got, want) = match x.pick(3) {
            0 => {
                let mut k = Kdbx::from_database(build(&d));
                configure(&mut k, cfg);
                (saving(&k)?, "no key")
            }
            1 => (saving(&load(&f3, &c3.cred)??)?, "version 3"),
            _ => {
                let mut k = open(&file4(cfg, &d))??;
                k.header_mut().master_seed[0] ^= 1;
                let r = api("write", || k.write(&mut vec![]))?;
                match r {
                    Ok(()) => (s("saved"), "locked"),
                    Err(e) => (write_reason(&e), "locked"),
                }
            }
        };
        ensure!(got == want, "reported as '{got}', not as '{want}'");
        c.seen(want, &(cfg, want));
        Ok(())
    });
    e.phase("failing-destinations", 8 * f4.len() as u64, |i, c| {
        struct Sink(usize, ErrorKind);
        impl io::Write for Sink {
            fn write(&mut self, b: &[u8]) -> io::Result<usize> {
                if self.0 == 0 && !b.is_empty() {
                    return Err(io::Error::new(self.1, "scripted"));
                }
                let n = b.len().min(self.0);
                self.0 -= n;
                Ok(n)
            }
            fn flush(&mut self) -> io::Result<()> {
                Ok(())
            }
        }
        let mut x = Dec(i);
        let kind = *x.of(&KINDS);
        let n = x.0 as usize;
        let locked = open(&f4)??;
        match api("write", || locked.write(Sink(n, kind)))? {
            Ok(()) => bail!("destination failing after {n} bytes: reported as saved"),
            Err(e) => {
                let (why, text) = (write_reason(&e), e.to_string());
                ensure!(why == format!("io {kind:?}"), "destination failing with {kind:?} after {n} bytes: reported as '{why}'");
                let general: Error = e.into();
                let all = general.to_string();
                ensure!(matches!(general, Error::Write(_)) && all.contains(&text), "{why} becomes {all} as a general error");
            }
        }
        c.seen("named", &(n, kind));
        Ok(())
    });
}

fn saving(k: &Kdbx<Unlocked>) -> V<String> {
    let mut out = vec![];
    match api("write", || k.write(&mut out))? {
        Ok(()) => Ok("saved".into()),
        Err(e) => {
            let (why, text) = (write_reason(&e), e.to_string());
            let general: Error = e.into();
            let all = general.to_string();
            ensure!(matches!(&general, Error::Write(x) if write_reason(x) == why) && all.contains(&text), "{why} becomes {all} as a general error");
            Ok(why)
        }
    }
}
