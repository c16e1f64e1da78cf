//! Only the right credentials unlock, and a failed try costs nothing.

use crate::engine::*;
use crate::ensure;
use crate::layouts::*;
use crate::lib_io::*;
use crate::model::*;
use crate::refcodec::*;
use crate::refxml::Inner;
use kdbx_rs::binary::Locked;
use kdbx_rs::errors::UnlockError;
use kdbx_rs::Kdbx;

fn cred(p: Option<&str>, k: Option<&[u8]>) -> Cred {
    Cred { pw: p.map(str::to_string), kf: k.map(<[u8]>::to_vec) }
}

/// Credentials chosen so that near misses of every kind are in the matrix.
fn credentials(thorough: bool) -> Vec<Cred> {
    let mut pws: Vec<Option<String>> = vec![None];
    for s in ["", " ", "a", "b", "aa", "ab", "kdbxrs", "KDBXRS", "Kdbxrs", "kdbxr", "dbxrs", "kdbxrs ", " kdbxrs", "kdbxrs\n", "kdbxrs\0", "\0kdbxrs", "kdbxrskdbxrs", "srxbdk", "\u{e9}", "e\u{301}", "\u{ff21}", "key-file"] {
        pws.push(Some(s.into()));
    }
    for n in [31, 32, 33, 55, 56, 63, 64, 65, 127, 128, 129, 1000] {
        pws.push(Some("x".repeat(n)));
        pws.push(Some(format!("{}y", "x".repeat(n - 1))));
        pws.push(Some(format!("y{}", "x".repeat(n - 1))));
    }
    let mut v: Vec<Cred> = pws.iter().map(|p| Cred { pw: p.clone(), kf: None }).collect();
    // one-bit neighbours of the password
    for i in 0..48 {
        let mut b = b"kdbxrs".to_vec();
        b[i / 8] ^= 1 << (i % 8);
        if let Ok(s) = String::from_utf8(b) {
            v.push(Cred::pw(&s));
        }
    }
    let kfs: [&[u8]; 12] = [b"", b"a", b"b", b"key-file", b"key-file\n", b"kdbxrs", &[0; 32], &[1; 32], b"0000000000000000000000000000000000000000000000000000000000000000", &[0; 64], &[0xff; 33], &[5; 2000]];
    for k in kfs {
        for p in [None, Some(""), Some("a"), Some("kdbxrs"), Some("key-file")] {
            v.push(cred(p, Some(k)));
        }
    }
    // swapped parts, digests instead of texts
    v.push(cred(Some("b"), Some(b"a")));
    v.push(cred(Some("a"), Some(b"b")));
    v.push(cred(None, Some(&sha256(b"kdbxrs"))));
    v.push(cred(None, Some(&[sha256(b"kdbxrs"), sha256(b"key-file")].concat())));
    v.push(cred(None, Some(&Cred::pw("kdbxrs").composite())));
    for i in 0..64 {
        let mut b = b"key-file".to_vec();
        b[i / 8] ^= 1 << (i % 8);
        v.push(cred(Some("kdbxrs"), Some(&b)));
        if thorough {
            v.push(cred(None, Some(&b)));
        }
    }
    v
}

fn mismatch(e: &UnlockError) -> bool {
    matches!(e, UnlockError::HmacInvalid | UnlockError::StartBytesInvalid)
}

fn attempt(k: Kdbx<Locked>, with: &Cred, right: &Cred, d: &MDb, what: &str) -> Result<Option<Kdbx<Locked>>, Violation> {
    let key = with.lib();
    let same = with.composite() == right.composite();
    match api("unlock", || k.unlock(&key))? {
        Ok(k) => {
            ensure!(same, "{what}: saved with {right:?}, unlocks with {with:?}");
            let got = observe(k.database());
            ensure!(&got == d, "{what}: content differs: {}", diff(d, &got));
            Ok(None)
        }
        Err(x) => {
            ensure!(!same, "{what}: saved with {right:?}, does not unlock with {with:?}: {}", x.1);
            ensure!(mismatch(&x.1), "{what}: wrong credentials are reported as {:?}", x.1);
            Ok(Some(x.0))
        }
    }
}

pub fn run(e: &mut Engine) {
    e.rule = "a case is one (saved with, tried with) pair or one sequence of attempts; pairs with equal credentials are non-trivial too".into();
    e.assumptions.push("equality of composed keys (SHA-256 of concatenated SHA-256) decides which credentials are the same; a password and a key file of the same bytes compose equally by the format".into());
    let thorough = !e.quick();
    let cs = credentials(thorough);
    let n = cs.len() as u64;
    let d = small();
    // archives saved by the library
    let kdfs = [aeskdf(1), argon(false), argon(true), Kdf::Argon { id: false, mem: 16 * 1024, version: 0x10, iters: 2, lanes: 2, salt: bytes(16, 1) }];
    let make = |kdf: &Kdf, c: &Cred| -> V<Vec<u8>> {
        let mut cfg = Cfg::new(Ciph::Chacha, Comp::None, kdf.clone(), Inner::Chacha);
        cfg.cred = c.clone();
        let k = archive(&d, &cfg)??;
        Ok(save(&k)??)
    };
    for (j, kdf) in kdfs.iter().enumerate() {
        e.phase(&format!("matrix-v4.{j}"), n, |i, c| {
            let right = &cs[i as usize];
            let b = make(kdf, right)?;
            // the archive comes back from each failed attempt and is used for the next one
            let mut k = open(&b)??;
            for with in &cs {
                k = match attempt(k, with, right, &d, "archive saved by the library")? {
                    Some(k) => {
                        c.seen("refused", &(j, right, with));
                        k
                    }
                    None => {
                        c.seen("unlocked", &(j, right, with));
                        open(&b)??
                    }
                };
            }
            c.sample(|| format!("{right:?} against {} others", n));
            Ok(())
        });
    }
    let c3 = cfgs3();
    for (j, cfg) in c3.iter().enumerate().filter(|(j, _)| thorough || [0, 2, 5, 8].contains(j)) {
        e.phase(&format!("matrix-v3.{j}"), n, |i, c| {
            let right = &cs[i as usize];
            let mut cfg = cfg.clone();
            cfg.cred = right.clone();
            let b = file3(&cfg, &d);
            let mut k = open(&b)??;
            for with in &cs {
                k = match attempt(k, with, right, &d, "KDBX 3.1 archive")? {
                    Some(k) => {
                        c.seen("refused", &(j, right, with));
                        k
                    }
                    None => {
                        c.seen("unlocked", &(j, right, with));
                        open(&b)??
                    }
                };
            }
            Ok(())
        });
    }
    // all short words against each other
    const LETTERS: [char; 7] = ['a', 'A', 'b', ' ', '\0', '\n', '\u{e9}'];
    let count = words(7, if thorough { 4 } else { 3 });
    e.phase("short-words", count * 2, |i, c| {
        let text = |i: u64| word(7, i).iter().map(|k| LETTERS[*k]).collect::<String>();
        let of = |t: String| if i % 2 == 0 { Cred { pw: Some(t), kf: None } } else { Cred { pw: None, kf: Some(t.into_bytes()) } };
        let right = of(text(i / 2));
        let b = make(&kdfs[0], &right)?;
        let mut k = open(&b)??;
        for j in 0..count {
            let with = of(text(j));
            k = match attempt(k, &with, &right, &d, "short words")? {
                Some(k) => k,
                None => open(&b)??,
            };
            c.seen(if i / 2 == j { "unlocked" } else { "refused" }, &(i, j));
        }
        Ok(())
    });
    // every character in a password: it is part of the credential and stands for itself only
    let plain = {
        let mut cfg = Cfg::new(Ciph::Chacha, Comp::None, aeskdf(1), Inner::Chacha);
        cfg.cred = Cred::pw("ab");
        cfg
    };
    let base = file4(&plain, &d);
    const SCALARS: u64 = 0x110000 - 0x800;
    const STEP: u64 = 64;
    e.phase("characters", SCALARS / STEP, |i, c| {
        let mut k = open(&base)??;
        let whole = |t: &str| -> Res {
            let mut cfg = plain.clone();
            cfg.cred = Cred::pw(t);
            let b = file4(&cfg, &d);
            attempt(open(&b)??, &cfg.cred, &cfg.cred, &d, "with the character").map(|_| ())
        };
        let mut all = String::new();
        for n in i * STEP..(i + 1) * STEP {
            let ch = char::from_u32(if n < 0xd800 { n } else { n + 0x800 } as u32).unwrap();
            let mut forms = vec![format!("a{ch}b")];
            all.push(ch);
            let each = thorough || n < 0x3100;
            if each {
                forms.extend([format!("{ch}ab"), format!("ab{ch}"), format!("a{ch}{ch}b")]);
            }
            for t in forms {
                let with = Cred::pw(&t);
                k = match attempt(k, &with, &plain.cred, &d, "without the character")? {
                    Some(k) => k,
                    None => open(&base)??,
                };
                if each {
                    whole(&t)?;
                }
                c.seen("character", &t);
            }
        }
        whole(&all)
    });
    // every beginning and end of a key file, and beginnings with a meaning elsewhere
    let signatures: Vec<Vec<u8>> = [&b"\xef\xbb\xbf"[..], b"\0\0\xfe\xff", b"\xff\xfe\0\0", b"\x1f\x8b\x08", b"\x89PNG", b"%PDF-", b"-----BEGIN", b"<?xml version=\"1.0\" encoding=\"utf-8\"?>", b"<KeyFile>", b"#!", b"\x03\xd9\xa2\x9a", b"0x", b"# ", b"\r\n", b"\n\n", b"\r\r\n", b"   ", b"\0\0\0", b"\0\0\0\0", b"\xe2\x80\x8b", b"\xc2\xa0"].iter().map(|s| s.to_vec()).collect();
    e.phase("key-file-edges", (256 + 65_536 + signatures.len() as u64) * 3, |i, c| {
        let mut x = Dec(i);
        let place = x.pick(3);
        let edge = match x.0 {
            n if n < 256 => vec![n as u8],
            n if n < 256 + 65_536 => ((n - 256) as u16).to_be_bytes().to_vec(),
            n => signatures[(n - 256 - 65_536) as usize].clone(),
        };
        let content = match place {
            0 => [&edge[..], b"key"].concat(),
            1 => [b"key", &edge[..]].concat(),
            _ => edge,
        };
        let with = cred(None, Some(&content));
        let right = cred(None, Some(b"key"));
        let mut cfg = plain.clone();
        cfg.cred = right.clone();
        attempt(open(&file4(&cfg, &d))??, &with, &right, &d, "key file without its edge")?;
        cfg.cred = with.clone();
        attempt(open(&file4(&cfg, &d))??, &with, &with, &d, "key file with its edge")?;
        c.seen("edge", &content);
        Ok(())
    });
    // long passwords and key files: every byte counts
    let lengths = [200usize, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 16_384, 65_535, 65_536, 65_537, 1 << 20, (1 << 20) + 1, (1 << 20) + 4096, (1 << 21) + 1, (1 << 22) + 1];
    e.phase("long", lengths.len() as u64 * 3 * 2, |i, c| {
        let mut x = Dec(i);
        let n = *x.of(&lengths);
        let kind = x.pick(3);
        let of = |t: String| match kind {
            0 => Cred { pw: Some(t), kf: None },
            1 => Cred { pw: None, kf: Some(t.into_bytes()) },
            _ => Cred { pw: Some("kdbxrs".into()), kf: Some(t.into_bytes()) },
        };
        let right = of("x".repeat(n));
        let b = if x.pick(2) == 0 {
            make(&kdfs[0], &right)?
        } else {
            let mut cfg = plain3();
            cfg.cred = right.clone();
            file3(&cfg, &d)
        };
        let mut tries = vec![right.clone(), of("x".repeat(n - 1)), of("x".repeat(n + 1)), of("x".repeat(2 * n)), of("x".repeat(n / 2)), Cred::default()];
        let mut marks: Vec<usize> = (0..23).map(|k| 1usize << k).chain([0, n / 2]).filter(|p| *p < n).collect();
        marks.extend((0..23).map(|k| 1usize << k).filter(|p| *p <= n).map(|p| n - p));
        for p in marks {
            tries.push(of(format!("{}y{}", "x".repeat(p), "x".repeat(n - p - 1))));
        }
        let mut k = open(&b)??;
        for with in &tries {
            // the text of a message would hold the whole credential
            k = match attempt(k, with, &right, &d, "long").map_err(|v| Violation { msg: format!("{n} bytes, kind {kind}: {}", v.msg.chars().take(60).collect::<String>()), key: v.key })? {
                Some(k) => {
                    c.seen("refused", &(&right, with));
                    k
                }
                None => {
                    c.seen("unlocked", &(&right, with));
                    open(&b)??
                }
            };
        }
        Ok(())
    });
    // every configuration against a few credentials, written by the reference encoder
    let few = [Cred::pw("kdbxrs"), cred(Some("kdbxrs"), Some(b"key-file")), cred(None, Some(b"key-file")), cred(Some("kdbxr"), None), Cred::default(), cred(Some(""), None), cred(Some("key-file"), Some(b"kdbxrs"))];
    let all = all_cfgs();
    e.phase("settings", (all.len() * few.len() * few.len()) as u64, |i, c| {
        let mut x = Dec(i);
        let mut cfg = x.of(&all).clone();
        cfg.cred = x.of(&few).clone();
        let with = x.of(&few);
        let b = file4(&cfg, &d);
        let k = open(&b)??;
        match attempt(k, with, &cfg.cred, &d, "reference archive")? {
            None => c.seen("unlocked", &i),
            Some(_) => c.seen("refused", &i),
        }
        Ok(())
    });
    // every sequence of attempts: a failed one leaves no trace
    let tries = [cred(Some("wrong"), None), Cred::default(), cred(Some("kdbxrs"), Some(b"")), cred(None, Some(b"wrong")), Cred::pw("kdbxrs")];
    let depth = if thorough { 6 } else { 4 };
    let files: Vec<(String, Vec<u8>)> = {
        let mut v = vec![];
        for (j, c) in some_cfgs().iter().enumerate() {
            v.push((format!("v4.{j}"), file4(c, &d)));
        }
        for j in [0, 3, 7, 8] {
            v.push((format!("v3.{j}"), file3(&c3[j], &d)));
        }
        v
    };
    let w = words(5, depth);
    e.phase("sequences", w * files.len() as u64, |i, c| {
        let mut x = Dec(i);
        let (name, b) = x.of(&files);
        let seq = word(5, x.0);
        let right = Cred::pw("kdbxrs");
        let fresh = open(b)??;
        let mut k = open(b)??;
        for (step, t) in seq.iter().enumerate() {
            let what = format!("{name}, attempt {step} of {seq:?}");
            k = match attempt(k, &tries[*t], &right, &d, &what)? {
                Some(k) => {
                    ensure!(k.header() == fresh.header(), "{what}: the header changed");
                    ensure!(k.major_version() == fresh.major_version() && k.minor_version() == fresh.minor_version(), "{what}: the version changed");
                    let mut out = vec![];
                    let r = api("write", || k.write(&mut out))?;
                    ensure!(r.is_ok() && &out == b, "{what}: the archive handed back differs from the one tried");
                    c.add("failed_attempts", 1);
                    k
                }
                None => open(b)??,
            };
        }
        c.seen("sequence", &i);
        Ok(())
    });
}
