//! Saved files are valid KDBX 4 for an independent reader.

use crate::engine::*;
use crate::gen::*;
use crate::lib_io::*;
use crate::model::*;
use crate::refcodec::*;
use crate::{bail, ensure};

pub const SAMPLES: [(&str, &str, Option<&[u8]>); 9] = [
    ("kdbx31-aes256.kdbx", "kdbxrs", None),
    ("kdbx4-aes256.kdbx", "kdbxrs", None),
    ("kdbx4-argon2d.kdbx", "kdbxrs", None),
    ("kdbx4-argon2d-chacha20.kdbx", "kdbxrs", None),
    ("kdbx4-argon2d-key-file.kdbx", "kdbxrs", Some(b"key-file")),
    ("kdbx4-argon2d-twofish.kdbx", "kdbxrs", None),
    ("kdbx4-argon2d-uncompressed.kdbx", "kdbxrs", None),
    ("kdbx4-argon2id.kdbx", "kdbxrs", None),
    ("keepassxc-otp.kdbx", "kdbxrs", None),
];

/// Judges saved bytes with the strict decoder.
pub fn decodes(b: &[u8], d: &MDb, cfg: &Cfg) -> V<Decoded> {
    let x = match decode(b, &cfg.cred) {
        Ok(x) => x,
        Err(e) => return Err(format!("independent reader rejects the file: {e}").into()),
    };
    let bad = |what: String| Err(Violation::from(what));
    if x.major != 4 {
        return bad(format!("saved as version {}", x.major));
    }
    if x.cipher != cfg.cipher || x.gz != (cfg.comp != Comp::None) {
        return bad(format!("saved with {:?}, compressed {}; configured {:?}, {:?}", x.cipher, x.gz, cfg.cipher, cfg.comp));
    }
    let canon = |k: &Kdf| match k.clone() {
        // both identifiers of the AES derivation are in use
        Kdf::Aes { rounds, salt, .. } => Kdf::Aes { rounds, salt, legacy_uuid: false },
        k => k,
    };
    if canon(&x.kdf) != canon(&cfg.kdf) {
        return bad(format!("saved with key derivation {:?}, configured {:?}", x.kdf, cfg.kdf));
    }
    if x.inner != cfg.inner || x.inner_key != cfg.inner_key {
        return bad(format!("saved with inner stream {:?}", x.inner));
    }
    let field = |t: u8| x.fields.iter().find(|f| f.0 == t).map(|f| &f.1);
    if field(4) != Some(&cfg.seed) || field(7) != Some(&cfg.iv) {
        return bad("saved with another seed or initialisation vector than configured".into());
    }
    match x.db() {
        Err(e) => bad(format!("independent reader rejects the document: {e}")),
        Ok(got) if &got != d => bad(format!("independent reader finds other content: {}", diff(d, &got))),
        Ok(_) => Ok(x),
    }
}

fn judge(d: &MDb, cfg: &Cfg, c: &mut Case) -> Res {
    let k = match archive(d, cfg)? {
        Ok(k) => k,
        Err(e) => bail!("settings refused: {e}"),
    };
    match save(&k)? {
        Err(e) => {
            ensure!(representable(d) == Text::Doubtful, "cannot be saved: {e}");
            c.seen("refused", &(d, cfg));
        }
        Ok(b) => {
            // text outside the format may use a private convention, if it is stored at all
            if representable(d) == Text::Fine {
                let x = decodes(&b, d, cfg)?;
                c.add("blocks", x.blocks.len() as u64);
                c.seen("decoded", &(d, cfg));
            } else {
                match decode(&b, &cfg.cred) {
                    Err(e) => bail!("independent reader rejects the file: {e}"),
                    Ok(_) => c.seen("decoded (doubtful text)", &(d, cfg)),
                }
            }
        }
    }
    Ok(())
}

/// All archives of the repository, whoever wrote them.
pub fn sample_files() -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<_> = std::fs::read_dir("/repo/res/test_input")
        .expect("sample files")
        .map(|f| f.unwrap().path())
        .filter(|p| p.extension().is_some_and(|x| x == "kdbx"))
        .map(|p| (p.file_name().unwrap().to_string_lossy().into_owned(), std::fs::read(&p).unwrap()))
        .collect();
    v.sort();
    v
}

/// The reference decoder has to accept what other programs wrote.
pub fn samples(e: &mut Engine, only4: bool) {
    e.phase("samples", SAMPLES.len() as u64, |i, c| {
        let (name, pw, kf) = SAMPLES[i as usize];
        let b = std::fs::read(format!("/repo/res/test_input/{name}")).expect("sample file");
        let cred = Cred { pw: Some(pw.into()), kf: kf.map(<[u8]>::to_vec) };
        let x = decode(&b, &cred).unwrap_or_else(|e| panic!("reference decoder rejects {name}: {e}"));
        let d = x.db().unwrap_or_else(|e| panic!("reference XML reader rejects {name}: {e}"));
        if only4 && x.major != 4 {
            return Ok(());
        }
        expect_db(&b, &cred, &d, name)?;
        c.seen("sample", name);
        c.sample(|| format!("{name}: {} entries at top", d.root.entries.len()));
        Ok(())
    });
}

pub fn run(e: &mut Engine) {
    e.rule = "a case is one (database, settings) pair, saved by the library and read by the independent decoder; all are non-trivial".into();
    e.assumptions.push("the independent decoder shares cipher and hash primitives with the library; it is validated against files of other programs (phase samples)".into());
    samples(e, false);
    for s in spaces(!e.quick()) {
        e.phase(s.name, s.n, |i, c| {
            let (d, cfg) = (s.make)(i);
            c.sample(|| describe(&d, &cfg));
            judge(&d, &cfg, c)
        });
    }
    // files opened by the library and saved again
    e.phase("resaved", 36 * 2, |i, c| {
        let mut x = Dec(i);
        let cfg = x.of(&all_cfgs()).clone();
        let d = if x.pick(2) == 0 { rich() } else { small() };
        let k = expect_db(&file4(&cfg, &d), &cfg.cred, &d, "reference file")?;
        let b = save(&k)??;
        decodes(&b, &d, &cfg)?;
        c.seen("decoded", &i);
        Ok(())
    });
    // whatever layout they had
    let thorough = !e.quick();
    for s in crate::layouts::files4(thorough) {
        let step = if thorough { 1 } else { s.n.div_ceil(2500).max(1) };
        e.phase(&format!("resaved:{}", s.name), s.n.div_ceil(step), |i, c| {
            let x = (s.make)(i * step);
            if x.bytes.is_empty() || matches!(x.cfg.comp, Comp::Gzip(_, 4)) {
                c.seen("trivial", &0);
                return Ok(());
            }
            let k = match load(&x.bytes, &x.cfg.cred)? {
                Ok(k) => k,
                // opening is the subject of another property
                Err(_) => {
                    c.seen("trivial", &0);
                    return Ok(());
                }
            };
            let d = observe(k.database());
            match save(&k)? {
                Err(e) => ensure!(representable(&d) == Text::Doubtful, "{}: cannot be saved again: {e}", x.what),
                Ok(b) => match decode(&b, &x.cfg.cred) {
                    Err(e) => bail!("{}: saved again, an independent reader rejects the file: {e}", x.what),
                    Ok(y) => match y.db() {
                        Err(e) => bail!("{}: saved again, an independent reader rejects the document: {e}", x.what),
                        Ok(got) => ensure!(got == d || representable(&d) != Text::Fine, "{}: saved again, an independent reader finds other content: {}", x.what, diff(&d, &got)),
                    },
                },
            }
            c.seen("decoded", &x.bytes);
            c.sample(|| x.what.clone());
            Ok(())
        });
    }
}
