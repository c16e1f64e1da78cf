//! A saved database reopens with exactly the same content.

use crate::engine::*;
use crate::gen::*;
use crate::lib_io::*;
use crate::model::*;
use crate::refcodec::*;
use crate::{bail, ensure};
use kdbx_rs::binary::Unlocked;
use kdbx_rs::utils::NullStreamCipher;
use kdbx_rs::Kdbx;

fn reopen(b: &[u8], cred: &Cred, d: &MDb, what: &str) -> V<Kdbx<Unlocked>> {
    expect_db(b, cred, d, what)
}

/// Saves and reopens, twice; the second generation is saved from what the first one read.
fn round_trip(d: &MDb, cfg: &Cfg, c: &mut Case) -> Res {
    let k = match archive(d, cfg)? {
        Ok(k) => k,
        Err(e) => bail!("settings refused: {e}"),
    };
    let before = observe(k.database());
    ensure!(&before == d, "database built through the API differs from what was put in: {}", diff(d, &before));
    match save(&k)? {
        Err(e) => {
            ensure!(representable(d) == Text::Doubtful, "cannot be saved: {e}");
            c.seen("refused", &(d, cfg));
        }
        Ok(b) => {
            let k2 = reopen(&b, &cfg.cred, d, "saved archive")?;
            let b2 = match save(&k2)? {
                Ok(b) => b,
                Err(e) => bail!("a reopened database cannot be saved again: {e}"),
            };
            reopen(&b2, &cfg.cred, d, "archive saved again")?;
            ensure!(observe(k.database()) == *d, "saving changed the database in memory");
            c.seen(if representable(d) == Text::Fine { "same content" } else { "same content (doubtful text)" }, &(d, cfg));
        }
    }
    Ok(())
}

/// The XML writer and reader without an archive around them.
fn xml_trip(d: &MDb, cfg: Option<&Cfg>, c: &mut Case) -> Res {
    let db = build(d);
    let cipher = || -> V<Box<dyn cipher::StreamCipher>> {
        match cfg {
            None => Ok(Box::new(NullStreamCipher)),
            Some(cfg) => match api("stream_cipher", || lib_inner(cfg.inner).stream_cipher(&cfg.inner_key))? {
                Ok(s) => Ok(s),
                Err(e) => Err(format!("inner stream refused: {e}").into()),
            },
        }
    };
    let mut out = vec![];
    let mut s = cipher()?;
    match api("write_xml", || kdbx_rs::xml::write_xml(&mut out, &db, s.as_mut()))? {
        Err(e) => {
            ensure!(representable(d) == Text::Doubtful, "cannot be written as XML: {e}");
            c.seen("refused", &(d, cfg));
        }
        Ok(()) => {
            let mut s = cipher()?;
            let back = match api("parse_xml", || kdbx_rs::xml::parse_xml(out.as_slice(), s.as_mut()))? {
                Ok(b) => b,
                Err(e) => bail!("written XML does not parse: {e}"),
            };
            let got = observe(&back);
            ensure!(&got == d, "XML content differs: {}", diff(d, &got));
            c.seen("same content", &(d, cfg));
        }
    }
    Ok(())
}

pub fn run(e: &mut Engine) {
    e.rule = "a case is one (database, settings) pair, saved and reopened twice; all are non-trivial".into();
    e.assumptions.push("an empty field name may be refused; nesting deeper than 200 may be refused".into());
    for s in spaces(!e.quick()) {
        e.phase(s.name, s.n, |i, c| {
            let (d, cfg) = (s.make)(i);
            c.sample(|| describe(&d, &cfg));
            round_trip(&d, &cfg, c)
        });
    }
    // the same field spaces with empty values made by emptying a value instead of by giving an empty one
    for s in spaces(false).into_iter().filter(|s| s.name == "fields" || s.name == "histories") {
        e.phase(&format!("{}.emptied", s.name), s.n, |i, c| {
            let (d, cfg) = (s.make)(i);
            EMPTY_BY_CLEAR.with(|f| f.set(true));
            let r = round_trip(&d, &cfg, c);
            EMPTY_BY_CLEAR.with(|f| f.set(false));
            r
        });
    }
    for s in spaces(false).into_iter().filter(|s| matches!(s.name, "special-strings" | "fields" | "histories" | "times" | "wide" | "identifiers")) {
        e.phase(&format!("{}.xml", s.name), s.n, |i, c| {
            let (d, cfg) = (s.make)(i);
            xml_trip(&d, if i % 3 == 0 { None } else { Some(&cfg) }, c)
        });
    }
    // values as the API creates them by default
    e.phase("defaults", 36 * 4, |i, c| {
        let mut x = Dec(i);
        let cfg = x.of(&all_cfgs()).clone();
        let mut db = kdbx_rs::Database::default();
        let kind = x.pick(4);
        if kind > 0 {
            let mut en = kdbx_rs::database::Entry::default();
            en.set_title("t");
            en.set_password("p");
            if kind > 2 {
                let old = en.clone();
                en.history_mut().push(old);
                en.set_password("q");
            }
            db.add_entry(en);
        }
        if kind > 1 {
            db.add_group(kdbx_rs::database::Group::new("sub"));
        }
        let d = observe(&db);
        let mut k = Kdbx::from_database(db);
        k.header_mut().kdf_params = cfg.kdf.lib();
        k.header_mut().cipher = lib_cipher(cfg.cipher);
        k.header_mut().compression_type = lib_comp(cfg.comp);
        if cfg.cipher == Ciph::Chacha {
            k.header_mut().encryption_iv.truncate(12);
        }
        k.inner_header_mut().inner_stream_cipher = lib_inner(cfg.inner);
        if let Err(e) = api("set_key", || k.set_key(cfg.cred.lib()))? {
            bail!("set_key: {e}");
        }
        let b = save(&k)??;
        reopen(&b, &cfg.cred, &d, "archive of default values")?;
        c.seen("same content", &i);
        Ok(())
    });
}
