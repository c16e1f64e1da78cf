//! Key and setting changes take effect at the next save.

use crate::engine::*;
use crate::layouts::*;
use crate::lib_io::*;
use crate::model::*;
use crate::refcodec::*;
use crate::refxml::Inner;
use crate::{bail, ensure};
use kdbx_rs::binary::{Cipher, KdfParams, Unlocked};
use kdbx_rs::Kdbx;
use std::collections::HashSet;
use std::io::{self, Write};
use std::sync::Mutex;

/// What a save is expected to produce.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Model {
    cred: Option<usize>,
    cipher: usize,
    gz: bool,
    kdf: usize,
    inner: usize,
    seeds: usize,
    edits: usize,
    major: u16,
}

fn creds() -> Vec<Cred> {
    vec![
        Cred::pw("kdbxrs"),
        Cred::pw("other"),
        Cred { pw: Some("kdbxrs".into()), kf: Some(b"key-file".to_vec()) },
        Cred { pw: None, kf: Some(b"key-file".to_vec()) },
        Cred::default(),
        Cred::pw(""),
    ]
}
fn kdfs() -> Vec<Kdf> {
    vec![
        aeskdf(1),
        argon(false),
        Kdf::Aes { rounds: 2, salt: bytes(32, 0x44), legacy_uuid: false },
        Kdf::Argon { id: true, mem: 16 << 10, version: 0x10, iters: 2, lanes: 2, salt: bytes(16, 0x45) },
        // differs from the one before in one parameter only
        Kdf::Argon { id: true, mem: 16 << 10, version: 0x13, iters: 2, lanes: 2, salt: bytes(16, 0x45) },
    ]
}
const INNERS: [Inner; 2] = [Inner::Chacha, Inner::Salsa];

impl Model {
    fn cfg(&self) -> Cfg {
        let mut c = Cfg::new(CIPHERS[self.cipher], if self.gz { Comp::Gzip(6, 0) } else { Comp::None }, kdfs()[self.kdf].clone(), INNERS[self.inner]);
        let t = 10 * self.seeds as u8;
        c.seed = bytes(32, 1 + t);
        c.iv = bytes(c.cipher.iv_len(), 2 + t);
        c.inner_key = bytes(64, 5 + t);
        if let Some(k) = self.cred {
            c.cred = creds()[k].clone();
        }
        c
    }
    fn db(&self) -> MDb {
        let mut d = small();
        if self.edits > 0 {
            d.root.entries[0].fields[0].value = format!("edit {}", self.edits);
            d.root.entries[0].fields.push(f("Password", &format!("secret {}", self.edits), true));
            d.name = "edited".into();
        }
        d
    }
}

struct Limited(usize, Vec<u8>);
impl Write for Limited {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.0 - self.1.len());
        if n == 0 && !b.is_empty() {
            return Err(io::Error::new(io::ErrorKind::Other, "full"));
        }
        self.1.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct State {
    m: Model,
    k: Kdbx<Unlocked>,
}

pub const OPS: u64 = 17;

impl State {
    fn start(kind: usize) -> V<State> {
        let mut m = Model { cred: None, cipher: 0, gz: false, kdf: 0, inner: 0, seeds: 0, edits: 0, major: 4 };
        let k = match kind {
            0 => {
                // a new archive without a key
                let db = build(&m.db());
                let mut k = api("from_database", || Kdbx::from_database(db))?;
                configure(&mut k, &m.cfg());
                k
            }
            1 => {
                m.cred = Some(0);
                archive(&m.db(), &m.cfg())??
            }
            2 => {
                // opened from a file of another writer
                m.cred = Some(2);
                m.cipher = 2;
                m.gz = true;
                m.kdf = 3;
                m.inner = 1;
                m.seeds = 3;
                load(&file4(&m.cfg(), &m.db()), &m.cfg().cred)??
            }
            _ => {
                let c = plain3();
                m.cred = Some(0);
                m.major = 3;
                load(&file3(&c, &m.db()), &c.cred)??
            }
        };
        Ok(State { m, k })
    }
    fn settings(&mut self) {
        let c = self.m.cfg();
        configure(&mut self.k, &c);
    }
    /// Saves and judges what was saved; gives the bytes if there are any.
    fn save(&self, library: bool) -> V<Option<Vec<u8>>> {
        let mut out = vec![];
        let r = api("write", || self.k.write(&mut out))?;
        if self.m.cred.is_none() || self.m.major == 3 {
            ensure!(r.is_err(), "saving without credentials (or as KDBX 3.1) reports success");
            ensure!(out.is_empty(), "saving without credentials (or as KDBX 3.1) wrote {} bytes", out.len());
            return Ok(None);
        }
        if let Err(e) = r {
            bail!("cannot be saved: {e}");
        }
        let cfg = self.m.cfg();
        let x = match decode(&out, &cfg.cred) {
            Ok(x) => x,
            Err(e) => bail!("cannot be opened with the current credentials {:?}: {e}", cfg.cred),
        };
        let seed = x.fields.iter().find(|f| f.0 == 4).map(|f| f.1.clone());
        let iv = x.fields.iter().find(|f| f.0 == 7).map(|f| f.1.clone());
        ensure!(x.cipher == cfg.cipher, "saved with cipher {:?} instead of {:?}", x.cipher, cfg.cipher);
        ensure!(x.gz == (cfg.comp != Comp::None), "saved with compression {}", x.gz);
        ensure!(x.kdf == cfg.kdf, "saved with key derivation {:?} instead of {:?}", x.kdf, cfg.kdf);
        ensure!(x.inner == cfg.inner && x.inner_key == cfg.inner_key, "saved with inner stream {:?}", x.inner);
        ensure!(seed.as_ref() == Some(&cfg.seed) && iv.as_ref() == Some(&cfg.iv), "saved with other seeds than set");
        match x.db() {
            Err(e) => bail!("saved content unreadable: {e}"),
            Ok(d) => ensure!(d == self.m.db(), "saved content differs: {}", diff(&self.m.db(), &d)),
        }
        if library {
            for c in creds() {
                let same = c.composite() == cfg.cred.composite();
                match load(&out, &c)? {
                    Ok(k) => {
                        ensure!(same, "{c:?} opens an archive saved with {:?}", cfg.cred);
                        ensure!(observe(k.database()) == self.m.db(), "reopened content differs");
                    }
                    Err(e) => ensure!(!same, "{c:?} does not open the archive saved with it: {e}"),
                }
            }
        }
        Ok(Some(out))
    }
    fn set_key(&mut self, i: usize) -> Res {
        let c = creds()[i].lib();
        match api("set_key", || self.k.set_key(c))? {
            Ok(()) => self.m.cred = Some(i),
            Err(e) => bail!("set_key: {e}"),
        }
        Ok(())
    }
    fn step(&mut self, op: usize) -> Res {
        match op {
            0 => self.set_key(0)?,
            1 => self.set_key(1)?,
            2 => self.set_key(2)?,
            3 => self.set_key(4)?,
            4 => {
                // not accepted: the settings of the moment cannot be used
                let fine = self.k.header().kdf_params.clone();
                self.k.header_mut().kdf_params = KdfParams::Aes { rounds: 1, salt: vec![] };
                let c = creds()[3].lib();
                ensure!(api("set_key", || self.k.set_key(c))?.is_err(), "set_key with an unusable key derivation reports success");
                self.k.header_mut().kdf_params = fine;
            }
            5 => {
                self.m.kdf = (self.m.kdf + 1) % kdfs().len();
                self.settings();
            }
            6 => {
                self.m.cipher = (self.m.cipher + 1) % 3;
                self.settings();
            }
            7 => {
                self.m.gz = !self.m.gz;
                self.settings();
            }
            8 => {
                self.m.inner = 1 - self.m.inner;
                self.settings();
            }
            9 => {
                self.m.seeds = (self.m.seeds + 1) % 4;
                self.settings();
            }
            10 => {
                self.m.edits += 1;
                *self.k.database_mut() = build(&self.m.db());
            }
            11 => {
                self.save(false)?;
            }
            12 => {
                let mut s = Limited(100, vec![]);
                let r = api("write", || self.k.write(&mut s))?;
                ensure!(r.is_err(), "saving into a full destination reports success");
            }
            13 => {
                // unusable for a moment
                let fine = self.k.header().cipher;
                self.k.header_mut().cipher = Cipher::Unknown(uuid::Uuid::from_u128(5));
                let mut out = vec![];
                let r = api("write", || self.k.write(&mut out))?;
                ensure!(r.is_err() && out.is_empty(), "saving with an unknown cipher: {} bytes, {:?}", out.len(), r.is_ok());
                self.k.header_mut().cipher = fine;
            }
            14 => {
                if let Some(b) = self.save(false)? {
                    self.k = load(&b, &self.m.cfg().cred)??;
                }
            }
            15 => {
                if let Some(b) = self.save(false)? {
                    let k = open(&b)??;
                    let wrong = creds()[3].lib();
                    let k = match api("unlock", || k.unlock(&wrong))? {
                        Ok(_) => bail!("wrong credentials unlock"),
                        Err(x) => x.0,
                    };
                    let right = self.m.cfg().cred.lib();
                    self.k = match api("unlock", || k.unlock(&right))? {
                        Ok(k) => k,
                        Err(x) => bail!("the right credentials fail after wrong ones: {}", x.1),
                    };
                }
            }
            _ => {
                // the key derivation changed and changed back
                let fine = self.k.header().kdf_params.clone();
                self.k.header_mut().kdf_params = argon(true).lib();
                let mut out = vec![];
                let r = api("write", || self.k.write(&mut out))?;
                if let (Some(_), 4) = (self.m.cred, self.m.major) {
                    ensure!(r.is_ok(), "cannot be saved under another key derivation");
                    match decode(&out, &self.m.cfg().cred) {
                        Ok(x) => ensure!(x.kdf == argon(true), "saved with key derivation {:?}", x.kdf),
                        Err(e) => bail!("saved under another key derivation, does not open: {e}"),
                    }
                }
                self.k.header_mut().kdf_params = fine;
            }
        }
        let got = observe(self.k.database());
        ensure!(got == self.m.db(), "the database in memory differs: {}", diff(&self.m.db(), &got));
        Ok(())
    }
}

pub fn run(e: &mut Engine) {
    e.level = "model_checking";
    e.rule = "all operation sequences of each length up to the depth over 17 operations from 4 start archives; a trace is distinct by its operations".into();
    let depth = if e.quick() { 4 } else { 5 };
    let states: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let n = words(OPS, depth);
    for start in 0..4 {
        // a KDBX 3.1 archive can only refuse: shorter traces suffice
        let n = if start == 3 { words(OPS, depth - 1) } else { n };
        e.phase(&format!("sequences.{start}"), n, |i, c| {
            let ops = word(OPS, i);
            let mut s = State::start(start)?;
            let mut local = vec![h64(&s.m)];
            for (at, op) in ops.iter().enumerate() {
                s.step(*op).map_err(|v| Violation::from(format!("start {start}, operations {:?}: {}", &ops[..=at], v.msg)))?;
                local.push(h64(&s.m));
                c.add("transitions", 1);
            }
            s.save(true).map_err(|v| Violation::from(format!("start {start}, saved after operations {ops:?}: {}", v.msg)))?;
            c.add("traces_validated_against_impl", 1);
            c.seen(if s.m.cred.is_some() && s.m.major == 4 { "saved" } else { "refused" }, &(start, i));
            c.sample(|| format!("start {start}, operations {ops:?}"));
            let mut all = states.lock().unwrap();
            all.extend(local);
            Ok(())
        });
    }
    let n = states.lock().unwrap().len() as u64;
    e.count("states", n);
    single_changes(e);
}

/// Configurations that differ from one another in single parameters.
fn neighbours() -> Vec<Cfg> {
    let base = Cfg::new(Ciph::Aes, Comp::None, aeskdf(1), Inner::Chacha);
    let with = |f: &dyn Fn(&mut Cfg)| {
        let mut c = base.clone();
        f(&mut c);
        c
    };
    let mut v = vec![base.clone()];
    for salt in [bytes(32, 0x50), bytes(32, 0x51), vec![0; 32]] {
        v.push(with(&|c| c.kdf = Kdf::Aes { rounds: 1, salt: salt.clone(), legacy_uuid: false }));
    }
    // the first and the last bit of the salt alone
    for bit in [0usize, 255] {
        let mut salt = match &base.kdf {
            Kdf::Aes { salt, .. } => salt.clone(),
            _ => unreachable!(),
        };
        salt[bit / 8] ^= 1 << (bit % 8);
        v.push(with(&|c| c.kdf = Kdf::Aes { rounds: 1, salt: salt.clone(), legacy_uuid: false }));
    }
    for rounds in [0u64, 2, 257, 65537] {
        v.push(with(&|c| {
            if let Kdf::Aes { rounds: r, .. } = &mut c.kdf {
                *r = rounds;
            }
        }));
    }
    for (id, mem, version, iters, lanes, salt) in [
        (false, 8u64, 0x13u32, 1u64, 1u32, bytes(16, 0x60)),
        (true, 8, 0x13, 1, 1, bytes(16, 0x60)),
        (false, 9, 0x13, 1, 1, bytes(16, 0x60)),
        (false, 8, 0x10, 1, 1, bytes(16, 0x60)),
        (false, 8, 0x13, 2, 1, bytes(16, 0x60)),
        (false, 16, 0x13, 1, 1, bytes(16, 0x60)),
        (false, 16, 0x13, 1, 2, bytes(16, 0x60)),
        (false, 8, 0x13, 1, 1, bytes(16, 0x61)),
        (false, 8, 0x13, 1, 1, bytes(8, 0x60)),
        (false, 8, 0x13, 1, 1, bytes(32, 0x60)),
    ] {
        v.push(with(&|c| c.kdf = Kdf::Argon { id, mem: mem << 10, version, iters, lanes, salt: salt.clone() }));
    }
    // memory that is no whole number of KiB
    for mem in [8193u64, 8704, 9215, 66_000] {
        v.push(with(&|c| c.kdf = Kdf::Argon { id: false, mem, version: 0x13, iters: 1, lanes: 1, salt: bytes(16, 0x60) }));
    }
    v.push(with(&|c| c.kdf = Kdf::Argon { id: false, mem: 80 << 10, version: 0x13, iters: 1, lanes: 10, salt: bytes(16, 0x60) }));
    v.push(with(&|c| c.kdf = Kdf::Argon { id: false, mem: 8 << 10, version: 0x13, iters: 257, lanes: 1, salt: bytes(16, 0x60) }));
    v.push(with(&|c| c.seed = bytes(32, 0x70)));
    v.push(with(&|c| c.seed[31] ^= 0x80));
    v.push(with(&|c| c.iv = bytes(16, 0x71)));
    v.push(with(&|c| c.inner_key = bytes(64, 0x72)));
    v.push(with(&|c| c.inner_key = bytes(32, 0x72)));
    v.push(with(&|c| c.inner_key = vec![]));
    v.push(with(&|c| c.inner = Inner::Salsa));
    v.push(with(&|c| c.comp = Comp::Gzip(6, 0)));
    v.push(with(&|c| c.cipher = Ciph::Twofish));
    v.push(with(&|c| {
        c.cipher = Ciph::Chacha;
        c.iv = bytes(12, 0x73);
    }));
    v
}

/// Moves from every configuration to every other one and back, with the key taken at different moments.
fn single_changes(e: &mut Engine) {
    let all = neighbours();
    let n = all.len() as u64;
    let files: Vec<Vec<u8>> = all.iter().map(|c| file4(c, &small())).collect();
    e.phase("setting-changes", n * n * 5, |i, c| {
        let mut d = Dec(i);
        let (a, b, mode) = (d.pick(n), d.pick(n), d.pick(5));
        let (ca, cb) = (&all[a], &all[b]);
        let judge = |k: &Kdbx<Unlocked>, cfg: &Cfg, when: &str| -> Res {
            let out = save(k)?.map_err(|x| format!("{when}: cannot be saved: {x}"))?;
            let x = decode(&out, &cfg.cred).map_err(|x| format!("{when}: does not open: {x}"))?;
            ensure!(x.kdf == cfg.kdf, "{when}: saved with key derivation {:?} instead of {:?}", x.kdf, cfg.kdf);
            ensure!(x.cipher == cfg.cipher && x.gz == (cfg.comp != Comp::None), "{when}: saved with {:?} {}", x.cipher, x.gz);
            ensure!(x.inner == cfg.inner && x.inner_key == cfg.inner_key, "{when}: saved with inner stream {:?}", x.inner);
            let field = |t: u8| x.fields.iter().find(|f| f.0 == t).map(|f| f.1.clone());
            ensure!(field(4).as_ref() == Some(&cfg.seed) && field(7).as_ref() == Some(&cfg.iv), "{when}: saved with other seeds than set");
            let db = x.db()?;
            ensure!(db == small(), "{when}: saved content differs: {}", diff(&small(), &db));
            match load(&out, &cfg.cred)? {
                Ok(k) => ensure!(observe(k.database()) == small(), "{when}: reopened content differs"),
                Err(x) => bail!("{when}: does not open with this library: {x}"),
            }
            Ok(())
        };
        let mut k = match mode {
            0 | 1 => archive(&small(), ca)??,
            2 | 3 => load(&files[a], &ca.cred)??,
            _ => {
                // key set before anything was configured for it
                let db = build(&small());
                let mut k = api("from_database", || Kdbx::from_database(db))?;
                configure(&mut k, ca);
                let key = ca.cred.lib();
                ensure!(api("set_key", || k.set_key(key))?.is_ok(), "set_key refused");
                k
            }
        };
        if mode == 1 || mode == 3 {
            judge(&k, ca, "before the change")?;
        }
        configure(&mut k, cb);
        judge(&k, cb, "after the change")?;
        configure(&mut k, ca);
        judge(&k, ca, "after changing back")?;
        if mode == 4 {
            configure(&mut k, cb);
            let key = creds()[1].lib();
            ensure!(api("set_key", || k.set_key(key))?.is_ok(), "set_key refused");
            configure(&mut k, ca);
            let mut cfg = ca.clone();
            cfg.cred = creds()[1].clone();
            judge(&k, &cfg, "after a key set under other settings")?;
        }
        c.add("transitions", 2);
        c.add("traces_validated_against_impl", 1);
        c.seen(if a == b { "unchanged" } else { "changed" }, &(a, b, mode));
        Ok(())
    });
    // the settings do not depend on how much there is to save
    let some: Vec<Cfg> = [(Ciph::Aes, false, aeskdf(1), Inner::Chacha), (Ciph::Aes, true, argon(false), Inner::Salsa), (Ciph::Chacha, true, aeskdf(1), Inner::Salsa), (Ciph::Chacha, false, argon(true), Inner::Chacha), (Ciph::Twofish, true, aeskdf(2), Inner::Chacha), (Ciph::Twofish, false, aeskdf(1), Inner::Salsa)]
        .into_iter()
        .map(|(a, gz, k, i)| Cfg::new(a, if gz { Comp::Gzip(6, 0) } else { Comp::None }, k, i))
        .collect();
    let mut counts: Vec<usize> = (0..=66).collect();
    counts.extend([99, 100, 101, 127, 128, 129, 255, 256, 257, 300]);
    if !e.quick() {
        counts.extend([511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097]);
    }
    e.phase("amounts", (some.len() * counts.len() * 8) as u64, |i, c| {
        let mut x = Dec(i);
        let cfg = x.of(&some);
        let n = *x.of(&counts);
        let kind = x.pick(8);
        let d = amount(kind, n);
        let start = some.iter().find(|c| c.cipher != cfg.cipher && c.inner != cfg.inner).unwrap();
        let mut k = archive(&d, start)??;
        configure(&mut k, cfg);
        let out = save(&k)?.map_err(|x| format!("{n} of kind {kind}: cannot be saved: {x}"))?;
        let y = decode(&out, &cfg.cred).map_err(|x| format!("{n} of kind {kind}: does not open: {x}"))?;
        ensure!(y.kdf == cfg.kdf && y.cipher == cfg.cipher && y.gz == (cfg.comp != Comp::None) && y.inner == cfg.inner && y.inner_key == cfg.inner_key, "{n} of kind {kind}: saved with {:?} {:?} {} {:?}", y.kdf, y.cipher, y.gz, y.inner);
        let field = |t: u8| y.fields.iter().find(|f| f.0 == t).map(|f| f.1.clone());
        ensure!(field(4).as_ref() == Some(&cfg.seed) && field(7).as_ref() == Some(&cfg.iv), "{n} of kind {kind}: saved with other seeds than set");
        let db = y.db()?;
        ensure!(db == d, "{n} of kind {kind}: saved content differs: {}", diff(&d, &db));
        c.add("transitions", 1);
        c.add("traces_validated_against_impl", 1);
        c.seen("amount", &i);
        Ok(())
    });
}

/// A database with `n` of one kind of thing.
fn amount(kind: usize, n: usize) -> MDb {
    let mut d = small();
    for k in 0..n {
        let id = 0x1000 + k as u128;
        match kind {
            0 => d.custom.push(f(&format!("k{k}"), "v", false)),
            1 => d.custom.push(f(&format!("k{k}"), "v", true)),
            2 => d.root.entries.push(mentry(id, vec![f("Title", "T", false)])),
            3 => d.root.groups.push(mgroup(id, "g")),
            4 => d.root.entries[0].fields.push(f(&format!("k{k}"), "v", k % 2 == 0)),
            5 => {
                let mut old = mentry(0x32, vec![f("Title", "T", false)]);
                old.times = mtimes(k as i64);
                d.root.entries[0].history.push(old);
            }
            6 => d.name.push('x'),
            _ => d.root.entries[0].fields[1].value.push('\u{e9}'),
        }
    }
    d
}
