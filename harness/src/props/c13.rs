//! Protected values stay protected.

use crate::engine::*;
use crate::lib_io::*;
use crate::model::*;
use crate::refcodec::*;
use crate::refxml::{b64, esc, read_db, Inner, KeyStream, TimeForm};
use crate::{bail, ensure};
use kdbx_rs::binary::Unlocked;
use kdbx_rs::database::{Database, Otp};
use kdbx_rs::Kdbx;
use std::collections::HashSet;
use std::sync::Mutex;

/// Every value of the model with whether it is protected.
fn values(d: &MDb) -> Vec<(&str, bool)> {
    fn entry<'a>(e: &'a MEntry, v: &mut Vec<(&'a str, bool)>) {
        for x in &e.fields {
            v.push((&x.value, x.prot));
            v.push((&x.key, false));
        }
        for h in &e.history {
            entry(h, v);
        }
    }
    fn group<'a>(g: &'a MGroup, v: &mut Vec<(&'a str, bool)>) {
        v.push((&g.name, false));
        for e in &g.entries {
            entry(e, v);
        }
        for c in &g.groups {
            group(c, v);
        }
    }
    let mut v = vec![(d.name.as_str(), false), (d.desc.as_str(), false)];
    for x in &d.custom {
        v.push((&x.value, x.prot));
        v.push((&x.key, false));
    }
    group(&d.root, &mut v);
    v
}

fn contains(hay: &[u8], needle: &[u8]) -> bool {
    needle.len() <= hay.len() && hay.windows(needle.len()).any(|w| w == needle)
}

/// Judges a stored document: right values at the right key stream positions, no clear text.
fn judge_document(xml: &[u8], ks: &mut KeyStream, want: &MDb) -> Res {
    match read_db(xml, ks, TimeForm::B64) {
        Err(e) => bail!("stored document: {e}"),
        Ok(d) => ensure!(&d == want, "stored document differs: {}", diff(want, &d)),
    }
    let all = values(want);
    for (v, _) in all.iter().filter(|v| v.1 && v.0.chars().count() >= 6) {
        if all.iter().any(|o| !o.1 && o.0.contains(v)) {
            continue;
        }
        for form in [v.as_bytes().to_vec(), esc(v).into_bytes(), b64(v.as_bytes()).into_bytes()] {
            ensure!(!contains(xml, &form), "the protected text {v:?} occurs in the stored document");
        }
    }
    Ok(())
}

fn judge(k: &Kdbx<Unlocked>, cfg: &Cfg, want: &MDb, c: &mut Case) -> Res {
    let b = save(k)??;
    let x = match decode(&b, &cfg.cred) {
        Ok(x) => x,
        Err(e) => bail!("saved file: {e}"),
    };
    judge_document(&x.xml, &mut x.keystream(), want)?;
    expect_db(&b, &cfg.cred, want, "reopened")?;
    c.touch();
    Ok(())
}

fn long(tag: usize) -> String {
    (0..26).map(|i| format!("<{tag}&{i}>")).collect()
}
fn kind(k: usize, slot: usize) -> Option<MField> {
    let key = format!("k{slot}");
    Some(match k {
        0 => return None,
        1 => f(&key, &format!("open {slot}"), false),
        2 => f(&key, &format!("secret \u{e9}{slot}"), true),
        3 => f(&key, "", true),
        _ => f(&key, &long(slot), true),
    })
}

/// Places: custom data x2, entry x2, its history x2, its history's history, entry of a subgroup.
fn placed(kinds: &[usize; 8]) -> MDb {
    let s: Vec<Option<MField>> = (0..8).map(|i| kind(kinds[i], i)).collect();
    let get = |r: std::ops::Range<usize>| s[r].iter().flatten().cloned().collect::<Vec<_>>();
    let mut root = mgroup(1, "Root");
    let mut e = mentry(2, get(2..4));
    let mut h = mentry(2, get(4..5));
    h.history.push(mentry(2, get(6..7)));
    e.history.push(h);
    e.history.push(mentry(2, get(5..6)));
    root.entries.push(e);
    root.entries.push(mentry(3, vec![]));
    let mut g = mgroup(4, "Sub");
    g.entries.push(mentry(5, get(7..8)));
    root.groups.push(g);
    let mut d = mdb(root);
    d.custom = get(0..2);
    d
}

const INNERS: [Inner; 2] = [Inner::Chacha, Inner::Salsa];

/// Edits of one field, wherever it sits.
fn edit_field(x: &mut kdbx_rs::database::Field, m: &mut MField, op: usize, text: &str) {
    match op {
        0 => {
            x.set_value(text);
            m.value = text.into();
        }
        1 => {
            x.set_value("");
            m.value.clear();
        }
        2 => {
            x.clear();
            m.value.clear();
        }
        3 => {
            x.set_protected(true);
            m.prot = true;
        }
        _ => {
            x.set_protected(false);
            m.prot = false;
        }
    }
}

struct State {
    m: MDb,
    k: Kdbx<Unlocked>,
    cfg: Cfg,
    n: usize,
}
pub const OPS: u64 = 25;
/// together with renaming, copying and moving
pub const ALL_OPS: u64 = 31;

/// The other name of a field that is renamed.
fn renamed(k: &str) -> String {
    match k.strip_prefix("renamed ") {
        Some(x) => x.into(),
        None => format!("renamed {k}"),
    }
}

impl State {
    fn start(kind: usize) -> V<State> {
        let mut root = mgroup(1, "Root");
        let mut e = mentry(2, vec![f("Title", "the title text", kind == 1), f("Password", "the password", true)]);
        let mut h = e.clone();
        h.fields[1].value = "the old password".into();
        e.history.push(h);
        root.entries.push(e);
        let mut m = mdb(root);
        m.custom = vec![f("token", "the custom token", true)];
        let cfg = Cfg::new(Ciph::Chacha, Comp::None, aeskdf(1), INNERS[kind]);
        let k = if kind == 0 { archive(&m, &cfg)?? } else { load(&file4(&cfg, &m), &cfg.cred)?? };
        Ok(State { m, k, cfg, n: 0 })
    }
    fn entry(&mut self) -> (&mut kdbx_rs::database::Entry, &mut MEntry) {
        (self.k.database_mut().root_mut().entries_mut().next().unwrap(), &mut self.m.root.entries[0])
    }
    /// The name the password field goes by.
    fn password(m: &MEntry) -> (usize, String) {
        let i = m.fields.iter().position(|x| x.key == "Password").unwrap_or_else(|| m.fields.iter().position(|x| x.key == "renamed Password").unwrap());
        (i, m.fields[i].key.clone())
    }
    fn step(&mut self, op: usize) -> Res {
        self.n += 1;
        let text = format!("edited text {}", self.n);
        match op {
            0..=4 => {
                let (e, m) = self.entry();
                let (i, key) = State::password(m);
                api("edit a field", || edit_field(e.find_mut(&key).unwrap(), &mut m.fields[i], op, &text))?;
            }
            5..=9 => {
                let (e, m) = self.entry();
                if let Some(h) = m.history.first_mut() {
                    let n = h.fields.len() - 1;
                    api("edit a field of the history", || edit_field(e.history_mut()[0].fields_mut().last().unwrap(), &mut h.fields[n], op - 5, &text))?;
                }
            }
            10..=14 => {
                let m = &mut self.m.custom[0];
                let x = &mut self.k.database_mut().meta_mut().custom_data[0];
                api("edit custom data", || edit_field(x, m, op - 10, &text))?;
            }
            15 => {
                let (e, m) = self.entry();
                api("set_password", || e.set_password(&text))?;
                match m.fields.iter_mut().find(|x| x.key == "Password") {
                    Some(x) => {
                        x.value = text.clone();
                        x.prot = true;
                    }
                    None => m.fields.push(f("Password", &text, true)),
                }
            }
            16 => {
                let (e, m) = self.entry();
                api("set_title", || e.set_title(&text))?;
                m.fields.iter_mut().find(|x| x.key == "Title").unwrap().value = text.clone();
            }
            17 => {
                let (e, m) = self.entry();
                api("protect the title", || e.find_mut("Title").unwrap().set_protected(true))?;
                m.fields.iter_mut().find(|x| x.key == "Title").unwrap().prot = true;
            }
            18 => {
                let (e, m) = self.entry();
                api("new_version", || e.new_version())?;
                let mut c = m.clone();
                c.history.clear();
                m.history.push(c);
            }
            19 => {
                let (e, m) = self.entry();
                if !m.history.is_empty() {
                    api("History::remove", || e.history_mut().remove(0))?;
                    m.history.remove(0);
                }
            }
            20 => {
                let (e, m) = self.entry();
                let otp = "otpauth://totp/kdbxrs:kdbxrs?secret=SECRETSECRET&period=30&digits=6";
                api("set_otp", || e.set_otp(Otp::new("SECRETSECRET", 30, 6)))?;
                match m.fields.iter_mut().find(|x| x.key == "otp") {
                    Some(x) => x.value = otp.into(),
                    None => m.fields.push(f("otp", otp, true)),
                }
            }
            21 => {
                let (e, m) = self.entry();
                let n = m.fields.len();
                let x = f(&format!("k{n}"), &text, true);
                let y = build_field(&x);
                api("add_field", || e.add_field(y))?;
                m.fields.push(x);
            }
            22 => {
                // a protected field in front of all others
                let x = f("first", &text, true);
                let y = build_field(&x);
                self.k.database_mut().meta_mut().custom_data.insert(1, y);
                self.m.custom.insert(1, x);
            }
            23 => {
                let b = save(&self.k)??;
                self.k = load(&b, &self.cfg.cred)??;
            }
            25 => {
                let (e, m) = self.entry();
                let (i, key) = State::password(m);
                let new = renamed(&key);
                api("set_key", || e.find_mut(&key).unwrap().set_key(&new))?;
                m.fields[i].key = new;
            }
            26 => {
                let (e, m) = self.entry();
                if let Some(h) = m.history.first_mut() {
                    let x = h.fields.last_mut().unwrap();
                    let new = renamed(&x.key);
                    api("set_key", || e.history_mut()[0].fields_mut().last().unwrap().set_key(&new))?;
                    x.key = new;
                }
            }
            27 => {
                let new = renamed(&self.m.custom[0].key);
                api("set_key", || self.k.database_mut().meta_mut().custom_data[0].set_key(&new))?;
                self.m.custom[0].key = new;
            }
            28 => {
                // a copy of the field
                let (e, m) = self.entry();
                let (i, key) = State::password(m);
                let mut x = m.fields[i].clone();
                x.key = format!("copy {}", m.fields.len());
                api("copy a field", || {
                    let mut y = e.find(&key).unwrap().clone();
                    y.set_key(&x.key);
                    e.add_field(y);
                })?;
                m.fields.push(x);
            }
            29 => {
                // moved away and back
                let id = uuid::Uuid::from_u128(self.m.root.entries[0].uuid);
                let root = self.k.database_mut().root_mut();
                api("move the entry", || {
                    let e = root.remove_entry(id).unwrap();
                    root.add_entry(e);
                })?;
                self.m.root.entries.rotate_left(1);
            }
            30 => {
                let (e, m) = self.entry();
                api("History::push", || {
                    let mut c = e.clone();
                    while !c.history().is_empty() {
                        c.history_mut().remove(0);
                    }
                    e.history_mut().push(c);
                })?;
                let mut c = m.clone();
                c.history.clear();
                m.history.push(c);
            }
            _ => {
                // written to a document and read again
                let mut s = lib_inner(self.cfg.inner).stream_cipher(&self.cfg.inner_key).map_err(|e| Violation::from(format!("stream cipher: {e}")))?;
                let mut out = vec![];
                if let Err(e) = api("write_xml", || kdbx_rs::xml::write_xml(&mut out, self.k.database(), &mut *s))? {
                    bail!("write_xml: {e}");
                }
                judge_document(&out, &mut self.cfg.keystream(), &self.m)?;
                let mut s = lib_inner(self.cfg.inner).stream_cipher(&self.cfg.inner_key).map_err(|e| Violation::from(format!("stream cipher: {e}")))?;
                let db: Database = match api("parse_xml", || kdbx_rs::xml::parse_xml(out.as_slice(), &mut *s))? {
                    Ok(db) => db,
                    Err(e) => bail!("parse_xml: {e}"),
                };
                *self.k.database_mut() = db;
            }
        }
        let got = observe(self.k.database());
        ensure!(got == self.m, "the database in memory differs: {}", diff(&self.m, &got));
        Ok(())
    }
}

pub fn run(e: &mut Engine) {
    e.level = "model_checking";
    e.rule = "placements are distinct by their fields, edit traces by their operations; a trace is judged after every step and on what is saved at its end".into();
    let thorough = !e.quick();

    // -- every kind of value at every place --
    // (quick: one of the eight follows from the others)
    let n = 5u64.pow(if thorough { 8 } else { 7 });
    for (ii, inner) in INNERS.iter().enumerate() {
        if ii == 1 && !thorough {
            continue;
        }
        e.phase(&format!("placements.{ii}"), n, |i, c| {
            let mut x = Dec(i);
            let mut kinds: [usize; 8] = std::array::from_fn(|_| x.pick(5));
            if !thorough {
                kinds[7] = (kinds.iter().sum::<usize>() + 2) % 5;
            }
            let d = placed(&kinds);
            let cfg = Cfg::new(Ciph::Chacha, Comp::None, aeskdf(1), if thorough { *inner } else { INNERS[kinds.iter().sum::<usize>() % 2] });
            EMPTY_BY_CLEAR.with(|c| c.set(i % 2 == 1));
            let k = archive(&d, &cfg)?;
            EMPTY_BY_CLEAR.with(|c| c.set(false));
            judge(&k?, &cfg, &d, c).map_err(|v| Violation::from(format!("placement {kinds:?}: {}", v.msg)))?;
            c.add("traces_validated_against_impl", 1);
            c.seen("protected", &kinds);
            c.sample(|| format!("placement {kinds:?}"));
            Ok(())
        });
    }
    // -- lengths: every position in the key stream up to two blocks and beyond --
    let m = e.pick(140, 300) as u64;
    for (ii, inner) in INNERS.iter().enumerate() {
        e.phase(&format!("lengths.{ii}"), m * m, |i, c| {
            let mut x = Dec(i);
            let (a, b) = (x.pick(m), x.pick(m));
            let mut d = small();
            d.custom.push(f("a", &"#".repeat(a), true));
            d.root.entries[0].fields = vec![f("b", &"*".repeat(b), true), f("c", "the text after", true)];
            let cfg = Cfg::new(Ciph::Chacha, Comp::None, aeskdf(1), *inner);
            let k = archive(&d, &cfg)??;
            judge(&k, &cfg, &d, c).map_err(|v| Violation::from(format!("lengths {a} and {b}: {}", v.msg)))?;
            c.add("traces_validated_against_impl", 1);
            c.seen("protected", &(ii, a, b));
            Ok(())
        });
    }
    // -- every short text and every odd one --
    let texts: Vec<String> = {
        let k = crate::gen::ALPHABET.len() as u64;
        let mut v: Vec<String> = (0..words(k, 2)).map(|i| word(k, i).into_iter().map(|c| crate::gen::ALPHABET[c]).collect()).collect();
        v.extend(crate::gen::specials());
        v
    };
    e.phase("texts", texts.len() as u64 * 3, |i, c| {
        let mut x = Dec(i);
        let place = x.pick(3);
        let t = x.of(&texts);
        let with = |t: &str| {
            let mut d = small();
            let fields = vec![f("before", "first", true), f("b", t, true), f("c", "the text after", true)];
            match place {
                0 => d.root.entries[0].fields = fields,
                1 => d.root.entries[0].history = vec![mentry(0x31, fields)],
                _ => d.custom = fields,
            }
            d
        };
        let d = with(t);
        let cfg = Cfg::new(Ciph::Chacha, Comp::None, aeskdf(1), INNERS[i as usize / 3 % 2]);
        let k = archive(&d, &cfg)??;
        // texts that are part of any document cannot be searched for
        if t.is_empty() || contains(&cfg.xml4(&with("")), t.as_bytes()) {
            let b = save(&k)??;
            let x = decode(&b, &cfg.cred)?;
            ensure!(x.db().as_ref() == Ok(&d), "text {t:?}: stored document differs");
            expect_db(&b, &cfg.cred, &d, "reopened")?;
            c.add("traces_validated_against_impl", 1);
            c.seen("protected", &(place, t));
            return Ok(());
        }
        judge(&k, &cfg, &d, c).map_err(|v| Violation::from(format!("text {:?}: {}", t.chars().take(20).collect::<String>(), v.msg)))?;
        c.add("traces_validated_against_impl", 1);
        c.seen("protected", &(place, t));
        Ok(())
    });
    let big = [1_023usize, 1_025, 2_048, 2_049, 8_193, 16_384, 16_385, 32_769, 4_095, 4_096, 4_097, 65_535, 65_536, 65_537, 1_048_575, 1_048_577];
    e.phase("large-values", big.len() as u64 * 4, |i, c| {
        let mut x = Dec(i);
        let inner = *x.of(&INNERS);
        let n = *x.of(&big);
        let mut d = small();
        d.root.entries[0].fields = vec![f("b", &"*".repeat(n), true), f("c", "the text after", true)];
        let cfg = Cfg::new(Ciph::Chacha, if x.pick(2) == 0 { Comp::None } else { Comp::Gzip(6, 0) }, aeskdf(1), inner);
        let k = archive(&d, &cfg)??;
        judge(&k, &cfg, &d, c).map_err(|v| Violation::from(format!("length {n}: {}", v.msg)))?;
        c.add("traces_validated_against_impl", 1);
        c.seen("protected", &i);
        Ok(())
    });
    // -- many protected values --
    e.phase("counts", 400, |i, c| {
        let mut d = small();
        d.root.entries[0].fields = (0..i).map(|k| f(&format!("f{k}"), &format!("secret value {k}"), k % 3 != 2)).collect();
        let cfg = Cfg::new(Ciph::Chacha, Comp::None, aeskdf(1), INNERS[i as usize % 2]);
        let k = archive(&d, &cfg)??;
        judge(&k, &cfg, &d, c).map_err(|v| Violation::from(format!("{i} fields: {}", v.msg)))?;
        c.add("traces_validated_against_impl", 1);
        c.seen("protected", &i);
        Ok(())
    });
    // -- every length of the inner key --
    e.phase("inner-keys", 2 * 130, |i, c| {
        let mut x = Dec(i);
        let mut cfg = Cfg::new(Ciph::Chacha, Comp::None, aeskdf(1), *x.of(&INNERS));
        cfg.inner_key = bytes(x.0 as usize, 77);
        let d = rich();
        let k = archive(&d, &cfg)??;
        judge(&k, &cfg, &d, c).map_err(|v| Violation::from(format!("inner key of {} bytes: {}", cfg.inner_key.len(), v.msg)))?;
        c.add("traces_validated_against_impl", 1);
        c.seen("protected", &i);
        Ok(())
    });

    // -- edit histories --
    let states: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    for start in 0..2 {
        let depth = if thorough || start == 0 { 4 } else { 3 };
        e.phase(&format!("edits.{start}"), words(OPS, depth), |i, c| {
            let ops = word(OPS, i);
            let mut s = State::start(start)?;
            let mut local = vec![h64(&s.m)];
            for (at, op) in ops.iter().enumerate() {
                s.step(*op).map_err(|v| Violation::from(format!("start {start}, edits {:?}: {}", &ops[..=at], v.msg)))?;
                local.push(h64(&s.m));
                c.add("transitions", 1);
            }
            judge(&s.k, &s.cfg, &s.m, c).map_err(|v| Violation::from(format!("start {start}, edits {ops:?}: {}", v.msg)))?;
            c.add("traces_validated_against_impl", 1);
            c.seen("saved", &(start, i));
            c.sample(|| format!("start {start}, edits {ops:?}"));
            states.lock().unwrap().extend(local);
            Ok(())
        });
    }
    for start in 0..2 {
        let depth = if thorough { 4 } else { 3 };
        e.phase(&format!("moves.{start}"), words(ALL_OPS, depth), |i, c| {
            let ops = word(ALL_OPS, i);
            if ops.iter().all(|x| *x < OPS as usize) {
                return Ok(());
            }
            let mut s = State::start(start)?;
            let mut local = vec![h64(&s.m)];
            for (at, op) in ops.iter().enumerate() {
                s.step(*op).map_err(|v| Violation::from(format!("start {start}, edits {:?}: {}", &ops[..=at], v.msg)))?;
                local.push(h64(&s.m));
                c.add("transitions", 1);
            }
            judge(&s.k, &s.cfg, &s.m, c).map_err(|v| Violation::from(format!("start {start}, edits {ops:?}: {}", v.msg)))?;
            c.add("traces_validated_against_impl", 1);
            c.seen("saved", &(start, i));
            states.lock().unwrap().extend(local);
            Ok(())
        });
    }
    let n = states.lock().unwrap().len() as u64;
    e.count("states", n);
}
