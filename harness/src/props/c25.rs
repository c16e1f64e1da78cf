//! Equality sees every difference, copies are independent.

use crate::engine::*;
use crate::ensure;
use crate::lib_io::*;
use crate::model::*;
use crate::refcodec::*;
use crate::refxml::Inner;
use kdbx_rs::database::{Database, Entry, Field, Group};
use uuid::Uuid;

fn text_forms(s: &str) -> Vec<String> {
    let mut v = vec![
        String::new(),
        format!("{s}a"),
        format!("{s} "),
        format!(" {s}"),
        format!("{s}\n"),
        format!("{s}\0"),
        s.to_uppercase(),
        s.to_lowercase(),
        s.chars().rev().collect(),
        s.replace('e', "\u{e9}"),
        s.chars().skip(1).collect(),
        s.chars().take(s.chars().count().saturating_sub(1)).collect(),
    ];
    // one character further, at each place
    for (i, c) in s.char_indices() {
        let mut t = s.to_string();
        t.replace_range(i..i + c.len_utf8(), &char::from_u32(c as u32 + 1).unwrap_or('x').to_string());
        v.push(t);
    }
    v
}
fn list_forms<T: Clone>(v: &[T], out: &mut dyn FnMut(Vec<T>)) {
    for i in 0..v.len() {
        let mut w = v.to_vec();
        let x = w.remove(i);
        out(w.clone());
        w.push(x.clone());
        out(w);
        let mut w = v.to_vec();
        w.insert(i, x);
        out(w);
    }
    let mut w = v.to_vec();
    w.reverse();
    out(w);
    out(vec![]);
}
fn time_forms(t: &MTimes, out: &mut dyn FnMut(MTimes)) {
    for k in 0..5 {
        for by in [-1, 1, 60, 3600, -86_400, 86_400, 31_536_000, 1 << 32] {
            let mut x = t.clone();
            x.t[k] += by;
            out(x);
        }
        for j in 0..k {
            let mut x = t.clone();
            x.t.swap(j, k);
            out(x);
        }
    }
    let mut x = t.clone();
    x.expires = !x.expires;
    out(x);
    for b in 0..32 {
        let mut x = t.clone();
        x.usage ^= 1 << b;
        out(x);
    }
}
fn id_forms(id: u128, out: &mut dyn FnMut(u128)) {
    for b in 0..128 {
        out(id ^ 1 << b);
    }
}
fn field_forms(f: &MField, out: &mut dyn FnMut(MField)) {
    for s in text_forms(&f.key) {
        out(MField { key: s, ..f.clone() });
    }
    for s in text_forms(&f.value) {
        out(MField { value: s, ..f.clone() });
    }
    out(MField { prot: !f.prot, ..f.clone() });
    out(MField { key: f.value.clone(), value: f.key.clone(), prot: f.prot });
}
fn fields_forms(v: &[MField], out: &mut dyn FnMut(Vec<MField>)) {
    list_forms(v, out);
    for i in 0..v.len() {
        field_forms(&v[i], &mut |f| {
            let mut w = v.to_vec();
            w[i] = f;
            out(w);
        });
    }
}
fn entry_forms(e: &MEntry, out: &mut dyn FnMut(MEntry)) {
    id_forms(e.uuid, &mut |uuid| out(MEntry { uuid, ..e.clone() }));
    time_forms(&e.times, &mut |times| out(MEntry { times, ..e.clone() }));
    fields_forms(&e.fields, &mut |fields| out(MEntry { fields, ..e.clone() }));
    list_forms(&e.history, &mut |history| out(MEntry { history, ..e.clone() }));
    for i in 0..e.history.len() {
        entry_forms(&e.history[i], &mut |h| {
            let mut x = e.clone();
            x.history[i] = h;
            out(x);
        });
    }
}
fn group_forms(g: &MGroup, out: &mut dyn FnMut(MGroup)) {
    id_forms(g.uuid, &mut |uuid| out(MGroup { uuid, ..g.clone() }));
    for name in text_forms(&g.name) {
        out(MGroup { name, ..g.clone() });
    }
    time_forms(&g.times, &mut |times| out(MGroup { times, ..g.clone() }));
    list_forms(&g.entries, &mut |entries| out(MGroup { entries, ..g.clone() }));
    list_forms(&g.groups, &mut |groups| out(MGroup { groups, ..g.clone() }));
    for i in 0..g.entries.len() {
        entry_forms(&g.entries[i], &mut |x| {
            let mut h = g.clone();
            h.entries[i] = x;
            out(h);
        });
    }
    for i in 0..g.groups.len() {
        group_forms(&g.groups[i], &mut |x| {
            let mut h = g.clone();
            h.groups[i] = x;
            out(h);
        });
        // an item one level up
        if let Some(x) = g.groups[i].entries.first() {
            let mut h = g.clone();
            h.groups[i].entries.remove(0);
            h.entries.push(x.clone());
            out(h);
        }
        if let Some(x) = g.groups[i].groups.first() {
            let mut h = g.clone();
            h.groups[i].groups.remove(0);
            h.groups.push(x.clone());
            out(h);
        }
    }
}
fn database_forms(d: &MDb, out: &mut dyn FnMut(MDb)) {
    for s in text_forms(&d.name) {
        out(MDb { name: s, ..d.clone() });
    }
    for s in text_forms(&d.desc) {
        out(MDb { desc: s, ..d.clone() });
    }
    fields_forms(&d.custom, &mut |custom| out(MDb { custom, ..d.clone() }));
    for k in 0..5 {
        let mut x = d.clone();
        x.mp[k] = !x.mp[k];
        out(x);
    }
    group_forms(&d.root, &mut |root| out(MDb { root, ..d.clone() }));
}

fn collect<T: Clone + PartialEq + std::hash::Hash>(base: &T, forms: impl FnOnce(&T, &mut dyn FnMut(T))) -> Vec<T> {
    let mut v = vec![base.clone()];
    forms(base, &mut |x| v.push(x));
    // each kept once
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(h64(x)));
    v
}

/// All pairs of `m`, as library values made by `make`.
fn pairs<M: Clone + PartialEq + std::hash::Hash + Sync + std::fmt::Debug, T: PartialEq + Clone + Sync + Send>(e: &mut Engine, name: &str, m: &[M], make: impl Fn(&M) -> T + Sync) {
    let made: Vec<T> = m.iter().map(&make).collect();
    let n = m.len() as u64;
    e.phase(name, n, |i, c| {
        let i = i as usize;
        let again = make(&m[i]);
        let copy = api("clone", || made[i].clone())?;
        let same = api("comparing", || (made[i] == again && again == made[i], copy == made[i] && made[i] == copy, made[i] != again || made[i] != copy))?;
        ensure!(same.0, "{name}: made twice the same way, not equal: {:?}", m[i]);
        ensure!(same.1, "{name}: not equal to its copy: {:?}", m[i]);
        ensure!(!same.2, "{name}: equal and unequal at once: {:?}", m[i]);
        for (j, other) in made.iter().enumerate() {
            let (eq, ne) = api("comparing", || (made[i] == *other, made[i] != *other))?;
            ensure!(eq != ne, "{name}: equal and unequal at once");
            if j == i {
                ensure!(eq, "{name}: not equal to itself");
            } else {
                ensure!(!eq, "{name}: equal although different: {:?} and {:?}", m[i], m[j]);
            }
        }
        c.add("comparisons", n);
        c.seen("told apart", &m[i]);
        c.sample(|| format!("{:?}", m[i]).chars().take(300).collect());
        Ok(())
    });
}

/// One of the ways to change a database through its methods; also done to the model.
const EDITS: u64 = 34;
fn edit(db: &mut Database, m: &mut MDb, k: u64) {
    let e = &mut m.root.entries[0];
    match k {
        0 => (db.set_name("other"), m.name = "other".into()).1,
        1 => (db.set_description("other"), m.desc = "other".into()).1,
        2 => {
            db.meta_mut().custom_data[1].set_value("other");
            m.custom[1].value = "other".into();
        }
        3 => {
            db.meta_mut().custom_data.push(Field::new("new", "x"));
            m.custom.push(f("new", "x", false));
        }
        4 => {
            db.meta_mut().memory_protection.protect_notes ^= true;
            m.mp[4] ^= true;
        }
        5 => (db.root_mut().set_name("other"), m.root.name = "other".into()).1,
        6 => (db.root_mut().set_uuid(Uuid::from_u128(9)), m.root.uuid = 9).1,
        7 => {
            db.root_mut().times_mut().usage_count += 1;
            m.root.times.usage += 1;
        }
        8 => (db.add_entry(build_entry(&mentry(0x99, vec![]))), m.root.entries.push(mentry(0x99, vec![]))).1,
        9 => (db.add_group(build_group(&mgroup(0x99, "g"))), m.root.groups.push(mgroup(0x99, "g"))).1,
        10 => {
            db.root_mut().remove_entry(Uuid::from_u128(0x11));
            m.root.entries.remove(0);
        }
        11 => {
            db.root_mut().remove_group(Uuid::from_u128(0x21));
            m.root.groups.remove(0);
        }
        12 => (db.replace_root(build_group(&mgroup(0x77, "new"))), m.root = mgroup(0x77, "new")).1,
        13..=27 => {
            let Some(x) = db.root_mut().entries_mut().next() else { return };
            match k {
                13 => (x.set_uuid(Uuid::from_u128(5)), e.uuid = 5).1,
                14 => (x.set_title("t"), e.fields[0].value = "t".into()).1,
                15 => (x.set_username("t"), e.fields[1].value = "t".into()).1,
                16 => (x.set_password("t"), e.fields[2].value = "t".into()).1,
                17 => (x.set_url("t"), e.fields[3].value = "t".into()).1,
                18 => (x.add_field(Field::new("q", "v")), e.fields.push(f("q", "v", false))).1,
                19 => (x.remove_field("pin"), drop(e.fields.remove(5))).1,
                20 => {
                    x.times_mut().expires ^= true;
                    e.times.expires ^= true;
                }
                21 => {
                    x.times_mut().expiry_time = dt(7);
                    e.times.t[3] = 7;
                }
                22 => {
                    x.new_version();
                    let mut old = e.clone();
                    old.history.clear();
                    e.history.push(old);
                }
                23 => {
                    x.history_mut().remove(0);
                    e.history.remove(0);
                }
                24 => {
                    x.history_mut()[1].set_title("t");
                    e.history[1].fields[0].value = "t".into();
                }
                25 => {
                    x.find_mut("pin").unwrap().set_protected(false);
                    e.fields[5].prot = false;
                }
                26 => {
                    x.find_mut("pin").unwrap().set_key("PIN");
                    e.fields[5].key = "PIN".into();
                }
                _ => {
                    x.fields_mut().for_each(|f| f.clear());
                    e.fields.iter_mut().for_each(|f| f.value.clear());
                }
            }
        }
        28 => {
            for x in db.root_mut().recursive_entries_mut() {
                x.times_mut().usage_count = 99;
            }
            fn all(g: &mut MGroup) {
                g.entries.iter_mut().for_each(|e| e.times.usage = 99);
                g.groups.iter_mut().for_each(all);
            }
            all(&mut m.root);
        }
        29 => {
            db.find_group_mut(|g| g.name() == "Nested").unwrap().set_name("n");
            m.root.groups[0].groups[0].name = "n".into();
        }
        30 => {
            db.find_entry_mut(|e| e.title() == Some("Deep")).unwrap().set_title("n");
            m.root.groups[0].groups[0].entries[0].fields[0].value = "n".into();
        }
        31 => {
            db.root_mut().groups_mut().for_each(|g| g.set_name("same"));
            m.root.groups.iter_mut().for_each(|g| g.name = "same".into());
        }
        32 => {
            let x = db.root().groups().next().unwrap().clone();
            db.add_group(x);
            let x = m.root.groups[0].clone();
            m.root.groups.push(x);
        }
        _ => {
            let x = db.root().entries().next().unwrap().clone();
            db.root_mut().groups_mut().next().unwrap().add_entry(x);
            let x = m.root.entries[0].clone();
            m.root.groups[0].entries.push(x);
        }
    }
}

pub fn run(e: &mut Engine) {
    e.rule = "a case is one value compared with every other value of its space, or one sequence of edits of a copy; distinct by content".into();
    let r = rich();
    let mut gram = r.root.groups[0].clone();
    gram.entries[0].history = r.root.entries[0].history.clone();
    pairs(e, "fields", &collect(&f("Password", "s3cret Value", true), |b, o| field_forms(b, o)), build_field);
    pairs(e, "entries", &collect(&r.root.entries[0], |b, o| entry_forms(b, o)), build_entry);
    pairs(e, "groups", &collect(&gram, |b, o| group_forms(b, o)), build_group);
    pairs(e, "databases", &collect(&r, |b, o| database_forms(b, o)), build);
    pairs(e, "histories", &collect(&r.root.entries[0], |b, o| list_forms(&b.history, &mut |history| o(MEntry { history, ..b.clone() }))), |m| build_entry(m).history().clone());
    pairs(e, "times", &collect(&mtimes(5), |b, o| time_forms(b, o)), |m| {
        let mut e = Entry::default();
        build_times(m, e.times_mut());
        e.times().clone()
    });
    let mut flags = r.clone();
    pairs(e, "metadata", &collect(&r, |b, o| {
        database_forms(b, &mut |mut x| {
            x.root = b.root.clone();
            o(x);
        });
        for k in 0..32 {
            flags.mp = std::array::from_fn(|j| k >> j & 1 == 1);
            o(flags.clone());
        }
    }), |m| build(m).meta().clone());
    // words: every pair of short texts as name and value
    let letters = ["a", "A", " ", "\0", "\u{e9}", "e\u{301}"];
    let max = e.pick(2, 3) as u32;
    let n = words(6, max);
    let texts: Vec<String> = (0..n).map(|i| word(6, i).into_iter().map(|k| letters[k]).collect()).collect();
    let mut short: Vec<MField> = vec![];
    for a in &texts {
        for b in texts.iter().take(e.pick(43, 60) as usize) {
            short.extend([f(a, b, false), f(a, b, true)]);
        }
    }
    pairs(e, "short-texts", &short, build_field);

    // headers: each setting changed alone, all against all
    let base = Cfg::plain();
    let mut cfgs = vec![base.clone()];
    cfgs.extend(CIPHERS.map(|c| Cfg { cipher: c, ..base.clone() }));
    cfgs.push(Cfg { comp: Comp::Gzip(6, 0), ..base.clone() });
    cfgs.extend(crate::gen::kdfs(false).into_iter().map(|kdf| Cfg { kdf, ..base.clone() }));
    for at in 0..32 {
        for bit in 0..8 {
            let mut c = base.clone();
            c.seed[at] ^= 1 << bit;
            cfgs.push(c);
            let mut c = base.clone();
            c.iv[at % 16] ^= 1 << bit;
            cfgs.push(c);
            let mut c = base.clone();
            c.kdf = match c.kdf {
                Kdf::Aes { rounds, mut salt, legacy_uuid } => {
                    salt[at] ^= 1 << bit;
                    Kdf::Aes { rounds, salt, legacy_uuid }
                }
                k => k,
            };
            cfgs.push(c);
        }
    }
    // what distinguishes headers: the outer settings, both AES identifiers being one
    let key = |c: &Cfg| (c.cipher, c.comp != Comp::None, format!("{:?}", c.kdf.lib()), c.seed.clone(), c.iv.clone());
    let mut seen = std::collections::HashSet::new();
    cfgs.retain(|c| seen.insert(key(c)));
    pairs(e, "headers", &cfgs, |c| {
        let mut k = kdbx_rs::Kdbx::from_database(Database::default());
        configure(&mut k, c);
        k.header().clone()
    });
    let inner: Vec<Cfg> = {
        let mut v = vec![];
        for inner in [Inner::Salsa, Inner::Chacha] {
            for n in 0..70 {
                v.push(Cfg { inner, inner_key: bytes(n, 5), ..base.clone() });
            }
            for bit in 0..256 {
                let mut k = bytes(32, 6);
                k[bit / 8] ^= 1 << (bit % 8);
                v.push(Cfg { inner, inner_key: k, ..base.clone() });
            }
        }
        v
    };
    let headers: Vec<kdbx_rs::Kdbx<kdbx_rs::binary::Unlocked>> = inner
        .iter()
        .map(|c| {
            let mut k = kdbx_rs::Kdbx::from_database(Database::default());
            configure(&mut k, c);
            k
        })
        .collect();
    e.phase("inner-headers", inner.len() as u64, |i, c| {
        let a = headers[i as usize].inner_header();
        for (j, b) in headers.iter().enumerate() {
            let eq = api("comparing", || *a == *b.inner_header())?;
            ensure!(eq == (i as usize == j), "inner headers {i} and {j}: equal is {eq}");
        }
        c.add("comparisons", inner.len() as u64);
        c.seen("told apart", &i);
        Ok(())
    });

    // copies: edited in every way, to a depth; the original stays, and is what it was to every comparison
    let depth = e.pick(4, 5) as u32;
    let original = build(&r);
    e.phase("copies", words(EDITS, depth), |i, c| {
        let seq = word(EDITS, i);
        let db = original.clone();
        let mut copy = db.clone();
        let mut m = r.clone();
        for k in &seq {
            // later edits may find their item gone
            let works = m.root.entries.first().is_some_and(|e| e.uuid == 0x11 && e.history.len() >= 2 && e.fields.len() >= 6 && e.fields[5].key == "pin") && m.root.groups.first().is_some_and(|g| g.uuid == 0x21 && g.groups.len() == 1);
            let named = m.custom.len() >= 2 && works && m.root.groups[0].groups[0].name == "Nested" && m.root.groups[0].groups[0].entries[0].fields[0].value == "Deep";
            if !named {
                break;
            }
            api("editing a copy", || edit(&mut copy, &mut m, *k as u64))?;
        }
        ensure!(observe(&copy) == m, "edits {seq:?} of a copy: {}", diff(&m, &observe(&copy)));
        ensure!(observe(&db) == r, "edits {seq:?} of a copy change the original: {}", diff(&r, &observe(&db)));
        let eq = api("comparing", || (db == original, copy == db, copy == original))?;
        ensure!(eq.0 && eq.1 == (m == r) && eq.2 == (m == r), "edits {seq:?} of a copy: comparisons give {eq:?}");
        c.seen(if m == r { "same" } else { "different" }, &seq);
        Ok(())
    });
    // parts taken out as copies
    e.phase("parts", EDITS, |i, c| {
        let mut db = original.clone();
        let (g, x): (Group, Entry) = (db.root().clone(), db.root().entries().next().unwrap().clone());
        let h = x.history().clone();
        let t = x.times().clone();
        let fl: Vec<Field> = x.fields().cloned().collect();
        let meta = db.meta().clone();
        let mut m = r.clone();
        api("editing", || edit(&mut db, &mut m, i))?;
        ensure!(observe_group(&g) == r.root && observe_entry(&x) == r.root.entries[0], "edit {i} changes a copied part");
        ensure!(h.entries().map(observe_entry).collect::<Vec<_>>() == r.root.entries[0].history && observe_times(&t) == r.root.entries[0].times, "edit {i} changes a copied part");
        ensure!(fl.iter().map(observe_field).collect::<Vec<_>>() == r.root.entries[0].fields && meta.custom_data.iter().map(observe_field).collect::<Vec<_>>() == r.custom, "edit {i} changes a copied part");
        c.seen("kept", &i);
        Ok(())
    });
}
