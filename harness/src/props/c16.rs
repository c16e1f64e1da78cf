//! Group tree operations against an ordered-tree model.

use crate::engine::*;
use crate::model::*;
use crate::{bail, ensure};
use kdbx_rs::database::{Database, Entry, Group};
use std::collections::HashMap;
use uuid::Uuid;

// Every created item carries a serial number in its usage counter, so that items with equal
// identifiers and names stay distinguishable.

fn fix(mut t: MTimes, serial: u32) -> MTimes {
    t.usage = serial;
    t
}
fn new_entry(id: u128, title: &str, serial: u32) -> MEntry {
    MEntry { uuid: id, fields: vec![f("Title", title, false)], times: fix(mtimes(1), serial), history: vec![] }
}
fn new_group(id: u128, name: &str, serial: u32) -> MGroup {
    MGroup { uuid: id, name: name.into(), times: fix(mtimes(1), serial), entries: vec![], groups: vec![] }
}

fn m_find_group<'a>(g: &'a mut MGroup, p: &mut dyn FnMut(&MGroup) -> bool) -> Option<&'a mut MGroup> {
    for c in g.groups.iter_mut() {
        if p(c) {
            return Some(c);
        }
        if let Some(x) = m_find_group(c, p) {
            return Some(x);
        }
    }
    None
}
fn m_find_entry<'a>(g: &'a mut MGroup, p: &mut dyn FnMut(&MEntry) -> bool) -> Option<&'a mut MEntry> {
    for c in g.entries.iter_mut() {
        if p(c) {
            return Some(c);
        }
    }
    for c in g.groups.iter_mut() {
        if let Some(x) = m_find_entry(c, p) {
            return Some(x);
        }
    }
    None
}
fn m_remove_entry(g: &mut MGroup, id: u128) -> Option<MEntry> {
    let p = g.entries.iter().position(|e| e.uuid == id)?;
    Some(g.entries.remove(p))
}
fn m_remove_group(g: &mut MGroup, id: u128) -> Option<MGroup> {
    let p = g.groups.iter().position(|e| e.uuid == id)?;
    Some(g.groups.remove(p))
}
fn m_all_entries(g: &MGroup, out: &mut Vec<u32>) {
    out.extend(g.entries.iter().map(|e| e.times.usage));
    for c in &g.groups {
        m_all_entries(c, out);
    }
}
fn m_all_groups(g: &MGroup, out: &mut Vec<u32>) {
    for c in &g.groups {
        out.push(c.times.usage);
        m_all_groups(c, out);
    }
}
fn m_each_entry(g: &mut MGroup, h: &mut dyn FnMut(&mut MEntry)) {
    for e in g.entries.iter_mut() {
        h(e);
    }
    for c in g.groups.iter_mut() {
        m_each_entry(c, h);
    }
}

#[derive(Clone)]
struct State {
    m: MGroup,
    db: Database,
    serial: u32,
}

fn title(e: &MEntry) -> &str {
    e.fields.iter().find(|f| f.key == "Title").map_or("", |f| &f.value)
}

const OPS: usize = 30;

fn id(n: u128) -> Uuid {
    Uuid::from_u128(n)
}

/// Applies one operation to both sides and compares what it returns.
fn step(s: &mut State, op: usize) -> Res {
    s.serial += 1;
    let n = s.serial;
    let db = &mut s.db;
    let m = &mut s.m;
    match op {
        0 | 1 => {
            let e = new_entry(1 + op as u128, "a", n);
            let le = build_entry(&e);
            api("Database::add_entry", || db.add_entry(le))?;
            m.entries.push(e);
        }
        2 | 3 => {
            let g = new_group(op as u128 - 1, ["a", "b"][op - 2], n);
            let lg = build_group(&g);
            api("Database::add_group", || db.add_group(lg))?;
            m.groups.push(g);
        }
        4 | 5 => {
            let u = op as u128 - 3;
            let got = api("remove_entry", || db.root_mut().remove_entry(id(u)))?;
            let want = m_remove_entry(m, u);
            ensure!(got.as_ref().map(observe_entry) == want, "remove_entry({u}) returned {got:?}, expected {want:?}");
        }
        6 | 7 => {
            let u = op as u128 - 5;
            let got = api("remove_group", || db.root_mut().remove_group(id(u)))?;
            let want = m_remove_group(m, u);
            ensure!(got.as_ref().map(observe_group) == want, "remove_group({u}) returned {got:?}, expected {want:?}");
        }
        8 | 9 => {
            // add an entry to the first group called a / b
            let name = ["a", "b"][op - 8];
            let e = new_entry(1, "b", n);
            let le = build_entry(&e);
            let hit = api("find_group_mut", || db.find_group_mut(|g| g.name() == name).map(|g| g.add_entry(le)).is_some())?;
            let want = m_find_group(m, &mut |g| g.name == name).map(|g| g.entries.push(e)).is_some();
            ensure!(hit == want, "find_group_mut(name {name}) found: {hit}, expected {want}");
        }
        10 | 11 => {
            // add a subgroup to the first group called a / b
            let name = ["a", "b"][op - 10];
            let g = new_group(2, "a", n);
            let lg = build_group(&g);
            let hit = api("find_group_mut", || db.find_group_mut(|g| g.name() == name).map(|g| g.add_group(lg)).is_some())?;
            let want = m_find_group(m, &mut |g| g.name == name).map(|x| x.groups.push(g)).is_some();
            ensure!(hit == want, "find_group_mut(name {name}) found: {hit}, expected {want}");
        }
        12 => {
            api("set_name", || {
                if let Some(g) = db.find_group_mut(|g| g.uuid() == id(2)) {
                    g.set_name("a")
                }
            })?;
            if let Some(g) = m_find_group(m, &mut |g| g.uuid == 2) {
                g.name = "a".into();
            }
        }
        13 => {
            api("set_title", || {
                if let Some(e) = db.find_entry_mut(|e| e.uuid() == id(1)) {
                    e.set_title("x")
                }
            })?;
            if let Some(e) = m_find_entry(m, &mut |e| e.uuid == 1) {
                e.fields[0].value = "x".into();
            }
        }
        14 => {
            // move an entry into a group
            let got = api("remove_entry", || db.root_mut().remove_entry(id(1)))?;
            let want = m_remove_entry(m, 1);
            ensure!(got.is_some() == want.is_some(), "remove_entry disagrees");
            if let (Some(le), Some(e)) = (got, want) {
                ensure!(observe_entry(&le) == e, "removed entry {le:?}, expected {e:?}");
                let hit = api("find_group_mut", || match db.find_group_mut(|g| g.name() == "a") {
                    Some(g) => {
                        g.add_entry(le);
                        true
                    }
                    None => false,
                })?;
                let want = match m_find_group(m, &mut |g| g.name == "a") {
                    Some(g) => {
                        g.entries.push(e);
                        true
                    }
                    None => false,
                };
                ensure!(hit == want, "find_group_mut disagrees");
            }
        }
        15 => {
            // move a group into another one
            let got = api("remove_group", || db.root_mut().remove_group(id(1)))?;
            let want = m_remove_group(m, 1);
            ensure!(got.as_ref().map(observe_group) == want, "remove_group returned {got:?}, expected {want:?}");
            if let (Some(lg), Some(g)) = (got, want) {
                api("add_group", || {
                    let mut lg = Some(lg);
                    if let Some(t) = db.root_mut().groups_mut().next() {
                        t.add_group(lg.take().unwrap());
                    }
                    if let Some(lg) = lg {
                        db.add_group(lg);
                    }
                })?;
                match m.groups.first_mut() {
                    Some(t) => t.groups.push(g),
                    None => m.groups.push(g),
                }
            }
        }
        16 => {
            // make the first group with a matching name the root
            let got = api("find_group", || db.find_group(|g| g.name() == "a").cloned())?;
            let want = m_find_group(m, &mut |g| g.name == "a").cloned();
            ensure!(got.as_ref().map(observe_group) == want, "find_group returned {got:?}, expected {want:?}");
            if let (Some(lg), Some(g)) = (got, want) {
                api("replace_root", || db.replace_root(lg))?;
                *m = g;
            }
        }
        17 => {
            api("groups_mut", || {
                for (i, g) in db.root_mut().groups_mut().enumerate() {
                    g.set_name(["b", "a"][i % 2]);
                }
            })?;
            for (i, g) in m.groups.iter_mut().enumerate() {
                g.name = ["b", "a"][i % 2].into();
            }
        }
        18 => {
            api("entries_mut", || {
                for (i, e) in db.root_mut().entries_mut().enumerate() {
                    e.set_title(["y", "a"][i % 2]);
                }
            })?;
            for (i, e) in m.entries.iter_mut().enumerate() {
                e.fields[0].value = ["y", "a"][i % 2].into();
            }
        }
        19 => {
            // every entry below is visited exactly once
            api("recursive_entries_mut", || {
                for e in db.root_mut().recursive_entries_mut() {
                    let t = format!("{}r", e.title().unwrap_or(""));
                    e.set_title(if t.len() > 4 { "a" } else { &t });
                }
            })?;
            m_each_entry(m, &mut |e| {
                let t = format!("{}r", title(e));
                e.fields[0].value = if t.len() > 4 { "a".into() } else { t };
            });
        }
        20 => {
            let got = api("remove_entry", || db.find_group_mut(|g| g.entry_count() > 0).and_then(|g| g.remove_entry(id(1))))?;
            let want = m_find_group(m, &mut |g| !g.entries.is_empty()).and_then(|g| m_remove_entry(g, 1));
            ensure!(got.as_ref().map(observe_entry) == want, "nested remove_entry returned {got:?}, expected {want:?}");
        }
        21 => {
            let got = api("remove_group", || db.find_group_mut(|g| g.group_count() > 0).and_then(|g| g.remove_group(id(2))))?;
            let want = m_find_group(m, &mut |g| !g.groups.is_empty()).and_then(|g| m_remove_group(g, 2));
            ensure!(got.as_ref().map(observe_group) == want, "nested remove_group returned {got:?}, expected {want:?}");
        }
        22 => {
            api("set_uuid", || {
                if let Some(g) = db.root_mut().groups_mut().last() {
                    g.set_uuid(id(1))
                }
            })?;
            if let Some(g) = m.groups.last_mut() {
                g.uuid = 1;
            }
        }
        23 => {
            api("set_uuid", || {
                if let Some(e) = db.find_entry_mut(|e| e.title() == Some("b")) {
                    e.set_uuid(id(2))
                }
            })?;
            if let Some(e) = m_find_entry(m, &mut |e| title(e) == "b") {
                e.uuid = 2;
            }
        }
        24 => {
            // identifiers that are not there
            let a = api("remove_entry", || db.root_mut().remove_entry(id(9)))?;
            let b = api("remove_group", || db.root_mut().remove_group(id(9)))?;
            ensure!(a.is_none() && b.is_none(), "removal of an absent identifier returned something");
        }
        25 => {
            let g = new_group(2, "b", n);
            let e = new_entry(2, "c", n + 100_000);
            let (lg, le) = (build_group(&g), build_entry(&e));
            api("add to root", || {
                db.root_mut().add_group(lg);
                db.root_mut().add_entry(le);
            })?;
            m.groups.push(g);
            m.entries.push(e);
        }
        26 => {
            // nothing taken over from the group that is replaced
            let mut g = new_group(0, "", n);
            g.entries = m.entries.first().cloned().into_iter().collect();
            let lg = build_group(&g);
            api("replace_root", || db.replace_root(lg))?;
            *m = g;
        }
        27 => {
            api("root_mut", || {
                db.root_mut().set_name("");
                db.root_mut().set_uuid(id(1));
            })?;
            m.name.clear();
            m.uuid = 1;
        }
        28 => {
            api("set_name", || {
                if let Some(g) = db.find_group_mut(|g| !g.name().is_empty()) {
                    g.set_name("");
                    g.set_uuid(Uuid::nil());
                }
            })?;
            if let Some(g) = m_find_group(m, &mut |g| !g.name.is_empty()) {
                g.name.clear();
                g.uuid = 0;
            }
        }
        29 => {
            // a copy of the first group in the last one
            api("add_group", || {
                let first = db.root().groups().next().cloned();
                if let Some(g) = first {
                    if let Some(t) = db.root_mut().groups_mut().last() {
                        t.add_group(g);
                    }
                }
            })?;
            if let Some(g) = m.groups.first().cloned() {
                m.groups.last_mut().unwrap().groups.push(g);
            }
        }
        _ => unreachable!(),
    }
    Ok(())
}

fn sorted(mut v: Vec<u32>) -> Vec<u32> {
    v.sort();
    v
}

/// Compares every query on one group (and below) with the model.
fn queries(lg: &Group, mg: &mut MGroup) -> Res {
    let r = api("group queries", || -> Res {
        ensure!(lg.entry_count() == mg.entries.len(), "entry_count {} expected {}", lg.entry_count(), mg.entries.len());
        ensure!(lg.group_count() == mg.groups.len(), "group_count {} expected {}", lg.group_count(), mg.groups.len());
        let mut all = vec![];
        m_all_entries(mg, &mut all);
        let got: Vec<u32> = lg.recursive_entries().map(|e| e.times().usage_count).collect();
        ensure!(sorted(got.clone()) == sorted(all.clone()), "recursive_entries visits {got:?}, expected each of {all:?} once");
        let mut visited = vec![];
        let none = lg.find_entry(|e| {
            visited.push(e.times().usage_count);
            false
        });
        ensure!(none.is_none() && visited == all, "find_entry visits {visited:?}, expected {all:?}");
        let mut gall = vec![];
        m_all_groups(mg, &mut gall);
        let got: Vec<u32> = lg.recursive_groups().map(|e| e.times().usage_count).collect();
        ensure!(sorted(got.clone()) == sorted(gall.clone()), "recursive_groups visits {got:?}, expected each of {gall:?} once");
        let mut visited = vec![];
        let none = lg.find_group(|e| {
            visited.push(e.times().usage_count);
            false
        });
        ensure!(none.is_none() && visited == gall, "find_group visits {visited:?}, expected {gall:?}");
        for u in 0..3u128 {
            let got = lg.find_entry(|e| e.uuid() == id(u)).map(|e| e.times().usage_count);
            let want = m_find_entry(mg, &mut |e| e.uuid == u).map(|e| e.times.usage);
            ensure!(got == want, "find_entry(uuid {u}) = {got:?}, expected {want:?}");
            let got = lg.find_group(|g| g.uuid() == id(u)).map(|g| g.times().usage_count);
            let want = m_find_group(mg, &mut |g| g.uuid == u).map(|g| g.times.usage);
            ensure!(got == want, "find_group(uuid {u}) = {got:?}, expected {want:?}");
        }
        for t in ["", "a", "b"] {
            let got = lg.find_entry(|e| e.title().unwrap_or("") == t).map(|e| e.times().usage_count);
            let want = m_find_entry(mg, &mut |e| title(e) == t).map(|e| e.times.usage);
            ensure!(got == want, "find_entry(title {t}) = {got:?}, expected {want:?}");
            let got = lg.find_group(|g| g.name() == t).map(|g| g.times().usage_count);
            let want = m_find_group(mg, &mut |g| g.name == t).map(|g| g.times.usage);
            ensure!(got == want, "find_group(name {t}) = {got:?}, expected {want:?}");
        }
        Ok(())
    })?;
    r?;
    for (l, m) in lg.groups().zip(mg.groups.iter_mut()) {
        queries(l, m)?;
    }
    Ok(())
}

fn compare(s: &mut State) -> Res {
    let got = api("observe", || observe_group(s.db.root()))?;
    if got != s.m {
        bail!("tree is {got:?}, expected {:?}", s.m);
    }
    let m = &mut s.m;
    queries(s.db.root(), m)?;
    // mutable searches find the same items
    let db = &mut s.db;
    for u in 0..3u128 {
        let got = api("find_entry_mut", || db.find_entry_mut(|e| e.uuid() == id(u)).map(|e| e.times().usage_count))?;
        let want = m_find_entry(m, &mut |e| e.uuid == u).map(|e| e.times.usage);
        ensure!(got == want, "find_entry_mut(uuid {u}) = {got:?}, expected {want:?}");
        let got = api("find_group_mut", || db.find_group_mut(|e| e.uuid() == id(u)).map(|e| e.times().usage_count))?;
        let want = m_find_group(m, &mut |e| e.uuid == u).map(|e| e.times.usage);
        ensure!(got == want, "find_group_mut(uuid {u}) = {got:?}, expected {want:?}");
    }
    let (mut all, mut gall) = (vec![], vec![]);
    m_all_entries(m, &mut all);
    m_all_groups(m, &mut gall);
    // a search that is satisfied by the k-th item it meets, or by none
    for k in (0..=4).chain([all.len(), gall.len()]) {
        let mut left = k;
        let mut met = vec![];
        let got = api("find_entry_mut", || db.find_entry_mut(|e| { met.push(e.times().usage_count); left = left.wrapping_sub(1); left == usize::MAX }).map(|e| e.times().usage_count))?;
        ensure!(got.as_ref() == all.get(k) && met[..] == all[..all.len().min(k + 1)], "find_entry_mut for the {k}. item gives {got:?} after meeting {met:?}, all are {all:?}");
        let mut left = k;
        let got = api("find_entry", || db.find_entry(|_| { left = left.wrapping_sub(1); left == usize::MAX }).map(|e| e.times().usage_count))?;
        ensure!(got.as_ref() == all.get(k), "find_entry for the {k}. item gives {got:?}, all are {all:?}");
        let mut left = k;
        let mut met = vec![];
        let got = api("find_group_mut", || db.find_group_mut(|e| { met.push(e.times().usage_count); left = left.wrapping_sub(1); left == usize::MAX }).map(|e| e.times().usage_count))?;
        ensure!(got.as_ref() == gall.get(k) && met[..] == gall[..gall.len().min(k + 1)], "find_group_mut for the {k}. item gives {got:?} after meeting {met:?}, all are {gall:?}");
        let mut left = k;
        let got = api("find_group", || db.find_group(|_| { left = left.wrapping_sub(1); left == usize::MAX }).map(|e| e.times().usage_count))?;
        ensure!(got.as_ref() == gall.get(k), "find_group for the {k}. item gives {got:?}, all are {gall:?}");
    }
    let got = api("recursive_entries_mut", || db.root_mut().recursive_entries_mut().map(|e| e.times().usage_count).collect::<Vec<_>>())?;
    ensure!(sorted(got.clone()) == sorted(all.clone()), "recursive_entries_mut visits {got:?}, expected each of {all:?} once");
    Ok(())
}

/// Content with serial numbers replaced by their order of appearance: the abstract model state.
fn abstracted(m: &MGroup) -> u64 {
    fn walk(g: &MGroup, map: &mut HashMap<u32, u32>, out: &mut Vec<(u8, u128, String, u32)>) {
        let n = map.len() as u32;
        out.push((0, g.uuid, g.name.clone(), *map.entry(g.times.usage).or_insert(n)));
        for e in &g.entries {
            out.push((1, e.uuid, title(e).to_string(), 0));
        }
        for c in &g.groups {
            walk(c, map, out);
        }
        out.push((2, 0, String::new(), 0));
    }
    let mut out = vec![];
    walk(m, &mut HashMap::new(), &mut out);
    h64(&out)
}

fn start(kind: usize) -> State {
    let mut root = new_group(7, "Root", 1);
    if kind >= 1 {
        // repeated identifiers and names on several levels
        root.entries = vec![new_entry(1, "a", 2), new_entry(2, "b", 3), new_entry(1, "b", 4)];
        let mut g = new_group(1, "a", 5);
        g.entries = vec![new_entry(2, "a", 6), new_entry(1, "x", 7)];
        let mut h = new_group(2, "b", 8);
        h.entries = vec![new_entry(1, "b", 9)];
        g.groups = vec![h, new_group(1, "a", 10)];
        root.groups = vec![g, new_group(2, "a", 11), new_group(1, "b", 12)];
    }
    if kind == 2 {
        // a chain
        let mut g = new_group(2, "b", 20);
        g.entries = vec![new_entry(1, "a", 21)];
        for k in 0..4 {
            let mut p = new_group(1 + k % 2, ["a", "b"][k as usize % 2], 22 + k as u32);
            p.groups.push(g);
            g = p;
        }
        root.groups = vec![g];
        root.entries.clear();
    }
    let mut db = Database::default();
    db.replace_root(build_group(&root));
    State { m: root, db, serial: 1000 }
}

/// Long, deep and wide trees; every item has its serial number as identifier and name.
fn shape(kind: usize, n: usize) -> MGroup {
    let mut serial = 0;
    let mut next = || {
        serial += 1;
        serial
    };
    let group = |s: u32| new_group(s as u128, &format!("g{s}"), s);
    let entry = |s: u32| new_entry(s as u128, &format!("e{s}"), s);
    let mut root = group(next());
    match kind {
        // entries of the root, of a child
        0 => root.entries = (0..n).map(|_| entry(next())).collect(),
        1 => {
            let mut g = group(next());
            g.entries = (0..n).map(|_| entry(next())).collect();
            root.groups = vec![group(next()), g];
            root.groups.push(group(next()));
        }
        // child groups of the root, of a child, with an entry each
        2 => root.groups = (0..n).map(|_| group(next())).collect(),
        3 => {
            let mut g = group(next());
            g.groups = (0..n).map(|_| group(next())).collect();
            root.groups = vec![group(next()), g];
        }
        4 => {
            for _ in 0..n {
                let mut g = group(next());
                g.entries.push(entry(next()));
                root.groups.push(g);
            }
        }
        // chains: an entry at the bottom, at every level, empty groups before or after the next level
        _ => {
            let mut g = group(next());
            g.entries.push(entry(next()));
            for _ in 0..n {
                let mut p = group(next());
                if kind == 6 {
                    p.entries.push(entry(next()));
                }
                if kind == 7 {
                    p.groups.push(group(next()));
                }
                p.groups.push(g);
                if kind == 8 {
                    p.groups.push(group(next()));
                }
                g = p;
            }
            root.groups.push(g);
        }
    }
    root
}
const SHAPES: u64 = 9;

/// Gives an item more or less of one attribute.
fn rank_entry(e: &mut MEntry, what: usize, r: u32) {
    let n = r as i64 * 1000;
    match what {
        0..=4 => e.times.t[what] += n,
        5 => e.times.expires = r == 1,
        6 => e.times.usage += 1000 * r,
        7 => e.uuid = [1u128 << 120, 2, 1][r as usize],
        8 => e.fields = vec![f("Title", ["a", "b", "A"][r as usize], false)],
        9 => e.fields.extend((0..r).map(|k| f(&format!("k{k}"), "v", k == 1))),
        10 => e.history = (0..r).map(|k| new_entry(e.uuid, "old", 500 + k)).collect(),
        11 => e.fields = [vec![f("Title", "a", true)], vec![f("Title", "", false)], vec![f("Title", "", true)]][r as usize].clone(),
        12 => e.times = MTimes { t: [e.times.t[0] + n; 5], expires: r > 0, usage: e.times.usage },
        _ => e.fields[0].value = "\u{e9}x".repeat(r as usize),
    }
}
fn rank_group(g: &mut MGroup, what: usize, r: u32) {
    let n = r as i64 * 1000;
    match what {
        0..=4 => g.times.t[what] += n,
        5 => g.times.expires = r == 1,
        6 => g.times.usage += 1000 * r,
        7 => g.uuid = [1u128 << 120, 2, 1][r as usize],
        8 => g.name = ["a", "b", "A"][r as usize].into(),
        9 => g.entries = (0..r).map(|k| new_entry(1, "a", g.times.usage * 100 + k)).collect(),
        10 => g.groups = (0..r).map(|k| new_group(1, "a", g.times.usage * 100 + 50 + k)).collect(),
        11 => g.name = ["", " ", "Recycle Bin"][r as usize].into(),
        12 => g.times = MTimes { t: [g.times.t[0] + n; 5], expires: r > 0, usage: g.times.usage },
        _ => g.name = "\u{e9}x".repeat(r as usize),
    }
}
const ATTRIBUTES: u64 = 14;

/// Three siblings that differ in one attribute, in every order; both kinds of items, on two levels.
fn ranked(place: usize, what: usize, ranks: [usize; 3]) -> MGroup {
    let mut root = new_group(7, "Root", 1);
    let mut child = new_group(8, "child", 2);
    let entries: Vec<MEntry> = (0..3)
        .map(|k| {
            let mut e = new_entry(1, "a", 10 + k as u32);
            rank_entry(&mut e, what, ranks[k] as u32);
            e
        })
        .collect();
    let groups: Vec<MGroup> = (0..3)
        .map(|k| {
            let mut g = new_group(1, "a", 20 + k as u32);
            rank_group(&mut g, what, ranks[k] as u32);
            g
        })
        .collect();
    match place {
        0 => root.entries = entries,
        1 => root.groups = groups,
        2 => {
            child.entries = entries;
            child.groups = groups;
            root.groups = vec![child];
        }
        3 => {
            // one each in groups that are siblings
            root.groups = groups;
            for (g, e) in root.groups.iter_mut().zip(entries) {
                g.entries.push(e);
            }
        }
        _ => {
            // one below the other
            let mut it = groups.into_iter().zip(entries).rev();
            let (mut g, e) = it.next().unwrap();
            g.entries.push(e);
            for (mut h, e) in it {
                h.entries.push(e);
                h.groups.push(g);
                g = h;
            }
            root.groups = vec![g];
        }
    }
    root
}

fn last_group(g: &mut Group) -> &mut Group {
    if g.group_count() == 0 {
        return g;
    }
    last_group(g.groups_mut().last().unwrap())
}
fn m_last_group(g: &mut MGroup) -> &mut MGroup {
    if g.groups.is_empty() {
        return g;
    }
    m_last_group(g.groups.last_mut().unwrap())
}

/// Finds every item by its identifier, then removes every direct child in turn from a copy.
fn reach(s: &mut State, c: &mut Case) -> Res {
    let (mut es, mut gs) = (vec![], vec![]);
    m_all_entries(&s.m, &mut es);
    m_all_groups(&s.m, &mut gs);
    let db = &mut s.db;
    for u in es {
        let want = Some(u);
        let got = api("find_entry", || db.find_entry(|e| e.uuid() == id(u as u128)).map(|e| e.times().usage_count))?;
        ensure!(got == want, "find_entry({u}) = {got:?}");
        let got = api("find_entry_mut", || db.find_entry_mut(|e| e.uuid() == id(u as u128)).map(|e| e.times().usage_count))?;
        ensure!(got == want, "find_entry_mut({u}) = {got:?}");
        c.add("transitions", 2);
    }
    for u in gs {
        let want = Some(u);
        let got = api("find_group", || db.find_group(|e| e.uuid() == id(u as u128)).map(|e| e.times().usage_count))?;
        ensure!(got == want, "find_group({u}) = {got:?}");
        let got = api("find_group_mut", || db.find_group_mut(|e| e.uuid() == id(u as u128)).map(|e| e.times().usage_count))?;
        ensure!(got == want, "find_group_mut({u}) = {got:?}");
        c.add("transitions", 2);
    }
    let (es, gs): (Vec<u128>, Vec<u128>) = (s.m.entries.iter().map(|e| e.uuid).collect(), s.m.groups.iter().map(|g| g.uuid).collect());
    for u in es {
        let mut t = s.clone();
        let got = api("remove_entry", || t.db.root_mut().remove_entry(id(u)))?;
        let want = m_remove_entry(&mut t.m, u);
        ensure!(got.as_ref().map(observe_entry) == want, "remove_entry({u}) returned {got:?}, expected {want:?}");
        let got = api("observe", || observe_group(t.db.root()))?;
        ensure!(got == t.m, "tree differs after removal of entry {u}");
        c.add("transitions", 1);
    }
    for u in gs {
        let mut t = s.clone();
        let got = api("remove_group", || t.db.root_mut().remove_group(id(u)))?;
        let want = m_remove_group(&mut t.m, u);
        ensure!(got.as_ref().map(observe_group) == want, "remove_group({u}) returned something else");
        let got = api("observe", || observe_group(t.db.root()))?;
        ensure!(got == t.m, "tree differs after removal of group {u}");
        c.add("transitions", 1);
    }
    Ok(())
}

pub fn run(e: &mut Engine) {
    e.level = "model_checking";
    e.rule = "all operation sequences of the given depth over 30 operations from 3 start trees; a trace is non-trivial if it changes the tree".into();
    let depth = e.pick(3, 4);
    let n = 3 * (OPS as u64).pow(depth);
    // One case runs all sequences sharing the prefix: index -> prefix of length depth, all last operations.
    e.phase("sequences", n, |i, c| {
        let mut x = Dec(i);
        let mut s = start(x.pick(3));
        let mut ops = vec![];
        for _ in 0..depth {
            let op = x.pick(OPS as u64);
            ops.push(op);
            step(&mut s, op).map_err(|v| Violation::from(format!("after {ops:?}: {}", v.msg)))?;
        }
        compare(&mut s).map_err(|v| Violation::from(format!("after {ops:?}: {}", v.msg)))?;
        for op in 0..OPS {
            let mut t = s.clone();
            step(&mut t, op).and_then(|_| compare(&mut t)).map_err(|v| Violation::from(format!("after {ops:?} {op}: {}", v.msg)))?;
            c.add("transitions", 1);
            c.add("traces_validated_against_impl", 1);
            c.seen("trace", &abstracted(&t.m));
        }
        c.sample(|| format!("operations {ops:?} from start {}", i % 3));
        Ok(())
    });
    // Model state graph: breadth-first, every edge executed on the implementation.
    let layers = e.pick(3, 4);
    let mut frontier: Vec<State> = (0..3).map(start).collect();
    let mut seen: std::collections::HashSet<u64> = frontier.iter().map(|s| abstracted(&s.m)).collect();
    let mut states = seen.len() as u64;
    let states_more = std::sync::atomic::AtomicU64::new(0);
    for layer in 0..layers + 2 {
        let next = std::sync::Mutex::new(Vec::new());
        let fr = &frontier;
        e.phase(&format!("graph-{layer}"), frontier.len() as u64, |i, c| {
            for op in 0..OPS {
                let mut t = fr[i as usize].clone();
                step(&mut t, op).and_then(|_| compare(&mut t))?;
                c.add("transitions", 1);
                let k = abstracted(&t.m);
                c.seen("edge", &(i, op, layer));
                next.lock().unwrap().push((i, op, k, t));
            }
            Ok(())
        });
        let mut v = next.into_inner().unwrap();
        v.sort_by_key(|x| (x.0, x.1));
        frontier = vec![];
        for (_, _, k, t) in v {
            if seen.insert(k) {
                states += 1;
                frontier.push(t);
            }
        }
        if frontier.len() > if e.quick() { 60_000 } else { 400_000 } {
            break;
        }
    }
    // Long, deep and wide trees, with each of the operations that need no particular names
    let mut sizes: Vec<usize> = (0..=40).chain([63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300]).collect();
    if !e.quick() {
        sizes.extend([511, 512, 513, 1000, 1023, 1024, 1025]);
    }
    e.phase("shapes", SHAPES * sizes.len() as u64, |i, c| {
        let mut x = Dec(i);
        let kind = x.pick(SHAPES);
        let n = *x.of(&sizes);
        if kind >= 5 && n > 300 {
            c.seen("trivial", "");
            return Ok(());
        }
        let fail = |v: Violation| Violation::from(format!("shape {kind} of {n}: {}", v.msg));
        let m = shape(kind, n);
        let mut db = Database::default();
        db.replace_root(build_group(&m));
        let mut s = State { m, db, serial: 10_000 };
        compare(&mut s).map_err(fail)?;
        reach(&mut s, c).map_err(fail)?;
        for op in [0, 2, 17, 18, 19, 22, 25, 27, 29] {
            let mut t = s.clone();
            step(&mut t, op).map_err(fail)?;
            let got = api("observe", || observe_group(t.db.root()))?;
            ensure!(got == t.m, "shape {kind} of {n}: tree differs after operation {op}");
            c.add("transitions", 1);
        }
        // an addition at the far end, a removal there
        let en = new_entry(90_000, "far", 90_000);
        let le = build_entry(&en);
        api("add_entry", || last_group(s.db.root_mut()).add_entry(le))?;
        m_last_group(&mut s.m).entries.push(en);
        compare(&mut s).map_err(fail)?;
        let got = api("remove_entry", || last_group(s.db.root_mut()).remove_entry(id(90_000)))?;
        let want = m_remove_entry(m_last_group(&mut s.m), 90_000);
        ensure!(got.as_ref().map(observe_entry) == want, "shape {kind} of {n}: far removal returned {got:?}");
        compare(&mut s).map_err(fail)?;
        c.add("transitions", 2);
        c.add("traces_validated_against_impl", 1);
        c.seen("shape", &(kind, n));
        c.sample(|| format!("shape {kind} of {n}"));
        states_more.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        Ok(())
    });
    // items that differ in something no operation looks at
    e.phase("attributes", 5 * ATTRIBUTES * 27, |i, c| {
        let mut x = Dec(i);
        let (place, what) = (x.pick(5), x.pick(ATTRIBUTES));
        let ranks = [x.pick(3), x.pick(3), x.pick(3)];
        let fail = |v: Violation| Violation::from(format!("place {place}, attribute {what}, {ranks:?}: {}", v.msg));
        let m = ranked(place, what, ranks);
        let mut db = Database::default();
        db.replace_root(build_group(&m));
        let mut s = State { m, db, serial: 100_000 };
        compare(&mut s).map_err(fail)?;
        for op in 0..OPS {
            let mut t = s.clone();
            step(&mut t, op).and_then(|_| compare(&mut t)).map_err(fail)?;
            c.add("transitions", 1);
            c.add("traces_validated_against_impl", 1);
        }
        c.seen("attributes", &i);
        states_more.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        Ok(())
    });
    states += states_more.into_inner();
    e.count("states", states);
    let _: fn(&Entry) -> MEntry = observe_entry;
}
