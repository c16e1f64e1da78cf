//! Entry, field and history edits against list models.

use crate::engine::*;
use crate::model::*;
use crate::{bail, ensure};
use kdbx_rs::database::{Entry, Field, Otp};
use uuid::Uuid;

#[derive(Clone)]
struct State {
    m: MEntry,
    e: Entry,
}

const OPS: usize = 36;
const OTP: &str = "otpauth://totp/kdbxrs:kdbxrs?secret=ABC&period=30&digits=6";

fn first<'a>(m: &'a mut MEntry, k: &str) -> Option<&'a mut MField> {
    m.fields.iter_mut().find(|x| x.key == k)
}
fn put(m: &mut MEntry, k: &str, v: &str, force_prot: bool) {
    match first(m, k) {
        Some(x) => {
            x.value = v.into();
            x.prot |= force_prot;
        }
        None => m.fields.push(f(k, v, force_prot)),
    }
}

fn step(s: &mut State, op: usize) -> Res {
    let e = &mut s.e;
    let m = &mut s.m;
    match op {
        0 | 1 => {
            let v = ["x", ""][op];
            api("set_title", || e.set_title(v))?;
            put(m, "Title", v, false);
        }
        2 | 3 => {
            let v = ["u", "w"][op - 2];
            api("set_username", || e.set_username(v))?;
            put(m, "UserName", v, false);
        }
        4 => {
            api("set_url", || e.set_url("http://l"))?;
            put(m, "URL", "http://l", false);
        }
        5 | 6 => {
            let v = ["p", "q"][op - 5];
            api("set_password", || e.set_password(v))?;
            put(m, "Password", v, true);
        }
        7 => {
            api("set_otp", || e.set_otp(Otp::new("ABC", 30, 6)))?;
            put(m, "otp", OTP, true);
        }
        8..=13 => {
            let x = [f("Title", "t2", false), f("Password", "plain", false), f("k", "v", true), f("k", "w", false), f("otp", OTP, false), f("URL", "s", true)][op - 8].clone();
            let y = build_field(&x);
            api("add_field", || e.add_field(y))?;
            m.fields.push(x);
        }
        14..=17 => {
            let k = ["k", "Title", "Password", "absent"][op - 14];
            api("remove_field", || e.remove_field(k))?;
            m.fields.retain(|x| x.key != k);
        }
        18 => {
            api("new_version", || e.new_version())?;
            let mut c = m.clone();
            c.history.clear();
            m.history.push(c);
        }
        19 => {
            // push a version that itself carries a history
            let mut h = mentry(5, vec![f("Title", "h", false)]);
            h.history.push(mentry(6, vec![f("k", "hh", true)]));
            let x = build_entry(&h);
            api("History::push", || e.history_mut().push(x))?;
            m.history.push(h);
        }
        20 | 21 => {
            let idx = if op == 20 { 0 } else { m.history.len().wrapping_sub(1) };
            if idx < m.history.len() {
                let got = api("History::remove", || e.history_mut().remove(idx))?;
                let want = m.history.remove(idx);
                ensure!(observe_entry(&got) == want, "History::remove({idx}) returned {got:?}, expected {want:?}");
            }
        }
        22 => {
            let got = api("History::get_mut", || e.history_mut().get_mut(0).map(|h| h.set_title("old")).is_some())?;
            ensure!(got == !m.history.is_empty(), "History::get_mut(0) found: {got}");
            if let Some(h) = m.history.first_mut() {
                put(h, "Title", "old", false);
            }
        }
        23 => {
            api("History::entries_mut", || e.history_mut().entries_mut().for_each(|h| h.set_password("all")))?;
            m.history.iter_mut().for_each(|h| put(h, "Password", "all", true));
        }
        24..=27 => {
            // edits of the first field named k or Password
            let k = ["k", "Password", "k", "Title"][op - 24];
            let clear = op >= 26;
            let got = api("find_mut", || match e.find_mut(k) {
                Some(x) if clear => {
                    x.clear();
                    true
                }
                Some(x) => {
                    x.set_value("edited");
                    true
                }
                None => false,
            })?;
            let want = first(m, k).map(|x| x.value = if clear { String::new() } else { "edited".into() }).is_some();
            ensure!(got == want, "find_mut({k}) found: {got}, expected {want}");
        }
        28..=31 => {
            let (k, p) = [("k", true), ("k", false), ("Title", true), ("Password", false)][op - 28];
            api("set_protected", || {
                if let Some(x) = e.find_mut(k) {
                    x.set_protected(p)
                }
            })?;
            if let Some(x) = first(m, k) {
                x.prot = p;
            }
        }
        32 => {
            api("set_key", || {
                if let Some(x) = e.find_mut("k") {
                    x.set_key("Title")
                }
            })?;
            if let Some(x) = first(m, "k") {
                x.key = "Title".into();
            }
        }
        33 => {
            api("fields_mut", || {
                for (i, x) in e.fields_mut().enumerate() {
                    x.set_value(["even", "odd"][i % 2]);
                }
            })?;
            for (i, x) in m.fields.iter_mut().enumerate() {
                x.value = ["even", "odd"][i % 2].into();
            }
        }
        34 => {
            api("set_uuid", || e.set_uuid(Uuid::from_u128(77)))?;
            m.uuid = 77;
        }
        35 => {
            let t = mtimes(55);
            api("times_mut", || build_times(&t, e.times_mut()))?;
            m.times = t;
        }
        _ => unreachable!(),
    }
    Ok(())
}

fn compare(s: &State) -> Res {
    let m = &s.m;
    let e = &s.e;
    api("entry queries", || -> Res {
        let got = observe_entry(e);
        if &got != m {
            bail!("entry is {got:?}, expected {m:?}");
        }
        let val = |k: &str| m.fields.iter().find(|x| x.key == k).map(|x| x.value.as_str());
        let norm = |x: Option<&str>| x.filter(|s| !s.is_empty()).map(str::to_string);
        for (k, got) in [("Title", e.title()), ("UserName", e.username()), ("URL", e.url()), ("Password", e.password())] {
            ensure!(norm(got) == norm(val(k)), "value of {k} is {got:?}, expected {:?}", val(k));
        }
        for k in ["Title", "UserName", "URL", "Password", "otp", "k", "absent"] {
            let got = e.find(k).map(observe_field);
            let want = m.fields.iter().find(|x| x.key == k).cloned();
            ensure!(got == want, "find({k}) = {got:?}, expected {want:?}");
        }
        if val("otp") == Some(OTP) {
            let o = e.otp();
            ensure!(o.as_ref().and_then(|o| o.secret()) == Some("ABC"), "otp secret not returned");
        } else if val("otp").is_none() {
            ensure!(e.otp().is_none(), "otp present without field");
        }
        let h = e.history();
        ensure!(h.len() == m.history.len() && h.is_empty() == m.history.is_empty(), "history length {} expected {}", h.len(), m.history.len());
        for i in 0..m.history.len() + 1 {
            let got = h.get(i).map(observe_entry);
            ensure!(got.as_ref() == m.history.get(i), "history.get({i}) = {got:?}, expected {:?}", m.history.get(i));
            if i < m.history.len() {
                ensure!(observe_entry(&h[i]) == m.history[i], "history[{i}] differs");
            }
        }
        Ok(())
    })?
}

fn start(kind: usize) -> State {
    let mut m = mentry(3, vec![]);
    if kind >= 1 {
        m.fields = vec![f("k", "1", true), f("Title", "a", false), f("k", "2", false), f("Password", "s", true), f("Title", "b", true), f("k", "3", true)];
        let mut h = mentry(3, vec![f("Title", "old", false), f("Password", "olds", true)]);
        h.times = mtimes(9);
        m.history = vec![h.clone(), h];
        m.history[1].fields.pop();
    }
    if kind == 2 {
        m.fields = vec![f("Password", "", true), f("k", "", false), f("k", "", true), f("otp", OTP, false)];
        m.history.clear();
    }
    let e = build_entry(&m);
    State { m, e }
}

/// Field names that are easily mistaken for one another.
const NAMES: [&str; 26] = [
    "Title", "title", "TITLE", "Title ", " Title", "Titl", "Titles", "UserName", "Username", "username", "URL", "Url", "url", "Password", "password", "PASSWORD",
    "Password\0", "otp", "OTP", "Otp", "", "k", "K", "\u{e9}", "e\u{301}", "\u{c9}",
];
const ACTS: usize = 11;

/// One access by name.
fn access(s: &mut State, act: usize, name: &str) -> Res {
    let e = &mut s.e;
    let m = &mut s.m;
    match act {
        0 => {
            let got = api("find_mut", || e.find_mut(name).map(|x| x.set_value("new")).is_some())?;
            let want = first(m, name).map(|x| x.value = "new".into()).is_some();
            ensure!(got == want, "find_mut({name:?}) found: {got}, expected {want}");
        }
        1 => {
            api("remove_field", || e.remove_field(name))?;
            m.fields.retain(|x| x.key != name);
        }
        2 => {
            api("set_key", || {
                if let Some(x) = e.find_mut("k") {
                    x.set_key(name)
                }
            })?;
            if let Some(x) = first(m, "k") {
                x.key = name.into();
            }
        }
        3 => {
            let x = f(name, "added", true);
            let y = build_field(&x);
            api("add_field", || e.add_field(y))?;
            m.fields.push(x);
        }
        4 => {
            api("clear", || {
                if let Some(x) = e.find_mut(name) {
                    x.clear()
                }
            })?;
            if let Some(x) = first(m, name) {
                x.value.clear();
            }
        }
        5 => {
            api("set_protected", || {
                if let Some(x) = e.find_mut(name) {
                    x.set_protected(true)
                }
            })?;
            if let Some(x) = first(m, name) {
                x.prot = true;
            }
        }
        6 => {
            api("set_title", || e.set_title("new"))?;
            put(m, "Title", "new", false);
        }
        7 => {
            api("set_username", || e.set_username("new"))?;
            put(m, "UserName", "new", false);
        }
        8 => {
            api("set_url", || e.set_url("new"))?;
            put(m, "URL", "new", false);
        }
        9 => {
            api("set_password", || e.set_password("new"))?;
            put(m, "Password", "new", true);
        }
        _ => {
            api("set_otp", || e.set_otp(Otp::new("ABC", 30, 6)))?;
            put(m, "otp", OTP, true);
        }
    }
    let got = api("find", || e.find(name).map(observe_field))?;
    let want = m.fields.iter().find(|x| x.key == name).cloned();
    ensure!(got == want, "find({name:?}) = {got:?}, expected {want:?}");
    Ok(())
}

/// Long lists of fields and versions.
fn repeated(kind: usize, n: usize, c: &mut Case) -> Res {
    let mut s = start(1);
    let mut go = |s: &mut State, op: usize| {
        c.add("transitions", 1);
        step(s, op)
    };
    match kind {
        // versions one after another, each different
        0 => {
            for i in 0..n {
                let t = format!("v{i}");
                api("set_title", || s.e.set_title(t.as_str()))?;
                put(&mut s.m, "Title", &t, false);
                go(&mut s, 18)?;
                ensure!(s.e.history().len() == s.m.history.len(), "{} versions after {i} more", s.e.history().len());
            }
        }
        // fields of one name between others
        1 | 2 => {
            for i in 0..n {
                let key = if kind == 1 || i % 3 == 0 { "k".to_string() } else { format!("k{i}") };
                let x = f(&key, &format!("{i}"), i % 2 == 0);
                let y = build_field(&x);
                api("add_field", || s.e.add_field(y))?;
                s.m.fields.push(x);
            }
        }
        // versions pushed from outside
        _ => {
            for i in 0..n {
                let h = mentry(100 + i as u128, vec![f("Title", &format!("h{i}"), i % 2 == 0)]);
                let x = build_entry(&h);
                api("History::push", || s.e.history_mut().push(x))?;
                s.m.history.push(h);
            }
        }
    }
    compare(&s)?;
    // every operation on the long list
    for op in 0..OPS {
        let mut t = s.clone();
        go(&mut t, op)?;
        compare(&t)?;
    }
    // every position of the history, every field
    for i in 0..s.m.history.len() {
        let mut t = s.clone();
        let got = api("History::remove", || t.e.history_mut().remove(i))?;
        let want = t.m.history.remove(i);
        ensure!(observe_entry(&got) == want, "History::remove({i}) returned {got:?}");
        let got = api("observe", || observe_entry(&t.e))?;
        ensure!(got == t.m, "entry differs after History::remove({i})");
        let got = api("History::get_mut", || s.e.history_mut().get_mut(i).map(|h| h.set_url("u")).is_some())?;
        ensure!(got, "History::get_mut({i}) found nothing");
        put(&mut s.m.history[i], "URL", "u", false);
        c.add("transitions", 2);
    }
    let keys: Vec<String> = s.m.fields.iter().map(|x| x.key.clone()).collect();
    for k in keys.iter().collect::<std::collections::BTreeSet<_>>() {
        for act in [0, 1, 4, 5] {
            let mut t = s.clone();
            access(&mut t, act, k)?;
            let got = api("observe", || observe_entry(&t.e))?;
            ensure!(got == t.m, "entry differs after access {act} to {k:?}");
            c.add("transitions", 1);
        }
    }
    compare(&s)
}

pub fn run(e: &mut Engine) {
    e.level = "model_checking";
    e.rule = "all operation sequences of the given depth over 36 operations from 3 start entries; every trace is compared after every step".into();
    e.assumptions = vec!["History::remove beyond the end is a caller error and not explored".into()];
    let quick = e.quick();
    let depth = e.pick(3, 4);
    let n = 3 * (OPS as u64).pow(depth - 1);
    e.phase("sequences", n, |i, c| {
        let mut x = Dec(i);
        let mut s = start(x.pick(3));
        let mut ops = vec![];
        compare(&s)?;
        for _ in 0..depth - 1 {
            let op = x.pick(OPS as u64);
            ops.push(op);
            step(&mut s, op).and_then(|_| compare(&s)).map_err(|v| Violation::from(format!("after {ops:?}: {}", v.msg)))?;
        }
        for op in 0..OPS {
            let mut t = s.clone();
            step(&mut t, op).and_then(|_| compare(&t)).map_err(|v| Violation::from(format!("after {ops:?} {op}: {}", v.msg)))?;
            for last in 0..OPS {
                let mut u = t.clone();
                step(&mut u, last).and_then(|_| compare(&u)).map_err(|v| Violation::from(format!("after {ops:?} {op} {last}: {}", v.msg)))?;
                c.add("transitions", 1);
                c.add("traces_validated_against_impl", 1);
                c.seen("trace", &u.m);
            }
            c.add("transitions", 1);
        }
        c.sample(|| format!("operations {ops:?} from start {}", i % 3));
        Ok(())
    });
    // Model state graph, every edge executed on the implementation.
    let limit = e.pick(30_000, 300_000);
    let mut frontier: Vec<State> = (0..3).map(start).collect();
    let mut seen: std::collections::HashSet<u64> = frontier.iter().map(|s| h64(&s.m)).collect();
    for layer in 0..6 {
        let next = std::sync::Mutex::new(Vec::new());
        let fr = &frontier;
        e.phase(&format!("graph-{layer}"), frontier.len() as u64, |i, c| {
            for op in 0..OPS {
                let mut t = fr[i as usize].clone();
                step(&mut t, op).and_then(|_| compare(&t))?;
                c.add("transitions", 1);
                c.seen("edge", &(i, op, layer));
                next.lock().unwrap().push((i, op, h64(&t.m), t));
            }
            Ok(())
        });
        let mut v = next.into_inner().unwrap();
        v.sort_by_key(|x| (x.0, x.1));
        frontier = vec![];
        for (_, _, k, t) in v {
            if seen.insert(k) {
                frontier.push(t);
            }
        }
        if frontier.len() > limit {
            break;
        }
    }
    // names that are nearly the same: two or three fields, one access
    let k = NAMES.len() as u64;
    let n = e.pick(k * k, k * k * k);
    e.phase("names", n, |i, c| {
        let mut x = Dec(i);
        let mut m = mentry(3, vec![f(x.of(&NAMES), "1", false), f(x.of(&NAMES), "2", true)]);
        if !quick {
            m.fields.push(f(x.of(&NAMES), "3", false));
        }
        let s = State { e: build_entry(&m), m };
        for name in NAMES {
            for act in 0..ACTS {
                let mut t = s.clone();
                access(&mut t, act, name).and_then(|_| compare(&t)).map_err(|v| Violation::from(format!("{:?}, access {act} to {name:?}: {}", s.m.fields, v.msg)))?;
                c.add("transitions", 1);
                c.add("traces_validated_against_impl", 1);
                c.seen("access", &(&t.m, act, name));
            }
        }
        Ok(())
    });
    let mut sizes: Vec<usize> = (0..=40).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257]).collect();
    if !quick {
        sizes.extend([300, 511, 512, 513, 1000, 1023, 1024, 1025]);
    }
    e.phase("repeated", 4 * sizes.len() as u64, |i, c| {
        let (kind, n) = ((i % 4) as usize, sizes[(i / 4) as usize]);
        repeated(kind, n, c).map_err(|v| Violation::from(format!("list {kind} of {n}: {}", v.msg)))?;
        c.add("traces_validated_against_impl", 1);
        c.seen("list", &(kind, n));
        Ok(())
    });
    e.count("states", seen.len() as u64);
    let _: fn(&Field) -> MField = observe_field;
}
