//! Plain reference values for databases, and the bridge to the library's public types.

use crate::refxml::{civil_from_days, days_from_civil};
use chrono::{Datelike, NaiveDate, NaiveDateTime, Timelike};
use kdbx_rs::database::{Database, Entry, Field, Group, Times};
use uuid::Uuid;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MField {
    pub key: String,
    pub value: String,
    pub prot: bool,
}

/// Seconds since the first instant of year 1: modified, created, accessed, expiry, moved.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MTimes {
    pub t: [i64; 5],
    pub expires: bool,
    pub usage: u32,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MEntry {
    pub uuid: u128,
    pub fields: Vec<MField>,
    pub times: MTimes,
    pub history: Vec<MEntry>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MGroup {
    pub uuid: u128,
    pub name: String,
    pub times: MTimes,
    pub entries: Vec<MEntry>,
    pub groups: Vec<MGroup>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MDb {
    pub name: String,
    pub desc: String,
    pub custom: Vec<MField>,
    /// title, user name, password, url, notes
    pub mp: [bool; 5],
    pub root: MGroup,
}

pub const T0: i64 = 63_713_000_000;

pub fn mtimes(k: i64) -> MTimes {
    MTimes { t: [T0 + k, T0 + k + 1, T0 + k + 86_400, T0 + 10 * k + 7, T0 - k], expires: k % 2 == 1, usage: k as u32 }
}

pub fn f(key: &str, value: &str, prot: bool) -> MField {
    MField { key: key.into(), value: value.into(), prot }
}

pub fn mentry(id: u128, fields: Vec<MField>) -> MEntry {
    MEntry { uuid: id, fields, times: mtimes(id as i64 % 1000), history: vec![] }
}

pub fn mgroup(id: u128, name: &str) -> MGroup {
    MGroup { uuid: id, name: name.into(), times: mtimes(id as i64 % 1000), entries: vec![], groups: vec![] }
}

pub fn mdb(root: MGroup) -> MDb {
    MDb { name: "db".into(), desc: "a description".into(), custom: vec![], mp: [false, false, true, false, false], root }
}

/// A database using every kind of content.
pub fn rich() -> MDb {
    let mut e1 = mentry(0x11, vec![f("Title", "Bank", false), f("UserName", "me & <you>", false), f("Password", "s3cr\u{e9}t \u{1F511}", true),
        f("URL", "https://example.com/?a=1&b=2", false), f("Notes", "line one\nline two", false), f("pin", "0000", true)]);
    let mut old = e1.clone();
    old.fields[2].value = "older".into();
    old.times = mtimes(3);
    let mut older = old.clone();
    older.fields.truncate(3);
    older.fields[2].value = "oldest".into();
    e1.history = vec![older, old];
    let e2 = mentry(0x12, vec![f("Title", "Mail", false), f("Password", "correct horse", true), f("empty", "", false)]);
    let e3 = mentry(0x13, vec![f("Title", "Deep", false), f("Password", "battery staple", true)]);
    let mut g1 = mgroup(0x21, "Personal");
    let mut g2 = mgroup(0x22, "Work");
    let mut g3 = mgroup(0x23, "Nested");
    g3.entries.push(e3);
    g1.groups.push(g3);
    g1.entries.push(e2);
    g2.entries.push(mentry(0x14, vec![]));
    let mut root = mgroup(0x20, "Root");
    root.entries.push(e1);
    root.groups.push(g1);
    root.groups.push(g2);
    let mut d = mdb(root);
    d.name = "Rich".into();
    d.custom = vec![f("plugin", "value one", false), f("token", "hidden token", true)];
    d
}

/// A small database with a protected value.
pub fn small() -> MDb {
    let mut root = mgroup(0x31, "Root");
    root.entries.push(mentry(0x32, vec![f("Title", "T", false), f("Password", "pass phrase", true)]));
    mdb(root)
}

pub fn dt(secs: i64) -> NaiveDateTime {
    let days = secs.div_euclid(86_400);
    let s = secs.rem_euclid(86_400);
    let (y, m, d) = civil_from_days(days);
    NaiveDate::from_ymd_opt(y as i32, m, d).unwrap().and_hms_opt((s / 3600) as u32, (s / 60 % 60) as u32, (s % 60) as u32).unwrap()
}

pub fn secs(t: &NaiveDateTime) -> i64 {
    days_from_civil(t.year() as i64, t.month(), t.day()) * 86_400 + (t.hour() * 3600 + t.minute() * 60 + t.second()) as i64
}

pub fn build_times(m: &MTimes, t: &mut Times) {
    t.last_modification_time = dt(m.t[0]);
    t.creation_time = dt(m.t[1]);
    t.last_access_time = dt(m.t[2]);
    t.expiry_time = dt(m.t[3]);
    t.location_changed = dt(m.t[4]);
    t.expires = m.expires;
    t.usage_count = m.usage;
}

pub fn observe_times(t: &Times) -> MTimes {
    MTimes {
        t: [secs(&t.last_modification_time), secs(&t.creation_time), secs(&t.last_access_time), secs(&t.expiry_time), secs(&t.location_changed)],
        expires: t.expires,
        usage: t.usage_count,
    }
}

thread_local! {
    /// Whether empty values are made by emptying a non-empty one.
    pub static EMPTY_BY_CLEAR: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn build_field(m: &MField) -> Field {
    if m.value.is_empty() && EMPTY_BY_CLEAR.with(|c| c.get()) {
        let mut x = if m.prot { Field::new_protected(&m.key, "x") } else { Field::new(&m.key, "x") };
        x.clear();
        return x;
    }
    if m.prot {
        Field::new_protected(&m.key, &m.value)
    } else {
        Field::new(&m.key, &m.value)
    }
}

pub fn observe_field(x: &Field) -> MField {
    MField { key: x.key().to_string(), value: x.value().unwrap_or("").to_string(), prot: x.protected() }
}

pub fn build_entry(m: &MEntry) -> Entry {
    let mut e = Entry::default();
    e.set_uuid(Uuid::from_u128(m.uuid));
    for x in &m.fields {
        e.add_field(build_field(x));
    }
    build_times(&m.times, e.times_mut());
    for h in &m.history {
        e.history_mut().push(build_entry(h));
    }
    e
}

pub fn observe_entry(e: &Entry) -> MEntry {
    MEntry {
        uuid: e.uuid().as_u128(),
        fields: e.fields().map(observe_field).collect(),
        times: observe_times(e.times()),
        history: e.history().entries().map(observe_entry).collect(),
    }
}

pub fn build_group(m: &MGroup) -> Group {
    let mut g = Group::new(&m.name);
    g.set_uuid(Uuid::from_u128(m.uuid));
    build_times(&m.times, g.times_mut());
    for e in &m.entries {
        g.add_entry(build_entry(e));
    }
    for c in &m.groups {
        g.add_group(build_group(c));
    }
    g
}

pub fn observe_group(g: &Group) -> MGroup {
    MGroup {
        uuid: g.uuid().as_u128(),
        name: g.name().to_string(),
        times: observe_times(g.times()),
        entries: g.entries().map(observe_entry).collect(),
        groups: g.groups().map(observe_group).collect(),
    }
}

pub fn build(m: &MDb) -> Database {
    let mut db = Database::default();
    db.set_name(&m.name);
    db.set_description(&m.desc);
    db.meta_mut().custom_data = m.custom.iter().map(build_field).collect();
    let mp = &mut db.meta_mut().memory_protection;
    mp.protect_title = m.mp[0];
    mp.protect_user_name = m.mp[1];
    mp.protect_password = m.mp[2];
    mp.protect_url = m.mp[3];
    mp.protect_notes = m.mp[4];
    db.replace_root(build_group(&m.root));
    db
}

pub fn observe(db: &Database) -> MDb {
    let mp = &db.meta().memory_protection;
    MDb {
        name: db.name().to_string(),
        desc: db.description().to_string(),
        custom: db.meta().custom_data.iter().map(observe_field).collect(),
        mp: [mp.protect_title, mp.protect_user_name, mp.protect_password, mp.protect_url, mp.protect_notes],
        root: observe_group(db.root()),
    }
}

/// First difference between two models, for messages.
pub fn diff(a: &MDb, b: &MDb) -> String {
    let (x, y) = (format!("{a:?}"), format!("{b:?}"));
    let p = x.char_indices().zip(y.char_indices()).take_while(|(c, d)| c.1 == d.1).count();
    let lo = p.saturating_sub(60);
    let cut = |s: &str| s.chars().skip(lo).take(160).collect::<String>();
    format!("expected ..{}.. got ..{}..", cut(&x), cut(&y))
}

/// Every database text in a fixed order, by mutable reference (positions of the text alphabet).
pub const TEXT_POSITIONS: usize = 11;
pub fn put_text(d: &mut MDb, pos: usize, s: &str) {
    match pos {
        0 => d.name = s.into(),
        1 => d.desc = s.into(),
        2 => d.custom.push(MField { key: s.into(), value: "v".into(), prot: false }),
        3 => d.custom.push(MField { key: "k".into(), value: s.into(), prot: false }),
        4 => d.custom.push(MField { key: "k".into(), value: s.into(), prot: true }),
        5 => d.root.name = s.into(),
        6 => d.root.entries[0].fields.push(MField { key: s.into(), value: "v".into(), prot: false }),
        7 => d.root.entries[0].fields.push(MField { key: "k".into(), value: s.into(), prot: false }),
        8 => d.root.entries[0].fields.push(MField { key: "k".into(), value: s.into(), prot: true }),
        9 => {
            let mut h = d.root.entries[0].clone();
            h.fields.push(MField { key: s.into(), value: s.into(), prot: true });
            h.fields.push(MField { key: "after".into(), value: s.into(), prot: false });
            d.root.entries[0].history.push(h);
        }
        10 => {
            let mut g = mgroup(0x77, s);
            g.entries.push(mentry(0x78, vec![MField { key: "Title".into(), value: s.into(), prot: false }]));
            d.root.groups.push(g);
        }
        _ => unreachable!(),
    }
}
/// Whether the text at `pos` ends up as plain XML text (as opposed to base64 of its encryption).
pub fn position_is_plain(pos: usize) -> bool {
    !matches!(pos, 4 | 8)
}
pub fn position_is_key(pos: usize) -> bool {
    matches!(pos, 2 | 6 | 9)
}
