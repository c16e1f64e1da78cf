//! Files written by the reference encoder in every layout the formats allow.

use crate::engine::*;
use crate::gen::*;
use crate::lib_io::*;
use crate::model::*;
use crate::refcodec::*;
use crate::refxml::*;
use std::sync::Arc;

pub struct File {
    pub bytes: Vec<u8>,
    pub cfg: Cfg,
    pub db: MDb,
    /// the stored document
    pub xml: Vec<u8>,
    pub what: String,
}

pub struct FileSpace {
    pub name: String,
    pub n: u64,
    #[allow(clippy::type_complexity)]
    pub make: Box<dyn Fn(u64) -> File + Sync>,
}

fn space(name: &str, n: u64, make: impl Fn(u64) -> File + Sync + 'static) -> FileSpace {
    FileSpace { name: name.into(), n, make: Box::new(make) }
}

fn file_of(c: &Cfg, l: &Layout4, d: &MDb, what: String) -> File {
    let xml = c.xml4(d);
    File { bytes: encode4(c, l, &xml), cfg: c.clone(), db: d.clone(), xml, what }
}
fn file_of3(c: &Cfg, l: &Layout3, d: &MDb, hash: bool, what: String) -> File {
    let xml = xml3(c, l, d, hash);
    File { bytes: encode3(c, l, &xml), cfg: c.clone(), db: d.clone(), xml, what }
}

/// Content lengths of fields the reader has no use for.
pub const LENGTHS: [usize; 9] = [0, 1, 2, 4, 5, 16, 255, 256, 70_000];

/// Outer header types without a meaning for a KDBX 4 reader.
pub fn foreign_outer() -> Vec<u8> {
    let mut v = vec![1, 12];
    v.extend(13..=255);
    v
}
pub fn foreign_inner() -> Vec<u8> {
    (3..=255).collect()
}

pub fn extra_params() -> Vec<(u8, String, Vec<u8>)> {
    vec![
        (0x04, "u32".into(), vec![1, 2, 3, 4]),
        (0x05, "u64".into(), vec![1, 2, 3, 4, 5, 6, 7, 8]),
        (0x08, "bool".into(), vec![1]),
        (0x08, "bool0".into(), vec![0]),
        (0x0C, "i32".into(), vec![255; 4]),
        (0x0D, "i64".into(), vec![255; 8]),
        (0x18, "string".into(), "text \u{e9}".as_bytes().to_vec()),
        (0x18, "".into(), vec![]),
        (0x42, "bytes".into(), vec![0; 300]),
        (0x42, "s".into(), vec![9; 3]),
        (0x18, "\u{e9}".into(), b"x".to_vec()),
    ]
}

fn with_dict(c: &Cfg, dict: &[(u8, String, Vec<u8>)]) -> Layout4 {
    let mut l = Layout4::of(c);
    for f in l.fields.iter_mut().filter(|f| f.0 == 11) {
        f.1 = dict_bytes(dict);
    }
    l
}

/// Sizes of single blocks, up to some that are larger than any this library writes.
const LARGE: [usize; 12] = [65_535, 65_536, 65_537, 1 << 19, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 1 << 21, (1 << 21) + 1, 3 << 20, 5 << 20, (1 << 24) + 1];

const MANY: [usize; 8] = [255, 256, 257, 258, 65_535, 65_536, 65_537, 65_538];

fn file_payload(c: &Cfg, d: &MDb) -> Vec<u8> {
    payload4(c, &Layout4::of(c), &c.xml4(d), &c.master())
}

pub fn files4(thorough: bool) -> Vec<FileSpace> {
    let some = Arc::new(some_cfgs());
    let mut v = vec![];
    let d = Arc::new(small());

    let (s, dd) = (some.clone(), d.clone());
    v.push(space("field-order", 120 * 4, move |i| {
        let mut x = Dec(i);
        let c = x.of(&s).clone();
        let mut l = Layout4::of(&c);
        let p = permutation(5, x.0);
        l.fields = p.iter().map(|k| l.fields[*k].clone()).collect();
        file_of(&c, &l, &dd, format!("header order {p:?}"))
    }));
    let dd = d.clone();
    v.push(space("parameter-order", 2 * 720 + 2 * 6, move |i| {
        let (kdf, p) = if i < 1440 { (argon(i % 2 == 1), permutation(6, i / 2)) } else {
            let mut k = aeskdf(2);
            if let Kdf::Aes { legacy_uuid, .. } = &mut k {
                *legacy_uuid = i % 2 == 1;
            }
            (k, permutation(3, (i - 1440) / 2))
        };
        let c = Cfg::new(Ciph::Aes, Comp::None, kdf, Inner::Chacha);
        let dict = c.kdf.dict();
        let dict: Vec<_> = p.iter().map(|k| dict[*k].clone()).collect();
        file_of(&c, &with_dict(&c, &dict), &dd, format!("parameter order {p:?}"))
    }));
    let (s, dd) = (some.clone(), d.clone());
    let ex = extra_params();
    v.push(space("extra-parameters", (ex.len() * ex.len() * 4 * 7) as u64, move |i| {
        let mut x = Dec(i);
        let c = x.of(&s).clone();
        let mut dict = c.kdf.dict();
        let at = x.pick(7).min(dict.len());
        let (a, b) = (x.of(&ex).clone(), x.of(&ex).clone());
        if a.1 != b.1 {
            dict.push(b.clone());
        }
        dict.insert(at, a.clone());
        file_of(&c, &with_dict(&c, &dict), &dd, format!("extra parameters {:?} at {at} and {:?}", a.1, b.1))
    }));
    // numbers of parameters and lengths of their names and values
    let dd = d.clone();
    let mut counts: Vec<usize> = (0..=60).collect();
    counts.extend([63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 300, 1000, 4000]);
    let many = counts.clone();
    v.push(space("many-parameters", many.len() as u64 * 3 * 2, move |i| {
        let mut x = Dec(i);
        let n = *x.of(&many);
        let c = Cfg::new(Ciph::Chacha, Comp::None, [aeskdf(1), argon(false), argon(true)][x.pick(3)].clone(), Inner::Chacha);
        let mut dict = c.kdf.dict();
        let at = if x.pick(2) == 0 { 1 } else { dict.len() };
        for k in 0..n {
            dict.insert(at, (0x04, format!("x{k}"), (k as u32).to_le_bytes().to_vec()));
        }
        file_of(&c, &with_dict(&c, &dict), &dd, format!("{n} more parameters at {at}"))
    }));
    let dd = d.clone();
    let mut lens: Vec<usize> = (0..=300).collect();
    lens.extend([511, 512, 513, 1000, 1023, 1024, 1025, 4096, 65_535, 65_536, 65_537, 1 << 20]);
    let long = lens.clone();
    v.push(space("parameter-lengths", long.len() as u64 * 2 * 3, move |i| {
        let mut x = Dec(i);
        let n = *x.of(&long);
        let c = Cfg::new(Ciph::Chacha, Comp::None, if x.pick(2) == 0 { aeskdf(1) } else { argon(false) }, Inner::Chacha);
        let mut dict = c.kdf.dict();
        let p = match x.pick(3) {
            0 => (0x18, "n".repeat(n), b"x".to_vec()),
            1 => (0x18, "long".into(), vec![b'v'; n]),
            _ => (0x42, "long".into(), bytes(n, 3)),
        };
        dict.insert(2, p);
        file_of(&c, &with_dict(&c, &dict), &dd, format!("parameter with name or value of {n} bytes"))
    }));
    let dd = d.clone();
    v.push(space("many-fields", counts.len() as u64 * 2 * 3, move |i| {
        let mut x = Dec(i);
        let n = *x.of(&counts);
        let c = Cfg::plain();
        let mut l = Layout4::of(&c);
        let outer = x.pick(2) == 0;
        let list = if outer { &mut l.fields } else { &mut l.inner };
        let at = [0, 1, list.len()][x.pick(3)];
        for k in 0..n {
            list.insert(at, (if outer { 12 } else { 3 }, bytes(k % 7, k as u8)));
        }
        file_of(&c, &l, &dd, format!("{n} more {} fields at {at}", if outer { "outer" } else { "inner" }))
    }));
    // types of parameters that only a later version of the format may know
    let dd = d.clone();
    let types: Vec<u8> = (1..=255).filter(|t| ![0x04, 0x05, 0x08, 0x0C, 0x0D, 0x18, 0x42].contains(t)).collect();
    v.push(space("unknown-parameter-types", types.len() as u64 * 2 * 3 * 5, move |i| {
        let mut x = Dec(i);
        let t = *x.of(&types);
        let c = Cfg::new(Ciph::Chacha, Comp::None, if x.pick(2) == 0 { aeskdf(1) } else { argon(t % 2 == 0) }, Inner::Chacha);
        let mut dict = c.kdf.dict();
        let at = [0, 1, dict.len()][x.pick(3)];
        let n = [0, 1, 4, 8, 300][x.pick(5)];
        dict.insert(at, (t, "later".into(), bytes(n, t)));
        file_of(&c, &with_dict(&c, &dict), &dd, format!("parameter of type {t} and {n} bytes at {at}"))
    }));
    let dd = d.clone();
    v.push(space("parameter-versions", 256 * 3, move |i| {
        let mut x = Dec(i);
        let minor = x.pick(256) as u8;
        let c = Cfg::new(Ciph::Chacha, Comp::None, [aeskdf(1), argon(false), argon(true)][x.pick(3)].clone(), Inner::Chacha);
        let mut l = Layout4::of(&c);
        for f in l.fields.iter_mut().filter(|f| f.0 == 11) {
            f.1[0] = minor;
        }
        file_of(&c, &l, &dd, format!("parameters of version 1.{minor}"))
    }));
    let (s, dd) = (some.clone(), d.clone());
    let fo = foreign_outer();
    v.push(space("extra-fields", (fo.len() * LENGTHS.len() * 6) as u64, move |i| {
        let mut x = Dec(i);
        let t = *x.of(&fo);
        let at = x.pick(6);
        let n = *x.of(&LENGTHS);
        let c = s[(t % 4) as usize].clone();
        let mut l = Layout4::of(&c);
        l.fields.insert(at, (t, bytes(n, t)));
        file_of(&c, &l, &dd, format!("field {t} of {n} bytes at {at}"))
    }));
    let dd = d.clone();
    v.push(space("extra-field-pairs", 6 * 7 * 25 * 9, move |i| {
        let mut x = Dec(i);
        let (a, b) = (x.pick(6), x.pick(7));
        let tt = [1u8, 12, 13, 0x80, 255];
        let (t, u) = (*x.of(&tt), *x.of(&tt));
        let ll = [0usize, 4, 37];
        let (n, m) = (*x.of(&ll), *x.of(&ll));
        let c = Cfg::plain();
        let mut l = Layout4::of(&c);
        l.fields.insert(a, (t, bytes(n, t)));
        l.fields.insert(b, (u, bytes(m, u)));
        file_of(&c, &l, &dd, format!("fields {t}/{n} at {a} and {u}/{m} at {b}"))
    }));
    let (s, dd) = (some.clone(), d.clone());
    v.push(space("end-fields", 12 * 12 * 4, move |i| {
        let mut x = Dec(i);
        let ends: [&[u8]; 12] = [b"", b"\r\n\r\n", b"\0", b"\0\0\0\0", b"x", b"\r\n", &[255; 32], &[0; 300], b"\x02\x10\0\0\0", &[7; 64], &[0; 70_000], b"ab"];
        let c = x.of(&s).clone();
        let mut l = Layout4::of(&c);
        let (a, b) = (x.pick(12), x.pick(12));
        l.end = ends[a].to_vec();
        l.inner_end = ends[b].to_vec();
        file_of(&c, &l, &dd, format!("end markers of {} and {} bytes", l.end.len(), l.inner_end.len()))
    }));
    let dd = d.clone();
    v.push(space("minor-versions", 65_536, move |i| {
        let c = Cfg::plain();
        let l = Layout4 { minor: i as u16, ..Layout4::of(&c) };
        file_of(&c, &l, &dd, format!("version 4.{i}"))
    }));
    // -- inner header --
    let (s, dd) = (some.clone(), d.clone());
    let fi = foreign_inner();
    v.push(space("inner-fields", (fi.len() * LENGTHS.len() * 3) as u64, move |i| {
        let mut x = Dec(i);
        let t = *x.of(&fi);
        let at = x.pick(3);
        let n = *x.of(&LENGTHS);
        let c = s[(t % 4) as usize].clone();
        let mut l = Layout4::of(&c);
        l.inner.insert(at, (t, bytes(n, t)));
        file_of(&c, &l, &dd, format!("inner field {t} of {n} bytes at {at}"))
    }));
    let dd = d.clone();
    v.push(space("inner-order", 120 * 9, move |i| {
        let mut x = Dec(i);
        let p = permutation(5, x.pick(120) as u64);
        let ll = [0usize, 1, 60];
        let (n, m) = (*x.of(&ll), *x.of(&ll));
        let c = Cfg::new(Ciph::Chacha, Comp::Gzip(6, 0), aeskdf(1), Inner::Salsa);
        let mut l = Layout4::of(&c);
        l.inner.push((3, bytes(n, 1)));
        l.inner.push((3, bytes(m, 2)));
        l.inner.push((200, bytes(3, 3)));
        l.inner = p.iter().map(|k| l.inner[*k].clone()).collect();
        file_of(&c, &l, &dd, format!("inner header order {p:?}, attachments of {n} and {m} bytes"))
    }));
    // -- blocks --
    let cut_cfgs: Vec<Cfg> = CIPHERS.iter().flat_map(|c| [Comp::None, Comp::Gzip(6, 0)].map(|z| Cfg::new(*c, z, aeskdf(1), Inner::Chacha))).collect();
    let mut r = small();
    r.root.entries[0].fields[1].value = "p".repeat(40);
    let pre: Vec<(Cfg, Vec<u8>)> = cut_cfgs.iter().map(|c| (c.clone(), c.xml4(&r))).collect();
    let sizes: Vec<usize> = pre.iter().map(|(c, x)| payload4(c, &Layout4::of(c), x, &c.master()).len()).collect();
    let pre = Arc::new((pre, sizes, r));
    let total: u64 = pre.1.iter().map(|n| *n as u64).sum();
    let locate = |sizes: &[usize], mut i: u64| {
        let mut k = 0;
        while i >= sizes[k] as u64 {
            i -= sizes[k] as u64;
            k += 1;
        }
        (k, i as usize)
    };
    let cut_file = |p: &(Vec<(Cfg, Vec<u8>)>, Vec<usize>, MDb), k: usize, cuts: Vec<usize>, what: String| {
        let (c, x) = &p.0[k];
        let l = Layout4 { cuts, ..Layout4::of(c) };
        File { bytes: encode4(c, &l, x), cfg: c.clone(), db: p.2.clone(), xml: x.clone(), what }
    };
    let p = pre.clone();
    v.push(space("one-cut", total, move |i| {
        let (k, at) = locate(&p.1, i);
        cut_file(&p, k, vec![at + 1], format!("blocks cut at {}", at + 1))
    }));
    let p = pre.clone();
    v.push(space("equal-blocks", total, move |i| {
        let (k, at) = locate(&p.1, i);
        cut_file(&p, k, vec![at + 1; p.1[k] / (at + 1) + 1], format!("blocks of {} bytes", at + 1))
    }));
    // every pair of cut points of the smallest payload
    let k = (0..pre.1.len()).min_by_key(|k| pre.1[*k]).unwrap();
    let m = pre.1[k] as u64;
    let p = pre.clone();
    let step = if thorough { 1 } else { 3 };
    v.push(space("two-cuts", (m / step) * (m / step), move |i| {
        let mut x = Dec(i);
        let (a, b) = (x.pick(m / step) * step as usize + 1, x.pick(m / step) * step as usize + 1);
        cut_file(&p, k, vec![a, b], format!("blocks of {a} and {b} bytes, then the rest"))
    }));
    // numbers of blocks around the widths a block counter could have
    let dd = d.clone();
    v.push(space("many-blocks", MANY.len() as u64 * 3, move |i| {
        let mut x = Dec(i);
        let c = Cfg::new(*x.of(&CIPHERS), Comp::None, aeskdf(1), Inner::Chacha);
        let want = *x.of(&MANY);
        let mut db = (*dd).clone();
        let have = file_payload(&c, &db).len();
        // one byte per block and the rest in the last
        db.desc = "d".repeat((want + 200).saturating_sub(have));
        let xml = c.xml4(&db);
        let l = Layout4 { cuts: vec![1; want - 1], ..Layout4::of(&c) };
        File { bytes: encode4(&c, &l, &xml), cfg: c, db, xml, what: format!("{want} blocks") }
    }));
    let dd = d.clone();
    let per = if thorough { 3 } else { 2 };
    v.push(space("large-blocks", LARGE.len() as u64 * per * 2, move |i| {
        let mut x = Dec(i);
        let n = *x.of(&LARGE);
        let first = x.pick(2) == 0;
        let c = Cfg::new([Ciph::Chacha, Ciph::Aes, Ciph::Twofish][x.0 as usize], Comp::None, aeskdf(1), Inner::Chacha);
        let xml = c.xml4(&dd);
        let mut l = Layout4 { cuts: if first { vec![n] } else { vec![5, n] }, ..Layout4::of(&c) };
        // the size comes from an attachment, which costs nothing to read
        l.inner.push((3, vec![n as u8; n]));
        File { bytes: encode4(&c, &l, &xml), cfg: c, db: (*dd).clone(), xml, what: format!("block of {n} bytes") }
    }));
    // -- compression --
    let dd = d.clone();
    v.push(space("compressors", 11 * 5 * 3 * 2, move |i| {
        let mut x = Dec(i);
        let (level, flavour) = (x.pick(11) as u8, x.pick(5) as u8);
        let c = Cfg::new(*x.of(&CIPHERS), Comp::Gzip(level, flavour), aeskdf(1), Inner::Chacha);
        let mut db = (*dd).clone();
        if x.pick(2) == 1 {
            db.desc = (0..40_000u32).map(|k| char::from(b'a' + (k.wrapping_mul(2_654_435_761) >> 27) as u8 % 26)).collect();
        }
        file_of(&c, &Layout4::of(&c), &db, format!("deflate level {level}, gzip flavour {flavour}"))
    }));
    // -- document form --
    let (s, dd) = (some.clone(), Arc::new(rich()));
    v.push(space("document-forms", 12 * 4, move |i| {
        let mut x = Dec(i);
        let c = x.of(&s).clone();
        let k = x.pick(12);
        let dom = dom_db(&dd, TimeForm::B64);
        let body = render(&dom, k & 1 == 1, &mut c.keystream());
        let body = &body[body.find("?>").unwrap() + 2..];
        let head = ["<?xml version=\"1.0\" encoding=\"utf-8\"?>", "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>", "", "<?xml version='1.0'?>\r\n", "\u{feff}<?xml version=\"1.0\" encoding=\"utf-8\"?>", "\u{feff}"][k / 2];
        let xml = format!("{head}{}", body.trim_start()).into_bytes();
        File { bytes: encode4(&c, &Layout4::of(&c), &xml), cfg: c, db: (*dd).clone(), xml, what: format!("document form {k}") }
    }));
    // -- settings and contents --
    for sp in spaces(thorough) {
        if matches!(sp.name, "unrepresentable-scalars") {
            continue;
        }
        v.push(FileSpace { name: sp.name.into(), n: sp.n, make: Box::new(move |i| {
            let (db, c) = (sp.make)(i);
            if representable(&db) != Text::Fine {
                return File { bytes: vec![], cfg: c, db, xml: vec![], what: String::new() };
            }
            file_of(&c, &Layout4::of(&c), &db, format!("{} {i}", sp.name))
        }) });
    }
    let ks: Vec<Kdf> = kdfs(thorough).into_iter().map(|k| match k {
        Kdf::Aes { rounds, salt, .. } => Kdf::Aes { rounds, salt, legacy_uuid: true },
        k => k,
    }).filter(|k| matches!(k, Kdf::Aes { .. })).collect();
    let dd = d.clone();
    v.push(space("older-aes-identifier", ks.len() as u64, move |i| {
        let c = Cfg::new(Ciph::Aes, Comp::None, ks[i as usize].clone(), Inner::Chacha);
        file_of(&c, &Layout4::of(&c), &dd, format!("{:?}", c.kdf))
    }));
    v
}

// ---- KDBX 3.1 ----

pub fn cfgs3() -> Vec<Cfg> {
    let mut v = vec![];
    for c in CIPHERS {
        for comp in [Comp::None, Comp::Gzip(6, 0)] {
            for inner in [Inner::Salsa, Inner::Chacha] {
                let mut k = Cfg::new(c, comp, Kdf::Aes { rounds: 2, salt: bytes(32, 4), legacy_uuid: true }, inner);
                k.inner_key = bytes(32, 5);
                v.push(k);
            }
        }
    }
    v
}
pub fn plain3() -> Cfg {
    cfgs3()[0].clone()
}

/// Attachment elements that occur in KDBX 3.1 documents, as (where, element).
fn attachment(k: usize) -> Node {
    let mut e = match k {
        0 => protected_el("Binary", b"attachment one, protected"),
        1 => txt("Binary", &b64(b"attachment in clear")),
        2 => protected_el("Binary", &bytes(200, 3)),
        _ => protected_el("Binary", b""),
    };
    if let Node::El(e) = &mut e {
        e.attrs.insert(0, ("ID".into(), k.to_string()));
        if k == 1 {
            e.attrs.push(("Compressed".into(), "True".into()));
        }
    }
    e
}
fn attached(k: usize) -> Node {
    match k {
        0 => {
            let mut v = el("Value", vec![]);
            if let Node::El(e) = &mut v {
                e.attrs.push(("Ref".into(), "0".into()));
            }
            el("Binary", vec![txt("Key", "a.txt"), v])
        }
        1 => el("Binary", vec![txt("Key", "b.bin"), protected_el("Value", b"inline protected attachment")]),
        2 => el("Binary", vec![txt("Key", "c.bin"), txt("Value", &b64(b"inline in clear"))]),
        _ => el("Binary", vec![protected_el("Value", &bytes(100, 8)), txt("Key", "d.bin")]),
    }
}

/// Number of insertion points for attachments and other unknown content of a document.
pub fn insertion_points(e: &El) -> usize {
    let own = if matches!(e.name.as_str(), "Meta" | "Entry" | "Group" | "Root" | "String" | "Times" | "CustomData" | "Item" | "MemoryProtection" | "History" | "KeePassFile") { e.kids.len() + 1 } else { 0 };
    own + e.kids.iter().map(|k| if let Node::El(c) = k { insertion_points(c) } else { 0 }).sum::<usize>()
}
/// Inserts `n` at the `at`-th insertion point; returns where it went.
pub fn insert_at(e: &mut El, at: &mut usize, n: &Node) -> Option<String> {
    if matches!(e.name.as_str(), "Meta" | "Entry" | "Group" | "Root" | "String" | "Times" | "CustomData" | "Item" | "MemoryProtection" | "History" | "KeePassFile") {
        if *at <= e.kids.len() {
            e.kids.insert(*at, n.clone());
            return Some(format!("{} child {at}", e.name));
        }
        *at -= e.kids.len() + 1;
    }
    for k in e.kids.iter_mut() {
        if let Node::El(c) = k {
            if let Some(s) = insert_at(c, at, n) {
                return Some(format!("{}/{s}", e.name));
            }
        }
    }
    None
}

pub fn files3(thorough: bool) -> Vec<FileSpace> {
    let all = Arc::new(cfgs3());
    let d = Arc::new(small());
    let mut v = vec![];
    // 9! orders of the header fields
    let dd = d.clone();
    let xml = Arc::new({
        let c = plain3();
        xml3(&c, &Layout3::of(&c), &d, false)
    });
    v.push(space("field-order", if thorough { factorial(9) } else { factorial(9) / 8 }, move |i| {
        let c = plain3();
        let mut l = Layout3::of(&c);
        let p = permutation(9, if thorough { i } else { i * 8 + i % 8 });
        l.fields = p.iter().map(|k| l.fields[*k].clone()).collect();
        File { bytes: encode3(&c, &l, &xml), cfg: c, db: (*dd).clone(), xml: (*xml).clone(), what: format!("header order {p:?}") }
    }));
    let (a, dd) = (all.clone(), d.clone());
    v.push(space("extra-fields", 245 * 10 * 3 + 12 * 10 * 3, move |i| {
        let mut x = Dec(i);
        let at = x.pick(10);
        let n = [0usize, 4, 4000][x.pick(3)];
        let t = match x.pick(257) {
            k @ 0..=244 => k as u8 + 11,
            _ => 1,
        };
        let c = a[i as usize % 12].clone();
        let mut l = Layout3::of(&c);
        // 11 names key derivation parameters, 12 custom data of version 4
        let t = if t == 11 { 1 } else { t };
        l.fields.insert(at, (t, bytes(n, t)));
        file_of3(&c, &l, &dd, true, format!("field {t} of {n} bytes at {at}"))
    }));
    let dd = d.clone();
    let mut counts: Vec<usize> = (0..=60).collect();
    counts.extend([63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 300, 1000, 4000]);
    v.push(space("many-fields", counts.len() as u64 * 3, move |i| {
        let mut x = Dec(i);
        let n = *x.of(&counts);
        let c = plain3();
        let mut l = Layout3::of(&c);
        let at = [0, 1, l.fields.len()][x.pick(3)];
        for k in 0..n {
            l.fields.insert(at, (1, bytes(k % 7, k as u8)));
        }
        file_of3(&c, &l, &dd, true, format!("{n} more fields at {at}"))
    }));
    let (a, dd) = (all.clone(), d.clone());
    v.push(space("end-fields", 12 * 8 * 4, move |i| {
        let mut x = Dec(i);
        let ends: [&[u8]; 8] = [b"", b"\r\n\r\n", b"\0\0\0\0", b"x", &[255; 32], &[0; 300], &[9; 60_000], b"\r\n"];
        let c = x.of(&a).clone();
        let mut l = Layout3::of(&c);
        l.end = x.of(&ends).to_vec();
        l.zero_hash = x.pick(2) == 0;
        let hash = x.pick(2) == 0;
        file_of3(&c, &l, &dd, hash, format!("end marker of {} bytes, zero end hash {}, header hash {hash}", l.end.len(), l.zero_hash))
    }));
    let dd = d.clone();
    v.push(space("minor-versions", 65_536, move |i| {
        let c = plain3();
        let l = Layout3 { minor: i as u16, ..Layout3::of(&c) };
        file_of3(&c, &l, &dd, true, format!("version 3.{i}"))
    }));
    let (a, dd) = (all.clone(), d.clone());
    v.push(space("rounds-and-keys", 12 * 8 * 80 + 12 * 16, move |i| {
        let mut x = Dec(i);
        let mut c = x.of(&a).clone();
        let more = i >= 12 * 8 * 80;
        if more {
            x = Dec(i - 12 * 8 * 80);
            c = x.of(&a).clone();
        }
        let r = if more {
            [4u64, 7, 8, 10, 16, 127, 128, 257, 1000, 4096, 32_768, 65_535, 65_536, 65_537, 100_000, 1_000_000][x.pick(16)]
        } else {
            [0u64, 1, 2, 3, 100, 255, 256, 6000][x.pick(8)]
        };
        c.kdf = Kdf::Aes { rounds: r, salt: bytes(32, r as u8), legacy_uuid: true };
        let n = if more { 32 } else { x.pick(80) };
        c.inner_key = bytes(n, 6);
        let l = Layout3::of(&c);
        file_of3(&c, &l, &dd, true, format!("{r} rounds, inner key of {n} bytes"))
    }));
    // -- blocks --
    let mut sizes = vec![];
    let mut docs = vec![];
    for c in all.iter().filter(|c| c.inner == Inner::Salsa) {
        let x = xml3(c, &Layout3::of(c), &d, true);
        sizes.push(compress(c.comp, &x).len());
        docs.push((c.clone(), x));
    }
    let pre = Arc::new((docs, sizes));
    let total: u64 = pre.1.iter().map(|n| *n as u64).sum();
    let locate = |sizes: &[usize], mut i: u64| {
        let mut k = 0;
        while i >= sizes[k] as u64 {
            i -= sizes[k] as u64;
            k += 1;
        }
        (k, i as usize)
    };
    let make = |p: &(Vec<(Cfg, Vec<u8>)>, Vec<usize>), d: &MDb, k: usize, cuts: Vec<usize>, what: String| {
        let (c, x) = &p.0[k];
        let l = Layout3 { cuts, ..Layout3::of(c) };
        File { bytes: encode3(c, &l, x), cfg: c.clone(), db: d.clone(), xml: x.clone(), what }
    };
    let (p, dd) = (pre.clone(), d.clone());
    v.push(space("one-cut", total, move |i| {
        let (k, at) = locate(&p.1, i);
        make(&p, &dd, k, vec![at + 1], format!("blocks cut at {}", at + 1))
    }));
    let (p, dd) = (pre.clone(), d.clone());
    v.push(space("equal-blocks", total, move |i| {
        let (k, at) = locate(&p.1, i);
        make(&p, &dd, k, vec![at + 1; p.1[k] / (at + 1) + 1], format!("blocks of {} bytes", at + 1))
    }));
    let k = (0..pre.1.len()).min_by_key(|k| pre.1[*k]).unwrap();
    let m = pre.1[k] as u64;
    let step = if thorough { 1 } else { 3 };
    let (p, dd) = (pre.clone(), d.clone());
    v.push(space("two-cuts", (m / step) * (m / step), move |i| {
        let mut x = Dec(i);
        let (a, b) = (x.pick(m / step) * step as usize + 1, x.pick(m / step) * step as usize + 1);
        make(&p, &dd, k, vec![a, b], format!("blocks of {a} and {b} bytes, then the rest"))
    }));
    let dd = d.clone();
    v.push(space("many-blocks", MANY.len() as u64 * 3, move |i| {
        let mut x = Dec(i);
        let mut c = plain3();
        c.cipher = *x.of(&CIPHERS);
        c.iv = bytes(c.cipher.iv_len(), 2);
        let want = *x.of(&MANY);
        let l = Layout3 { cuts: vec![1; want - 1], ..Layout3::of(&c) };
        let mut db = (*dd).clone();
        db.desc = "d".repeat((want + 200).saturating_sub(xml3(&c, &l, &db, true).len()));
        file_of3(&c, &l, &db, true, format!("{want} blocks"))
    }));
    let dd = d.clone();
    let few = if thorough { 11 } else { 7 };
    v.push(space("large-blocks", few as u64 * 2 * 2, move |i| {
        let mut x = Dec(i);
        let n = *x.of(&LARGE[..few]);
        let first = x.pick(2) == 0;
        let mut c = plain3();
        c.cipher = *x.of(&[Ciph::Chacha, Ciph::Aes]);
        c.iv = bytes(c.cipher.iv_len(), 2);
        let mut db = (*dd).clone();
        db.desc = "0123456789abcdef".repeat(n / 16 + 20);
        let l = Layout3 { cuts: if first { vec![n] } else { vec![5, n] }, ..Layout3::of(&c) };
        file_of3(&c, &l, &db, true, format!("block of {n} bytes"))
    }));
    let dd = d.clone();
    v.push(space("compressors", 11 * 5 * 3 * 2, move |i| {
        let mut x = Dec(i);
        let (level, flavour) = (x.pick(11) as u8, x.pick(5) as u8);
        let mut c = plain3();
        c.cipher = *x.of(&CIPHERS);
        c.iv = bytes(c.cipher.iv_len(), 2);
        c.comp = Comp::Gzip(level, flavour);
        let mut db = (*dd).clone();
        if x.pick(2) == 1 {
            db.desc = (0..40_000u32).map(|k| char::from(b'a' + (k.wrapping_mul(2_654_435_761) >> 27) as u8 % 26)).collect();
        }
        file_of3(&c, &Layout3::of(&c), &db, true, format!("deflate level {level}, gzip flavour {flavour}"))
    }));
    // -- attachments: each kind at each place, and pairs --
    let rich = Arc::new(rich());
    let points = insertion_points(&dom_db(&rich, TimeForm::Iso)) as u64;
    let (dd, a) = (rich.clone(), all.clone());
    let build = move |dd: &MDb, c: &Cfg, ins: &[(usize, Node)]| {
        let l = Layout3::of(c);
        let mut dom = dom_db(dd, TimeForm::Iso);
        with_header_hash(&mut dom, &l.header());
        let mut what = String::new();
        for (at, n) in ins {
            let mut at = *at;
            what += &format!("{:?} ", insert_at(&mut dom, &mut at, n));
        }
        let xml = render(&dom, true, &mut c.keystream()).into_bytes();
        File { bytes: encode3(c, &l, &xml), cfg: c.clone(), db: dd.clone(), xml, what }
    };
    let pool = |k: usize| match k {
        0..=3 => el("Binaries", (0..=k).map(attachment).collect()),
        k => attached(k - 4),
    };
    v.push(space("attachments", points * 8, move |i| {
        let mut x = Dec(i);
        let at = x.pick(points);
        let k = x.pick(8);
        build(&dd, &a[i as usize % 12], &[(at, pool(k))])
    }));
    let a = all.clone();
    let mut dd = small();
    let mut h = dd.root.entries[0].clone();
    h.fields[1].value = "before".into();
    dd.root.entries[0].history.push(h);
    let mut g = mgroup(0x34, "sub");
    g.entries.push(mentry(0x35, vec![f("Password", "below", true)]));
    dd.root.groups.push(g);
    dd.custom.push(f("c", "custom", true));
    let points = insertion_points(&dom_db(&dd, TimeForm::Iso)) as u64;
    v.push(space("attachment-pairs", points * points * if thorough { 16 } else { 2 }, move |i| {
        let mut x = Dec(i);
        let (p, q) = (x.pick(points), x.pick(points));
        let kinds = [(5, 7), (1, 5), (5, 5), (7, 3), (0, 1), (2, 6), (3, 5), (4, 7), (6, 5), (7, 7), (5, 2), (1, 1), (3, 3), (0, 7), (2, 2), (6, 6)];
        let (k, m) = kinds[x.0 as usize];
        build(&dd, &a[(p + q) % 4], &[(p, pool(k)), (q, pool(m))])
    }));
    // -- contents --
    for sp in spaces(thorough) {
        if matches!(sp.name, "unrepresentable-scalars" | "key-derivations" | "times") {
            continue;
        }
        let n = if matches!(sp.name, "settings") { sp.n.min(2000) } else { sp.n };
        v.push(FileSpace { name: sp.name.into(), n, make: Box::new(move |i| {
            let (db, mut c) = (sp.make)(i);
            c.kdf = Kdf::Aes { rounds: 1, salt: bytes(32, 4), legacy_uuid: true };
            if representable(&db) != Text::Fine {
                return File { bytes: vec![], cfg: c, db, xml: vec![], what: String::new() };
            }
            let l = Layout3::of(&c);
            file_of3(&c, &l, &db, true, format!("{} {i}", sp.name))
        }) });
    }
    // dates that the textual form of KDBX 3.1 has
    let tp: Vec<i64> = time_points().into_iter().filter(|t| (1..10_000).contains(&civil_from_days(t.div_euclid(86_400)).0)).collect();
    v.push(space("times", (tp.len() * 5 * 3) as u64, move |i| {
        let mut x = Dec(i);
        let mut db = crate::model::rich();
        let t = *x.of(&tp);
        let which = x.pick(5);
        match x.pick(3) {
            0 => db.root.times.t[which] = t,
            1 => db.root.entries[0].times.t[which] = t,
            _ => db.root.entries[0].history[0].times.t[which] = t,
        }
        let c = plain3();
        file_of3(&c, &Layout3::of(&c), &db, true, format!("time {}", iso(t)))
    }));
    v
}
