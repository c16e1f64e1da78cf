//! Generators of database spaces shared by the round-trip checks: each space is `0..n` with a pure
//! decoding index -> (database, settings).

use crate::engine::*;
use crate::lib_io::*;
use crate::model::*;
use crate::refcodec::*;
use crate::refxml::{days_from_civil, xml_char, Inner};

pub struct Space {
    pub name: &'static str,
    pub n: u64,
    #[allow(clippy::type_complexity)]
    pub make: Box<dyn Fn(u64) -> (MDb, Cfg) + Sync>,
}

/// Nesting up to this depth must work; the library documents a larger limit.
pub const SURE_DEPTH: usize = 200;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Text {
    /// saving has to succeed
    Fine,
    /// the format has no way to store it (or only with a convention of its own)
    Doubtful,
}

fn plain_ok(s: &str) -> bool {
    s.chars().all(xml_char)
}
fn field_ok(x: &MField) -> bool {
    !x.key.is_empty() && plain_ok(&x.key) && (x.prot || plain_ok(&x.value))
}
fn entry_ok(e: &MEntry, depth: usize) -> bool {
    depth <= SURE_DEPTH && e.fields.iter().all(field_ok) && e.history.iter().all(|h| entry_ok(h, depth + 1))
}
fn group_ok(g: &MGroup, depth: usize) -> bool {
    depth <= SURE_DEPTH && plain_ok(&g.name) && g.entries.iter().all(|e| entry_ok(e, depth)) && g.groups.iter().all(|x| group_ok(x, depth + 1))
}
pub fn representable(d: &MDb) -> Text {
    if plain_ok(&d.name) && plain_ok(&d.desc) && d.custom.iter().all(field_ok) && group_ok(&d.root, 1) {
        Text::Fine
    } else {
        Text::Doubtful
    }
}

pub const ALPHABET: [char; 21] = [
    'a', ' ', '\t', '\n', '\r', '<', '>', '&', '"', '\'', ']', ';', '\u{e9}', '\u{1F511}', '\u{FFFD}', '\u{85}', '\u{2028}', '\u{FEFF}', '\0', '\u{1}', '\u{FFFE}',
];

pub fn specials() -> Vec<String> {
    let mut v: Vec<String> = ["]]>", "<![CDATA[x]]>", "&amp;", "&amp;lt;", "&#65;", "&#xD;", "<!-- c -->", "-->", "<?pi x?>", "</Value>", "</String><String>", "\r\n", "\r\n\r\n", "a\r\nb\rc\n",
        " lead", "trail ", "  ", "\t\t", "\n \n", "True", "False", "null", "0", "-1", "==", "AAAAAAAAAAA=", "Protected=\"True\"", "%s%n", "\\u0041", "\u{202e}abc", "e\u{301}", "\u{10FFFF}",
        "\u{D7FF}\u{E000}", "\u{1F468}\u{200D}\u{1F469}", "\u{7f}", "\u{80}\u{9f}", "\u{a0}", "a\u{0}b", "\u{b}", "\u{c}", "\u{1f}", "\u{ffff}", "Title", "Password", "otp", "UserName", "KeePassFile", "{REF:P@I:00}"]
        .iter().map(|s| s.to_string()).collect();
    for n in [15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096, 65_535, 65_536, 65_537] {
        v.push("x".repeat(n));
        v.push("\u{e9}".repeat(n / 2 + 1));
        v.push(" ".repeat(n));
        v.push("<&>".repeat(n / 3 + 1));
    }
    v
}

pub const NAMES: [&str; 24] = [
    "Title", "title", "TITLE", "Title ", " Title", "Titl", "Titles", "UserName", "Username", "username", "URL", "Url", "Password", "password", "Notes", "otp", "OTP", "Key", "Value", "k", "K", "\u{e9}",
    "e\u{301}", "\u{c9}",
];

fn base() -> MDb {
    let mut d = small();
    d.root.entries.push(mentry(0x33, vec![f("Title", "U", false), f("Password", "another", true)]));
    d
}

/// Ordered trees as depth sequences of their preorder.
pub fn trees(max: usize) -> Vec<Vec<usize>> {
    let mut all = vec![vec![0]];
    let mut last = all.clone();
    for _ in 1..max {
        let mut next = vec![];
        for t in &last {
            for d in 1..=t[t.len() - 1] + 1 {
                let mut u = t.clone();
                u.push(d);
                next.push(u);
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}

pub fn tree_of(shape: &[usize], make: &mut dyn FnMut(usize) -> MGroup) -> MGroup {
    // stack of open groups by depth
    let mut open: Vec<MGroup> = vec![make(0)];
    for (i, d) in shape.iter().enumerate().skip(1) {
        while open.len() > *d {
            let g = open.pop().unwrap();
            open.last_mut().unwrap().groups.push(g);
        }
        open.push(make(i));
    }
    while open.len() > 1 {
        let g = open.pop().unwrap();
        open.last_mut().unwrap().groups.push(g);
    }
    open.pop().unwrap()
}

pub fn field_kinds() -> Vec<MField> {
    vec![
        f("Title", "plain", false),
        f("Password", "secret", true),
        f("E", "", false),
        f("EP", "", true),
        f("Title", "again", true),
        f("long", &"0123456789abcdef".repeat(9), true),
        f("uni", "\u{e9}\u{1F511}", true),
        f("sp", " x ", false),
    ]
}

pub fn time_points() -> Vec<i64> {
    let d = |y, m, dd| days_from_civil(y, m, dd) * 86_400;
    vec![0, 1, -1, 59, 60, 3599, 3600, 86_399, 86_400, d(1, 12, 31), d(4, 2, 29), d(100, 2, 28) + 86_399, d(1582, 10, 15), d(1601, 1, 1), d(1899, 12, 30), d(1970, 1, 1) - 1, d(1970, 1, 1),
        d(2000, 2, 29) + 43_200, d(2016, 12, 31) + 86_399, d(2038, 1, 19) + 11_647, d(2038, 1, 19) + 11_648, d(2100, 2, 28) + 86_399, d(2106, 2, 7), d(9999, 12, 31) + 86_399, d(10_000, 1, 1),
        d(0, 1, 1), d(-1, 12, 31), d(-9999, 1, 1), d(-262_142, 1, 1), d(262_141, 12, 31) + 86_399, u32::MAX as i64, u32::MAX as i64 + 1, i32::MAX as i64, 1 << 40, 255, 256, 65_535, 65_536]
}

fn place_times<'a>(d: &'a mut MDb, place: usize) -> &'a mut MTimes {
    match place {
        0 => &mut d.root.times,
        1 => &mut d.root.groups[0].times,
        2 => &mut d.root.entries[0].times,
        3 => &mut d.root.groups[0].groups[0].entries[0].times,
        _ => &mut d.root.entries[0].history[0].times,
    }
}
fn place_uuid<'a>(d: &'a mut MDb, place: usize) -> &'a mut u128 {
    match place {
        0 => &mut d.root.uuid,
        1 => &mut d.root.groups[0].uuid,
        2 => &mut d.root.entries[0].uuid,
        3 => &mut d.root.groups[0].groups[0].entries[0].uuid,
        _ => &mut d.root.entries[0].history[0].uuid,
    }
}

pub fn creds() -> Vec<Cred> {
    let c = |p: Option<&str>, k: Option<&[u8]>| Cred { pw: p.map(str::to_string), kf: k.map(<[u8]>::to_vec) };
    vec![
        c(Some("kdbxrs"), None),
        c(Some(""), None),
        c(None, Some(b"key-file")),
        c(None, Some(b"")),
        c(Some("kdbxrs"), Some(b"key-file")),
        c(Some(""), Some(b"")),
        c(None, None),
        c(Some("p\u{e4}ss \u{1F511}\n"), Some(&[0, 255, 13, 10])),
        c(Some(&"long".repeat(100)), Some(&[7; 5000])),
    ]
}

pub fn kdfs(thorough: bool) -> Vec<Kdf> {
    let mut v = vec![];
    for id in [false, true] {
        for version in [0x10, 0x13] {
            for lanes in [1u32, 2, 3, 4] {
                for mem in [8u64, 9, 15, 16, 33, 64] {
                    for iters in [1u64, 2, 3] {
                        if mem < 8 * lanes as u64 || (!thorough && iters == 3 && mem > 33) {
                            continue;
                        }
                        v.push(Kdf::Argon { id, mem: mem * 1024, version, iters, lanes, salt: bytes(32, lanes as u8) });
                    }
                }
            }
        }
        for n in [8usize, 9, 16, 31, 33, 64, 128] {
            v.push(Kdf::Argon { id, mem: 8192, version: 0x13, iters: 1, lanes: 1, salt: bytes(n, 6) });
        }
        // memory that is not a whole number of KiB
        for odd in [1, 2, 511, 512, 513, 1022, 1023] {
            v.push(Kdf::Argon { id, mem: 8192 + odd, version: 0x13, iters: 1, lanes: 1, salt: bytes(32, 6) });
        }
        // many lanes, many passes, much memory
        for lanes in (5u32..=20).chain([31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257]) {
            v.push(Kdf::Argon { id, mem: 8 * 1024 * lanes as u64, version: 0x13, iters: 1, lanes, salt: bytes(32, 6) });
        }
        for iters in [4u64, 5, 7, 8, 9, 10, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 255, 256, 257, 300] {
            v.push(Kdf::Argon { id, mem: 8192, version: 0x13, iters, lanes: 1, salt: bytes(32, 6) });
        }
        for mem in [127u64, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 16_384, 16_385] {
            v.push(Kdf::Argon { id, mem: mem * 1024, version: 0x13, iters: 1, lanes: 2, salt: bytes(32, 6) });
        }
        for n in [10usize, 12, 15, 17, 24, 127, 129, 255, 256, 257, 1000] {
            v.push(Kdf::Argon { id, mem: 8192, version: 0x13, iters: 1, lanes: 1, salt: bytes(n, 6) });
        }
    }
    for rounds in [0u64, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 4096, 6000, 10_000, 32_767, 32_768, 65_535, 65_536, 65_537, 100_000, 131_072, 262_145, 1_000_000] {
        v.push(Kdf::Aes { rounds, salt: bytes(32, rounds as u8), legacy_uuid: false });
    }
    v
}

pub fn spaces(thorough: bool) -> Vec<Space> {
    let mut v: Vec<Space> = vec![];
    let cfgs = std::sync::Arc::new(some_cfgs());
    let cfgs2 = cfgs.clone();
    let cfg = move |i: usize| cfgs2[i % cfgs2.len()].clone();

    // -- text --
    let k = ALPHABET.len() as u64;
    let len = if thorough { 4 } else { 3 };
    let n = words(k, len);
    v.push(Space {
        name: "strings",
        n: n * TEXT_POSITIONS as u64,
        make: Box::new(move |i| {
            let mut x = Dec(i);
            let pos = x.pick(TEXT_POSITIONS as u64);
            let s: String = word(k, x.0).into_iter().map(|c| ALPHABET[c]).collect();
            let mut d = base();
            put_text(&mut d, pos, &s);
            (d, Cfg::plain())
        }),
    });
    let sp = specials();
    v.push(Space {
        name: "special-strings",
        n: (sp.len() * TEXT_POSITIONS * cfgs.len()) as u64,
        make: Box::new({
            let cfg = cfg.clone();
            move |i| {
                let mut x = Dec(i);
                let pos = x.pick(TEXT_POSITIONS as u64);
                let c = x.pick(4);
                let mut d = base();
                put_text(&mut d, pos, &sp[x.pick(sp.len() as u64)]);
                (d, cfg(c))
            }
        }),
    });
    let chunks = 0x110000u64 / 256;
    v.push(Space {
        name: "scalars",
        n: chunks * TEXT_POSITIONS as u64,
        make: Box::new(move |i| {
            let mut x = Dec(i);
            let pos = x.pick(TEXT_POSITIONS as u64);
            let lo = x.0 as u32 * 256;
            let keep = |c: &char| xml_char(*c) || !position_is_plain(pos);
            let s: String = (lo..lo + 256).filter_map(char::from_u32).filter(keep).collect();
            let mut d = base();
            put_text(&mut d, pos, &s);
            (d, Cfg::plain())
        }),
    });
    let bad: Vec<char> = (0..0x110000).filter_map(char::from_u32).filter(|c| !xml_char(*c)).collect();
    v.push(Space {
        name: "unrepresentable-scalars",
        n: (bad.len() * TEXT_POSITIONS * 3) as u64,
        make: Box::new(move |i| {
            let mut x = Dec(i);
            let pos = x.pick(TEXT_POSITIONS as u64);
            let c = *x.of(&bad);
            let mut d = base();
            put_text(&mut d, pos, &[format!("{c}"), format!("a{c}"), format!("{c}b")][x.pick(3)]);
            (d, Cfg::plain())
        }),
    });
    if thorough {
        v.push(Space {
            name: "single-scalars",
            n: 0x110000 * 3,
            make: Box::new(move |i| {
                let mut x = Dec(i);
                let pos = [6, 7, 8][x.pick(3)];
                let s = char::from_u32(x.0 as u32).map(String::from).unwrap_or_default();
                let mut d = base();
                put_text(&mut d, pos, &s);
                (d, Cfg::plain())
            }),
        });
    }

    // -- structure --
    let max = if thorough { 7 } else { 6 };
    let ts = trees(max);
    let counts: Vec<u64> = ts.iter().map(|t| 3u64.pow(t.len() as u32)).collect();
    let mut starts = vec![0u64];
    for c in &counts {
        starts.push(starts.last().unwrap() + c);
    }
    v.push(Space {
        name: "trees",
        n: *starts.last().unwrap(),
        make: Box::new(move |i| {
            let t = starts.partition_point(|s| *s <= i) - 1;
            let mut x = Dec(i - starts[t]);
            let mut id = 0x100u128;
            let root = tree_of(&ts[t], &mut |j| {
                let mut g = mgroup(0x50 + j as u128, &format!("g{j}"));
                for _ in 0..x.pick(3) {
                    id += 1;
                    g.entries.push(mentry(id, vec![f("Title", &format!("e{id}"), false), f("Password", &format!("p{id}"), true)]));
                }
                g
            });
            (mdb(root), Cfg::plain())
        }),
    });
    let kinds = field_kinds();
    let nf = words(kinds.len() as u64, 3);
    let kinds2 = kinds.clone();
    let vector = move |i: u64| -> Vec<MField> { word(kinds2.len() as u64, i).into_iter().map(|k| kinds2[k].clone()).collect() };
    v.push(Space {
        name: "fields",
        n: nf * 6 * 4,
        make: Box::new({
            let vector = vector.clone();
            move |i| {
                let mut x = Dec(i);
                let fields = vector(x.pick(nf) as u64);
                let mut e = mentry(0x40, fields.clone());
                let older = |id: u128, fs: Vec<MField>| MEntry { times: mtimes(9), ..mentry(id, fs) };
                match x.pick(6) {
                    0 => {}
                    1 => e.history.push(older(0x40, fields.clone())),
                    2 => e.history = vec![older(0x40, vec![]), older(0x40, fields.iter().rev().cloned().collect())],
                    3 => {
                        let mut h = older(0x41, fields.clone());
                        h.history.push(older(0x42, vec![f("Password", "deeper", true)]));
                        e.history.push(h);
                    }
                    4 => {
                        // all content in the history only
                        e.history.push(older(0x40, std::mem::take(&mut e.fields)));
                    }
                    _ => e.history = (0..3).map(|k| older(0x43 + k, vec![f("Password", &format!("v{k}"), true)])).collect(),
                }
                let mut d = base();
                match x.pick(4) {
                    0 => d.root.entries.insert(0, e),
                    1 => d.root.entries.push(e),
                    2 => {
                        let mut g = mgroup(0x60, "sub");
                        g.entries.push(e);
                        d.root.groups.push(g);
                    }
                    _ => {
                        d.custom = fields;
                        d.root.entries.insert(1, e);
                    }
                }
                (d, Cfg::plain())
            }
        }),
    });
    let nh = words(kinds.len() as u64, 1);
    v.push(Space {
        name: "histories",
        n: words(nh, 3) * 2,
        make: Box::new(move |i| {
            let mut x = Dec(i);
            let nested = x.pick(2) == 1;
            let mut e = mentry(0x40, vec![f("Title", "now", false), f("Password", "current", true)]);
            let mut versions: Vec<MEntry> = word(nh, x.0).into_iter().enumerate()
                .map(|(k, fs)| MEntry { times: mtimes(20 + k as i64), ..mentry(0x40 + k as u128 % 2, vector(fs as u64)) }).collect();
            if nested {
                // a chain: each version is the history of the next one
                let mut chain: Option<MEntry> = None;
                for mut ver in versions {
                    ver.history.extend(chain.take());
                    chain = Some(ver);
                }
                e.history.extend(chain);
            } else {
                e.history.append(&mut versions);
            }
            let mut d = base();
            d.root.entries.insert(1, e);
            (d, Cfg::plain())
        }),
    });
    v.push(Space {
        name: "depth",
        n: 300 * 3,
        make: Box::new(move |i| {
            let mut x = Dec(i);
            let depth = x.pick(300) + 1;
            let kind = x.pick(3);
            let mut d = base();
            if kind != 1 {
                let mut g = mgroup(0x90, "bottom");
                g.entries.push(mentry(0x91, vec![f("Password", "deep", true)]));
                for k in 1..depth {
                    let mut h = mgroup(0x92, &format!("d{}", k % 10));
                    h.groups.push(g);
                    g = h;
                }
                d.root = g;
            }
            if kind != 0 {
                let mut e = mentry(0x93, vec![f("Password", "oldest", true)]);
                for k in 1..if kind == 1 { depth } else { (depth / 2).max(1) } {
                    let mut h = mentry(0x94 + k as u128 % 2, vec![f("Password", "newer", true)]);
                    h.history.push(e);
                    e = h;
                }
                d.root.entries.push(e);
            }
            (d, Cfg::plain())
        }),
    });
    v.push(Space {
        name: "wide",
        n: 7 * 54,
        make: Box::new({
            let cfg = cfg.clone();
            move |i| {
                let mut x = Dec(i);
                let kind = x.pick(7);
                let k = x.pick(54) as u128;
                let n = if k <= 40 { k } else { [63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 1025][k as usize - 41] };
                let mut d = base();
                if kind >= 5 {
                    d.root.groups.push(mgroup(0x4000, "many"));
                }
                for k in 0..n {
                    let e = mentry(0x1000 + k, vec![f("Title", &format!("t{k}"), false), f("Password", &format!("pw{k}"), true)]);
                    match kind {
                        0 => d.root.entries.push(e),
                        1 => d.root.groups.push(mgroup(0x5000 + k, &format!("g{k}"))),
                        2 => d.root.entries[0].fields.push(f(&format!("k{k}"), &format!("v{k}"), k % 2 == 0)),
                        3 => d.root.entries[0].history.push(e),
                        5 => d.root.groups.last_mut().unwrap().entries.push(e),
                        6 => d.root.groups.last_mut().unwrap().groups.push(mgroup(0x5000 + k, &format!("g{k}"))),
                        _ => d.custom.push(f(&format!("c{k}"), &format!("v{k}"), k % 3 == 0)),
                    }
                }
                (d, cfg(n as usize))
            }
        }),
    });

    // -- flags, times, identifiers --
    v.push(Space {
        name: "flags",
        n: 32 * 2 * 6 * 5,
        make: Box::new(move |i| {
            let mut x = Dec(i);
            let mut d = rich();
            let b = x.pick(32);
            d.mp = std::array::from_fn(|k| b >> k & 1 == 1);
            let expires = x.pick(2) == 1;
            let usage = [0, 1, 255, i32::MAX as u32, 1 << 31, u32::MAX][x.pick(6)];
            let t = place_times(&mut d, x.pick(5));
            t.expires = expires;
            t.usage = usage;
            (d, Cfg::plain())
        }),
    });
    let tp = time_points();
    v.push(Space {
        name: "times",
        n: (tp.len() * 5 * 5) as u64,
        make: Box::new(move |i| {
            let mut x = Dec(i);
            let mut d = rich();
            let t = *x.of(&tp);
            let which = x.pick(5);
            place_times(&mut d, x.pick(5)).t[which] = t;
            (d, Cfg::plain())
        }),
    });
    v.push(Space {
        name: "identifiers",
        n: (128 + 16 + 4) * 5,
        make: Box::new(move |i| {
            let mut x = Dec(i);
            let k = x.pick(148);
            let u = match k {
                0..=127 => 1u128 << k,
                128..=143 => 0xffu128 << (8 * (k - 128)),
                144 => 0,
                145 => u128::MAX,
                146 => 0x20, // same as the root of the rich database
                _ => 0x00112233445566778899aabbccddeeff,
            };
            let mut d = rich();
            *place_uuid(&mut d, x.pick(5)) = u;
            (d, Cfg::plain())
        }),
    });

    // -- every length of a text up to a few cipher blocks --
    let top = if thorough { 1100 } else { 300 };
    v.push(Space {
        name: "text-lengths",
        n: top * TEXT_POSITIONS as u64,
        make: Box::new(move |i| {
            let mut x = Dec(i);
            let pos = x.pick(TEXT_POSITIONS as u64);
            let mut d = base();
            put_text(&mut d, pos, &(0..x.0).map(|k| char::from(b'a' + (k % 26) as u8)).collect::<String>());
            (d, Cfg::plain())
        }),
    });
    // -- identifiers shared in every way by seven things --
    v.push(Space {
        name: "equal-identifiers",
        n: 3u64.pow(7),
        make: Box::new(move |i| {
            let mut x = Dec(i);
            let mut id = || [0u128, 0x77, 0x78][x.pick(3)];
            let mut root = mgroup(id(), "r");
            root.entries = vec![mentry(id(), vec![f("Title", "a", false), f("Password", "p", true)]), mentry(id(), vec![f("Title", "b", false)])];
            root.entries[0].history = vec![MEntry { times: mtimes(9), ..mentry(id(), vec![f("Title", "old", false)]) }];
            root.groups = vec![mgroup(id(), "g"), mgroup(id(), "h")];
            root.groups[1].entries = vec![mentry(id(), vec![f("Title", "a", false), f("Password", "q", true)])];
            (mdb(root), Cfg::plain())
        }),
    });
    // -- names of fields that are nearly or exactly the same --
    v.push(Space {
        name: "field-names",
        n: (NAMES.len() * NAMES.len() * 6) as u64,
        make: Box::new(move |i| {
            let mut x = Dec(i);
            let (a, b) = (*x.of(&NAMES), *x.of(&NAMES));
            let k = x.pick(6);
            let fields = vec![f(a, "one", k & 1 == 1), f(b, "two", k & 1 == 0), f(a, "", k & 1 == 1)];
            let mut d = base();
            match k / 2 {
                0 => d.root.entries[0].fields = fields,
                1 => d.custom = fields,
                _ => d.root.entries[0].history = vec![mentry(0x31, fields)],
            }
            (d, Cfg::plain())
        }),
    });

    // -- settings --
    let all = all_cfgs();
    let cr = creds();
    v.push(Space {
        name: "settings",
        n: (all.len() * cr.len() * 3 + all.len()) as u64,
        make: Box::new(move |i| {
            let mut x = Dec(i);
            let mut c = x.of(&all).clone();
            c.cred = x.of(&cr).clone();
            let d = match x.0 {
                0 => rich(),
                1 => small(),
                2 => mdb(mgroup(0, "")),
                _ => {
                    let mut d = rich();
                    d.root.entries[0].fields.push(f("big", &"0123456789".repeat(20_000), true));
                    d.desc = "x<y>".repeat(10_000);
                    d
                }
            };
            (d, c)
        }),
    });
    let ks = kdfs(thorough);
    v.push(Space {
        name: "key-derivations",
        n: (ks.len() * 2) as u64,
        make: Box::new(move |i| {
            let mut x = Dec(i);
            let kdf = x.of(&ks).clone();
            let mut c = Cfg::new([Ciph::Aes, Ciph::Chacha][x.pick(2)], Comp::None, kdf, Inner::Chacha);
            c.cred.kf = Some(b"key-file".to_vec());
            (small(), c)
        }),
    });
    v.push(Space {
        name: "seeds",
        n: 3 * (256 + 16 * 8 + 8) + 2 * 130,
        make: Box::new(move |i| {
            let per = 256 + 16 * 8 + 8u64;
            let mut c = Cfg::new(CIPHERS[(i % 3) as usize], Comp::None, aeskdf(1), if i % 2 == 0 { Inner::Salsa } else { Inner::Chacha });
            if i < 3 * per {
                let k = (i / 3) as usize;
                if k < 256 {
                    c.seed = vec![0; 32];
                    c.seed[k / 8] = 1 << (k % 8);
                } else if k < 256 + 128 {
                    c.iv = vec![0; c.cipher.iv_len()];
                    let k = k - 256;
                    let at = k / 8 % c.iv.len();
                    c.iv[at] = 1 << (k % 8);
                } else {
                    let b = [0, 1, 0x7f, 0x80, 0xfe, 0xff, 13, 10][k - 256 - 128];
                    c.seed = vec![b; 32];
                    c.iv = vec![b; c.cipher.iv_len()];
                    c.inner_key = vec![b; 64];
                }
            } else {
                // every length of the inner stream key
                let k = i - 3 * per;
                c.inner = if k % 2 == 0 { Inner::Salsa } else { Inner::Chacha };
                c.inner_key = bytes((k / 2) as usize, 11);
            }
            (rich(), c)
        }),
    });
    v
}

pub fn describe(d: &MDb, c: &Cfg) -> String {
    let t = format!("{d:?}");
    let cut: String = t.chars().take(300).collect();
    format!("{:?}/{:?}/{:?} {cut}", c.cipher, c.comp, c.inner)
}
