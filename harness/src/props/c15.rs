//! Header fields and attachments the library does not use survive.

use crate::engine::*;
use crate::layouts::*;
use crate::lib_io::*;
use crate::model::*;
use crate::refcodec::*;
use crate::refxml::Inner;
use crate::{bail, ensure};

fn keep(all: &Fields, foreign: impl Fn(u8) -> bool) -> Fields {
    all.iter().filter(|f| foreign(f.0)).cloned().collect()
}
fn brief(f: &Fields) -> String {
    let v: Vec<String> = f.iter().take(8).map(|x| format!("{}:{}", x.0, x.1.len())).collect();
    format!("[{}{}]", v.join(" "), if f.len() > 8 { " .." } else { "" })
}

/// What happens between opening and saving.
const EDITS: usize = 7;
fn edit(k: &mut kdbx_rs::Kdbx<kdbx_rs::binary::Unlocked>, c: &mut Cfg, d: &mut MDb, how: usize) -> Res {
    match how {
        0 => {}
        1 => {
            d.root.entries[0].fields[0].value = "edited".into();
            d.root.groups.push(mgroup(0x99, "new"));
            *k.database_mut() = build(d);
        }
        2 => {
            c.cipher = if c.cipher == Ciph::Chacha { Ciph::Aes } else { Ciph::Chacha };
            c.iv = bytes(c.cipher.iv_len(), 8);
            c.comp = if c.comp == Comp::None { Comp::Gzip(6, 0) } else { Comp::None };
            configure(k, c);
        }
        3 => {
            c.cred = Cred::pw("changed");
            let key = c.cred.lib();
            if let Err(e) = api("set_key", || k.set_key(key))? {
                bail!("set_key: {e}");
            }
        }
        4 => {
            c.kdf = argon(true);
            c.inner = if c.inner == Inner::Chacha { Inner::Salsa } else { Inner::Chacha };
            c.inner_key = bytes(32, 9);
            configure(k, c);
        }
        5 => {
            // a save that fails in between
            struct Full;
            impl std::io::Write for Full {
                fn write(&mut self, _: &[u8]) -> std::io::Result<usize> {
                    Err(std::io::Error::new(std::io::ErrorKind::Other, "full"))
                }
                fn flush(&mut self) -> std::io::Result<()> {
                    Ok(())
                }
            }
            ensure!(api("write", || k.write(Full))?.is_err(), "saving into a full destination reports success");
        }
        _ => {
            d.name = "other".into();
            d.root.entries.clear();
            *k.database_mut() = build(d);
        }
    }
    Ok(())
}

/// Opens, edits, saves (twice) and compares the foreign fields.
fn judge(c: &Cfg, l: &Layout4, how: usize, case: &mut Case) -> Res {
    let mut d = small();
    let mut cfg = c.clone();
    let b = encode4(&cfg, l, &cfg.xml4(&d));
    let outer = keep(&l.fields, is_foreign_outer);
    let inner = keep(&l.inner, is_foreign_inner);
    let what = || format!("outer {} inner {} edit {how}", brief(&outer), brief(&inner));
    let mut k = expect_db(&b, &cfg.cred, &d, &what())?;
    for round in 0..2 {
        edit(&mut k, &mut cfg, &mut d, if round == 0 { how } else { 0 })?;
        let b = match save(&k)? {
            Ok(b) => b,
            Err(e) => bail!("{}: {e}", what()),
        };
        let x = match decode(&b, &cfg.cred) {
            Ok(x) => x,
            Err(e) => bail!("{}: the saved file is unreadable: {e}", what()),
        };
        let (o, i) = (keep(&x.fields, is_foreign_outer), keep(&x.inner_fields, is_foreign_inner));
        ensure!(o == outer, "{}: outer fields became {}", what(), brief(&o));
        ensure!(i == inner, "{}: inner fields became {}", what(), brief(&i));
        k = expect_db(&b, &cfg.cred, &d, &what())?;
    }
    case.seen(if outer.is_empty() && inner.is_empty() { "trivial" } else { "kept" }, &(h64(&l.fields), h64(&l.inner), how, cfg.cipher));
    case.sample(what);
    Ok(())
}

fn is_foreign_outer(t: u8) -> bool {
    t == 1 || t >= 12
}
fn is_foreign_inner(t: u8) -> bool {
    t >= 3
}

/// Field lists over a small alphabet; contents differ by position so that order is visible.
fn list(alphabet: &[(u8, usize)], i: u64) -> Fields {
    word(alphabet.len() as u64, i).iter().enumerate().map(|(at, k)| (alphabet[*k].0, bytes(alphabet[*k].1, at as u8))).collect()
}
/// Places the fields of a list among the interpreted ones.
fn spread(base: &Fields, extra: Fields, how: usize) -> Fields {
    let mut v = base.clone();
    match how % 3 {
        0 => v.extend(extra),
        1 => {
            let mut w = extra;
            w.extend(v);
            v = w;
        }
        _ => {
            for (i, f) in extra.into_iter().enumerate() {
                let at = (2 * i + 1).min(v.len());
                v.insert(at, f);
            }
        }
    }
    v
}

pub fn run(e: &mut Engine) {
    e.rule = "a case is one file with fields the library does not interpret, opened, edited and saved twice; distinct by these fields, the edit and the cipher".into();
    let thorough = !e.quick();
    let cfgs = some_cfgs();
    let lengths: Vec<usize> = vec![0, 1, 2, 3, 4, 5, 8, 15, 16, 17, 31, 32, 33, 255, 256, 257, 4096, 65_535, 65_536, 70_000];

    let fo = foreign_outer();
    e.phase("outer-types", (fo.len() * lengths.len() * 6) as u64, |i, c| {
        let mut x = Dec(i);
        let t = *x.of(&fo);
        let n = *x.of(&lengths);
        let at = x.pick(6);
        let cfg = &cfgs[if n > 1000 { 3 } else { (i % 4) as usize }];
        let mut l = Layout4::of(cfg);
        l.fields.insert(at, (t, bytes(n, t)));
        judge(cfg, &l, i as usize % EDITS, c)
    });
    let fi = foreign_inner();
    e.phase("inner-types", (fi.len() * lengths.len() * 3) as u64, |i, c| {
        let mut x = Dec(i);
        let t = *x.of(&fi);
        let n = *x.of(&lengths);
        let at = x.pick(3);
        let cfg = &cfgs[if n > 1000 { 2 } else { (i % 4) as usize }];
        let mut l = Layout4::of(cfg);
        l.inner.insert(at, (t, bytes(n, t)));
        judge(cfg, &l, i as usize % EDITS, c)
    });
    let top = e.pick(1100, 9000) as u64;
    e.phase("lengths", top * 2, |i, c| {
        let n = (i / 2) as usize;
        let cfg = &cfgs[n % 2 * 2];
        let mut l = Layout4::of(cfg);
        if i % 2 == 0 {
            l.fields.insert(0, (1, bytes(n, 1)));
            l.fields.push((12, bytes(n / 2, 2)));
        } else {
            l.inner.insert(0, (3, bytes(n, 1)));
            l.inner.push((3, bytes(n / 2, 2)));
        }
        judge(cfg, &l, n % EDITS, c)
    });
    let oa = [(1u8, 0usize), (1, 5), (12, 5), (12, 0), (13, 5), (255, 5), (128, 300)];
    let ia = [(3u8, 0usize), (3, 5), (3, 300), (4, 5), (255, 5), (4, 0), (128, 40)];
    // full lists on either side, and pairs of shorter lists
    let deep = if thorough { 5 } else { 4 };
    let n = words(7, deep);
    e.phase("outer-lists", n * 3, |i, c| {
        let mut x = Dec(i);
        let how = x.pick(3);
        let cfg = &cfgs[0];
        let mut l = Layout4::of(cfg);
        l.fields = spread(&l.fields, list(&oa, x.0), how);
        judge(cfg, &l, i as usize % EDITS, c)
    });
    e.phase("inner-lists", n * 3, |i, c| {
        let mut x = Dec(i);
        let how = x.pick(3);
        let cfg = &cfgs[3];
        let mut l = Layout4::of(cfg);
        l.inner = spread(&l.inner, list(&ia, x.0), how);
        judge(cfg, &l, i as usize % EDITS, c)
    });
    let m = words(7, 2);
    e.phase("both-lists", m * m * EDITS as u64 * 3, |i, c| {
        let mut x = Dec(i);
        let how = x.pick(EDITS as u64);
        let place = x.pick(3);
        let (a, b) = (x.pick(m) as u64, x.0);
        let cfg = &cfgs[(a % 2 * 2) as usize];
        let mut l = Layout4::of(cfg);
        l.fields = spread(&l.fields, list(&oa, a), place);
        l.inner = spread(&l.inner, list(&ia, b), place + 1);
        judge(cfg, &l, how, c)
    });
    // equal fields are all kept
    let counts: Vec<usize> = (0..=70).chain([100, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000]).collect();
    e.phase("repeated", 2 * counts.len() as u64 * 4, |i, c| {
        let mut x = Dec(i);
        let outer = x.pick(2) == 0;
        let n = *x.of(&counts);
        let (t, d) = [(3u8, vec![]), (3, bytes(7, 7)), (12, bytes(3, 3)), (99, vec![0])][x.pick(4)].clone();
        let cfg = &cfgs[0];
        let mut l = Layout4::of(cfg);
        if outer {
            l.fields.extend(std::iter::repeat_n((if t == 3 { 1 } else { t }, d), n));
        } else {
            l.inner.extend(std::iter::repeat_n((t, d), n));
        }
        judge(cfg, &l, i as usize % EDITS, c)
    });
    // many different fields
    e.phase("many", counts.len() as u64 * 2 * EDITS as u64, |i, c| {
        let mut x = Dec(i);
        let outer = x.pick(2) == 0;
        let how = x.pick(EDITS as u64);
        let n = *x.of(&counts);
        let cfg = &cfgs[0];
        let mut l = Layout4::of(cfg);
        for k in 0..n {
            let t = if outer { [1u8, 12, 13, 200, 255][k % 5] } else { [3u8, 3, 4, 128, 255][k % 5] };
            let item = (t, (k as u32).to_le_bytes().to_vec());
            if outer {
                l.fields.insert(1 + k.min(l.fields.len() - 1), item);
            } else {
                l.inner.push(item);
            }
        }
        judge(cfg, &l, how, c)
    });
    // contents that look like something else
    let odd: Vec<Vec<u8>> = vec![
        b"\r\n\r\n".to_vec(),
        vec![0; 5],
        vec![0; 64],
        header_bytes(4, 0, &Cfg::plain().fields4(), &[]),
        inner_bytes(&Cfg::plain().inner_fields(), &[]),
        Cfg::plain().xml4(&small()),
        dict_bytes(&argon(false).dict()),
        vec![255; 300],
        U_CHACHA.as_bytes().to_vec(),
        1u32.to_le_bytes().to_vec(),
        gzip(b"text", 6, 0),
        (0..=255).collect(),
    ];
    e.phase("contents", (odd.len() * odd.len() * 2 * EDITS) as u64, |i, c| {
        let mut x = Dec(i);
        let (a, b) = (x.of(&odd).clone(), x.of(&odd).clone());
        let gz = x.pick(2) == 1;
        let how = x.pick(EDITS as u64);
        let cfg = &cfgs[if gz { 3 } else { 0 }];
        let mut l = Layout4::of(cfg);
        l.fields.insert(2, (1, a.clone()));
        l.fields.push((12, b.clone()));
        l.inner.insert(0, (3, a));
        l.inner.push((200, b));
        judge(cfg, &l, how, c)
    });
    let big = [1_048_560usize, 1_048_576, 1_048_577, 2_097_153, 3_500_000, (1 << 24) - 1, 1 << 24, (1 << 24) + 5];
    e.phase("large", (big.len() * 2 * 2) as u64, |i, c| {
        let mut x = Dec(i);
        let n = *x.of(&big);
        let outer = x.pick(2) == 0;
        let cfg = Cfg::new(Ciph::Chacha, if x.pick(2) == 0 { Comp::None } else { Comp::Gzip(1, 0) }, aeskdf(1), Inner::Chacha);
        let mut l = Layout4::of(&cfg);
        if outer {
            l.fields.insert(1, (12, vec![7; n]));
        } else {
            l.inner.insert(1, (3, vec![7; n]));
            l.inner.push((3, b"after".to_vec()));
        }
        judge(&cfg, &l, 1, c)
    });
    // minor versions are kept company by fields this version does not know
    e.phase("minor-versions", 256, |i, c| {
        let cfg = &cfgs[0];
        let mut l = Layout4::of(cfg);
        l.minor = i as u16;
        l.fields.insert(0, (13, bytes(3, 1)));
        l.inner.insert(0, (5, bytes(3, 1)));
        judge(cfg, &l, i as usize % EDITS, c)
    });
}
