//! New archives and items get fresh unpredictable values.

use crate::engine::*;
use crate::entropy::*;
use crate::refcodec::*;
use crate::{bail, ensure};
use kdbx_rs::binary::{Kdbx, KdbxHeader, KdbxInnerHeader, KdfParams};
use kdbx_rs::database::{Database, Entry, Group};

/// Things that are created with random values.
const OPS: [&str; 9] = ["archive", "header", "inner header", "entry", "group", "named group", "database", "archive of a tree", "saved archive"];

type Values = Vec<(&'static str, Vec<u8>)>;

fn salt(p: &KdfParams) -> Vec<u8> {
    match p {
        KdfParams::Argon2 { salt, .. } => salt.clone(),
        KdfParams::Aes { salt, .. } => salt.clone(),
        _ => vec![],
    }
}
fn of_header(h: &KdbxHeader) -> Values {
    vec![("seed", h.master_seed.clone()), ("initialisation vector", h.encryption_iv.clone()), ("salt", salt(&h.kdf_params))]
}
fn of_archive(k: &Kdbx<kdbx_rs::binary::Unlocked>) -> Values {
    let mut v = of_header(k.header());
    v.push(("inner key", k.inner_header().inner_stream_key.clone()));
    v
}
fn id(u: uuid::Uuid) -> Vec<u8> {
    u.as_bytes().to_vec()
}

/// Creates something and shows its random values. Panics are passed on as refusals.
fn create(op: usize) -> Result<Values, Violation> {
    match op {
        0 => {
            let db = outside_script(Database::default);
            api("Kdbx::from_database", || Kdbx::from_database(db)).map(|k| of_archive(&k))
        }
        1 => api("KdbxHeader::from_os_random", KdbxHeader::from_os_random).map(|h| of_header(&h)),
        2 => api("KdbxInnerHeader::from_os_random", KdbxInnerHeader::from_os_random).map(|h| vec![("inner key", h.inner_stream_key.clone())]),
        3 => api("Entry::default", Entry::default).map(|e| vec![("entry identifier", id(e.uuid()))]),
        4 => api("Group::default", Group::default).map(|g| vec![("group identifier", id(g.uuid()))]),
        5 => api("Group::new", || Group::new("name")).map(|g| vec![("group identifier", id(g.uuid()))]),
        6 => api("Database::default", Database::default).map(|d| vec![("root identifier", id(d.root().uuid()))]),
        7 => api("a tree", || {
            let mut d = Database::default();
            let (e, f, mut g) = (Entry::default(), Entry::default(), Group::new("sub"));
            let mut v = vec![("root identifier", id(d.root().uuid())), ("entry identifier", id(e.uuid())), ("entry identifier", id(f.uuid())), ("group identifier", id(g.uuid()))];
            g.add_entry(f);
            d.add_entry(e);
            d.add_group(g);
            v.extend(of_archive(&Kdbx::from_database(d)));
            v
        }),
        _ => {
            let cred = Cred::pw("x");
            let b = api("saving a new archive", || {
                let mut k = Kdbx::from_database(Database::default());
                // the work factor is lowered, what was drawn stays
                if let KdfParams::Argon2 { memory_bytes, iterations, lanes, .. } = &mut k.header_mut().kdf_params {
                    *memory_bytes = 8192;
                    *iterations = 1;
                    *lanes = 1;
                }
                let mut b = vec![];
                k.set_key(cred.lib()).map_err(|e| e.to_string())?;
                k.write(&mut b).map_err(|e| e.to_string())?;
                Ok::<_, String>(b)
            })??;
            let d = decode(&b, &cred).map_err(|e| Violation::from(format!("a new archive is not valid: {e}")))?;
            let field = |t: u8| d.fields.iter().find(|f| f.0 == t).map(|f| f.1.clone()).unwrap_or_default();
            let s = match &d.kdf {
                Kdf::Argon { salt, .. } => salt.clone(),
                Kdf::Aes { salt, .. } => salt.clone(),
            };
            let db = d.db().map_err(|e| Violation::from(format!("a new archive is not valid: {e}")))?;
            Ok(vec![("seed", field(4)), ("initialisation vector", field(7)), ("salt", s), ("inner key", d.inner_key.clone()), ("root identifier", id(uuid::Uuid::from_u128(db.root.uuid)))])
        }
    }
}
/// Preparation that draws from the real source.
fn outside_script<T>(f: impl FnOnce() -> T) -> T {
    pausing(f)
}

/// How many bits of a value may be random at most.
fn bits(v: &(&str, Vec<u8>)) -> usize {
    if v.0.ends_with("identifier") { 122 } else { v.1.len() * 8 }
}
/// The least length of a value.
fn least(name: &str) -> usize {
    match name {
        "seed" | "salt" | "inner key" => 32,
        _ => 16,
    }
}

fn base(kind: usize) -> impl Fn(usize) -> u8 + Clone + 'static {
    move |i| match kind {
        0 => sha256(&(i as u64).to_le_bytes())[0],
        1 => 0,
        2 => 255,
        _ => i as u8,
    }
}

pub fn run(e: &mut Engine) {
    e.rule = "a case is one creation (or sequence of creations) under one behaviour of the random source; distinct by operation and behaviour".into();
    e.assumptions.push("random bytes of the operating system are requested by getrandom(2), which is scripted below the C library interface".into());
    // one unscripted creation each settles lazily initialised state, and shows real values
    let real: Vec<Result<(Values, Values), String>> = (0..OPS.len()).map(|o| match (create(o), create(o)) {
        (Ok(a), Ok(b)) => Ok((a, b)),
        (Err(v), _) | (_, Err(v)) => Err(v.msg),
    }).collect();
    e.phase("real-source", OPS.len() as u64, |i, c| {
        let (a, b) = match &real[i as usize] {
            Ok(x) => x,
            Err(m) => bail!("{}: {m}", OPS[i as usize]),
        };
        let all: Vec<_> = a.iter().chain(b).collect();
        for (k, v) in all.iter().enumerate() {
            ensure!(v.1.len() >= least(v.0), "{}: {} of {} bytes", OPS[i as usize], v.0, v.1.len());
            ensure!(all[..k].iter().all(|w| w.1 != v.1 && w.1[..8] != v.1[..8]), "{}: {} {:02x?} occurs twice", OPS[i as usize], v.0, v.1);
        }
        c.seen("fresh", &i);
        c.sample(|| format!("{}: {:?}", OPS[i as usize], a.iter().map(|v| (v.0, v.1.len())).collect::<Vec<_>>()));
        Ok(())
    });

    // how much each operation draws
    let sizes: Vec<(usize, usize)> = (0..OPS.len()).map(|o| {
        let (_, requests, given) = scripted(base(0), usize::MAX, None, || create(o).ok());
        (requests, given)
    }).collect();
    e.notes.insert("bytes drawn".into(), sizes.iter().zip(OPS).map(|(s, o)| format!("{o}: {} in {} requests", s.1, s.0)).collect::<Vec<_>>().join("; ").into());

    // -- every bit of the source flipped: which values does it reach? --
    let most = sizes.iter().map(|s| s.1).max().unwrap_or(0) as u64;
    e.phase("flipped-bits", OPS.len() as u64 * most * 8 * 3, |i, c| {
        let mut x = Dec(i);
        let op = x.pick(OPS.len() as u64);
        let kind = x.pick(3);
        let bit = x.pick(8);
        let at = x.0 as usize;
        if at >= sizes[op].1 {
            c.seen("trivial", &0);
            return Ok(());
        }
        let b = base(kind);
        let plain = scripted(b.clone(), usize::MAX, None, || create(op)).0?;
        let flipped = scripted(move |k| b(k) ^ if k == at { 1 << bit } else { 0 }, usize::MAX, None, || create(op)).0?;
        ensure!(plain.len() == flipped.len(), "{}: other values", OPS[op]);
        let hit: Vec<_> = (0..plain.len()).filter(|k| plain[*k].1 != flipped[*k].1).collect();
        ensure!(hit.len() <= 1, "{}: bit {bit} of random byte {at} determines {:?}", OPS[op], hit.iter().map(|k| plain[*k].0).collect::<Vec<_>>());
        c.seen(if hit.is_empty() { "unused" } else { "one value" }, &i);
        Ok(())
    });
    // -- together: every bit of every value depends on its own bit of the source --
    e.phase("coverage", OPS.len() as u64 * 3, |i, c| {
        let mut x = Dec(i);
        let op = x.pick(OPS.len() as u64);
        let b = base(x.pick(3));
        let plain = scripted(b.clone(), usize::MAX, None, || create(op)).0?;
        let mut reach: Vec<std::collections::HashSet<Vec<u8>>> = vec![Default::default(); plain.len()];
        let mut touched: Vec<Vec<u8>> = plain.iter().map(|v| vec![0; v.1.len()]).collect();
        for at in 0..sizes[op].1 {
            for bit in 0..8 {
                let b = b.clone();
                let flipped = scripted(move |k| b(k) ^ if k == at { 1 << bit } else { 0 }, usize::MAX, None, || create(op)).0?;
                for k in 0..plain.len() {
                    if plain[k].1 != flipped[k].1 {
                        for (t, (p, q)) in touched[k].iter_mut().zip(plain[k].1.iter().zip(&flipped[k].1)) {
                            *t |= p ^ q;
                        }
                        reach[k].insert(flipped[k].1.clone());
                    }
                }
                c.touch();
            }
        }
        for (k, v) in plain.iter().enumerate() {
            ensure!(v.1.len() >= least(v.0), "{}: {} of only {} bytes", OPS[op], v.0, v.1.len());
            ensure!(reach[k].len() >= bits(v), "{}: only {} random bits decide {} of {} bytes", OPS[op], reach[k].len(), v.0, v.1.len());
            let fixed = touched[k].iter().map(|t| t.count_zeros() as usize).sum::<usize>();
            ensure!(v.1.len() * 8 - fixed >= bits(v), "{}: {fixed} bits of {} do not depend on the random source", OPS[op], v.0);
        }
        c.add("random bits followed", sizes[op].1 as u64 * 8);
        c.seen("covered", &i);
        Ok(())
    });

    // -- all sequences of creations --
    let depth = if e.quick() { 5 } else { 6 };
    let n = words(OPS.len() as u64, depth);
    e.phase("sequences", n, |i, c| {
        let w = word(OPS.len() as u64, i);
        let once = |lo: usize, hi: usize| {
            let b = base(0);
            scripted(move |k| b(k) ^ if (lo..hi).contains(&k) { 0xa5 } else { 0 }, usize::MAX, None, || {
                let mut v = vec![];
                for op in &w {
                    let from = given();
                    match create(*op) {
                        Ok(x) => v.push((x, from, given())),
                        Err(e) => return Err(e),
                    }
                }
                Ok(v)
            }).0
        };
        let plain = once(0, 0)?;
        let what = || w.iter().map(|o| OPS[*o]).collect::<Vec<_>>();
        let all: Vec<_> = plain.iter().flat_map(|p| &p.0).collect();
        for (k, v) in all.iter().enumerate() {
            ensure!(all[..k].iter().all(|o| o.1 != v.1), "{:?}: {} occurs twice", what(), v.0);
        }
        for (k, (_, lo, hi)) in plain.iter().enumerate() {
            let other = once(*lo, *hi)?;
            for j in 0..plain.len() {
                for (p, q) in plain[j].0.iter().zip(&other[j].0) {
                    if j == k {
                        ensure!(p.1 != q.1, "{:?}: {} of creation {} does not depend on what it draws", what(), p.0, k + 1);
                    } else {
                        ensure!(p.1 == q.1, "{:?}: {} of creation {} depends on what creation {} draws", what(), p.0, j + 1, k + 1);
                    }
                }
            }
        }
        c.seen("independent", &i);
        c.sample(|| format!("{:?}", what()));
        Ok(())
    });
    // -- long runs: nothing comes back later --
    let n = e.pick(70_000, 300_000);
    e.phase("long-runs", 8, |op, c| {
        let op = op as usize;
        let (r, ..) = scripted(base_long, usize::MAX, None, || {
            let mut seen = std::collections::HashSet::new();
            for k in 0..n {
                if k % 64 == 0 {
                    c.touch();
                }
                let from = given();
                let v = create(op)?;
                let drawn = given() - from;
                let need: usize = v.iter().map(|v| v.1.len()).sum();
                ensure!(drawn >= need, "{} number {}: {need} random bytes shown, {drawn} drawn", OPS[op], k + 1);
                for x in v {
                    ensure!(seen.insert(x.1), "{} number {}: {} occurs again", OPS[op], k + 1, x.0);
                }
            }
            Ok(())
        });
        r?;
        c.add("creations in long runs", n);
        c.seen("fresh", &op);
        Ok(())
    });

    // -- the source fails --
    let errnos = [libc::EIO, libc::EPERM, libc::ENOSYS, libc::EAGAIN, libc::EFAULT, libc::EINVAL, libc::ENOMEM];
    let most = sizes.iter().map(|s| s.0).max().unwrap_or(0) as u64 + 1;
    let kinds: Vec<Fault> = errnos.iter().flat_map(|e| [Fault::Once(*e), Fault::Forever(*e)]).chain([Fault::Nothing]).collect();
    for chunk in [usize::MAX, 7] {
        let most = if chunk == 7 { most * 8 } else { most };
        e.phase(if chunk == 7 { "failures-in-pieces" } else { "failures" }, OPS.len() as u64 * most * kinds.len() as u64, |i, c| {
            let mut x = Dec(i);
            let op = x.pick(OPS.len() as u64);
            let fault = *x.of(&kinds);
            let at = x.0 as usize;
            let (plain, requests, _) = scripted(base(0), chunk, None, || create(op));
            let plain = plain?;
            if at >= requests {
                c.seen("trivial", &0);
                return Ok(());
            }
            let (r, ..) = scripted(base(0), chunk, Some((at, fault)), || create(op));
            let what = || format!("{}: request {} answered by {fault:?}", OPS[op], at + 1);
            match r {
                Err(_) => c.seen("refused", &i),
                Ok(_) if matches!(fault, Fault::Forever(_)) => bail!("{}: carried on", what()),
                Ok(v) => {
                    // tried again: then all of it must still come from the source
                    let (w, ..) = scripted(|k| !base(0)(k), chunk, Some((at, fault)), || create(op));
                    for (p, q) in v.iter().zip(&w?) {
                        let same = p.1.iter().zip(&q.1).filter(|(a, b)| a == b).count();
                        ensure!(same * 8 <= p.1.len(), "{}: {} is not random", what(), p.0);
                    }
                    c.seen("tried again", &i);
                }
            }
            // and afterwards the source is used as before
            let after = scripted(base(0), chunk, None, || create(op)).0?;
            ensure!(after == plain, "{}: later values differ", what());
            c.sample(what);
            Ok(())
        });
    }
    // -- interrupted or short answers change nothing --
    e.phase("interruptions", OPS.len() as u64 * most, |i, c| {
        let mut x = Dec(i);
        let op = x.pick(OPS.len() as u64);
        let plain = scripted(base(0), usize::MAX, None, || create(op)).0?;
        let other = scripted(base(0), usize::MAX, Some((x.0 as usize, Fault::Once(libc::EINTR))), || create(op)).0;
        if let Ok(other) = other {
            ensure!(other == plain, "{}: interrupted request {} gives other values", OPS[op], x.0 + 1);
        }
        c.seen("same", &i);
        Ok(())
    });
    e.phase("short-answers", OPS.len() as u64 * 64, |i, c| {
        let mut x = Dec(i);
        let op = x.pick(OPS.len() as u64);
        let plain = scripted(base(0), usize::MAX, None, || create(op)).0?;
        let other = scripted(base(0), x.0 as usize + 1, None, || create(op)).0?;
        ensure!(other == plain, "{}: answers of {} bytes give other values", OPS[op], x.0 + 1);
        c.seen("same", &i);
        Ok(())
    });
}

/// A stream without repetition.
fn base_long(i: usize) -> u8 {
    let mut x = (i as u64 / 8).wrapping_add(1).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    x ^= x >> 31;
    x = x.wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x ^= x >> 29;
    (x >> (8 * (i % 8))) as u8
}
