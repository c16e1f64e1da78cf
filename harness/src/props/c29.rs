//! Archives do not influence each other.

use crate::engine::*;
use crate::layouts::*;
use crate::lib_io::*;
use crate::model::*;
use crate::refcodec::*;
use crate::refxml::Inner;
use crate::{bail, ensure};
use kdbx_rs::binary::Unlocked;
use kdbx_rs::Kdbx;
use std::collections::HashSet;
use std::io::{self, Read, Write};
use std::sync::{Condvar, Mutex};

/// An archive, what it holds, and credentials that do not open it.
struct Arch {
    name: &'static str,
    cfg: Cfg,
    d: MDb,
    bytes: Vec<u8>,
    legacy: bool,
}

/// Archives that differ from the first one in one thing each, so that anything kept from one
/// operation for the next can be mistaken for what the other one needs.
fn archives() -> Vec<Arch> {
    let base = Cfg::new(Ciph::Aes, Comp::None, aeskdf(2), Inner::Chacha);
    let mut v = vec![];
    let mut add = |name, f: &dyn Fn(&mut Cfg), n: u32| {
        let mut cfg = base.clone();
        f(&mut cfg);
        let mut d = small();
        d.name = format!("content {n}");
        d.root.entries[0].fields[1].value = format!("secret {n}");
        let bytes = file4(&cfg, &d);
        v.push(Arch { name, cfg, d, bytes, legacy: false });
    };
    add("base", &|_| {}, 0);
    add("other password", &|c| c.cred = Cred::pw("other"), 1);
    add("key file", &|c| c.cred.kf = Some(b"key-file".to_vec()), 2);
    add("other salt", &|c| c.kdf = Kdf::Aes { rounds: 2, salt: bytes(32, 0x91), legacy_uuid: false }, 3);
    add("other rounds", &|c| c.kdf = aeskdf(3), 4);
    add("argon2", &|c| c.kdf = argon(false), 5);
    add("other argon2", &|c| c.kdf = argon(true), 6);
    add("other seed", &|c| c.seed = bytes(32, 0x92), 7);
    add("other vector", &|c| c.iv = bytes(16, 0x93), 8);
    add("other inner key", &|c| c.inner_key = bytes(64, 0x94), 9);
    add("other inner stream", &|c| c.inner = Inner::Salsa, 10);
    add("other inner stream, key that ends differently", &|c| {
        c.inner = Inner::Salsa;
        *c.inner_key.last_mut().expect("a key") ^= 1;
    }, 16);
    add("compressed", &|c| c.comp = Comp::Gzip(6, 0), 11);
    add("other cipher", &|c| {
        c.cipher = Ciph::Chacha;
        c.iv.truncate(12);
    }, 12);
    add("same settings, other content", &|_| {}, 13);
    {
        let mut d = small();
        d.name = "content 17".into();
        d.root.entries[0].fields[1].value = "secret 17".into();
        let bytes = encode4(&base, &Layout4 { cuts: vec![64, 33, 100, 1, 200], ..Layout4::of(&base) }, &base.xml4(&d));
        v.push(Arch { name: "several blocks", cfg: base.clone(), d, bytes, legacy: false });
    }
    for (name, k, n) in [("legacy", 0usize, 14), ("legacy, compressed", 2, 15)] {
        let mut cfg = cfgs3()[k].clone();
        cfg.cred = base.cred.clone();
        let mut d = small();
        d.name = format!("content {n}");
        d.root.entries[0].fields[1].value = format!("secret {n}");
        let bytes = file3(&cfg, &d);
        v.push(Arch { name, cfg, d, bytes, legacy: true });
    }
    v
}

fn wrong(a: &Arch) -> Cred {
    if a.cfg.cred == Cred::pw("other") {
        Cred::pw("kdbxrs")
    } else {
        Cred::pw("other")
    }
}
/// What an edit leaves behind.
fn edited(a: &Arch) -> MDb {
    let mut d = a.d.clone();
    d.desc = format!("edited {}", a.name);
    d.root.entries[0].fields[1].value = format!("changed in {}", a.name);
    d
}
fn edit(k: &mut Kdbx<Unlocked>, a: &Arch) -> Res {
    let db = build(&edited(a));
    api("edit", || *k.database_mut() = db)
}
fn check_saved(a: &Arch, cred: &Cred, d: &MDb, out: &[u8]) -> Res {
    let x = decode(out, cred).map_err(|x| format!("{}: the saved file does not open: {x}", a.name))?;
    let db = x.db()?;
    ensure!(&db == d, "{}: the saved content differs: {}", a.name, diff(d, &db));
    Ok(())
}
fn check_loaded(a: &Arch, k: &Kdbx<Unlocked>) -> Res {
    let got = observe(k.database());
    ensure!(got == a.d, "{}: content differs: {}", a.name, diff(&a.d, &got));
    ensure!(k.header().master_seed == a.cfg.seed && k.header().encryption_iv == a.cfg.iv && k.inner_header().inner_stream_key == a.cfg.inner_key, "{}: settings of another archive", a.name);
    Ok(())
}

const OPS: usize = 5;
/// One whole operation on one archive, judged by the reference codec alone.
fn op(a: &Arch, which: usize) -> Res {
    match which {
        // open with the right credentials
        0 => {
            let k = load(&a.bytes, &a.cfg.cred)?.map_err(|x| format!("{}: does not open: {x}", a.name))?;
            check_loaded(a, &k)
        }
        // with wrong ones, then with the right ones
        1 => {
            let k = open(&a.bytes)?.map_err(|x| format!("{}: does not open: {x}", a.name))?;
            let key = wrong(a).lib();
            let k = match api("unlock", || k.unlock(&key))? {
                Ok(_) => bail!("{}: opens with wrong credentials", a.name),
                Err(x) => x.0,
            };
            let mut out = vec![];
            let r = api("write", || k.write(&mut out))?;
            ensure!(r.is_ok() && out == a.bytes, "{}: the locked archive is written differently", a.name);
            Ok(())
        }
        // a new archive under these settings
        2 => {
            let mut cfg = a.cfg.clone();
            if a.legacy {
                cfg = Cfg::new(Ciph::Aes, Comp::None, aeskdf(2), Inner::Salsa);
            }
            let k = archive(&a.d, &cfg)?.map_err(|x| format!("{}: {x}", a.name))?;
            let out = save(&k)?.map_err(|x| format!("{}: {x}", a.name))?;
            check_saved(a, &cfg.cred, &a.d, &out)
        }
        // open, edit, save; the 3.1 ones are upgraded or refused, but never as something else
        3 => {
            let mut k = load(&a.bytes, &a.cfg.cred)?.map_err(|x| format!("{}: does not open: {x}", a.name))?;
            edit(&mut k, a)?;
            match save(&k)? {
                Ok(out) => check_saved(a, &a.cfg.cred, &edited(a), &out),
                Err(_) if a.legacy => Ok(()),
                Err(x) => bail!("{}: cannot be saved: {x}", a.name),
            }
        }
        // open, other credentials, save
        _ => {
            let mut k = load(&a.bytes, &a.cfg.cred)?.map_err(|x| format!("{}: does not open: {x}", a.name))?;
            let cred = wrong(a);
            let key = cred.lib();
            ensure!(api("set_key", || k.set_key(key))?.is_ok(), "{}: set_key fails", a.name);
            match save(&k)? {
                Ok(out) => check_saved(a, &cred, &a.d, &out),
                Err(_) if a.legacy => Ok(()),
                Err(x) => bail!("{}: cannot be saved: {x}", a.name),
            }
        }
    }
}

/// Calls back once in each of the given chunks.
struct Halting<'a, F: FnMut()> {
    data: &'a [u8],
    chunk: usize,
    halt: F,
}
impl<F: FnMut()> Read for Halting<'_, F> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() || self.data.is_empty() {
            return Ok(0);
        }
        let left = match self.data.len() % self.chunk {
            0 => self.chunk,
            n => n,
        };
        let n = b.len().min(left);
        b[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        if n == left {
            (self.halt)();
        }
        Ok(n)
    }
}
struct HaltingOut<F: FnMut()> {
    out: Vec<u8>,
    chunk: usize,
    halt: F,
}
impl<F: FnMut()> Write for HaltingOut<F> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.chunk - self.out.len() % self.chunk);
        self.out.extend_from_slice(&b[..n]);
        if self.out.len() % self.chunk == 0 && n > 0 {
            (self.halt)();
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Open in pieces, try wrong credentials, unlock, edit, save in pieces; `halt` is called between all steps.
fn program(a: &Arch, pieces: usize, halt: &dyn Fn()) -> Res {
    let input = Halting { data: &a.bytes, chunk: a.bytes.len().div_ceil(pieces), halt };
    let k = api("from_reader", || kdbx_rs::from_reader(input))?.map_err(|x| format!("{}: does not open: {x}", a.name))?;
    let key = wrong(a).lib();
    let k = match api("unlock", || k.unlock(&key))? {
        Ok(_) => bail!("{}: opens with wrong credentials", a.name),
        Err(x) => x.0,
    };
    halt();
    let key = a.cfg.cred.lib();
    let mut k = match api("unlock", || k.unlock(&key))? {
        Ok(k) => k,
        Err(x) => bail!("{}: does not unlock: {}", a.name, x.1),
    };
    check_loaded(a, &k)?;
    halt();
    edit(&mut k, a)?;
    let mut out = HaltingOut { out: vec![], chunk: (a.bytes.len() + 200).div_ceil(pieces), halt };
    let r = api("write", || k.write(&mut out))?;
    match r {
        Ok(()) => check_saved(a, &a.cfg.cred, &edited(a), &out.out),
        Err(_) if a.legacy => Ok(()),
        Err(x) => bail!("{}: cannot be saved: {x}", a.name),
    }
}

/// Lets exactly one of two threads run at a time, in the given order.
struct Baton {
    at: Mutex<(usize, [bool; 2])>,
    moved: Condvar,
    order: Vec<bool>,
}
impl Baton {
    fn turn(&self, s: &(usize, [bool; 2])) -> bool {
        let next = self.order.get(s.0).copied().unwrap_or(false);
        if s.1[next as usize] {
            !next
        } else {
            next
        }
    }
    fn wait(&self, me: bool) {
        let mut s = self.at.lock().unwrap();
        while self.turn(&s) != me {
            s = self.moved.wait(s).unwrap();
        }
    }
    fn pass(&self, me: bool) {
        self.at.lock().unwrap().0 += 1;
        self.moved.notify_all();
        self.wait(me);
    }
    fn finish(&self, me: bool) {
        let mut s = self.at.lock().unwrap();
        s.0 += 1;
        s.1[me as usize] = true;
        drop(s);
        self.moved.notify_all();
    }
}

/// The `i`-th order of `n` steps of each of two programs.
fn interleaving(n: usize, mut i: u64) -> Vec<bool> {
    let binom = |n: u64, k: u64| (0..k).fold(1u64, |r, j| r * (n - j) / (j + 1));
    let (mut a, mut b) = (n as u64, n as u64);
    let mut v = vec![];
    while a + b > 0 {
        let first = if a == 0 { 0 } else { binom(a + b - 1, b) };
        if i < first {
            v.push(false);
            a -= 1;
        } else {
            i -= first;
            v.push(true);
            b -= 1;
        }
    }
    v
}

pub fn run(e: &mut Engine) {
    e.level = "model_checking";
    e.rule = "a case is one history of whole operations on several archives, one operation carried out within another, or one interleaving of two programs; each step is judged by the reference codec, not by comparison with another run".into();
    e.assumptions.push("two programs are interleaved at reads and writes of the archive and between calls, and preempted once at each allocation inside calls; data races below that are not explored (the library has no unsafe code and no shared state of its own)".into());
    let thorough = !e.quick();
    let all = archives();
    let n = all.len() as u64;
    let steps = n * OPS as u64;
    let some: Vec<usize> = if thorough { (0..all.len()).collect() } else { vec![0, 1, 3, 7, 9, 10, 12, 13, 14, 16] };
    let m = some.len() as u64;
    // histories of three whole operations
    e.phase("histories", (m * OPS as u64).pow(3), |i, c| {
        let mut x = Dec(i);
        let mut done = vec![];
        for _ in 0..3 {
            let (a, w) = (*x.of(&some), x.pick(OPS as u64));
            done.push((a, w));
            op(&all[a], w).map_err(|v| Violation::from(format!("after {done:?}: {}", v.msg)))?;
            c.add("transitions", 1);
        }
        // and the first archive again
        op(&all[done[0].0], 0).map_err(|v| Violation::from(format!("after {done:?} the first archive again: {}", v.msg)))?;
        c.add("transitions", 1);
        c.add("traces_validated_against_impl", 1);
        c.seen("history", &i);
        c.sample(|| format!("{done:?}"));
        Ok(())
    });
    // one operation within another, at each of its reads and writes
    let pieces = if thorough { 12 } else { 5 };
    e.phase("nested", n * steps, |i, c| {
        let mut x = Dec(i);
        let a = x.of(&all);
        let (b, w) = (x.pick(n), x.pick(OPS as u64));
        for at in 0..2 * pieces + 2 {
            let met = std::cell::Cell::new(0);
            let inner: std::cell::RefCell<Res> = std::cell::RefCell::new(Ok(()));
            program(a, pieces, &|| {
                if met.get() == at {
                    *inner.borrow_mut() = outside(|| op(&all[b], w));
                }
                met.set(met.get() + 1);
            })
            .and(inner.into_inner())
            .map_err(|v| Violation::from(format!("operation {w} on {:?} within step {at} of a program on {:?}: {}", all[b].name, a.name, v.msg)))?;
            if at >= met.get() {
                break;
            }
            c.add("transitions", 1);
            c.add("traces_validated_against_impl", 1);
            c.seen("nested", &(i, at));
        }
        Ok(())
    });
    // two programs on two threads, in every order of their steps
    let pieces = 2;
    let parts = if thorough { 7 } else { 6 };
    let count = (0..parts as u64).fold(1u64, |r, j| r * (2 * parts as u64 - j) / (j + 1));
    let reached: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    e.phase("interleavings", m * m * count, |i, c| {
        let mut x = Dec(i);
        let pair = [&all[*x.of(&some)], &all[*x.of(&some)]];
        let order = interleaving(parts, x.0);
        let baton = Baton { at: Mutex::new((0, [false; 2])), moved: Condvar::new(), order: order.clone() };
        let steps = Mutex::new(vec![]);
        let r: [Res; 2] = std::thread::scope(|s| {
            let go = |me: bool| {
                let (baton, steps) = (&baton, &steps);
                let a = pair[me as usize];
                move || {
                    baton.wait(me);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        program(a, pieces, &|| {
                            outside(|| steps.lock().unwrap().push(me));
                            baton.pass(me)
                        })
                    }));
                    steps.lock().unwrap().push(me);
                    baton.finish(me);
                    r.unwrap_or_else(|_| Err("the program was cut short".into()))
                }
            };
            let (a, b) = (s.spawn(go(false)), s.spawn(go(true)));
            [a.join().unwrap(), b.join().unwrap()]
        });
        for r in r {
            r.map_err(|v| Violation::from(format!("{:?} and {:?} in the order {order:?}: {}", pair[0].name, pair[1].name, v.msg)))?;
        }
        let steps = steps.into_inner().unwrap();
        c.add("schedules", 1);
        c.add("transitions", steps.len() as u64);
        c.add("traces_validated_against_impl", 1);
        // the states passed: how far each of the two programs is
        let mut at = [0u8; 2];
        let mut new = vec![];
        for s in &steps {
            at[*s as usize] += 1;
            new.push(h64(&(pair[0].name, pair[1].name, at)));
        }
        reached.lock().unwrap().extend(new);
        c.seen("interleaving", &(i, steps));
        c.sample(|| format!("{:?} and {:?}: {order:?}", pair[0].name, pair[1].name));
        Ok(())
    });
    // one preemption: at each allocation of a program, another thread carries out an operation
    let points: Vec<u64> = all.iter().map(|a| preempted(u64::MAX, &|| {}, || program(a, 1, &|| {})).1).collect();
    let mut pairs: Vec<(usize, usize, usize)> = vec![];
    for a in 0..all.len() {
        for b in 0..all.len() {
            for w in 0..OPS {
                let near = a == b || a == 0 || b == 0 || a == all.len() - 3;
                if thorough || (near && [0, 3].contains(&w) && matches!(all[a].cfg.kdf, Kdf::Aes { .. }) && matches!(all[b].cfg.kdf, Kdf::Aes { .. })) {
                    pairs.push((a, b, w));
                }
            }
        }
    }
    let stride = if thorough { 1 } else { 2 };
    let starts: Vec<u64> = pairs.iter().scan(0, |at, p| { let s = *at; *at += points[p.0].div_ceil(stride); Some(s) }).collect();
    let total = starts.last().map_or(0, |s| s + points[pairs[pairs.len() - 1].0].div_ceil(stride));
    let late = std::sync::atomic::AtomicU64::new(0);
    e.phase("preemptions", total, |i, c| {
        use std::sync::atomic::Ordering;
        let k = starts.partition_point(|s| *s <= i) - 1;
        let (a, b, w) = (&all[pairs[k].0], &all[pairs[k].1], pairs[k].2);
        // in the quick tier the even points of one pair and the odd ones of the next
        let at = (i - starts[k]) * stride + k as u64 % stride;
        let go = (Mutex::new((false, false)), Condvar::new());
        let (r, other) = std::thread::scope(|s| {
            let go = &go;
            let t = s.spawn(move || {
                let mut g = go.0.lock().unwrap();
                while !g.0 {
                    g = go.1.wait(g).unwrap();
                }
                drop(g);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| op(b, w)));
                go.0.lock().unwrap().1 = true;
                go.1.notify_all();
                r.unwrap_or_else(|_| Err("the operation was cut short".into()))
            });
            let (r, _) = preempted(at, &|| {
                let mut g = go.0.lock().unwrap();
                g.0 = true;
                go.1.notify_all();
                // a thread that waits for something the preempted one holds cannot go on: switch back
                let patience = if late.load(Ordering::Relaxed) < 32 { 500 } else { 2 };
                let end = std::time::Instant::now() + std::time::Duration::from_millis(patience);
                while !g.1 {
                    let left = end.saturating_duration_since(std::time::Instant::now());
                    if left.is_zero() {
                        late.fetch_add(1, Ordering::Relaxed);
                        break;
                    }
                    g = go.1.wait_timeout(g, left).unwrap().0;
                }
            }, || program(a, 1, &|| {}));
            go.0.lock().unwrap().0 = true;
            go.1.notify_all();
            (r, t.join().unwrap())
        });
        r.and(other).map_err(|v| Violation::from(format!("operation {w} on {:?} by another thread at allocation {at} of a program on {:?}: {}", b.name, a.name, v.msg)))?;
        c.add("schedules", 1);
        c.add("transitions", 3);
        c.add("traces_validated_against_impl", 1);
        c.seen("preemption", &i);
        c.sample(|| format!("operation {w} on {:?} at allocation {at} of {:?}", b.name, a.name));
        Ok(())
    });
    e.count("states", reached.into_inner().unwrap().len() as u64);
}
