//! A save that reports success delivered the whole archive.

use crate::engine::*;
use crate::layouts::*;
use crate::lib_io::*;
use crate::model::*;
use crate::refcodec::*;
use crate::refxml::*;
use crate::{bail, ensure};
use kdbx_rs::binary::{Cipher, CompressionType, InnerStreamCipherAlgorithm, KdfParams, Unlocked};
use kdbx_rs::Kdbx;
use std::error::Error;
use std::io::{self, Write};

const MARK: &str = "injected sink failure";

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Fault {
    Err(io::ErrorKind),
    /// accepts nothing
    Zero,
    /// accepts everything up to the fault, then reports an interruption once
    Interrupted,
}
const FAULTS: [Fault; 8] = [
    Fault::Err(io::ErrorKind::Other),
    Fault::Err(io::ErrorKind::BrokenPipe),
    Fault::Err(io::ErrorKind::PermissionDenied),
    Fault::Err(io::ErrorKind::WouldBlock),
    Fault::Err(io::ErrorKind::TimedOut),
    Fault::Err(io::ErrorKind::InvalidInput),
    Fault::Zero,
    Fault::Interrupted,
];

/// A scripted destination.
#[derive(Default)]
struct Sink {
    got: Vec<u8>,
    chunk: Option<usize>,
    /// fault once this many bytes were accepted
    at_byte: Option<(usize, Fault)>,
    /// fault at this write call
    at_call: Option<(usize, Fault)>,
    /// fault at this flush call
    at_flush: Option<(usize, Fault)>,
    calls: usize,
    flushes: usize,
    faults: usize,
    interrupted: bool,
    /// the fault passes: the calls after it succeed
    once: bool,
    /// bytes accepted when the last successful flush happened
    flushed: Option<usize>,
}
impl Sink {
    fn fire(&mut self, f: Fault) -> Option<io::Result<usize>> {
        if self.once && self.faults > 0 {
            return None;
        }
        match f {
            Fault::Err(k) => {
                self.faults += 1;
                Some(Err(io::Error::new(k, MARK)))
            }
            Fault::Zero => {
                self.faults += 1;
                Some(Ok(0))
            }
            Fault::Interrupted => {
                if self.interrupted {
                    None
                } else {
                    self.interrupted = true;
                    Some(Err(io::Error::from(io::ErrorKind::Interrupted)))
                }
            }
        }
    }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        self.calls += 1;
        if let Some((n, f)) = self.at_call {
            if self.calls - 1 >= n {
                if let Some(r) = self.fire(f) {
                    return r;
                }
            }
        }
        let mut n = b.len().min(self.chunk.unwrap_or(usize::MAX));
        if let Some((p, f)) = self.at_byte {
            if self.got.len() >= p {
                if let Some(r) = self.fire(f) {
                    return r;
                }
            } else {
                n = n.min(p - self.got.len());
            }
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        if let Some((n, f)) = self.at_flush {
            if self.flushes - 1 >= n {
                if let Some(r) = self.fire(f) {
                    return r.map(|_| ());
                }
            }
        }
        self.flushed = Some(self.got.len());
        Ok(())
    }
}

fn has_mark(e: &(dyn Error + 'static)) -> bool {
    let mut s: Option<&(dyn Error + 'static)> = Some(e);
    while let Some(x) = s {
        if x.to_string().contains(MARK) || format!("{x:?}").contains(MARK) {
            return true;
        }
        s = x.source();
    }
    false
}

fn ends(v: &[usize], total: usize) -> Vec<usize> {
    let mut o: Vec<usize> = v.iter().flat_map(|p| p.saturating_sub(3)..=p + 3).filter(|p| *p <= total).collect();
    o.sort_unstable();
    o.dedup();
    o
}

/// Judges one write through a scripted sink. `complete` decides whether what arrived is a whole archive.
fn judge<E: Error + 'static>(r: Result<(), E>, s: &Sink, what: &dyn Fn() -> String, complete: &dyn Fn(&[u8]) -> Result<(), String>) -> V<&'static str> {
    match r {
        Ok(()) => {
            ensure!(s.faults == 0, "{}: reports success although the destination failed", what());
            if let Err(e) = complete(&s.got) {
                bail!("{}: reports success, but what was written is not complete: {e}", what());
            }
            ensure!(s.flushed == Some(s.got.len()), "{}: reports success without flushing after the last byte (flushed at {:?} of {})", what(), s.flushed, s.got.len());
            Ok("complete")
        }
        Err(e) => {
            ensure!(s.faults > 0 || s.interrupted, "{}: fails although the destination accepts everything: {e}", what());
            let zero = s.at_byte.or(s.at_call).or(s.at_flush).map(|x| x.1) == Some(Fault::Zero);
            ensure!(has_mark(&e) || zero || s.interrupted, "{}: the destination's failure is reported as {e:?}", what());
            Ok(if s.faults > 0 { "failure reported" } else { "interruption reported" })
        }
    }
}

/// Unusable settings, keys and contents; each with a way to spoil an archive that could otherwise be saved.
fn spoilers() -> Vec<(&'static str, fn(&mut Kdbx<Unlocked>))> {
    use uuid::Uuid;
    vec![
        ("unknown cipher", |k| k.header_mut().cipher = Cipher::Unknown(Uuid::from_u128(7))),
        ("AES-128", |k| k.header_mut().cipher = Cipher::Aes128),
        ("unknown compression", |k| k.header_mut().compression_type = CompressionType::Unknown(2)),
        ("unknown key derivation", |k| k.header_mut().kdf_params = KdfParams::Unknown { uuid: Uuid::from_u128(9), params: Default::default() }),
        ("empty IV", |k| k.header_mut().encryption_iv = vec![]),
        ("short IV", |k| {
            k.header_mut().encryption_iv.pop();
        }),
        ("long IV", |k| k.header_mut().encryption_iv.push(1)),
        ("IV of 8 bytes", |k| k.header_mut().encryption_iv = vec![1; 8]),
        ("unknown inner stream", |k| k.inner_header_mut().inner_stream_cipher = InnerStreamCipherAlgorithm::Unknown(9)),
        ("ArcFour inner stream", |k| k.inner_header_mut().inner_stream_cipher = InnerStreamCipherAlgorithm::ArcFour),
        ("no Argon2 memory", |k| k.header_mut().kdf_params = KdfParams::Argon2 { variant: argon2::Variant::Argon2d, memory_bytes: 0, version: 0x13, iterations: 1, lanes: 1, salt: vec![1; 32] }),
        ("short Argon2 salt", |k| k.header_mut().kdf_params = KdfParams::Argon2 { variant: argon2::Variant::Argon2d, memory_bytes: 8192, version: 0x13, iterations: 1, lanes: 1, salt: vec![1; 3] }),
        ("no Argon2 passes", |k| k.header_mut().kdf_params = KdfParams::Argon2 { variant: argon2::Variant::Argon2id, memory_bytes: 8192, version: 0x13, iterations: 0, lanes: 1, salt: vec![1; 32] }),
        ("no Argon2 lanes", |k| k.header_mut().kdf_params = KdfParams::Argon2 { variant: argon2::Variant::Argon2id, memory_bytes: 8192, version: 0x13, iterations: 1, lanes: 0, salt: vec![1; 32] }),
        ("bad Argon2 version", |k| k.header_mut().kdf_params = KdfParams::Argon2 { variant: argon2::Variant::Argon2id, memory_bytes: 8192, version: 0x14, iterations: 1, lanes: 1, salt: vec![1; 32] }),
        ("Argon2i", |k| k.header_mut().kdf_params = KdfParams::Argon2 { variant: argon2::Variant::Argon2i, memory_bytes: 8192, version: 0x13, iterations: 1, lanes: 1, salt: vec![1; 32] }),
        ("short AES seed", |k| k.header_mut().kdf_params = KdfParams::Aes { rounds: 1, salt: vec![1; 31] }),
        ("control character in the name", |k| k.database_mut().set_name("a\u{1}b")),
        ("noncharacter in the description", |k| k.database_mut().set_description("\u{ffff}")),
        ("control character in the root name", |k| k.database_mut().root_mut().set_name("\u{0}")),
        ("control character in the last field", |k| {
            let mut e = kdbx_rs::database::Entry::default();
            e.set_title("fine");
            e.set_username("\u{b}");
            k.database_mut().root_mut().add_entry(e);
        }),
        ("control character in a history", |k| {
            let mut e = kdbx_rs::database::Entry::default();
            e.set_title("\u{1f}");
            e.new_version();
            e.set_title("fine");
            k.database_mut().root_mut().add_entry(e);
        }),
        ("control character in a field name", |k| {
            let mut e = kdbx_rs::database::Entry::default();
            e.add_field(kdbx_rs::database::Field::new("\u{2}", "v"));
            k.database_mut().root_mut().add_entry(e);
        }),
        ("empty field name", |k| {
            let mut e = kdbx_rs::database::Entry::default();
            e.add_field(kdbx_rs::database::Field::new("", "v"));
            k.database_mut().root_mut().add_entry(e);
        }),
        ("control character in custom data", |k| k.database_mut().meta_mut().custom_data.push(kdbx_rs::database::Field::new("k", "\u{3}"))),
        ("nesting", |k| {
            let mut g = kdbx_rs::database::Group::new("deepest");
            for _ in 0..2000 {
                let mut p = kdbx_rs::database::Group::new("g");
                p.add_group(g);
                g = p;
            }
            k.database_mut().root_mut().add_group(g);
        }),
    ]
}

pub fn run(e: &mut Engine) {
    e.rule = "a case is one save into one scripted destination; all are non-trivial".into();
    e.assumptions.push("an interruption may be retried or reported; an empty write is no event".into());
    let thorough = !e.quick();
    let d = small();
    let cfgs = some_cfgs();
    let make = |cfg: &Cfg, d: &MDb| -> V<Kdbx<Unlocked>> { Ok(archive(d, cfg)??) };
    let whole = |cfg: &Cfg, d: &MDb, b: &[u8]| -> Result<(), String> {
        let x = decode(b, &cfg.cred)?;
        let got = x.db()?;
        if &got == d {
            Ok(())
        } else {
            Err(diff(d, &got))
        }
    };
    let write = |k: &Kdbx<Unlocked>, s: &mut Sink| api("write", || k.write(s));

    // ---- destination that behaves, in all write sizes ----
    let sizes: Vec<usize> = (1..=if thorough { 4000 } else { 2000 }).collect();
    e.phase("short-writes", cfgs.len() as u64 * sizes.len() as u64, |i, c| {
        let mut x = Dec(i);
        let cfg = x.of(&cfgs);
        let n = *x.of(&sizes);
        let k = make(cfg, &d)?;
        let mut s = Sink { chunk: Some(n), ..Sink::default() };
        let r = write(&k, &mut s)?;
        let o = judge(r, &s, &|| format!("writes of {n} bytes"), &|b| whole(cfg, &d, b))?;
        c.seen(o, &i);
        c.sample(|| format!("{:?} in writes of {n} bytes", cfg.cipher));
        Ok(())
    });
    // ---- faults at every byte, every call, every flush ----
    let lens: Vec<usize> = cfgs.iter().map(|cfg| make(cfg, &d).ok().and_then(|k| save(&k).ok()).and_then(|b| b.ok()).map_or(0, |b| b.len())).collect();
    for (j, cfg) in cfgs.iter().enumerate() {
        let n = lens[j] as u64;
        e.phase(&format!("byte-faults.{j}"), (n + 2) * FAULTS.len() as u64, |i, c| {
            let mut x = Dec(i);
            let f = *x.of(&FAULTS);
            let p = x.0 as usize;
            let k = make(cfg, &d)?;
            let before = format!("{:?}", k.header());
            for (chunk, once) in [(None, false), (Some(1), false), (None, true), (Some(1), true)] {
                // whether an empty write is final is for the destination to know
                if once && f == Fault::Zero {
                    continue;
                }
                let mut s = Sink { at_byte: Some((p, f)), chunk, once, ..Sink::default() };
                let r = write(&k, &mut s)?;
                if f != Fault::Interrupted && r.is_ok() {
                    ensure!(p >= lens[j] || s.faults == 0 && s.got.len() <= p, "fault {f:?} at byte {p} of {n} not reported");
                }
                let o = judge(r, &s, &|| format!("{f:?} at byte {p}"), &|b| whole(cfg, &d, b))?;
                c.seen(o, &(j, i, chunk, once));
            }
            // nothing changed, and the next save succeeds
            ensure!(observe(k.database()) == d && format!("{:?}", k.header()) == before, "{f:?} at byte {p}: the failed save changed the archive in memory");
            let mut s = Sink::default();
            let r = write(&k, &mut s)?;
            judge(r, &s, &|| format!("save after {f:?} at byte {p}"), &|b| whole(cfg, &d, b))?;
            Ok(())
        });
        e.phase(&format!("call-faults.{j}"), 80 * FAULTS.len() as u64 * 6, |i, c| {
            let mut x = Dec(i);
            let f = *x.of(&FAULTS);
            let chunk = *x.of(&[None, Some(64), Some(1000)]);
            let once = x.pick(2) == 1 && f != Fault::Zero;
            let call = x.0 as usize;
            let k = make(cfg, &d)?;
            let mut s = Sink { at_call: Some((call, f)), chunk, once, ..Sink::default() };
            let r = write(&k, &mut s)?;
            let o = judge(r, &s, &|| format!("{f:?} at write call {call}"), &|b| whole(cfg, &d, b))?;
            c.seen(o, &(j, i));
            Ok(())
        });
        e.phase(&format!("flush-faults.{j}"), 6 * FAULTS.len() as u64 * 6, |i, c| {
            let mut x = Dec(i);
            let f = *x.of(&FAULTS);
            if f == Fault::Zero {
                return Ok(());
            }
            let n = x.pick(6);
            let k = make(cfg, &d)?;
            let mut s = Sink { at_flush: Some((n, f)), chunk: *x.of(&[None, Some(1), Some(100)]), once: x.pick(2) == 1, ..Sink::default() };
            let r = write(&k, &mut s)?;
            if let (true, Ok(())) = (n == 0 && f != Fault::Interrupted, &r) {
                bail!("{f:?} at the first flush not reported ({} flushes)", s.flushes);
            }
            let o = judge(r, &s, &|| format!("{f:?} at flush {n}"), &|b| whole(cfg, &d, b))?;
            c.seen(o, &(j, i));
            let mut s = Sink::default();
            let r = write(&k, &mut s)?;
            judge(r, &s, &|| format!("save after {f:?} at flush {n}"), &|b| whole(cfg, &d, b))?;
            Ok(())
        });
    }
    // ---- large archives: several blocks ----
    let mut big = small();
    // incompressible, so that compression leaves several blocks as well
    let noise = b64(&(0..1_700_000u32).map(|i| (i.wrapping_mul(2_654_435_761) >> 13) as u8 ^ (i >> 7) as u8).collect::<Vec<u8>>());
    big.root.entries[0].fields[0].value = noise;
    let bigcfg = [Cfg::new(Ciph::Aes, Comp::None, aeskdf(1), Inner::Chacha), Cfg::new(Ciph::Chacha, Comp::Gzip(1, 0), aeskdf(1), Inner::Salsa)];
    for (j, cfg) in bigcfg.iter().enumerate() {
        let saved = make(cfg, &big).and_then(|k| save(&k));
        let total = match &saved {
            Ok(Ok(b)) => b.len(),
            _ => 0,
        };
        e.phase(&format!("large-complete.{j}"), 1, |i, c| {
            let k = make(cfg, &big)?;
            let mut s = Sink::default();
            let r = write(&k, &mut s)?;
            judge(r, &s, &|| "large archive".into(), &|b| whole(cfg, &big, b))?;
            c.seen("complete", &(j, i));
            Ok(())
        });
        let block = 1 << 20;
        let grid: Vec<usize> = (0..=total / 65536).map(|k| k * 65536).chain((0..=total / block + 1).flat_map(|k| [k * block, k * block + 36 * k, k * (block + 36) + 300])).chain([total]).collect();
        let pts = ends(&grid, total);
        e.phase(&format!("large-faults.{j}"), pts.len() as u64 * 2, |i, c| {
            let mut x = Dec(i);
            let f = *x.of(&[Fault::Err(io::ErrorKind::Other), Fault::Zero]);
            let p = *x.of(&pts);
            if !thorough && i / 2 % 4 != 0 && p + 8 < total {
                return Ok(());
            }
            let k = make(cfg, &big)?;
            let mut s = Sink { at_byte: Some((p, f)), ..Sink::default() };
            let r = write(&k, &mut s)?;
            let o = judge(r, &s, &|| format!("{f:?} at byte {p} of {total}"), &|b| whole(cfg, &big, b))?;
            c.seen(o, &(j, i));
            Ok(())
        });
    }
    // ---- unusable settings, keys and contents: nothing at all is written ----
    let sp = spoilers();
    let mut databases = vec![small(), rich()];
    let mut wide = small();
    // more than one block of content before anything can go wrong
    wide.root.entries[0].fields[0].value = "x".repeat(3 << 20);
    databases.push(wide);
    e.phase("spoiled", (sp.len() * cfgs.len() * databases.len() * 2) as u64, |i, c| {
        let mut x = Dec(i);
        let (name, spoil) = x.of(&sp);
        let cfg = x.of(&cfgs);
        let again = x.pick(2) == 1;
        let d = x.of(&databases);
        let mut k = make(cfg, d)?;
        if again {
            // an archive that was saved before
            save(&k)??;
        }
        let good_header = k.header().clone();
        let good_inner = (k.inner_header().inner_stream_cipher, k.inner_header().inner_stream_key.clone());
        spoil(&mut k);
        let spoiled = observe(k.database());
        let mut s = Sink::default();
        match write(&k, &mut s)? {
            Err(_) => {
                ensure!(s.got.is_empty(), "{name}: the save failed after writing {} bytes", s.got.len());
                c.seen("nothing written", &i);
            }
            Ok(()) => {
                // if it is accepted it has to be complete
                ensure!(decode(&s.got, &cfg.cred).is_ok_and(|x| x.db().as_ref() == Ok(&spoiled)), "{name}: reports success, but what was written is not the archive");
                c.seen("accepted", &i);
            }
        }
        ensure!(observe(k.database()) == spoiled, "{name}: the failed save changed the database");
        // repaired, the same archive can be saved
        *k.header_mut() = good_header;
        k.inner_header_mut().inner_stream_cipher = good_inner.0;
        k.inner_header_mut().inner_stream_key = good_inner.1;
        *k.database_mut() = build(d);
        let mut s = Sink::default();
        let r = write(&k, &mut s)?;
        judge(r, &s, &|| format!("save after {name} was repaired"), &|b| whole(cfg, d, b))?;
        Ok(())
    });
    e.phase("keys", cfgs.len() as u64 * 3, |i, c| {
        let mut x = Dec(i);
        let cfg = x.of(&cfgs);
        let kind = x.pick(3);
        let db = build(&d);
        let mut k = api("from_database", || Kdbx::from_database(db))?;
        configure(&mut k, cfg);
        if kind == 1 {
            // a key that could not be accepted
            let fine = k.header().kdf_params.clone();
            k.header_mut().kdf_params = KdfParams::Aes { rounds: 1, salt: vec![1; 5] };
            let r = api("set_key", || k.set_key(cfg.cred.lib()))?;
            ensure!(r.is_err(), "a key derivation with an unusable seed is accepted");
            k.header_mut().kdf_params = fine;
        }
        let mut s = Sink::default();
        let r = write(&k, &mut s)?;
        ensure!(r.is_err(), "without credentials a save reports success");
        ensure!(s.got.is_empty(), "without credentials {} bytes are written", s.got.len());
        ensure!(observe(k.database()) == d, "the failed save changed the database");
        if let Err(e) = api("set_key", || k.set_key(cfg.cred.lib()))? {
            bail!("set_key: {e}");
        }
        let mut s = Sink::default();
        let r = write(&k, &mut s)?;
        judge(r, &s, &|| "save after the key was set".into(), &|b| whole(cfg, &d, b))?;
        c.seen("nothing written", &i);
        Ok(())
    });
    // ---- opened archives, both versions: saving and refusing ----
    let c3 = cfgs3();
    e.phase("opened", 8 * 3, |i, c| {
        let mut x = Dec(i);
        let which = x.pick(8);
        let kind = x.pick(3);
        let (cfg, b) = if which < 4 { (&cfgs[which], file4(&cfgs[which], &d)) } else { (&c3[which - 4], file3(&c3[which - 4], &d)) };
        let k = load(&b, &cfg.cred)??;
        let mut s = Sink { chunk: [None, Some(1), Some(33)][kind], ..Sink::default() };
        match write(&k, &mut s)? {
            Err(err) => {
                ensure!(which >= 4, "an opened KDBX 4 archive cannot be saved: {err}");
                ensure!(s.got.is_empty(), "a refused KDBX 3.1 save wrote {} bytes", s.got.len());
                c.seen("nothing written", &i);
            }
            Ok(()) => {
                judge(Ok::<(), io::Error>(()), &s, &|| "opened archive".into(), &|b| whole(cfg, &d, b))?;
                c.seen("complete", &i);
            }
        }
        Ok(())
    });
    // ---- locked archives ----
    let locked: Vec<Vec<u8>> = vec![file4(&cfgs[0], &d), file4(&cfgs[1], &d), file3(&c3[0], &d)];
    for (j, b) in locked.iter().enumerate() {
        e.phase(&format!("locked-faults.{j}"), (b.len() as u64 + 2) * FAULTS.len() as u64, |i, c| {
            let mut x = Dec(i);
            let f = *x.of(&FAULTS);
            let p = x.0 as usize;
            let k = open(b)??;
            for (chunk, once) in [(None, false), (Some(1), false), (None, true), (Some(1), true)] {
                if once && f == Fault::Zero {
                    continue;
                }
                let mut s = Sink { at_byte: Some((p, f)), chunk, once, ..Sink::default() };
                let r = api("write", || k.write(&mut s))?;
                let o = judge(r, &s, &|| format!("locked archive, {f:?} at byte {p}"), &|got| if got == b { Ok(()) } else { Err(format!("{} of {} bytes", got.len(), b.len())) })?;
                c.seen(o, &(j, i, chunk, once));
            }
            for once in [false, true] {
                if p < 3 && f != Fault::Zero {
                    let mut s = Sink { at_flush: Some((p, f)), once, ..Sink::default() };
                    let r = api("write", || k.write(&mut s))?;
                    judge(r, &s, &|| format!("locked archive, {f:?} at flush {p}"), &|got| if got == b { Ok(()) } else { Err("cut off".into()) })?;
                }
                if p < 80 && f != Fault::Zero {
                    let mut s = Sink { at_call: Some((p, f)), once, ..Sink::default() };
                    let r = api("write", || k.write(&mut s))?;
                    judge(r, &s, &|| format!("locked archive, {f:?} at write call {p}"), &|got| if got == b { Ok(()) } else { Err("cut off".into()) })?;
                }
            }
            Ok(())
        });
    }
    // ---- the XML writer on its own ----
    let db = build(&rich());
    let key = bytes(64, 5);
    let stream = || InnerStreamCipherAlgorithm::Salsa20.stream_cipher(&key).expect("stream cipher");
    let mut doc = vec![];
    let _ = api("write_xml", || kdbx_rs::xml::write_xml(&mut doc, &db, stream().as_mut()));
    let n = doc.len() as u64;
    e.phase("xml-faults", (n + 2) * FAULTS.len() as u64 * 2, |i, c| {
        let mut x = Dec(i);
        let f = *x.of(&FAULTS);
        let once = x.pick(2) == 1 && f != Fault::Zero;
        let p = x.0 as usize;
        let mut s = Sink { at_byte: Some((p, f)), once, ..Sink::default() };
        let r = api("write_xml", || kdbx_rs::xml::write_xml(&mut s, &db, stream().as_mut()))?;
        match r {
            Ok(()) => {
                ensure!(s.faults == 0, "write_xml: {f:?} at byte {p} not reported");
                ensure!(s.got == doc, "write_xml: reports success with other content");
                c.seen("complete", &i);
            }
            Err(_) => {
                ensure!(s.faults > 0 || s.interrupted, "write_xml fails although the destination accepts everything");
                c.seen("failure reported", &i);
            }
        }
        Ok(())
    });
    e.phase("xml-flush-faults", 4 * FAULTS.len() as u64 * 2, |i, c| {
        let mut x = Dec(i);
        let f = *x.of(&FAULTS);
        let once = x.pick(2) == 1;
        let n = x.0 as usize;
        if f == Fault::Zero {
            return Ok(());
        }
        let mut s = Sink { at_flush: Some((n, f)), once, ..Sink::default() };
        let r = api("write_xml", || kdbx_rs::xml::write_xml(&mut s, &db, stream().as_mut()))?;
        if r.is_ok() {
            ensure!(s.faults == 0, "write_xml: {f:?} at flush {n} not reported");
            ensure!(s.got == doc, "write_xml: reports success with other content");
        }
        c.seen("judged", &i);
        Ok(())
    });
}
