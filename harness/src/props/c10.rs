//! No size boundary loses, adds or corrupts data.

use crate::engine::*;
use crate::ensure;
use crate::layouts::*;
use crate::lib_io::*;
use crate::model::*;
use crate::refcodec::*;
use crate::refxml::*;

/// Text of a given length; incompressible text keeps compressed sizes close to it.
fn filler(n: usize, dense: bool) -> String {
    if !dense {
        return "x".repeat(n);
    }
    let mut s = 0x9e37_79b9_7f4a_7c15u64;
    (0..n).map(|_| {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        char::from(33 + (s >> 40) as u8 % 5 * 17 + (s >> 50) as u8 % 17)
    }).map(|c| if c == '<' || c == '&' || c == '>' { 'o' } else { c }).collect()
}

fn put(kind: usize, text: String) -> MDb {
    let mut d = small();
    match kind {
        0 => d.root.entries[0].fields[0].value = text,
        1 => {
            d.root.entries[0].fields[0].value = text;
            d.root.entries[0].fields[0].prot = true;
        }
        2 => d.name = text,
        3 => d.root.name = text,
        4 => d.custom.push(f("k", &text, false)),
        _ => {
            let mut h = d.root.entries[0].clone();
            h.fields[0].value = text;
            d.root.entries[0].history.push(h);
        }
    }
    d
}

/// Saves, decodes independently, reopens; returns the payload length before encryption.
fn cycle(d: &MDb, cfg: &Cfg, what: &dyn Fn() -> String) -> V<(usize, usize)> {
    let k = archive(d, cfg)??;
    let b = match save(&k)? {
        Ok(b) => b,
        Err(e) => return Err(format!("{}: cannot be saved: {e}", what()).into()),
    };
    let x = match decode(&b, &cfg.cred) {
        Ok(x) => x,
        Err(e) => return Err(format!("{}: the saved file is not valid: {e}", what()).into()),
    };
    match x.db() {
        Err(e) => return Err(format!("{}: the stored document is not valid: {e}", what()).into()),
        Ok(got) => ensure!(&got == d, "{}: stored content differs", what()),
    }
    let k2 = expect_db(&b, &cfg.cred, d, &what())?;
    ensure!(k2.raw_xml() == Some(x.xml.as_slice()), "{}: the document read back differs from the stored one", what());
    Ok((x.payload_len, x.blocks.len()))
}

pub fn run(e: &mut Engine) {
    e.rule = "a case is one payload size under one configuration; all are non-trivial".into();
    let thorough = !e.quick();
    let cfgs: Vec<Cfg> = CIPHERS.iter().flat_map(|c| [Comp::None, Comp::Gzip(6, 0)].map(|z| Cfg::new(*c, z, aeskdf(1), if *c == Ciph::Aes { Inner::Chacha } else { Inner::Salsa }))).collect();
    // every size near zero, in each kind of place
    let n = if thorough { 4200 } else { 1100 };
    e.phase("small-sizes", n * 6 * cfgs.len() as u64, |i, c| {
        let mut x = Dec(i);
        let cfg = x.of(&cfgs);
        let kind = x.pick(6);
        let len = x.0 as usize;
        if !thorough && len > 140 && cfg.cipher == Ciph::Twofish {
            return Ok(());
        }
        let d = put(kind, filler(len, cfg.comp != Comp::None));
        let (p, _) = cycle(&d, cfg, &|| format!("{:?} {:?}, {len} characters in place {kind}", cfg.cipher, cfg.comp))?;
        c.seen(if p % 16 == 0 { "block aligned" } else { "unaligned" }, &(i, p));
        c.sample(|| format!("{:?} {:?} {len} characters, payload of {p} bytes", cfg.cipher, cfg.comp));
        Ok(())
    });
    // payload sizes around full authenticated blocks
    for (j, cfg) in cfgs.iter().enumerate() {
        let slow = cfg.cipher == Ciph::Twofish;
        let gz = cfg.comp != Comp::None;
        let window: usize = if thorough { 100 } else if slow { 5 } else if gz { 20 } else { 40 };
        let last = match (thorough, slow, gz) {
            (true, false, false) => 5,
            (true, _, _) => 2,
            (false, false, false) => 3,
            (false, false, true) => 1,
            (false, true, _) => 1,
        };
        if slow && gz && !thorough {
            continue;
        }
        let targets: Vec<usize> = (1..=last).map(|k| k << 20).collect();
        let empty = match cycle(&put(0, String::new()), cfg, &|| "empty value".into()) {
            Ok((p, _)) => p,
            Err(v) => {
                e.phase(&format!("sizes.{j}"), 1, |_, _| Err(Violation { msg: v.msg.clone(), key: v.key.clone() }));
                return;
            }
        };
        let per = window as u64 * 2 + 1;
        e.phase(&format!("block-sizes.{j}"), targets.len() as u64 * per, |i, c| {
            let mut x = Dec(i);
            let t = *x.of(&targets);
            let off = x.0 as usize;
            let len = if cfg.comp == Comp::None {
                t - empty + off - window
            } else {
                // how much text gives a compressed payload of about the target: measured by bisection with the reference compressor
                target_length(t, cfg) + off - window
            };
            let d = put(0, filler(len, cfg.comp != Comp::None));
            let (p, blocks) = cycle(&d, cfg, &|| format!("{:?} {:?}, {len} characters", cfg.cipher, cfg.comp))?;
            c.seen(match (p % (1 << 20), blocks) {
                (0, _) => "exactly full",
                (r, _) if r <= 64 => "just over",
                (r, _) if r >= (1 << 20) - 64 => "just under",
                _ => "near",
            }, &(j, p));
            Ok(())
        });
    }
    // powers of two up to megabytes
    let top = if thorough { 24 } else { 22 };
    e.phase("powers", (top + 1) * 5 * 4, |i, c| {
        let mut x = Dec(i);
        let k = x.pick(top + 1);
        let len = (1usize << k) + x.pick(5);
        let cfg = &[&cfgs[0], &cfgs[1], &cfgs[4], &cfgs[5]][x.pick(4)];
        if !thorough && k > 20 && len % 2 == 1 {
            return Ok(());
        }
        let len = len.saturating_sub(2);
        let d = put((k % 6) as usize, filler(len, k % 2 == 0));
        cycle(&d, cfg, &|| format!("{len} characters"))?;
        c.seen("same", &i);
        Ok(())
    });
    // many small things instead of one large
    let counts: Vec<usize> = vec![0, 1, 2, 10, 100, 255, 256, 257, 1000, 5000];
    e.phase("many", counts.len() as u64 * 4 * 4, |i, c| {
        let mut x = Dec(i);
        let n = *x.of(&counts);
        let cfg = &[&cfgs[0], &cfgs[1], &cfgs[4], &cfgs[5]][x.pick(4)];
        let mut d = small();
        match x.pick(4) {
            0 => d.root.entries.extend((0..n).map(|k| mentry(1000 + k as u128, vec![f("a", &format!("v{k}"), k % 3 == 0)]))),
            1 => d.root.entries[0].fields.extend((0..n).map(|k| f(&format!("k{k}"), "v", k % 2 == 0))),
            2 => d.root.groups.extend((0..n).map(|k| mgroup(1000 + k as u128, "g"))),
            _ => d.custom.extend((0..n).map(|k| f(&format!("k{k}"), "v", false))),
        }
        cycle(&d, cfg, &|| format!("{n} items"))?;
        c.seen("same", &i);
        Ok(())
    });
    // attachments of any size pass through
    let mut sizes: Vec<usize> = (0..=if thorough { 600 } else { 130 }).collect();
    for k in 1..=3usize {
        sizes.extend(((k << 20) - 140)..=((k << 20) - 60));
        sizes.push(k << 20);
    }
    for k in 21..=24 {
        sizes.extend([(1usize << k) - 4, (1 << k) - 1, 1 << k, (1 << k) + 4]);
    }
    e.phase("attachments", sizes.len() as u64 * 4, |i, c| {
        let mut x = Dec(i);
        let n = *x.of(&sizes);
        let cfg = &[&cfgs[0], &cfgs[1], &cfgs[4], &cfgs[5]][x.pick(4)];
        if !thorough && n > 1000 && (n % 4 != 0 || i / sizes.len() as u64 % 2 == 1) {
            return Ok(());
        }
        let d = small();
        let mut l = Layout4::of(cfg);
        l.inner.push((3, bytes(n, 1)));
        let b = encode4(cfg, &l, &cfg.xml4(&d));
        let k = expect_db(&b, &cfg.cred, &d, &format!("attachment of {n} bytes"))?;
        let b2 = save(&k)??;
        match decode(&b2, &cfg.cred) {
            Err(e) => return Err(format!("attachment of {n} bytes: the saved file is not valid: {e}").into()),
            Ok(x) => {
                ensure!(x.inner_fields.contains(&(3, bytes(n, 1))), "attachment of {n} bytes is not saved as it was read");
                ensure!(x.db().as_ref() == Ok(&d), "attachment of {n} bytes: content differs");
            }
        }
        expect_db(&b2, &cfg.cred, &d, &format!("attachment of {n} bytes, saved"))?;
        c.seen("same", &i);
        Ok(())
    });
    // reading: sizes of the stored payload from the other side
    let c3 = cfgs3();
    e.phase("read-sizes", if thorough { 4000 } else { 900 } * 6, |i, c| {
        let mut x = Dec(i);
        let which = x.pick(6);
        let len = x.0 as usize;
        let d = put(len % 3, filler(len, which % 2 == 1));
        let (b, cred) = match which {
            0..=2 => (file4(&some_cfgs()[[0, 2, 3][which]], &d), Cred::pw("kdbxrs")),
            _ => {
                let cfg = &c3[[0, 2, 8][which - 3]];
                (file3(cfg, &d), cfg.cred.clone())
            }
        };
        expect_db(&b, &cred, &d, &format!("file of {} bytes", b.len()))?;
        c.seen("same", &i);
        Ok(())
    });
    let windows: Vec<usize> = [1usize << 16, 1 << 20, 2 << 20].iter().flat_map(|t| (t - 1700..t + 40).step_by(if thorough { 1 } else { 29 })).collect();
    e.phase("read-large", windows.len() as u64 * 4, |i, c| {
        let mut x = Dec(i);
        let which = x.pick(4);
        let len = *x.of(&windows);
        let d = put(0, filler(len, false));
        let (b, cred) = match which {
            0 => (file4(&some_cfgs()[0], &d), Cred::pw("kdbxrs")),
            1 => (file4(&some_cfgs()[3], &d), Cred::pw("kdbxrs")),
            2 => (file3(&c3[0], &d), c3[0].cred.clone()),
            _ => {
                // the block size other programs use for KDBX 3.1
                let cfg = &c3[8];
                let l = Layout3 { cuts: vec![1 << 20; 4], ..Layout3::of(cfg) };
                (encode3(cfg, &l, &xml3(cfg, &l, &d, true)), cfg.cred.clone())
            }
        };
        expect_db(&b, &cred, &d, &format!("file of {} bytes", b.len()))?;
        c.seen("same", &i);
        Ok(())
    });
}

fn target_length(t: usize, cfg: &Cfg) -> usize {
    use std::sync::Mutex;
    static KNOWN: Mutex<Vec<(usize, usize)>> = Mutex::new(vec![]);
    let mut known = KNOWN.lock().unwrap();
    if let Some(x) = known.iter().find(|x| x.0 == t) {
        return x.1;
    }
    let size = |n: usize| {
        let d = put(0, filler(n, true));
        // what the library's own compressor makes of it
        archive(&d, cfg).ok().and_then(|k| k.ok()).and_then(|k| save(&k).ok()).and_then(|b| b.ok()).and_then(|b| decode(&b, &cfg.cred).ok()).map_or(usize::MAX, |x| x.payload_len)
    };
    let (mut lo, mut hi) = (t, 2 * t);
    while lo + 1 < hi {
        let mid = (lo + hi) / 2;
        if size(mid) < t {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    known.push((t, hi));
    hi
}
