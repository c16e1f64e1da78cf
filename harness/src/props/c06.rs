//! Altered archives never open as something else.

use crate::engine::*;
use crate::ensure;
use crate::layouts::*;
use crate::lib_io::*;
use crate::model::*;
use crate::refcodec::*;
use crate::refxml::Inner;

struct Base {
    name: &'static str,
    bytes: Vec<u8>,
    cred: Cred,
    db: MDb,
    /// the document as stored, the attachments as the library shows them when nothing is altered
    stored: (Vec<u8>, String),
    major: u16,
    header_len: usize,
    /// byte ranges of the authenticated blocks, terminator included (version 4)
    blocks: Vec<(usize, usize)>,
}

fn attachments(k: &kdbx_rs::Kdbx<kdbx_rs::binary::Unlocked>) -> String {
    format!("{:?}", k.inner_header().other_headers)
}
fn shown(b: &[u8], cred: &Cred) -> String {
    match load(b, cred) {
        Ok(Ok(k)) => attachments(&k),
        // reported by the first phase
        _ => String::new(),
    }
}

fn base4(name: &'static str, cfg: &Cfg, d: &MDb, cuts: Vec<usize>) -> Base {
    base4_with(name, cfg, d, cuts, vec![])
}
fn base4_with(name: &'static str, cfg: &Cfg, d: &MDb, cuts: Vec<usize>, attachments: Vec<Vec<u8>>) -> Base {
    base4_of(name, cfg, d, cfg.xml4(d), cuts, attachments)
}
fn base4_of(name: &'static str, cfg: &Cfg, d: &MDb, xml: Vec<u8>, cuts: Vec<usize>, attachments: Vec<Vec<u8>>) -> Base {
    let mut l = Layout4 { cuts, ..Layout4::of(cfg) };
    l.inner.extend(attachments.into_iter().map(|a| (3, a)));
    let bytes = encode4(cfg, &l, &xml);
    let header_len = header_bytes(4, l.minor, &l.fields, &l.end).len();
    let mut blocks = vec![];
    let mut p = header_len + 64;
    while p < bytes.len() {
        let n = u32::from_le_bytes(bytes[p + 32..p + 36].try_into().unwrap()) as usize;
        blocks.push((p, p + 36 + n));
        p += 36 + n;
    }
    let stored = shown(&bytes, &cfg.cred);
    Base { name, bytes, cred: cfg.cred.clone(), db: d.clone(), stored: (xml, stored), major: 4, header_len, blocks }
}
fn base3(name: &'static str, cfg: &Cfg, d: &MDb, cuts: Vec<usize>) -> Base {
    base3_with(name, cfg, d, cuts, "")
}
fn base3_with(name: &'static str, cfg: &Cfg, d: &MDb, cuts: Vec<usize>, tail: &str) -> Base {
    let l = Layout3 { cuts, ..Layout3::of(cfg) };
    let mut xml = xml3(cfg, &l, d, true);
    xml.extend(tail.bytes());
    let bytes = encode3(cfg, &l, &xml);
    Base { name, bytes, cred: cfg.cred.clone(), db: d.clone(), stored: (xml, String::new()), major: 3, header_len: l.header().len(), blocks: vec![] }
}

/// Key derivation work the altered header asks for, as far as it can be read at all.
pub fn affordable(b: &[u8]) -> bool {
    let mut c = Cur(b);
    let Ok(p) = c.take(12) else { return true };
    let major = u16::from_le_bytes([p[10], p[11]]);
    let mut rounds = 0;
    loop {
        let Ok(t) = c.u8() else { return true };
        let n = if major >= 4 { c.u32().map(|n| n as usize) } else { c.u16().map(|n| n as usize) };
        let Ok(n) = n else { return true };
        let Ok(d) = c.take(n) else { return true };
        match t {
            0 => return rounds <= 100_000,
            6 if d.len() == 8 => rounds = u64::from_le_bytes(d.try_into().unwrap()).max(rounds),
            11 => {
                // read leniently: every parameter that could be taken as a work factor
                let mut x = Cur(d);
                let _ = x.take(2);
                while let Ok(t) = x.u8() {
                    if t == 0 {
                        break;
                    }
                    let Ok(n) = x.u32() else { break };
                    let Ok(k) = x.take(n as usize) else { break };
                    let Ok(n) = x.u32() else { break };
                    let Ok(v) = x.take(n as usize) else { break };
                    let mut w = [0u8; 8];
                    let m = v.len().min(8);
                    w[..m].copy_from_slice(&v[..m]);
                    let w = u64::from_le_bytes(w);
                    let limit = match k {
                        b"R" => 100_000,
                        b"I" => 64,
                        b"M" => 64 << 20,
                        b"P" => 64,
                        _ => u64::MAX,
                    };
                    if w > limit {
                        return false;
                    }
                }
            }
            _ => {}
        }
    }
}

fn judge(b: &Base, altered: &[u8], what: impl Fn() -> String, c: &mut Case) -> Res {
    if altered == b.bytes {
        c.seen("trivial", &0);
        return Ok(());
    }
    if !affordable(altered) {
        c.add("skipped_for_work_factor", 1);
        return Ok(());
    }
    match load(altered, &b.cred)? {
        Err(_) => c.seen("refused", altered),
        Ok(k) => {
            let got = observe(k.database());
            ensure!(got == b.db, "{}, {}: opens with other content: {}", b.name, what(), diff(&b.db, &got));
            ensure!(k.raw_xml() == Some(b.stored.0.as_slice()), "{}, {}: opens with another document", b.name, what());
            if b.major == 4 {
                ensure!(attachments(&k) == b.stored.1, "{}, {}: opens with other attachments", b.name, what());
            }
            c.seen("same content", altered);
        }
    }
    Ok(())
}

fn reseal(b: &Base, bytes: &mut [u8], header_len: usize) {
    if b.major == 4 && bytes.len() >= header_len + 32 {
        let h = sha256(&bytes[..header_len]);
        bytes[header_len..header_len + 32].copy_from_slice(&h);
    }
}

pub fn run(e: &mut Engine) {
    e.rule = "a case is one altered archive; alterations that give back the original bytes are trivial".into();
    e.assumptions.push("alterations that only raise key derivation work beyond the bounds are skipped (counted): they can change no content, only cost time".into());
    let thorough = !e.quick();
    let d = small();
    let mut small_gz = Cfg::new(Ciph::Twofish, Comp::Gzip(6, 0), argon(false), Inner::Salsa);
    small_gz.cred = Cred { pw: Some("kdbxrs".into()), kf: Some(b"k".to_vec()) };
    let c3 = cfgs3();
    let bases = vec![
        base4("AES, one block", &Cfg::plain(), &d, vec![]),
        base4("ChaCha20, four blocks", &Cfg::new(Ciph::Chacha, Comp::None, aeskdf(2), Inner::Salsa), &d, vec![400, 300, 301]),
        base4("Twofish, compressed, Argon2, three blocks", &small_gz, &d, vec![200, 100]),
        base4("AES, four aligned blocks", &Cfg::new(Ciph::Aes, Comp::None, aeskdf(1), Inner::Chacha), &d, vec![256, 256, 256]),
        base4("ChaCha20, compressed", &Cfg::new(Ciph::Chacha, Comp::Gzip(0, 0), aeskdf(1), Inner::Chacha), &d, vec![500]),
        base4_with("ChaCha20, two attachments, five blocks", &Cfg::new(Ciph::Chacha, Comp::None, aeskdf(1), Inner::Salsa), &d, vec![90, 90, 90, 90], vec![bytes(100, 0x21), bytes(200, 0x22)]),
        base3("KDBX 3.1 AES", &c3[0], &d, vec![]),
        base3("KDBX 3.1 AES compressed, three blocks", &c3[2], &d, vec![200, 100]),
        base3("KDBX 3.1 ChaCha20, three blocks", &c3[8], &d, vec![400, 400]),
        base3("KDBX 3.1 Twofish", &c3[5], &d, vec![300]),
    ];
    // the unaltered archives open (otherwise nothing below means anything)
    e.phase("unaltered", bases.len() as u64, |i, c| {
        let b = &bases[i as usize];
        expect_db(&b.bytes, &b.cred, &b.db, b.name)?;
        c.seen("opened", b.name);
        Ok(())
    });
    let starts: Vec<u64> = bases.iter().scan(0, |s, b| { let r = *s; *s += b.bytes.len() as u64; Some(r) }).collect();
    let total: u64 = bases.iter().map(|b| b.bytes.len() as u64).sum();
    let at = |i: u64| {
        let k = starts.partition_point(|s| *s <= i) - 1;
        (&bases[k], (i - starts[k]) as usize)
    };
    // every byte replaced
    e.phase("bytes", total, |i, c| {
        let (b, p) = at(i);
        let mut x = b.bytes.clone();
        let orig = x[p];
        for v in 1..=255u8 {
            if !thorough && !v.is_power_of_two() && v != 255 {
                continue;
            }
            x[p] = orig ^ v;
            judge(b, &x, || format!("byte {p} xor {v:#x}"), c)?;
        }
        c.sample(|| format!("{}: byte {p}", b.name));
        Ok(())
    });
    // every header byte replaced by every value, checksum recomputed
    let htotal: u64 = bases.iter().map(|b| b.header_len as u64).sum();
    let hstarts: Vec<u64> = bases.iter().scan(0, |s, b| { let r = *s; *s += b.header_len as u64; Some(r) }).collect();
    e.phase("resealed-header-bytes", htotal, |i, c| {
        let k = hstarts.partition_point(|s| *s <= i) - 1;
        let (b, p) = (&bases[k], (i - hstarts[k]) as usize);
        let mut x = b.bytes.clone();
        let orig = x[p];
        for v in 1..=255u8 {
            x[p] = orig ^ v;
            reseal(b, &mut x, b.header_len);
            judge(b, &x, || format!("header byte {p} xor {v:#x}, checksum recomputed"), c)?;
        }
        Ok(())
    });
    // truncation at every length; garbage after the end
    e.phase("truncations", total, |i, c| {
        let (b, p) = at(i);
        judge(b, &b.bytes[..p], || format!("cut to {p} bytes"), c)
    });
    e.phase("appendices", bases.len() as u64 * 300, |i, c| {
        let mut x = Dec(i);
        let b = x.of(&bases);
        let n = x.0 as usize + 1;
        for fill in [0u8, 255, 16, 1] {
            let mut y = b.bytes.clone();
            y.extend(vec![fill; n]);
            judge(b, &y, || format!("{n} bytes {fill} appended"), c)?;
        }
        if n <= b.bytes.len() {
            let mut y = b.bytes.clone();
            y.extend_from_slice(&b.bytes[b.bytes.len() - n..]);
            judge(b, &y, || format!("last {n} bytes repeated"), c)?;
        }
        Ok(())
    });
    // insertions, deletions, overwriting with zeroes, at every position
    e.phase("insertions-and-deletions", total, |i, c| {
        let (b, p) = at(i);
        for n in [1usize, 2, 4, 8, 16, 32, 36, 64] {
            for fill in [0u8, 255, b.bytes[p]] {
                let mut y = b.bytes[..p].to_vec();
                y.extend(vec![fill; n]);
                y.extend_from_slice(&b.bytes[p..]);
                judge(b, &y, || format!("{n} bytes inserted at {p}"), c)?;
                if p < b.header_len {
                    reseal(b, &mut y, b.header_len + n);
                    judge(b, &y, || format!("{n} bytes inserted at {p}, checksum recomputed"), c)?;
                }
            }
            if p + n <= b.bytes.len() {
                let mut y = b.bytes[..p].to_vec();
                y.extend_from_slice(&b.bytes[p + n..]);
                judge(b, &y, || format!("{n} bytes deleted at {p}"), c)?;
                let mut y = b.bytes.clone();
                y[p..p + n].fill(0);
                judge(b, &y, || format!("{n} bytes zeroed at {p}"), c)?;
                // a piece moved to the next place
                if p + 2 * n <= b.bytes.len() {
                    let mut y = b.bytes.clone();
                    for k in 0..n {
                        y.swap(p + k, p + n + k);
                    }
                    judge(b, &y, || format!("{n} bytes at {p} exchanged with the following ones"), c)?;
                }
            }
        }
        Ok(())
    });
    // whole cipher blocks of the payload exchanged, dropped or repeated
    e.phase("cipher-blocks", bases.len() as u64 * 128 * 128, |i, c| {
        let mut x = Dec(i);
        let b = x.of(&bases);
        let (p, q) = (x.pick(128), x.pick(128));
        let body = if b.major == 4 { b.header_len + 64 + 36 } else { b.header_len };
        let blk = |k: usize| (body + 16 * k, body + 16 * k + 16);
        if p == q || blk(p.max(q)).1 > b.bytes.len() {
            return Ok(());
        }
        let mut y = b.bytes.clone();
        let src = b.bytes[blk(q).0..blk(q).1].to_vec();
        y[blk(p).0..blk(p).1].copy_from_slice(&src);
        judge(b, &y, || format!("16-byte piece {p} overwritten by piece {q}"), c)?;
        let other = b.bytes[blk(p).0..blk(p).1].to_vec();
        y[blk(q).0..blk(q).1].copy_from_slice(&other);
        judge(b, &y, || format!("16-byte pieces {p} and {q} exchanged"), c)
    });
    // authenticated blocks: every sequence of up to five of the file's blocks (terminator included)
    let multi: Vec<&Base> = bases.iter().filter(|b| b.blocks.len() > 1).collect();
    let len = if thorough { 6 } else { 5 };
    for (j, b) in multi.iter().enumerate() {
        let k = b.blocks.len() as u64;
        e.phase(&format!("block-sequences.{j}"), words(k, len), |i, c| {
            let seq = word(k, i);
            let mut y = b.bytes[..b.header_len + 64].to_vec();
            for s in &seq {
                let (p, q) = b.blocks[*s];
                y.extend_from_slice(&b.bytes[p..q]);
            }
            judge(b, &y, || format!("blocks in order {seq:?}"), c)
        });
    }
    // block splitting and merging: lengths edited together with the bytes they cover
    for (j, b) in multi.iter().enumerate() {
        let total = b.bytes.len() as u64 - b.header_len as u64 - 64;
        e.phase(&format!("block-lengths.{j}"), b.blocks.len() as u64 * total, |i, c| {
            let mut x = Dec(i);
            let (p, _) = b.blocks[x.pick(b.blocks.len() as u64)];
            let mut y = b.bytes.clone();
            y[p + 32..p + 36].copy_from_slice(&(x.0 as u32).to_le_bytes());
            judge(b, &y, || format!("length of the block at {p} set to {}", x.0), c)
        });
    }
    // codes replaced by values that are easy to come by, with and without a change of what they cover
    let coded: Vec<&Base> = bases.iter().filter(|b| b.major == 4).collect();
    e.phase("forged-codes", coded.len() as u64 * 6 * 12 * 8, |i, c| {
        let mut x = Dec(i);
        let b = x.of(&coded);
        // the header, then the blocks
        let k = x.pick(6);
        if k > b.blocks.len() {
            return Ok(());
        }
        let (code, data) = if k == 0 { (b.header_len + 32, 12..b.header_len) } else { (b.blocks[k - 1].0, b.blocks[k - 1].0 + 32..b.blocks[k - 1].1) };
        let covered = b.bytes[data.clone()].to_vec();
        let mut y = b.bytes.clone();
        let change = x.pick(12);
        let n = data.len();
        match change {
            0 => {}
            1 => y[data.start + 4.min(n - 1)] ^= 1,
            2 => y[data.end - 1] ^= 1,
            3 => y[data.start + n / 2] ^= 0x80,
            4 => y[data.start + 4.min(n)..data.end].fill(0),
            5 => y[data.start] ^= 1,
            // the block left out, or cut short
            6 if k > 0 => y = [&b.bytes[..data.start], &[0; 4], &b.bytes[data.end..]].concat(),
            7 if k > 0 && n > 20 => y = [&b.bytes[..data.start], &(16u32).to_le_bytes(), &b.bytes[data.start + 4..data.start + 20], &b.bytes[data.end..]].concat(),
            8 if k > 0 => y = [&b.bytes[..data.start], &[0; 4]].concat(),
            9 if k > 0 => y = [&b.bytes[..data.start], &(n as u32 + 12).to_le_bytes(), &b.bytes[data.start + 4..data.end], &[0; 16], &b.bytes[data.end..]].concat(),
            10 if n > 40 => y[data.start + 20..data.start + 36].reverse(),
            11 if n > 40 => y[data.end - 20..data.end - 4].reverse(),
            _ => return Ok(()),
        }
        let now = if data.end <= y.len() { y[data.clone()].to_vec() } else { y[data.start.min(y.len())..].to_vec() };
        let forged: [u8; 32] = match x.pick(8) {
            0 => [0; 32],
            1 => [0xff; 32],
            2 => sha256(&now),
            3 => sha256(&[]),
            4 => sha256(&covered),
            5 => hmac256(&[], &[&now]),
            6 => b.bytes[b.header_len..b.header_len + 32].try_into().unwrap(),
            _ => b.bytes[code..code + 32].try_into().unwrap(),
        };
        y[code..code + 32].copy_from_slice(&forged);
        if k == 0 {
            reseal(b, &mut y, b.header_len);
        }
        judge(b, &y, || format!("change {change} of part {k} under a made-up code"), c)
    });
    // every byte of every block changed under a made-up code
    for (j, b) in coded.iter().enumerate() {
        let at: Vec<(usize, usize)> = b.blocks.iter().flat_map(|&(s, t)| (s + 36..t).map(move |p| (s, p))).collect();
        e.phase(&format!("changed-under-forged-codes:{j}"), at.len() as u64 * 8, |i, c| {
            let mut x = Dec(i);
            let mask = *x.of(&[1u8, 4]);
            let kind = x.pick(4);
            let &(code, p) = x.of(&at);
            let mut y = b.bytes.clone();
            y[p] ^= mask;
            let end = b.blocks.iter().find(|s| s.0 == code).unwrap().1;
            let forged: [u8; 32] = match kind {
                0 => [0; 32],
                1 => [0xff; 32],
                2 => sha256(&y[code + 36..end]),
                _ => {
                    // as it was, but for its last byte
                    let mut f: [u8; 32] = y[code..code + 32].try_into().unwrap();
                    f[31] ^= 1;
                    f
                }
            };
            y[code..code + 32].copy_from_slice(&forged);
            judge(b, &y, || format!("byte {p} xor {mask} under made-up code {kind}"), c)
        });
    }
    // large blocks: a change at each distance from either end
    let big: Vec<Base> = {
        let mut v = vec![];
        for n in [70_000usize, 600_000, 1 << 20, (1 << 20) + 4096, 3 << 20] {
            let mut db = small();
            db.desc = "0123456789abcdef".repeat(n / 16);
            v.push(base4("large, ChaCha20", &Cfg::new(Ciph::Chacha, Comp::None, aeskdf(1), Inner::Chacha), &db, vec![n]));
            v.push(base4("large, AES", &Cfg::plain(), &db, vec![n]));
            v.push(base3("large, KDBX 3.1 ChaCha20", &c3[8], &db, vec![n]));
            v.push(base3("large, KDBX 3.1 AES", &c3[0], &db, vec![n]));
        }
        v
    };
    e.phase("large-blocks", big.len() as u64 * 22 * 2, |i, c| {
        let mut x = Dec(i);
        let b = x.of(&big);
        let back = x.pick(2) == 1;
        let p = 1usize << x.pick(22);
        let at = if back { b.bytes.len().wrapping_sub(p) } else { b.header_len + p };
        if at >= b.bytes.len() {
            return Ok(());
        }
        let mut y = b.bytes.clone();
        y[at] ^= 1;
        judge(b, &y, || format!("byte {at} xor 1"), c)
    });
    // files of many small blocks, mostly attachment: nothing but the codes can notice a change there
    let sizes = [1usize, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 24, 31, 32, 33, 63, 64, 65, 100];
    let shattered: Vec<(usize, Base)> = sizes
        .iter()
        .flat_map(|n| {
            [Ciph::Chacha, Ciph::Aes].map(|cipher| {
                let cfg = Cfg::new(cipher, Comp::None, aeskdf(1), Inner::Chacha);
                let total = 40 * n.min(&20);
                (*n, base4_with("small blocks", &cfg, &d, vec![*n; 3000], vec![bytes(total, 0x31)]))
            })
        })
        .collect();
    e.phase("small-blocks-unaltered", shattered.len() as u64, |i, c| {
        let (n, b) = &shattered[i as usize];
        match load(&b.bytes, &b.cred)? {
            Ok(k) => ensure!(observe(k.database()) == b.db, "blocks of {n} bytes: opens with other content"),
            Err(e) => crate::bail!("blocks of {n} bytes: does not open: {e}"),
        }
        c.seen("opened", &i);
        Ok(())
    });
    let most = 120;
    let moves: Vec<i64> = [1, 2, 3, 4, 5, 7, 8, 16, 32, 64].iter().flat_map(|d| [*d, -d]).collect();
    let ways = moves.len() as u64 * 2 + 22;
    e.phase("small-blocks", shattered.len() as u64 * most * ways, |i, c| {
        let mut x = Dec(i);
        let (n, b) = x.of(&shattered);
        let way = x.pick(ways);
        let at = x.0 as usize;
        if at + 1 >= b.blocks.len() {
            return Ok(());
        }
        let (p, q) = b.blocks[at];
        let mut y = b.bytes.clone();
        if let Some(by) = moves.get(way / 2).filter(|_| way < 2 * moves.len()) {
            // another block in this place, under its own code or the one that was there
            let other = at as i64 + by;
            if other < 0 || other + 1 >= b.blocks.len() as i64 {
                return Ok(());
            }
            let (s, t) = b.blocks[other as usize];
            let from = if way % 2 == 0 { 0 } else { 32 };
            y.splice(p + from..q, b.bytes[s + from..t].iter().copied());
        } else {
            match way - 2 * moves.len() {
                k @ 0..=7 => y[p + 36] ^= 1 << k,
                k @ 8..=15 => y[q - 1] ^= 1 << (k - 8),
                // left out, twice, exchanged with the next, emptied, grown, under no code
                16 => drop(y.splice(p..q, [])),
                17 => drop(y.splice(q..q, b.bytes[p..q].iter().copied())),
                18 => {
                    let (s, t) = b.blocks[at + 1];
                    y.splice(p..t, b.bytes[s..t].iter().chain(&b.bytes[p..q]).copied());
                }
                19 => {
                    y[p..p + 32].fill(0);
                    y[p + 36] ^= 1;
                }
                20 => {
                    y[p + 32..p + 36].copy_from_slice(&(q as u32 - p as u32 - 36 + 1).to_le_bytes());
                    y.insert(q, 0);
                }
                _ => {
                    y[p + 32..p + 36].copy_from_slice(&(q as u32 - p as u32 - 36 - 1).to_le_bytes());
                    y.remove(q - 1);
                }
            }
        }
        judge(b, &y, || format!("blocks of {n} bytes, block {at} altered in way {way}"), c)
    });
    // documents with a long blank end: the rest of the file is not needed to read them, only to know that all is there.
    // A line feed is a valid padding byte as well, so that the cut cannot be noticed by the padding.
    let tails = ["\n".repeat(640), " ".repeat(640), "\t".repeat(640), format!("<!--{}-->", "\n".repeat(633))];
    let mut tailed: Vec<Base> = vec![];
    let mut tailed3: Vec<Base> = vec![];
    for tail in &tails {
        for cipher in [Ciph::Chacha, Ciph::Aes, Ciph::Twofish] {
            let cfg = Cfg::new(cipher, Comp::None, aeskdf(1), Inner::Chacha);
            let mut xml = cfg.xml4(&d);
            xml.extend(tail.bytes());
            for n in [16usize, 48, 160] {
                tailed.push(base4_of("blank end", &cfg, &d, xml.clone(), vec![n; 300], vec![]));
            }
        }
        for k in [0, 5, 8] {
            for n in [16usize, 160] {
                tailed3.push(base3_with("blank end, KDBX 3.1", &c3[k], &d, vec![n; 300], tail));
            }
        }
    }
    e.phase("blank-ends", tailed.len() as u64 * 300 * 10, |i, c| {
        let mut x = Dec(i);
        let b = x.of(&tailed);
        let end = x.pick(10);
        let kept = x.0 as usize;
        if kept >= b.blocks.len() {
            return Ok(());
        }
        let (p, q) = b.blocks[kept];
        let (s, t) = *b.blocks.last().unwrap();
        let mut y = b.bytes[..p].to_vec();
        let code: Option<[u8; 32]> = match end {
            0 => None,
            1 => Some([0; 32]),
            2 => Some([0xff; 32]),
            3 => Some(b.bytes[p..p + 32].try_into().unwrap()),
            4 => Some(sha256(&[])),
            5 => Some(hmac256(&[], &[&[]])),
            6 => {
                // the end of the whole file
                y.extend(&b.bytes[s..t]);
                None
            }
            7 => {
                // only this block left out
                y.extend(&b.bytes[q..]);
                None
            }
            8 => {
                // a length and nothing after it
                y.extend(&b.bytes[p..p + 36]);
                None
            }
            _ => {
                y.extend(&b.bytes[p..p + 20]);
                None
            }
        };
        if let Some(code) = code {
            y.extend(code);
            y.extend([0; 4]);
        }
        judge(b, &y, || format!("cut after {kept} blocks, end {end}"), c)
    });
    e.phase("blank-ends-cut", (tailed.len() + tailed3.len()) as u64 * 700, |i, c| {
        let mut x = Dec(i);
        let k = x.pick((tailed.len() + tailed3.len()) as u64);
        let b = tailed.get(k).unwrap_or_else(|| &tailed3[k - tailed.len()]);
        let n = x.0 as usize + 1;
        if n > b.bytes.len() {
            return Ok(());
        }
        judge(b, &b.bytes[..b.bytes.len() - n], || format!("the last {n} bytes cut off"), c)
    });
    e.phase("blank-ends-unaltered", (tailed.len() + tailed3.len()) as u64, |i, c| {
        let k = i as usize;
        let b = tailed.get(k).unwrap_or_else(|| &tailed3[k - tailed.len()]);
        let r = load(&b.bytes, &b.cred)?.map(|k| k.raw_xml() == Some(b.stored.0.as_slice()) && observe(k.database()) == b.db);
        ensure!(matches!(r, Ok(true)), "{}: the unaltered archive does not open", b.name);
        c.seen("opened", &i);
        Ok(())
    });
    // counters of blocks: one block changed, or replaced by one far away
    let counted = base4_with("66000 blocks", &Cfg::new(Ciph::Chacha, Comp::None, aeskdf(1), Inner::Chacha), &d, vec![1; 66_000], vec![bytes(66_000, 0x32)]);
    e.phase("many-blocks", 17 * 3 * 19, |i, c| {
        let mut x = Dec(i);
        let off = x.pick(3);
        let k = x.pick(17);
        let at = (1usize << k) + off - 1;
        let (p, q) = counted.blocks[at];
        let mut y = counted.bytes.clone();
        match x.0 as usize {
            0 => y[p + 36] ^= 1,
            1 => y[p] ^= 1,
            j => {
                let other = at ^ (1 << (j - 2));
                if other >= 66_000 {
                    return Ok(());
                }
                let (s, t) = counted.blocks[other];
                y[p..q].copy_from_slice(&counted.bytes[s..t]);
            }
        }
        judge(&counted, &y, || format!("block {at} of many altered in way {}", x.0), c)
    });
    // header fields removed, repeated, exchanged, emptied, retyped; checksum recomputed
    e.phase("header-fields", bases.len() as u64 * 12 * 12 * 6, |i, c| {
        let mut x = Dec(i);
        let b = x.of(&bases);
        let (mut fields, end) = split_header(b);
        let (p, q) = (x.pick(12), x.pick(12));
        if p >= fields.len() || q > fields.len() {
            return Ok(());
        }
        let op = x.pick(6);
        match op {
            0 => {
                fields.remove(p);
            }
            1 => {
                let f = fields[p].clone();
                fields.insert(q, f);
            }
            2 if q < fields.len() => fields.swap(p, q),
            3 if q < fields.len() => {
                let v = fields[q].1.clone();
                fields[p].1 = v;
            }
            4 => fields[p].0 = q as u8,
            5 => {
                let n = fields[p].1.len();
                fields[p].1 = vec![0; if q == 0 { n } else { q - 1 }];
            }
            _ => return Ok(()),
        }
        let minor = u16::from_le_bytes([b.bytes[8], b.bytes[9]]);
        let mut y = header_bytes(b.major, minor, &fields, &end);
        if b.major == 4 {
            let h = sha256(&y);
            y.extend(h);
            y.extend_from_slice(&b.bytes[b.header_len + 32..]);
        } else {
            y.extend_from_slice(&b.bytes[b.header_len..]);
        }
        judge(b, &y, || format!("header edit {op} of fields {p} and {q}"), c)
    });
    // a setting replaced by another supported one; checksum recomputed
    e.phase("settings", bases.len() as u64 * 4 * 4 * 3, |i, c| {
        let mut x = Dec(i);
        let b = x.of(&bases);
        let (mut fields, end) = split_header(b);
        let (cipher, minor) = (x.pick(4), x.pick(4) as u16);
        let comp = x.pick(3);
        for f in fields.iter_mut() {
            if f.0 == 2 && cipher < 3 {
                f.1 = CIPHERS[cipher].uuid().as_bytes().to_vec();
            }
            if f.0 == 3 && comp < 2 {
                f.1 = (comp as u32).to_le_bytes().to_vec();
            }
        }
        for major in [3u16, 4] {
            let mut y = header_bytes(major, minor, &fields, &end);
            if major == 4 {
                let h = sha256(&y);
                y.extend(h);
            }
            y.extend_from_slice(&b.bytes[b.header_len + if b.major == 4 { 32 } else { 0 }..]);
            judge(b, &y, || format!("settings {cipher}/{comp}, version {major}.{minor}"), c)?;
        }
        Ok(())
    });
    // two archives under the same credentials: parts of one in the other
    let other: Vec<Base> = {
        let mut d2 = small();
        d2.root.entries[0].fields[1].value = "PASS PHRASE".into();
        let mut cfg = Cfg::plain();
        cfg.seed = bytes(32, 0x77);
        let mut cfg2 = Cfg::plain();
        cfg2.iv = bytes(16, 0x78);
        cfg2.seed = bytes(32, 0x79);
        vec![base4("other content, other seed", &cfg, &d2, vec![]), base4("same content, other seed and IV", &cfg2, &d, vec![])]
    };
    e.phase("transplants", other.len() as u64 * 64, |i, c| {
        let mut x = Dec(i);
        let o = x.of(&other);
        let b = &bases[0];
        let bits = x.pick(64);
        // header, checksum, header code, block code, block length, block data: from either archive
        let cut = |b: &Base| {
            let h = b.header_len;
            [0, h, h + 32, h + 64, h + 96, h + 100, b.bytes.len()]
        };
        let (cb, co) = (cut(b), cut(o));
        let mut y = vec![];
        for k in 0..6 {
            if bits >> k & 1 == 1 {
                y.extend_from_slice(&o.bytes[co[k]..co[k + 1]]);
            } else {
                y.extend_from_slice(&b.bytes[cb[k]..cb[k + 1]]);
            }
        }
        if y == o.bytes {
            return Ok(());
        }
        judge(b, &y, || format!("parts {bits:06b} taken from an archive with {}", o.name), c)
    });
}

fn split_header(b: &Base) -> (Fields, Vec<u8>) {
    let mut c = Cur(&b.bytes[12..b.header_len]);
    let mut fields: Fields = vec![];
    loop {
        let t = c.u8().unwrap();
        let n = if b.major == 4 { c.u32().unwrap() as usize } else { c.u16().unwrap() as usize };
        let d = c.take(n).unwrap().to_vec();
        if t == 0 {
            return (fields, d);
        }
        fields.push((t, d));
    }
}
