//! The raw document is exposed exactly as stored.

use crate::engine::*;
use crate::layouts::*;
use crate::lib_io::*;
use crate::model::*;
use crate::refcodec::*;
use crate::refxml::*;
use crate::{bail, ensure};

fn differs(want: &[u8], got: &[u8]) -> String {
    let p = want.iter().zip(got).take_while(|(a, b)| a == b).count();
    format!("{} bytes instead of {}, first difference at {p}", got.len(), want.len())
}

fn exact(b: &[u8], cred: &Cred, xml: &[u8], what: &dyn Fn() -> String) -> Res {
    let k = match load(b, cred)? {
        Ok(k) => k,
        Err(e) => bail!("{}: does not open: {e}", what()),
    };
    match api("raw_xml", || k.raw_xml().map(<[u8]>::to_vec))? {
        None => bail!("{}: no raw document", what()),
        Some(got) => ensure!(got == xml, "{}: raw document differs: {}", what(), differs(xml, &got)),
    }
    Ok(())
}

/// One document in one file.
fn store(v3: bool, cfg: &Cfg, head: &str, tail: &str, attachment: Option<usize>, cuts: Vec<usize>) -> (Vec<u8>, Vec<u8>, Cfg) {
    let d = small();
    if v3 {
        let mut c = cfg.clone();
        c.kdf = plain3().kdf;
        c.inner_key = bytes(32, 5);
        let l = Layout3 { cuts, ..Layout3::of(&c) };
        let mut dom = dom_db(&d, TimeForm::Iso);
        with_header_hash(&mut dom, &l.header());
        let xml = wrap(&dom, &c, head, tail);
        (encode3(&c, &l, &xml), xml, c)
    } else {
        let mut l = Layout4 { cuts, ..Layout4::of(cfg) };
        if let Some(n) = attachment {
            l.inner.push((3, bytes(n, 9)));
        }
        let xml = wrap(&dom_db(&d, TimeForm::B64), cfg, head, tail);
        (encode4(cfg, &l, &xml), xml, cfg.clone())
    }
}
fn wrap(dom: &El, c: &Cfg, head: &str, tail: &str) -> Vec<u8> {
    let body = render(dom, false, &mut c.keystream());
    let body = &body[body.find("?>").unwrap() + 2..];
    format!("{head}{}{tail}", body.trim_start()).into_bytes()
}

/// One document in an encoding other than usual, with a text in its name.
fn encoded(v3: bool, cfg: &Cfg, enc: usize, text: &str, tail: &str) -> (Vec<u8>, Vec<u8>, Cfg) {
    let mut d = small();
    d.name = text.into();
    let mut c = cfg.clone();
    let label = ["utf-8", "iso-8859-1", "latin1", "us-ascii", "windows-1252", "utf-16", "utf-16le", "utf-16be"][enc];
    let head = format!("<?xml version=\"1.0\" encoding=\"{label}\"?>");
    let put = |dom: &El, c: &Cfg| {
        let s = String::from_utf8(wrap(dom, c, &head, tail)).unwrap();
        match enc {
            0 => s.into_bytes(),
            1..=4 => s.chars().map(|c| c as u32 as u8).collect(),
            7 => "\u{feff}".encode_utf16().chain(s.encode_utf16()).flat_map(u16::to_be_bytes).collect(),
            _ => "\u{feff}".encode_utf16().chain(s.encode_utf16()).flat_map(u16::to_le_bytes).collect::<Vec<u8>>(),
        }
    };
    if v3 {
        c.kdf = plain3().kdf;
        c.inner_key = bytes(32, 5);
        let l = Layout3::of(&c);
        let mut dom = dom_db(&d, TimeForm::Iso);
        with_header_hash(&mut dom, &l.header());
        let xml = put(&dom, &c);
        (encode3(&c, &l, &xml), xml, c)
    } else {
        let l = Layout4::of(&c);
        let xml = put(&dom_db(&d, TimeForm::B64), &c);
        (encode4(&c, &l, &xml), xml, c)
    }
}

pub fn run(e: &mut Engine) {
    e.rule = "a case is one file; distinct by its bytes; files with texts no document can hold are skipped as trivial".into();
    let thorough = !e.quick();
    let cfgs: Vec<Cfg> = CIPHERS.iter().flat_map(|c| [Comp::None, Comp::Gzip(6, 0), Comp::Gzip(0, 0)].map(|z| Cfg::new(*c, z, aeskdf(1), Inner::Chacha))).collect();
    let ncfg = cfgs.len() as u64;

    // -- every document length --
    let n = e.pick(130, 600);
    e.phase("lengths", n * ncfg * 2, |i, c| {
        let mut x = Dec(i);
        let v3 = x.pick(2) == 1;
        let cfg = x.of(&cfgs);
        let len = x.0 as usize;
        let (b, xml, cfg) = store(v3, cfg, &format!("<!--{}-->", "x".repeat(len)), "", None, vec![]);
        exact(&b, &cfg.cred, &xml, &|| format!("{:?} {:?}, version 3: {v3}, {} bytes", cfg.cipher, cfg.comp, xml.len()))?;
        c.seen(if xml.len() % 16 == 0 { "aligned" } else { "unaligned" }, &b);
        c.sample(|| format!("{:?} {:?}, version 3: {v3}, {} bytes", cfg.cipher, cfg.comp, xml.len()));
        Ok(())
    });
    // -- documents ending in bytes that look like padding: runs of each blank, each length, each alignment --
    let blanks = ["\n", "\t", "\r", " "];
    let n = e.pick(34, 70);
    e.phase("endings", 4 * n * 16 * ncfg * 2, |i, c| {
        let mut x = Dec(i);
        let v3 = x.pick(2) == 1;
        let cfg = x.of(&cfgs);
        let pad = x.pick(16);
        let ch = *x.of(&blanks);
        let run = x.0 as usize;
        if !thorough && cfg.cipher == Ciph::Twofish && !matches!(run, 0..=1 | 9..=17) {
            return Ok(());
        }
        let (b, xml, cfg) = store(v3, cfg, &format!("<!--{}-->", "x".repeat(pad)), &ch.repeat(run), None, vec![]);
        exact(&b, &cfg.cred, &xml, &|| format!("{:?} {:?}, version 3: {v3}, ending in {run} x {ch:?}, {} bytes", cfg.cipher, cfg.comp, xml.len()))?;
        c.seen(if run == 0 { "no run" } else { "run" }, &b);
        Ok(())
    });
    // -- beginnings and endings --
    let heads = ["", "<?xml version=\"1.0\"?>", "<?xml version='1.0' encoding='UTF-8' standalone='yes'?>\r\n\r\n", "\n\n\t ", "<!-- \u{e9}\u{1F511} --><?pi x?>", "\u{feff}", "\u{feff}<?xml version=\"1.0\" encoding=\"utf-8\"?>"];
    let tails = ["", "\n", "\r\n", "<!-- tail -->", "<!-- \u{e9} --> \n", "<?pi?>", " \t\r\n", "\n\n\n\n\n\n\n\n\n\n"];
    let sizes = [None, Some(0), Some(1), Some(15), Some(16), Some(17), Some(300)];
    e.phase("forms", 7 * 8 * 7 * ncfg * 2, |i, c| {
        let mut x = Dec(i);
        let v3 = x.pick(2) == 1;
        let cfg = x.of(&cfgs);
        let (head, tail, size) = (*x.of(&heads), *x.of(&tails), *x.of(&sizes));
        if v3 && size.is_some() {
            c.seen("trivial", &0);
            return Ok(());
        }
        let (b, xml, cfg) = store(v3, cfg, head, tail, size, vec![]);
        exact(&b, &cfg.cred, &xml, &|| format!("{:?} {:?}, version 3: {v3}, head {head:?}, tail {tail:?}, attachment {size:?}", cfg.cipher, cfg.comp))?;
        c.seen("exact", &b);
        Ok(())
    });
    // -- documents in other encodings, as far as they are read --
    e.phase("encodings", 8 * 4 * 3 * ncfg * 2, |i, c| {
        let mut x = Dec(i);
        let v3 = x.pick(2) == 1;
        let cfg = x.of(&cfgs);
        let (enc, text, tail) = (x.pick(8), *x.of(&["plain", "\u{e9}\u{df}", "\u{80}\u{ff}", "\u{20ac}\u{1F511}"]), *x.of(&["", "\n", "\r\n"]));
        if text.starts_with('\u{20ac}') && !matches!(enc, 0 | 5..=7) {
            c.seen("trivial", &0);
            return Ok(());
        }
        let (b, xml, cfg) = encoded(v3, cfg, enc, text, tail);
        let what = || format!("{:?} {:?}, version 3: {v3}, encoding {enc}, text {text:?}", cfg.cipher, cfg.comp);
        match load(&b, &cfg.cred)? {
            Err(e) => {
                ensure!(enc > 0, "{}: does not open: {e}", what());
                c.seen("refused", &b);
            }
            Ok(_) => {
                exact(&b, &cfg.cred, &xml, &what)?;
                c.seen("exact", &b);
            }
        }
        Ok(())
    });
    // -- attachments of every length before the document --
    let n = e.pick(70, 300);
    e.phase("attachments", n * ncfg, |i, c| {
        let mut x = Dec(i);
        let cfg = x.of(&cfgs);
        let (b, xml, cfg) = store(false, cfg, "", "\n", Some(x.0 as usize), vec![]);
        exact(&b, &cfg.cred, &xml, &|| format!("{:?} {:?}, attachment of {} bytes", cfg.cipher, cfg.comp, x.0))?;
        c.seen("exact", &b);
        Ok(())
    });
    // -- layouts --
    for (v, spaces) in [(4, files4(thorough)), (3, files3(thorough))] {
        for s in spaces {
            // the cut phases are complete, others are thinned evenly in the quick tier
            let step = if thorough || s.n < 6000 || s.name.contains("cut") || s.name.contains("blocks") { 1 } else { s.n.div_ceil(6000) };
            e.phase(&format!("v{v}:{}", s.name), s.n / step, |i, c| {
                let x = (s.make)(i * step);
                if x.bytes.is_empty() || matches!(x.cfg.comp, Comp::Gzip(_, 4)) {
                    c.seen("trivial", &0);
                    return Ok(());
                }
                exact(&x.bytes, &x.cfg.cred, &x.xml, &|| x.what.clone())?;
                c.seen("exact", &x.bytes);
                c.sample(|| x.what.clone());
                Ok(())
            });
        }
    }
    // -- around full blocks of a megabyte --
    let around = e.pick(9, 65);
    let big: Vec<(bool, Cfg)> = [false, true].into_iter().flat_map(|v| [(v, cfgs[0].clone()), (v, cfgs[1].clone()), (v, cfgs[6].clone()), (v, cfgs[7].clone())]).collect();
    let base: Vec<usize> = big.iter().map(|(v3, c)| store(*v3, c, "<!---->", "", None, vec![]).1.len()).collect();
    e.phase("megabytes", around * 2 * big.len() as u64 * 3, |i, c| {
        let mut x = Dec(i);
        let k = x.pick(big.len() as u64);
        let (v3, cfg) = &big[k];
        let target = (1usize + x.pick(2)) << 20;
        let block = [1usize << 20, 65_536, 1 << 19][x.pick(3)];
        let len = target + x.0 as usize - around as usize / 2 - base[k];
        let (b, xml, cfg) = store(*v3, cfg, &format!("<!--{}-->", "x".repeat(len)), "", None, vec![block; 40]);
        exact(&b, &cfg.cred, &xml, &|| format!("{:?} {:?}, version 3: {v3}, {} bytes in blocks of {block}", cfg.cipher, cfg.comp, xml.len()))?;
        c.seen("exact", &b);
        Ok(())
    });
    // -- documents of every order of magnitude, long before or after their content --
    let orders = e.pick(9, 12);
    let ends = ["", "\n", "<!--t-->", "<?pi?>", "<!--t-->\n", "</KeePassFile>"];
    e.phase("large", orders * 3 * 2 * 6 * big.len() as u64, |i, c| {
        let mut x = Dec(i);
        let (v3, cfg) = x.of(&big);
        let end = match *x.of(&ends) {
            // looks like the end of the document
            "</KeePassFile>" => "<!--</KeePassFile>-->",
            end => end,
        };
        let after = x.pick(2) == 1;
        let off = x.pick(3);
        let len = (1usize << (11 + x.0)) + off - 1;
        let fill = format!("<!--{}-->", "y".repeat(len));
        let (head, tail) = if after { (String::new(), format!("{fill}{end}")) } else { (fill, end.to_string()) };
        let (b, xml, cfg) = store(*v3, cfg, &head, &tail, None, vec![]);
        exact(&b, &cfg.cred, &xml, &|| format!("{:?} {:?}, version 3: {v3}, {} bytes, filled after: {after}, ending in {end:?}", cfg.cipher, cfg.comp, xml.len()))?;
        c.seen("exact", &b);
        Ok(())
    });
    // -- written by the library itself, read after a failed attempt, sample files --
    let all = all_cfgs();
    let n = e.pick(60, 400);
    e.phase("saved", n * all.len() as u64, |i, c| {
        let mut x = Dec(i);
        let cfg = x.of(&all);
        let mut d = small();
        d.desc = "d".repeat(x.0 as usize);
        let b = save(&archive(&d, cfg)??)??;
        let stored = match decode(&b, &cfg.cred) {
            Ok(s) => s.xml,
            Err(e) => bail!("the saved file is not valid: {e}"),
        };
        exact(&b, &cfg.cred, &stored, &|| format!("{:?} {:?} saved with {} characters", cfg.cipher, cfg.comp, x.0))?;
        let wrong = Cred::pw("wrong");
        let k = open(&b)??;
        let k = match api("unlock", || k.unlock(&wrong.lib()))? {
            Ok(_) => bail!("opens with a wrong password"),
            Err(f) => f.0,
        };
        let k = unlock(k, &cfg.cred)??;
        ensure!(k.raw_xml() == Some(stored.as_slice()), "raw document differs after a failed attempt");
        c.seen("exact", &b);
        Ok(())
    });
    let samples = super::c02::sample_files();
    e.phase("samples", samples.len() as u64, |i, c| {
        let (name, b) = &samples[i as usize];
        if name.contains("legacy") {
            c.seen("trivial", &0);
            return Ok(());
        }
        for cred in [Cred::pw("kdbxrs"), Cred { pw: Some("kdbxrs".into()), kf: Some(b"key-file".to_vec()) }] {
            if let Ok(s) = decode(b, &cred) {
                exact(b, &cred, &s.xml, &|| name.clone())?;
                c.seen("exact", name);
                return Ok(());
            }
        }
        c.seen("trivial", &0);
        Ok(())
    });
}
