//! How the input arrives does not change what is read.

use crate::engine::*;
use crate::layouts::*;
use crate::lib_io::*;
use crate::model::*;
use crate::refcodec::*;
use crate::refxml::*;
use crate::{bail, ensure};
use kdbx_rs::binary::Locked;
use kdbx_rs::Kdbx;
use std::error::Error;
use std::io::{self, Read};

const KINDS: [io::ErrorKind; 8] = [
    io::ErrorKind::Other,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::InvalidData,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::UnexpectedEof,
];
const MARK: &str = "injected source failure";

/// A scripted source: the sizes of its reads, interruptions, and a failure are all given.
struct Source<'a> {
    data: &'a [u8],
    at: usize,
    /// positions at which a read ends at the latest
    cuts: &'a [usize],
    /// most bytes per read
    chunk: usize,
    /// an interruption is reported before reads at these positions (usize::MAX: before every read)
    interrupt: Option<usize>,
    pending: u32,
    repeat: u32,
    fail: Option<(usize, io::ErrorKind)>,
    failures: u32,
}
impl<'a> Source<'a> {
    fn new(data: &'a [u8]) -> Source<'a> {
        Source { data, at: 0, cuts: &[], chunk: usize::MAX, interrupt: None, pending: 0, repeat: 1, fail: None, failures: 0 }
    }
}
impl Read for Source<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if let Some(p) = self.interrupt {
            if (p == usize::MAX || p == self.at) && self.pending < self.repeat {
                self.pending += 1;
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
        }
        let mut end = self.data.len();
        if let Some((p, kind)) = self.fail {
            if self.at == p {
                self.failures += 1;
                return Err(io::Error::new(kind, MARK));
            }
            end = p.min(end);
        }
        for c in self.cuts {
            if *c > self.at {
                end = end.min(*c);
                break;
            }
        }
        if let Some(p) = self.interrupt {
            if p > self.at && p != usize::MAX {
                end = end.min(p);
            }
            if p == usize::MAX {
                self.pending = 0;
            }
        }
        let n = (end - self.at).min(self.chunk).min(buf.len());
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

/// Everything that can be observed of the result of opening.
#[derive(PartialEq, Clone, Debug)]
struct Seen(Result<(String, Vec<u8>, Option<(MDb, Option<Vec<u8>>)>), String>);

fn see(r: Result<Kdbx<Locked>, kdbx_rs::errors::OpenError>, cred: &Cred) -> V<Seen> {
    Ok(Seen(match r {
        Err(e) => Err(format!("{e} / {e:?}")),
        Ok(k) => {
            let mut out = vec![];
            if let Err(e) = api("write", || k.write(&mut out))? {
                out = format!("cannot be written: {e}").into_bytes();
            }
            let h = format!("{:?} {} {}", k.header(), k.major_version(), k.minor_version());
            let u = unlock(k, cred)?.ok().map(|k| (observe(k.database()), k.raw_xml().map(<[u8]>::to_vec)));
            Ok((h, out, u))
        }
    }))
}

fn chain_has_mark(e: &(dyn Error + 'static)) -> bool {
    let mut s: Option<&(dyn Error + 'static)> = Some(e);
    while let Some(x) = s {
        if x.to_string().contains(MARK) || format!("{x:?}").contains(MARK) {
            return true;
        }
        s = x.source();
    }
    false
}

struct Input {
    name: String,
    bytes: Vec<u8>,
    whole: Seen,
    complete: bool,
}

fn xml_result(r: Result<kdbx_rs::Database, kdbx_rs::errors::XmlReadError>) -> Result<MDb, String> {
    r.map(|d| observe(&d)).map_err(|e| e.to_string())
}

pub fn run(e: &mut Engine) {
    e.rule = "a case is one way of delivering one input; all are non-trivial".into();
    e.assumptions.push("a failure after the last byte of the archive may be reported or not; everything before must be".into());
    let thorough = !e.quick();
    let cred = Cred::pw("kdbxrs");
    let d = small();
    let mut inputs: Vec<Input> = vec![];
    let c3 = cfgs3();
    let mut files: Vec<(String, Vec<u8>, bool)> = some_cfgs().iter().enumerate().map(|(j, c)| (format!("KDBX 4 #{j}"), file4(c, &d), true)).collect();
    for j in [0, 2, 8] {
        files.push((format!("KDBX 3.1 #{j}"), file3(&c3[j], &d), true));
    }
    let mut cfg = Cfg::plain();
    cfg.inner = Inner::Salsa;
    files.push(("several blocks".into(), encode4(&cfg, &Layout4 { cuts: vec![100, 333, 1, 200], ..Layout4::of(&cfg) }, &cfg.xml4(&d)), true));
    let mut many = Layout4::of(&cfg);
    many.fields.insert(0, (1, bytes(300, 1)));
    many.fields.insert(3, (12, bytes(70, 1)));
    many.fields.push((200, vec![]));
    files.push(("many header fields".into(), encode4(&cfg, &many, &cfg.xml4(&d)), true));
    // inputs that are refused
    let good = files[0].1.clone();
    let mut bad = good.clone();
    bad[60] ^= 1;
    files.push(("damaged header".into(), bad, false));
    files.push(("cut inside the header".into(), good[..100].to_vec(), false));
    files.push(("cut inside the payload".into(), good[..good.len() - 50].to_vec(), false));
    files.push(("trailing bytes".into(), [&good[..], b"trailing"].concat(), false));
    files.push(("not an archive".into(), b"<?xml version='1.0'?>".to_vec(), false));
    files.push(("empty".into(), vec![], false));
    for (name, bytes, complete) in files {
        match api("from_reader", || kdbx_rs::from_reader(bytes.as_slice())).and_then(|r| see(r, &cred)) {
            Ok(whole) => inputs.push(Input { name, bytes, whole, complete }),
            Err(v) => {
                e.phase("slices", 1, |_, _| Err(Violation { msg: v.msg.clone(), key: v.key.clone() }));
                return;
            }
        }
    }
    e.phase("from-a-slice", inputs.len() as u64, |i, c| {
        let x = &inputs[i as usize];
        let opened = matches!(&x.whole.0, Ok((_, _, Some((m, _)))) if *m == d);
        ensure!(opened || !x.complete, "{}: does not open: {:?}", x.name, x.whole.0.as_ref().err());
        c.seen(if opened { "opened" } else { "refused" }, &x.name);
        Ok(())
    });
    let compare = |x: &Input, s: Source, what: &dyn Fn() -> String| -> Res {
        let r = api("from_reader", || kdbx_rs::from_reader(s))?;
        let got = see(r, &cred)?;
        if got != x.whole {
            bail!("{}, {}: result differs from that of the bytes at once: {}", x.name, what(), match (&got.0, &x.whole.0) {
                (Err(e), _) => e.clone(),
                (Ok(_), Err(e)) => format!("opens instead of {e}"),
                _ => "other content".into(),
            });
        }
        Ok(())
    };
    for x in &inputs {
        let n = x.bytes.len() as u64;
        let stem = x.name.replace([' ', '#', '.'], "");
        e.phase(&format!("chunks:{stem}"), n + 1, |i, c| {
            let mut s = Source::new(&x.bytes);
            s.chunk = i as usize + 1;
            compare(x, s, &|| format!("reads of {} bytes", i + 1))?;
            let mut s = Source::new(&x.bytes);
            s.chunk = i as usize + 1;
            s.interrupt = Some(usize::MAX);
            compare(x, s, &|| format!("interrupted reads of {} bytes", i + 1))?;
            c.seen("same", &(&x.name, i));
            c.sample(|| format!("{}: reads of {} bytes", x.name, i + 1));
            Ok(())
        });
        e.phase(&format!("splits:{stem}"), n + 1, |i, c| {
            let p = i as usize;
            let cuts = [p];
            let mut s = Source::new(&x.bytes);
            s.cuts = &cuts;
            compare(x, s, &|| format!("split at {p}"))?;
            for repeat in [1, 3] {
                let mut s = Source::new(&x.bytes);
                s.interrupt = Some(p);
                s.repeat = repeat;
                compare(x, s, &|| format!("{repeat} interruptions at {p}"))?;
            }
            c.seen("same", &(&x.name, i));
            Ok(())
        });
        let m = n + 1;
        e.phase(&format!("two-splits:{stem}"), m * m, |i, c| {
            let (p, q) = ((i % m) as usize, (i / m) as usize);
            // close pairs in detail, distant ones in a grid
            if p >= q || (!thorough && q - p > 16 && (p % 12 != 0 || q % 12 != 0)) {
                return Ok(());
            }
            let cuts = [p, q];
            let mut s = Source::new(&x.bytes);
            s.cuts = &cuts;
            compare(x, s, &|| format!("split at {p} and {q}"))?;
            c.seen("same", &(&x.name, i));
            Ok(())
        });
        e.phase(&format!("failures:{stem}"), (n + 1) * KINDS.len() as u64, |i, c| {
            let mut y = Dec(i);
            let kind = *y.of(&KINDS);
            let p = y.0 as usize;
            for chunk in [usize::MAX, 1, 7] {
                let mut s = Source::new(&x.bytes);
                s.fail = Some((p, kind));
                s.chunk = chunk;
                let (r, failures) = api("from_reader", || {
                    let r = kdbx_rs::from_reader(&mut s);
                    (r, s.failures)
                })?;
                let what = || format!("{}: source fails with {kind:?} at byte {p} (reads of {chunk})", x.name);
                match r {
                    Err(err) => {
                        if failures > 0 {
                            ensure!(chain_has_mark(&err) || (kind == io::ErrorKind::UnexpectedEof), "{}: reported as {err} ({err:?})", what());
                            c.seen("reported", &(&x.name, i));
                        } else {
                            let got = see(Err(err), &cred)?;
                            ensure!(got == x.whole, "{}: refused before the failure as {:?} instead of {:?}", what(), got.0.err(), x.whole.0.as_ref().err());
                            c.seen("refused before", &(&x.name, i));
                        }
                    }
                    Ok(k) => {
                        ensure!(!x.complete || p >= x.bytes.len(), "{}: not reported", what());
                        let got = see(Ok(k), &cred)?;
                        ensure!(got == x.whole, "{}: opens with a different result", what());
                        c.seen("complete before", &(&x.name, i));
                    }
                }
            }
            Ok(())
        });
    }
    // from files by path: every beginning of every input, whatever the file is called
    let scratch = super::c22::Scratch::new();
    for x in &inputs {
        let n = x.bytes.len() as u64;
        let stem = x.name.replace([' ', '#', '.'], "");
        e.phase(&format!("paths:{stem}"), n + 1, |i, c| {
            let part = &x.bytes[..i as usize];
            let whole = see(api("from_reader", || kdbx_rs::from_reader(part))?, &cred)?;
            let p = scratch.file(part);
            let got = see(api("open", || kdbx_rs::open(&p))?, &cred)?;
            let after = std::fs::read(&p);
            let _ = std::fs::remove_file(&p);
            ensure!(got == whole, "{}: the first {i} bytes as a file: result differs from that of the bytes", x.name);
            ensure!(after.is_ok_and(|b| b == part), "{}: the first {i} bytes as a file: the file is changed", x.name);
            c.seen(if got.0.is_ok() { "opened" } else { "refused" }, &(&x.name, i));
            Ok(())
        });
    }
    use std::os::unix::ffi::OsStrExt;
    let names: Vec<Vec<u8>> = {
        let mut v: Vec<Vec<u8>> = ["a", ".a", "a.kdbx", "a.KDBX", "a.kdb", "a.xml", "a.kdbx.gz", "a b", " a", "a ", "a\nb", "-a", "--", "~", "%20", "*", "$HOME", "file:a", "con", "\u{e9}", "e\u{301}", "\u{1f511}.kdbx"].iter().map(|s| s.as_bytes().to_vec()).collect();
        v.extend((1..=255u8).filter(|b| *b != b'/').map(|b| vec![b'n', b]));
        v.push(vec![b'x'; 255]);
        v.push(vec![0xff, 0xfe]);
        v
    };
    e.phase("file-names", names.len() as u64 * 6 * 2, |i, c| {
        let mut y = Dec(i);
        let name = y.of(&names);
        let x = &inputs[*y.of(&[0, inputs.len() - 6])];
        let dir = scratch.name();
        std::fs::create_dir_all(&dir).expect("scratch directory");
        let p = dir.join(std::ffi::OsStr::from_bytes(name));
        if std::fs::write(&p, &x.bytes).is_err() {
            let _ = std::fs::remove_dir_all(&dir);
            c.add("names the file system refuses", 1);
            return Ok(());
        }
        let how = y.pick(6);
        let got = match how {
            0 => api("open", || kdbx_rs::open(&p))?,
            1 => api("open", || kdbx_rs::open(p.clone()))?,
            2 => api("open", || kdbx_rs::open(p.as_os_str()))?,
            3 => {
                // through another directory and back
                std::fs::create_dir_all(dir.join("sub-directory")).expect("scratch directory");
                let q = dir.join("sub-directory").join("..").join(p.file_name().expect("a name"));
                api("open", || kdbx_rs::open(q))?
            }
            4 => {
                let q = dir.join("a link of this run");
                std::os::unix::fs::symlink(&p, &q).expect("scratch link");
                api("open", || kdbx_rs::open(q))?
            }
            _ => {
                // still open elsewhere, and read there up to the middle
                let mut f = std::fs::File::open(&p).expect("scratch file");
                let _ = f.read(&mut [0; 50]);
                let r = api("open", || kdbx_rs::open(&p))?;
                drop(f);
                r
            }
        };
        let got = see(got, &cred)?;
        let _ = std::fs::remove_dir_all(&dir);
        ensure!(got == x.whole, "{}: in a file called {:?}, opened in way {how}: result differs from that of the bytes", x.name, String::from_utf8_lossy(name));
        c.seen("same", &i);
        Ok(())
    });
    e.phase("no-files", 5, |i, c| {
        let p = scratch.name();
        let (p, kind) = match i {
            0 => (p, Some(io::ErrorKind::NotFound)),
            1 => (p.join("below nothing"), Some(io::ErrorKind::NotFound)),
            2 => {
                std::fs::create_dir_all(&p).expect("scratch directory");
                (p, None)
            }
            3 => {
                std::fs::write(&p, b"x").expect("scratch file");
                (p.join("below a file"), None)
            }
            _ => (std::path::PathBuf::from(""), Some(io::ErrorKind::NotFound)),
        };
        match api("open", || kdbx_rs::open(&p))? {
            Ok(_) => bail!("{p:?} opens"),
            Err(kdbx_rs::errors::OpenError::Io(err)) => ensure!(kind.map_or(true, |k| k == err.kind()), "{p:?}: reported as {err:?}"),
            Err(err) => bail!("{p:?}: reported as {err:?}"),
        }
        let _ = std::fs::remove_dir_all(&p);
        let _ = std::fs::remove_file(&p);
        c.seen("reported", &i);
        Ok(())
    });
    drop(scratch);
    // a large archive: buffer sizes
    let big = {
        let mut d = small();
        d.root.entries[0].fields[0].value = "0123456789abcdef".repeat(20_000);
        d
    };
    for (j, (bytes, major)) in [(file4(&some_cfgs()[0], &big), 4), (file3(&c3[0], &big), 3)].into_iter().enumerate() {
        let whole = match api("from_reader", || kdbx_rs::from_reader(bytes.as_slice())).and_then(|r| see(r, &cred)) {
            Ok(w) => w,
            Err(v) => {
                e.phase("large", 1, |_, _| Err(Violation { msg: v.msg.clone(), key: v.key.clone() }));
                return;
            }
        };
        let x = Input { name: format!("large KDBX {major}"), bytes, whole, complete: true };
        let sizes: Vec<usize> = [1, 2, 3, 16, 512, 1024, 4096, 8192, 16384, 32768, 65536, 131072, 262144].iter().flat_map(|s| [s - 1, *s, s + 1]).filter(|s| *s > 0).collect();
        e.phase(&format!("large-chunks:{j}"), sizes.len() as u64, |i, c| {
            let mut s = Source::new(&x.bytes);
            s.chunk = sizes[i as usize];
            compare(&x, s, &|| format!("reads of {} bytes", sizes[i as usize]))?;
            c.seen("same", &(j, i));
            Ok(())
        });
        let unit = if thorough { 512 } else { 4096 };
        let m = x.bytes.len() / unit + 1;
        e.phase(&format!("large-failures:{j}"), m as u64 * 5 * 2, |i, c| {
            let mut y = Dec(i);
            let p = (y.pick(m as u64) * unit + y.pick(5)).saturating_sub(2);
            let kind = *y.of(&[io::ErrorKind::Other, io::ErrorKind::WouldBlock]);
            if p >= x.bytes.len() {
                return Ok(());
            }
            let mut s = Source::new(&x.bytes);
            s.fail = Some((p, kind));
            match api("from_reader", || kdbx_rs::from_reader(s))? {
                Err(err) => ensure!(chain_has_mark(&err), "{}: failure at {p} reported as {err:?}", x.name),
                Ok(_) => bail!("{}: failure at {p} not reported", x.name),
            }
            let cuts = [p];
            let mut s = Source::new(&x.bytes);
            s.cuts = &cuts;
            if kind == io::ErrorKind::Other {
                compare(&x, s, &|| format!("split at {p}"))?;
            }
            c.seen("reported", &(j, i));
            Ok(())
        });
    }
    // ---- XML ----
    let ks = |i: usize| match i % 2 {
        0 => kdbx_rs::binary::InnerStreamCipherAlgorithm::Salsa20,
        _ => kdbx_rs::binary::InnerStreamCipherAlgorithm::ChaCha20,
    };
    let key = bytes(64, 5);
    let texty = {
        let mut r = rich();
        r.name = "\u{e9}\u{20ac}\u{1f600}&<>\r\n\t x".into();
        r
    };
    let decorated = {
        let t = render(&dom_db(&small(), TimeForm::B64), false, &mut KeyStream::new(Inner::Salsa, &key));
        let t = match t.find("?>") {
            Some(p) if t.starts_with("<?xml") => t[p + 2..].to_string(),
            _ => t,
        };
        let t = t.replacen("<Name>", "<!-- c --><?p i?><Name>\u{e9}<![CDATA[\u{20ac}]]]]><![CDATA[>&]]>&amp;&#x41;&#65;", 1);
        format!("\u{feff}<?xml version=\"1.0\" encoding=\"utf-8\" standalone='yes'?>\r\n<!-- \u{1f600} -->{t}\n").into_bytes()
    };
    let docs: Vec<(usize, Vec<u8>)> = vec![
        (0, render(&dom_db(&small(), TimeForm::B64), true, &mut KeyStream::new(Inner::Salsa, &key)).into_bytes()),
        (1, render(&dom_db(&texty, TimeForm::Iso), false, &mut KeyStream::new(Inner::Chacha, &key)).into_bytes()),
        (0, b"<KeePassFile><Root><Group><Name>x</Name></Group></Root>".to_vec()),
(0, decorated),
        (0, b"\xff<KeePassFile/>".to_vec()),
    ];
    for (j, (ci, doc)) in docs.iter().enumerate() {
        let parse = |s: Source| -> V<Result<MDb, String>> {
            let mut st = ks(*ci).stream_cipher(&key).expect("stream cipher");
            Ok(xml_result(api("parse_xml", || kdbx_rs::xml::parse_xml(s, st.as_mut()))?))
        };
        let n = doc.len() as u64;
        // what follows the root element is not part of the database
        let end = doc.iter().rposition(|b| *b == b'>').map_or(0, |p| p + 1);
        let whole = match parse(Source::new(doc)) {
            Ok(w) => w,
            Err(v) => {
                e.phase("documents", 1, |_, _| Err(Violation { msg: v.msg.clone(), key: v.key.clone() }));
                return;
            }
        };
        e.phase(&format!("xml-chunks:{j}"), n + 1, |i, c| {
            for interrupt in [None, Some(usize::MAX)] {
                let mut s = Source::new(doc);
                s.chunk = i as usize + 1;
                s.interrupt = interrupt;
                let got = parse(s)?;
                ensure!(got == whole, "document {j} in reads of {} bytes (interruptions {}): {:?}", i + 1, interrupt.is_some(), got.err());
            }
            c.seen(if whole.is_ok() { "parsed" } else { "refused" }, &(j, i));
            Ok(())
        });
        e.phase(&format!("xml-splits:{j}"), n + 1, |i, c| {
            let p = i as usize;
            let cuts = [p];
            let mut s = Source::new(doc);
            s.cuts = &cuts;
            let got = parse(s)?;
            ensure!(got == whole, "document {j} split at {p}: {:?}", got.err());
            let mut s = Source::new(doc);
            s.interrupt = Some(p);
            s.repeat = 2;
            let got = parse(s)?;
            ensure!(got == whole, "document {j} interrupted at {p}: {:?}", got.err());
            c.seen(if whole.is_ok() { "parsed" } else { "refused" }, &(j, i));
            Ok(())
        });
        e.phase(&format!("xml-failures:{j}"), (n + 1) * KINDS.len() as u64, |i, c| {
            let mut y = Dec(i);
            let kind = *y.of(&KINDS);
            let p = y.0 as usize;
            for chunk in [usize::MAX, 1] {
                let mut s = Source::new(doc);
                s.fail = Some((p, kind));
                s.chunk = chunk;
                let mut st = ks(*ci).stream_cipher(&key).expect("stream cipher");
                let (r, failures) = api("parse_xml", || {
                    let r = kdbx_rs::xml::parse_xml(&mut s, st.as_mut());
                    (r, s.failures)
                })?;
                match r {
                    Err(err) if failures > 0 => {
                        ensure!(chain_has_mark(&err) || kind == io::ErrorKind::UnexpectedEof, "document {j}: source fails with {kind:?} at byte {p}, reported as {err:?}");
                        c.seen("reported", &(j, i));
                    }
                    Err(err) => {
                        ensure!(whole.is_err(), "document {j}: refused before the failure at {p}: {err}");
                        c.seen("refused before", &(j, i));
                    }
                    Ok(db) => {
                        ensure!(p >= end, "document {j}: failure with {kind:?} at byte {p} not reported");
                        ensure!(Ok(observe(&db)) == whole, "document {j}: other content");
                        c.seen("complete before", &(j, i));
                    }
                }
            }
            Ok(())
        });
    }
}
