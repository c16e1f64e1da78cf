//! Command-line tools answer every invocation without crashing.

use super::c07::{count_els, edit, plain4, seal3, seal4, NASTY};
use crate::engine::*;
use crate::layouts::*;
use crate::lib_io::*;
use crate::model::*;
use crate::refcodec::*;
use crate::refxml::*;
use crate::{bail, ensure};
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

const TOOLS: [&str; 3] = ["kdbx-decrypt", "kdbx-parse", "kdbx-dump-header"];

/// A directory of this run, removed with everything in it.
pub(crate) struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        let base = Path::new(&std::env::var("VERIF_DIR").unwrap_or_else(|_| ".".into())).join("harness/target");
        // left over by runs that ended in a violation
        for f in std::fs::read_dir(&base).into_iter().flatten().flatten() {
            let name = f.file_name().to_string_lossy().into_owned();
            if name.strip_prefix("scratch-").is_some_and(|pid| !Path::new("/proc").join(pid).exists()) {
                let _ = std::fs::remove_dir_all(f.path());
            }
        }
        let p = base.join(format!("scratch-{}", std::process::id()));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
    pub fn name(&self) -> PathBuf {
        static N: AtomicU64 = AtomicU64::new(0);
        self.0.join(format!("f{}", N.fetch_add(1, Ordering::Relaxed)))
    }
    pub fn file(&self, b: &[u8]) -> PathBuf {
        let p = self.name();
        std::fs::write(&p, b).expect("scratch file");
        p
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

struct Answer {
    code: i32,
    out: Vec<u8>,
    err: String,
}

/// Runs a tool; a crash is a violation.
fn run_tool(tool: &str, args: &[OsString], dir: &Path, what: &dyn Fn() -> String) -> V<Answer> {
    let bin = Path::new(&std::env::var("VERIF_DIR").unwrap_or_else(|_| ".".into())).join("harness/target/cli/release").join(tool);
    let mut c = Command::new(bin);
    c.args(args).current_dir(dir).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).env_clear();
    let child = match c.spawn() {
        Ok(o) => o,
        Err(e) => panic!("{tool} cannot be started: {e}"),
    };
    // a tool that does not come to an end is stopped by the system
    for (what, n) in [(libc::RLIMIT_CPU, 60), (libc::RLIMIT_AS, 4 << 30)] {
        let l = libc::rlimit { rlim_cur: n, rlim_max: n };
        unsafe { libc::prlimit(child.id() as i32, what, &l, std::ptr::null_mut()) };
    }
    let o = match child.wait_with_output() {
        Ok(o) => o,
        Err(e) => panic!("{tool} cannot be run: {e}"),
    };
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    let brief = err.chars().take(300).collect::<String>();
    if let Some(s) = o.status.signal() {
        return Err(format!("{}: {tool} killed by signal {s}: {brief}", what()).into());
    }
    let code = o.status.code().unwrap_or(-1);
    ensure_v(code != 101 && !err.contains("panicked at"), || format!("{}: {tool} crashed with status {code}: {brief}", what()))?;
    if code != 0 {
        ensure_v(!err.trim().is_empty(), || format!("{}: {tool} fails with status {code} and no message", what()))?;
    }
    Ok(Answer { code, out: o.stdout, err })
}
fn ensure_v(ok: bool, m: impl Fn() -> String) -> V<()> {
    if ok {
        Ok(())
    } else {
        Err(m().into())
    }
}

/// What a tool has to show of an opened archive.
fn shown(tool: &str, k: &kdbx_rs::Kdbx<kdbx_rs::binary::Unlocked>, out: &[u8], what: &dyn Fn() -> String) -> V<()> {
    if tool == "kdbx-decrypt" {
        let mut want = k.raw_xml().unwrap_or(&[]).to_vec();
        want.push(b'\n');
        if out != want {
            let p = out.iter().zip(&want).take_while(|(a, b)| a == b).count();
            return Err(format!("{}: kdbx-decrypt prints {} bytes instead of {}, first difference at {p}", what(), out.len(), want.len()).into());
        }
        return Ok(());
    }
    let text = String::from_utf8_lossy(out);
    let mut want: Vec<String> = vec![];
    if tool == "kdbx-parse" {
        fn group(g: &MGroup, w: &mut Vec<String>) {
            w.push(format!("{:?}", g.name));
            for e in &g.entries {
                for f in &e.fields {
                    w.push(format!("{:?}", f.key));
                    w.push(format!("{:?}", f.value));
                }
            }
            for g in &g.groups {
                group(g, w);
            }
        }
        let d = observe(k.database());
        want.push(format!("{:?}", d.name));
        group(&d.root, &mut want);
        want.retain(|w| w.len() > 2);
    } else {
        let h = k.header();
        want.push(format!("{}.{}", k.major_version(), k.minor_version()));
        want.push(format!("{:?}", h.cipher));
        want.push(format!("{:?}", h.master_seed));
        want.push(format!("{:?}", h.encryption_iv));
        want.push(format!("{:?}", h.compression_type));
    }
    for w in want {
        ensure_v(text.contains(&w), || format!("{}: {tool} does not print {w}", what()))?;
    }
    Ok(())
}

/// Runs one reading tool on a file and compares with what the library says about it in this process.
fn judge(s: &Scratch, tool: usize, b: &[u8], cred: &Cred, with_password: bool, what: &dyn Fn() -> String) -> V<&'static str> {
    let tool = TOOLS[tool];
    let p = s.file(b);
    let mut args = vec![p.clone().into_os_string()];
    if with_password {
        args.push(cred.pw.clone().unwrap_or_default().into());
    }
    let r = run_tool(tool, &args, &s.0, what);
    let _ = std::fs::remove_file(&p);
    let a = r?;
    let opened = if tool == "kdbx-dump-header" {
        match open(b)? {
            Err(e) => Err(e),
            Ok(k) => {
                let text = String::from_utf8_lossy(&a.out).into_owned();
                if a.code == 0 {
                    let h = k.header();
                    for w in [format!("{}.{}", k.major_version(), k.minor_version()), format!("{:?}", h.cipher), format!("{:?}", h.compression_type), format!("{:?}", h.master_seed), format!("{:?}", h.encryption_iv)] {
                        ensure_v(text.contains(&w), || format!("{}: {tool} does not print {w}", what()))?;
                    }
                }
                Ok(())
            }
        }
    } else {
        match load(b, cred)? {
            Err(e) => Err(e),
            Ok(k) => {
                if a.code == 0 {
                    shown(tool, &k, &a.out, what)?;
                }
                Ok(())
            }
        }
    };
    match (opened, a.code) {
        (Ok(()), 0) => Ok("shown"),
        (Err(_), n) if n != 0 => Ok("refused"),
        (Ok(()), n) => Err(format!("{}: {tool} fails with status {n} on an archive the library opens: {}", what(), a.err.chars().take(300).collect::<String>()).into()),
        (Err(e), _) => Err(format!("{}: {tool} reports success although the library says: {e}", what()).into()),
    }
}

fn pw(c: &Cfg, p: &str) -> Cfg {
    let mut c = c.clone();
    c.cred = Cred::pw(p);
    c
}

pub fn run(e: &mut Engine) {
    e.rule = "a case is one process: tool, arguments and file; distinct by these; judged against what the library answers in-process and against the stored document".into();
    e.assumptions.push("the tools are built from /repo with overflow checks and debug assertions".into());
    let scratch = Scratch::new();
    let s = &scratch;
    let thorough = !e.quick();
    let d = small();

    // -- archives that open --
    let mut good: Vec<(Cfg, bool, Vec<u8>, String)> = vec![];
    for (i, c) in all_cfgs().iter().enumerate() {
        let c = pw(c, ["kdbxrs", "", "p\u{e4}ssw\u{f6}rd \u{1F511}", "with blank", "-p", "a\nb\"c'"][i % 6]);
        good.push((c.clone(), false, file4(&c, &d), format!("{:?} {:?} {:?}", c.cipher, c.comp, c.inner)));
    }
    for (i, c) in cfgs3().iter().enumerate() {
        let c = pw(c, ["kdbxrs", "", "\u{43f}"][i % 3]);
        good.push((c.clone(), true, file3(&c, &d), format!("version 3, {:?} {:?} {:?}", c.cipher, c.comp, c.inner)));
    }
    e.phase("archives", good.len() as u64 * 3, |i, c| {
        let mut x = Dec(i);
        let t = x.pick(3);
        let (cfg, _, b, what) = &good[x.0 as usize];
        let r = judge(s, t, b, &cfg.cred, true, &|| what.clone())?;
        ensure!(r == "shown", "{what}: {} fails", TOOLS[t]);
        if cfg.cred.pw.as_deref() == Some("kdbxrs") {
            ensure!(judge(s, t, b, &cfg.cred, false, &|| what.clone())? == "shown", "{what}: {} fails without a password argument", TOOLS[t]);
        }
        c.seen("shown", &i);
        c.sample(|| format!("{} on {what}", TOOLS[t]));
        Ok(())
    });
    // -- wrong passwords: one-character neighbours and others --
    let wrong = ["", " ", "kdbxr", "kdbxrs ", " kdbxrs", "Kdbxrs", "kdbxrt", "kdbxrskdbxrs", "\u{e9}", "x"];
    e.phase("wrong-passwords", good.len() as u64 * 2 * wrong.len() as u64, |i, c| {
        let mut x = Dec(i);
        let t = x.pick(2);
        let w = *x.of(&wrong);
        let (cfg, _, b, what) = &good[x.0 as usize];
        if cfg.cred.pw.as_deref() == Some(w) {
            c.seen("trivial", &0);
            return Ok(());
        }
        let r = judge(s, t, b, &Cred::pw(w), true, &|| format!("{what}, password {w:?}"))?;
        ensure!(r == "refused", "{what}: {} accepts {w:?}", TOOLS[t]);
        c.seen("refused", &i);
        Ok(())
    });
    // -- layouts and contents --
    for (v, spaces) in [(4, files4(thorough)), (3, files3(thorough))] {
        for sp in spaces {
            let most = if sp.name == "depth" { e.pick(100, 900) } else { e.pick(1000, 10_000) };
            let step = sp.n.div_ceil(most).max(1);
            e.phase(&format!("v{v}:{}", sp.name), sp.n / step, |i, c| {
                let x = (sp.make)(i * step);
                // a value is only one argument; key files cannot be given
                if x.bytes.is_empty() || matches!(x.cfg.comp, Comp::Gzip(_, 4)) || x.cfg.cred.kf.is_some() || x.cfg.cred.pw.as_ref().is_none_or(|p| p.contains('\0')) {
                    c.seen("trivial", &0);
                    return Ok(());
                }
                let t = i as usize % 3;
                let r = judge(s, t, &x.bytes, &x.cfg.cred, true, &|| x.what.clone())?;
                ensure!(r == "shown", "{}: {} fails", x.what, TOOLS[t]);
                c.seen("shown", &(t, &x.bytes));
                c.sample(|| format!("{} on {}", TOOLS[t], x.what));
                Ok(())
            });
        }
    }
    // -- argument lists --
    let file = s.file(&good[0].2);
    let dir = s.name();
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let odd = {
        let mut v = s.name().into_os_string().into_vec();
        v.extend(b"\xff\xfe.kdbx");
        let p = PathBuf::from(OsString::from_vec(v));
        std::fs::write(&p, &good[0].2).expect("scratch file");
        p
    };
    let link = s.name();
    let _ = std::os::unix::fs::symlink(&link, &link);
    let words_: Vec<(OsString, &str)> = vec![
        (file.clone().into(), "file"),
        (odd.into(), "file"),
        (s.name().into(), "missing"),
        (dir.clone().into(), "missing"),
        (link.into(), "missing"),
        (OsString::new(), "missing"),
        ("kdbxrs".into(), "password"),
        ("wrong".into(), "missing"),
        (OsStr::from_bytes(b"\xff\xfe").into(), "missing"),
        ("--help".into(), "option"),
        ("-".into(), "option"),
        ("/dev/null".into(), "missing"),
        ("/dev/zero".into(), "missing"),
        ("x".repeat(5000).into(), "missing"),
        ("a/b/c".into(), "missing"),
    ];
    let len = 3;
    let k = words_.len() as u64;
    e.phase("arguments", words(k, len) * 3, |i, c| {
        let mut x = Dec(i);
        let t = x.pick(3);
        let w = word(k, x.0);
        let args: Vec<OsString> = w.iter().map(|j| words_[*j].0.clone()).collect();
        let kinds: Vec<&str> = w.iter().map(|j| words_[*j].1).collect();
        let what = || format!("arguments {:?}", args.iter().map(|a| a.to_string_lossy().chars().take(40).collect::<String>()).collect::<Vec<_>>());
        let a = run_tool(TOOLS[t], &args, &s.0, &what)?;
        let must = match (t, kinds.as_slice()) {
            (_, []) => Some(false),
            (2, ["file"]) | (_, ["file"]) | (0 | 1, ["file", "password"]) => Some(true),
            (_, ["missing", ..]) | (_, ["password", ..]) => Some(false),
            (0 | 1, ["file", "missing"]) => Some(false),
            // what extra arguments or option-like ones mean is not laid down
            _ => None,
        };
        match must {
            Some(true) => ensure!(a.code == 0 && !a.out.is_empty(), "{}: {} fails: {}", what(), TOOLS[t], a.err),
            Some(false) => ensure!(a.code != 0, "{}: {} reports success", what(), TOOLS[t]),
            None => {}
        }
        c.seen(if a.code == 0 { "shown" } else { "refused" }, &i);
        c.sample(|| format!("{} with {}", TOOLS[t], what()));
        Ok(())
    });

    // -- damaged files --
    let bases: Vec<(&str, Cfg, Vec<u8>)> = {
        let c4 = Cfg::plain();
        let z4 = Cfg::new(Ciph::Chacha, Comp::Gzip(6, 0), aeskdf(1), Inner::Salsa);
        let c3 = plain3();
        vec![("version 4", c4.clone(), file4(&c4, &d)), ("version 4, compressed", z4.clone(), file4(&z4, &d)), ("version 3", c3.clone(), file3(&c3, &d))]
    };
    for (j, (name, cfg, b)) in bases.iter().enumerate() {
        e.phase(&format!("truncated.{j}"), b.len() as u64 * 3, |i, c| {
            let mut x = Dec(i);
            let t = x.pick(3);
            let n = x.0 as usize;
            let r = judge(s, t, &b[..n], &cfg.cred, true, &|| format!("{name}, {n} bytes of {}", b.len()))?;
            c.seen(r, &i);
            Ok(())
        });
        let bits = 8;
        e.phase(&format!("altered.{j}"), b.len() as u64 * 3 * bits, |i, c| {
            let mut x = Dec(i);
            let t = x.pick(3);
            let bit = x.pick(bits);
            let at = x.0 as usize;
            let mut m = b.clone();
            m[at] ^= 1 << ((bit + at) % 8);
            if !super::c06::affordable(&m) {
                c.seen("trivial", &0);
                return Ok(());
            }
            let r = judge(s, t, &m, &cfg.cred, true, &|| format!("{name}, bit {} of byte {at} changed", (bit + at) % 8))?;
            c.seen(r, &i);
            Ok(())
        });
    }
    // headers: each field missing, repeated, emptied, shortened, enlarged, overwritten; authenticated again
    let (c4, c3) = (&bases[0].1, &bases[2].1);
    let (l4, l3) = (Layout4::of(c4), Layout3::of(c3));
    let xml4 = c4.xml4(&d);
    let xml3_ = xml3(c3, &l3, &d, false);
    e.phase("headers", 2 * 10 * 14 * 3, |i, c| {
        let mut x = Dec(i);
        let t = x.pick(3);
        let v3 = x.pick(2) == 1;
        let at = x.pick(10);
        let how = x.pick(14);
        let mut f = if v3 { l3.fields.clone() } else { l4.fields.clone() };
        if at >= f.len() {
            c.seen("trivial", &0);
            return Ok(());
        }
        match how {
            0 => {
                f.remove(at);
            }
            1 => {
                let y = f[at].clone();
                f.push(y);
            }
            2 => f[at].1.clear(),
            3 => {
                f[at].1.pop();
            }
            4 => f[at].1.push(0),
            5 => f[at].1.extend([7; 100]),
            6 => f[at].1.iter_mut().for_each(|b| *b = 0),
            7 => f[at].1.iter_mut().for_each(|b| *b = 255),
            8 => f[at].1[0] ^= 0x80,
            9 => f[at].1.truncate(1),
            10 => f[at].0 = 200,
            11 => f.truncate(at),
            12 => f[at].1 = bytes(4, 1),
            _ => f.swap(0, at),
        }
        let h = if v3 { header_bytes(3, 1, &f, &l3.end) } else { header_bytes(4, 0, &f, &l4.end) };
        if !super::c06::affordable(&h) {
            c.seen("trivial", &0);
            return Ok(());
        }
        let b = if v3 { seal3(&h, c3, &hashed_blocks(&[&xml3_], true)) } else { seal4(&h, c4, &plain4(c4, &xml4)) };
        let r = judge(s, t, &b, &c4.cred, true, &|| format!("version 3: {v3}, header field {at} changed in way {how}"))?;
        c.seen(r, &i);
        c.sample(|| format!("{}: version 3: {v3}, header field {at} changed in way {how}", TOOLS[t]));
        Ok(())
    });
    // key derivation settings, usable or not: every pair of values
    let values = [0u64, 1, 2, 3, 7, 8, 16, 0x10, 0x13, 1023, 1024, 8192, u32::MAX as u64, u32::MAX as u64 + 1, 1 << 63, u64::MAX];
    let nv = values.len() as u64;
    e.phase("derivations", 2 * 7 * nv * nv * 3, |i, c| {
        let mut x = Dec(i);
        let t = x.pick(3);
        let (a, b) = (*x.of(&values), *x.of(&values));
        let id = x.pick(2) == 1;
        let pair = x.pick(7);
        let (mut mem, mut version, mut iters, mut lanes) = (8192, 0x13, 1, 1);
        match pair {
            0 => (mem, version) = (a, b as u32),
            1 => (mem, iters) = (a, b),
            2 => (mem, lanes) = (a, b as u32),
            3 => (version, iters) = (a as u32, b),
            4 => (version, lanes) = (a as u32, b as u32),
            5 => (iters, lanes) = (a, b as u32),
            _ => {}
        }
        let kdf = if pair < 6 {
            Kdf::Argon { id, mem, version, iters, lanes, salt: bytes(32, 3) }
        } else {
            Kdf::Aes { rounds: a, salt: bytes((b % 100) as usize, 4), legacy_uuid: id }
        };
        let mut f = l4.fields.clone();
        f.iter_mut().find(|f| f.0 == 11).unwrap().1 = dict_bytes(&kdf.dict());
        let h = header_bytes(4, 0, &f, &l4.end);
        let file = if super::c06::affordable(&h) {
            seal4(&h, c4, &plain4(c4, &xml4))
        } else if t == 2 {
            [h.as_slice(), &sha256(&h), &[0; 36]].concat()
        } else {
            c.seen("trivial", &0);
            return Ok(());
        };
        let r = judge(s, t, &file, &c4.cred, true, &|| format!("settings {kdf:?}"))?;
        c.seen(r, &(t, &file));
        c.sample(|| format!("{}: settings {kdf:?}", TOOLS[t]));
        Ok(())
    });
    // unknown derivations with any of the known parameters and others
    e.phase("unknown-derivations", 4 * 128 * 2 * 3, |i, c| {
        let mut x = Dec(i);
        let t = x.pick(3);
        let known = x.pick(2) == 1;
        let set = x.pick(128);
        let mut other = aeskdf(1).uuid().as_bytes().to_vec();
        other[15] ^= 1;
        let uuids = [vec![0; 16], vec![0xff; 16], bytes(16, 77), other];
        let uuid = if known { [aeskdf(1), argon(true)][x.0 as usize % 2].uuid().as_bytes().to_vec() } else { uuids[x.0 as usize].clone() };
        let params: [(u8, &str, Vec<u8>); 7] = [
            (0x42, "S", bytes(32, 3)),
            (4, "P", vec![1, 0, 0, 0]),
            (5, "M", 8192u64.to_le_bytes().to_vec()),
            (5, "I", 1u64.to_le_bytes().to_vec()),
            (4, "V", vec![0x13, 0, 0, 0]),
            (5, "R", 10u64.to_le_bytes().to_vec()),
            (0x42, "X", vec![]),
        ];
        let mut dict = vec![(0x42, "$UUID".to_string(), uuid)];
        for (j, p) in params.iter().enumerate() {
            if set >> j & 1 == 1 {
                dict.push((p.0, p.1.to_string(), p.2.clone()));
            }
        }
        let mut f = l4.fields.clone();
        f.iter_mut().find(|f| f.0 == 11).unwrap().1 = dict_bytes(&dict);
        let h = header_bytes(4, 0, &f, &l4.end);
        let file = [h.as_slice(), &sha256(&h), &[0; 36]].concat();
        let r = judge(s, t, &file, &c4.cred, true, &|| format!("derivation of {dict:?}"))?;
        c.seen(r, &(t, &file));
        c.sample(|| format!("{}: derivation of {dict:?}", TOOLS[t]));
        Ok(())
    });
    // versions and signatures
    e.phase("versions", 2 * 40 * 3, |i, c| {
        let mut x = Dec(i);
        let t = x.pick(3);
        let v3 = x.pick(2) == 1;
        let mut b = bases[if v3 { 2 } else { 0 }].2.clone();
        match x.0 {
            k @ 0..=9 => b[10..12].copy_from_slice(&[k as u8, 0]),
            k @ 10..=19 => b[10..12].copy_from_slice(&[[1, 255, 128, 5, 4, 3, 2, 0, 9, 64][k as usize - 10], k as u8 - 9]),
            k @ 20..=27 => b[k as usize - 20] ^= 1,
            28 => b[4..8].copy_from_slice(&[0x65, 0xfb, 0x4b, 0xb5]),
            29 => b[4..8].copy_from_slice(&[0x66, 0xfb, 0x4b, 0xb5]),
            30 => b = b"not a database\n".to_vec(),
            31 => b.clear(),
            32 => b = vec![0; 100],
            33 => b = vec![255; 4096],
            34 => b = b"<?xml version=\"1.0\"?><KeePassFile/>".to_vec(),
            35 => b.extend(b"trailing"),
            36 => b.extend(b.clone()),
            37 => b.insert(0, b'x'),
            38 => {
                b.remove(0);
            }
            _ => b.reverse(),
        }
        let r = judge(s, t, &b, &c4.cred, true, &|| format!("version 3: {v3}, beginning changed in way {}", x.0))?;
        c.seen(r, &i);
        Ok(())
    });
    // documents: nasty text in every element, elements missing; authenticated again
    let dom = dom_db(&rich(), TimeForm::B64);
    let els = count_els(&dom) as u64;
    let texts = NASTY;
    let nt = texts.len() as u64 + 1;
    e.phase("documents", els * nt * 2, |i, c| {
        let mut x = Dec(i);
        let t = x.pick(2);
        let k = x.pick(nt);
        let mut at = x.0 as usize;
        let mut m = dom.clone();
        let hit = edit(&mut m, &mut at, &mut |kids, p| {
            if k < texts.len() {
                if let Node::El(e) = &mut kids[p] {
                    e.kids = vec![Node::Text(texts[k].into())];
                }
            } else {
                kids.remove(p);
            }
        });
        if !hit {
            c.seen("trivial", &0);
            return Ok(());
        }
        let xml = render(&m, false, &mut c4.keystream());
        let b = encode4(c4, &l4, xml.as_bytes());
        let p = s.file(&b);
        let args = vec![p.clone().into_os_string(), "kdbxrs".into()];
        let what = || format!("element {} with text {:?}", x.0, texts.get(k));
        let r = run_tool(TOOLS[t], &args, &s.0, &what);
        let _ = std::fs::remove_file(&p);
        let a = r?;
        let opened = load(&b, &c4.cred)?;
        ensure!(opened.is_ok() == (a.code == 0), "{}: {} ends with status {}, the library says {:?}", what(), TOOLS[t], a.code, opened.err());
        if t == 0 && a.code == 0 {
            let mut want = xml.clone().into_bytes();
            want.push(b'\n');
            ensure!(a.out == want, "{}: kdbx-decrypt prints another document", what());
        }
        c.seen(if a.code == 0 { "shown" } else { "refused" }, &i);
        Ok(())
    });
    // text that is not XML at all, deep nesting
    e.phase("broken-documents", 22 * 2, |i, c| {
        let mut x = Dec(i);
        let t = x.pick(2);
        let k = x.0 as usize;
        let xml: Vec<u8> = match k {
            0 => vec![],
            1 => b"x".to_vec(),
            2 => xml4[..xml4.len() / 2].to_vec(),
            3 => xml4[..xml4.len() - 1].to_vec(),
            4 => b"<KeePassFile/>".to_vec(),
            5 => b"<KeePassFile></KeePassFil>".to_vec(),
            6 => b"<a/>".to_vec(),
            7 => vec![0; 64],
            8 => vec![0xff; 64],
            9 => b"<KeePassFile><Root/></KeePassFile>".to_vec(),
            10 => b"<KeePassFile><Meta/></KeePassFile>".to_vec(),
            11 => b"<KeePassFile><Root><Group/></Root></KeePassFile>".to_vec(),
            12 => [xml4.as_slice(), b"<x/>"].concat(),
            13 => [xml4.as_slice(), b"\0"].concat(),
            14 => [b"\xef\xbb\xbf".as_slice(), &xml4].concat(),
            15 => xml4.iter().map(|b| if *b == b'>' { b'<' } else { *b }).collect(),
            16..=18 => {
                let n = [100usize, 1000, 3000][k - 16];
                ["<KeePassFile><Root>".to_string(), "<Group>".repeat(n), "</Group>".repeat(n), "</Root></KeePassFile>".into()].concat().into_bytes()
            }
            19 => [b"<KeePassFile><Root><Group><Entry><String><Key>a</Key><Value>".as_slice(), &vec![b'x'; 3 << 20], b"</Value></String></Entry></Group></Root></KeePassFile>"].concat(),
            20 => b"<KeePassFile><Root><Group><Entry><String><Key>a</Key><Value Protected=\"True\">!!!</Value></String></Entry></Group></Root></KeePassFile>".to_vec(),
            _ => b"<KeePassFile><Root><Group><Entry><String><Key>a</Key><Value Protected=\"True\">////</Value></String></Entry></Group></Root></KeePassFile>".to_vec(),
        };
        let b = encode4(c4, &l4, &xml);
        let p = s.file(&b);
        let what = || format!("broken document {k}");
        let r = run_tool(TOOLS[t], &[p.clone().into_os_string(), "kdbxrs".into()], &s.0, &what);
        let _ = std::fs::remove_file(&p);
        let a = r?;
        let opened = load(&b, &c4.cred)?;
        ensure!(opened.is_ok() == (a.code == 0), "{}: {} ends with status {}, the library says {:?}", what(), TOOLS[t], a.code, opened.err());
        c.seen(if a.code == 0 { "shown" } else { "refused" }, &i);
        Ok(())
    });
    // -- kdbx-generate --
    let cred = Cred::pw("kdbxrs");
    e.phase("generate", 8, |k, c| {
        let dir = s.name();
        std::fs::create_dir_all(&dir).expect("scratch directory");
        let target = dir.join("kdbx_rs.kdbx");
        let mut args: Vec<OsString> = vec![];
        match k {
            0 => {}
            1 => std::fs::write(&target, vec![b'x'; 100_000]).expect("scratch file"),
            2 => std::fs::create_dir(&target).expect("scratch directory"),
            3 => std::os::unix::fs::symlink("/dev/full", &target).expect("link"),
            4 => std::os::unix::fs::symlink(&target, &target).expect("link"),
            5 => std::os::unix::fs::symlink(dir.join("none/none"), &target).expect("link"),
            6 => args.push("extra".into()),
            _ => args.push(OsStr::from_bytes(b"\xff").into()),
        }
        let works = matches!(k, 0 | 1 | 6 | 7);
        let a = run_tool("kdbx-generate", &args, &dir, &|| format!("situation {k}"))?;
        if works {
            ensure!(a.code == 0, "kdbx-generate fails in situation {k}: {}", a.err);
            let b = std::fs::read(&target).unwrap_or_default();
            let got = match decode(&b, &cred) {
                Ok(x) => x.db(),
                Err(e) => bail!("kdbx-generate writes an invalid file in situation {k}: {e}"),
            };
            let got = got.map_err(|e| Violation::from(format!("kdbx-generate writes an invalid document: {e}")))?;
            ensure!(got.name == "BarName" && got.root.entries.len() == 1 && got.root.entries[0].fields.iter().any(|f| f.key == "Password" && f.value == "kdbxrs"), "kdbx-generate writes another database: {got:?}");
        } else {
            ensure!(a.code != 0, "kdbx-generate reports success in situation {k}");
        }
        c.seen(if works { "written" } else { "refused" }, &k);
        Ok(())
    });
}
