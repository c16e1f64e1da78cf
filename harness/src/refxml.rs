//! Reference XML layer: calendar, document model, writer and strict parser of the KeePass schema.

use crate::model::*;
use base64::prelude::{Engine as _, BASE64_STANDARD as B64};
use cipher::{KeyIvInit, StreamCipher};
use sha2::{Digest, Sha256, Sha512};

// ---- calendar (day 0 = 0001-01-01, proleptic Gregorian) ----

pub fn leap(y: i64) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
pub fn month_days(y: i64, m: u32) -> u32 {
    match m {
        2 => 28 + leap(y) as u32,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
pub fn days_from_civil(y: i64, m: u32, d: u32) -> i64 {
    let p = y - 1;
    let mut n = 365 * p + p.div_euclid(4) - p.div_euclid(100) + p.div_euclid(400);
    for k in 1..m {
        n += month_days(y, k) as i64;
    }
    n + d as i64 - 1
}
pub fn civil_from_days(days: i64) -> (i64, u32, u32) {
    let mut y = 1 + days.div_euclid(146_097) * 400;
    let mut rest = days.rem_euclid(146_097);
    let c = (rest / 36_524).min(3);
    rest -= c * 36_524;
    let q = rest / 1461;
    rest -= q * 1461;
    let s = (rest / 365).min(3);
    rest -= s * 365;
    y += c * 100 + q * 4 + s;
    let mut m = 1;
    while rest >= month_days(y, m) as i64 {
        rest -= month_days(y, m) as i64;
        m += 1;
    }
    (y, m, rest as u32 + 1)
}
pub fn iso(secs: i64) -> String {
    let (y, m, d) = civil_from_days(secs.div_euclid(86_400));
    let s = secs.rem_euclid(86_400);
    format!("{y:04}-{m:02}-{d:02}T{:02}:{:02}:{:02}Z", s / 3600, s / 60 % 60, s % 60)
}
pub fn b64(b: &[u8]) -> String {
    B64.encode(b)
}
pub fn unb64(s: &str) -> Option<Vec<u8>> {
    B64.decode(s).ok()
}

// ---- inner stream ----

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Inner {
    None,
    Salsa,
    Chacha,
}
pub enum KeyStream {
    None,
    Salsa(Box<salsa20::Salsa20>),
    Chacha(Box<chacha20::ChaCha20>),
}
impl KeyStream {
    pub fn new(i: Inner, key: &[u8]) -> KeyStream {
        match i {
            Inner::None => KeyStream::None,
            Inner::Salsa => {
                let k = Sha256::digest(key);
                let iv = [0xe8, 0x30, 0x09, 0x4b, 0x97, 0x20, 0x5d, 0x2a];
                KeyStream::Salsa(Box::new(salsa20::Salsa20::new_from_slices(&k, &iv).unwrap()))
            }
            Inner::Chacha => {
                let k = Sha512::digest(key);
                KeyStream::Chacha(Box::new(chacha20::ChaCha20::new_from_slices(&k[..32], &k[32..44]).unwrap()))
            }
        }
    }
    pub fn xor(&mut self, data: &mut [u8]) {
        match self {
            KeyStream::None => {}
            KeyStream::Salsa(c) => c.apply_keystream(data),
            KeyStream::Chacha(c) => c.apply_keystream(data),
        }
    }
}

// ---- document model ----

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    El(El),
    /// Text, escaped on output.
    Text(String),
    /// Clear text that is encrypted with the inner stream when rendered.
    Prot(Vec<u8>),
    /// Output verbatim.
    Raw(String),
}
#[derive(Clone, Debug, PartialEq)]
pub struct El {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Node>,
}
pub fn el(name: &str, kids: Vec<Node>) -> Node {
    Node::El(El { name: name.into(), attrs: vec![], kids })
}
pub fn txt(name: &str, s: &str) -> Node {
    el(name, if s.is_empty() { vec![] } else { vec![Node::Text(s.into())] })
}
pub fn protected_el(name: &str, v: &[u8]) -> Node {
    Node::El(El { name: name.into(), attrs: vec![("Protected".into(), "True".into())], kids: vec![Node::Prot(v.to_vec())] })
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum TimeForm {
    B64,
    Iso,
}

pub fn dom_bool(name: &str, b: bool) -> Node {
    txt(name, if b { "True" } else { "False" })
}
pub fn dom_field(tag: &str, x: &MField) -> Node {
    let v = if x.prot { protected_el("Value", x.value.as_bytes()) } else { txt("Value", &x.value) };
    el(tag, vec![txt("Key", &x.key), v])
}
pub fn dom_time(name: &str, t: i64, tf: TimeForm) -> Node {
    match tf {
        TimeForm::B64 => txt(name, &b64(&t.to_le_bytes())),
        TimeForm::Iso => txt(name, &iso(t)),
    }
}
pub fn dom_times(t: &MTimes, tf: TimeForm) -> Node {
    el("Times", vec![
        dom_time("CreationTime", t.t[1], tf),
        dom_time("LastModificationTime", t.t[0], tf),
        dom_time("LastAccessTime", t.t[2], tf),
        dom_time("ExpiryTime", t.t[3], tf),
        dom_bool("Expires", t.expires),
        txt("UsageCount", &t.usage.to_string()),
        dom_time("LocationChanged", t.t[4], tf),
    ])
}
pub fn dom_entry(e: &MEntry, tf: TimeForm) -> Node {
    let mut k = vec![txt("UUID", &b64(&e.uuid.to_be_bytes())), dom_times(&e.times, tf)];
    for x in &e.fields {
        k.push(dom_field("String", x));
    }
    if !e.history.is_empty() {
        k.push(el("History", e.history.iter().map(|h| dom_entry(h, tf)).collect()));
    }
    el("Entry", k)
}
pub fn dom_group(g: &MGroup, tf: TimeForm) -> Node {
    let mut k = vec![txt("UUID", &b64(&g.uuid.to_be_bytes())), txt("Name", &g.name), dom_times(&g.times, tf)];
    k.extend(g.entries.iter().map(|e| dom_entry(e, tf)));
    k.extend(g.groups.iter().map(|c| dom_group(c, tf)));
    el("Group", k)
}
pub fn dom_db(d: &MDb, tf: TimeForm) -> El {
    let meta = el("Meta", vec![
        txt("Generator", "reference"),
        txt("DatabaseName", &d.name),
        txt("DatabaseDescription", &d.desc),
        el("MemoryProtection", vec![
            dom_bool("ProtectTitle", d.mp[0]),
            dom_bool("ProtectUserName", d.mp[1]),
            dom_bool("ProtectPassword", d.mp[2]),
            dom_bool("ProtectURL", d.mp[3]),
            dom_bool("ProtectNotes", d.mp[4]),
        ]),
        el("CustomData", d.custom.iter().map(|x| dom_field("Item", x)).collect()),
    ]);
    match el("KeePassFile", vec![meta, el("Root", vec![dom_group(&d.root, tf)])]) {
        Node::El(e) => e,
        _ => unreachable!(),
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    for c in s.chars() {
        match c {
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '&' => o.push_str("&amp;"),
            // readers turn a bare carriage return into a newline
            '\r' => o.push_str("&#xD;"),
            c => o.push(c),
        }
    }
    o
}

fn render_into(e: &El, depth: usize, indent: bool, ks: &mut KeyStream, o: &mut String) {
    let pad = |o: &mut String, d: usize| {
        if indent {
            o.push('\n');
            for _ in 0..d {
                o.push('\t');
            }
        }
    };
    o.push('<');
    o.push_str(&e.name);
    for (k, v) in &e.attrs {
        o.push_str(&format!(" {k}=\"{}\"", esc(v).replace('"', "&quot;")));
    }
    if e.kids.is_empty() {
        o.push_str(" />");
        return;
    }
    o.push('>');
    let mixed = e.kids.iter().any(|k| !matches!(k, Node::El(_)));
    for k in &e.kids {
        match k {
            Node::El(c) => {
                if !mixed {
                    pad(o, depth + 1);
                }
                render_into(c, depth + 1, indent, ks, o)
            }
            Node::Text(s) => o.push_str(&esc(s)),
            Node::Prot(v) => {
                let mut v = v.clone();
                ks.xor(&mut v);
                o.push_str(&b64(&v));
            }
            Node::Raw(s) => o.push_str(s),
        }
    }
    if !mixed {
        pad(o, depth);
    }
    o.push_str("</");
    o.push_str(&e.name);
    o.push('>');
}

pub fn render(e: &El, indent: bool, ks: &mut KeyStream) -> String {
    let mut o = String::from("<?xml version=\"1.0\" encoding=\"utf-8\"?>");
    if indent {
        o.push('\n');
    }
    render_into(e, 0, indent, ks, &mut o);
    o
}

// ---- strict parser ----

type R<T> = Result<T, String>;

pub fn xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r') || (c >= ' ' && c != '\u{FFFE}' && c != '\u{FFFF}')
}

struct P<'a> {
    s: &'a str,
    i: usize,
}
impl<'a> P<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    fn eat(&mut self, t: &str) -> bool {
        if self.rest().starts_with(t) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn until(&mut self, t: &str) -> R<&'a str> {
        let r = self.rest();
        let p = r.find(t).ok_or_else(|| format!("missing {t:?}"))?;
        self.i += p + t.len();
        Ok(&r[..p])
    }
    fn ws(&mut self) {
        while self.rest().starts_with([' ', '\t', '\n', '\r']) {
            self.i += 1;
        }
    }
    fn name(&mut self) -> R<String> {
        let r = self.rest();
        let n = r.find(|c: char| !(c.is_alphanumeric() || matches!(c, '_' | '-' | '.' | ':'))).unwrap_or(r.len());
        if n == 0 || !r.starts_with(|c: char| c.is_alphabetic() || c == '_') {
            return Err(format!("name expected at {}", self.i));
        }
        self.i += n;
        Ok(r[..n].to_string())
    }
    fn misc(&mut self) -> R<()> {
        loop {
            self.ws();
            if self.eat("<!--") {
                self.until("-->")?;
            } else if self.rest().starts_with("<?") && !self.rest().starts_with("<?xml ") {
                self.until("?>")?;
            } else {
                return Ok(());
            }
        }
    }
    fn element(&mut self) -> R<El> {
        if !self.eat("<") {
            return Err("element expected".into());
        }
        let mut e = El { name: self.name()?, attrs: vec![], kids: vec![] };
        loop {
            let before = self.i;
            self.ws();
            if self.eat("/>") {
                return Ok(e);
            }
            if self.eat(">") {
                break;
            }
            if before == self.i {
                return Err("blank expected before attribute".into());
            }
            let n = self.name()?;
            self.ws();
            if !self.eat("=") {
                return Err("= expected".into());
            }
            self.ws();
            let q = if self.eat("\"") { "\"" } else if self.eat("'") { "'" } else { return Err("quote expected".into()) };
            let v = self.until(q)?;
            if v.contains('<') {
                return Err("< in attribute".into());
            }
            if e.attrs.iter().any(|a| a.0 == n) {
                return Err("duplicate attribute".into());
            }
            e.attrs.push((n, unescape(v)?));
        }
        let mut text = String::new();
        macro_rules! flush {
            () => {
                if !text.is_empty() {
                    e.kids.push(Node::Text(std::mem::take(&mut text)));
                }
            };
        }
        loop {
            let r = self.rest();
            if r.is_empty() {
                return Err(format!("unclosed element {}", e.name));
            }
            if self.eat("</") {
                let n = self.name()?;
                self.ws();
                if n != e.name || !self.eat(">") {
                    return Err(format!("bad end tag {n} for {}", e.name));
                }
                flush!();
                return Ok(e);
            } else if self.eat("<!--") {
                self.until("-->")?;
            } else if self.eat("<![CDATA[") {
                text.push_str(&self.until("]]>")?.replace("\r\n", "\n").replace('\r', "\n"));
            } else if r.starts_with("<?") {
                self.until("?>")?;
            } else if r.starts_with('<') {
                flush!();
                let c = self.element()?;
                e.kids.push(Node::El(c));
            } else {
                let n = r.find('<').unwrap_or(r.len());
                let raw = &r[..n];
                if raw.contains("]]>") {
                    return Err("]]> in text".into());
                }
                text.push_str(&unescape(raw)?);
                self.i += n;
            }
        }
    }
}

fn unescape(s: &str) -> R<String> {
    let mut o = String::new();
    let mut it = s.char_indices();
    while let Some((i, c)) = it.next() {
        if !xml_char(c) {
            return Err(format!("character {c:?} is not allowed in XML"));
        }
        if c == '\r' {
            // end-of-line handling of XML 1.0, section 2.11
            if !s[i + 1..].starts_with('\n') {
                o.push('\n');
            }
            continue;
        }
        if c != '&' {
            o.push(c);
            continue;
        }
        let r = &s[i + 1..];
        let e = r.find(';').ok_or("bare &")?;
        let name = &r[..e];
        let ch = match name {
            "lt" => '<',
            "gt" => '>',
            "amp" => '&',
            "quot" => '"',
            "apos" => '\'',
            n if n.starts_with("#x") => u32::from_str_radix(&n[2..], 16).ok().and_then(char::from_u32).ok_or("bad reference")?,
            n if n.starts_with('#') => n[1..].parse::<u32>().ok().and_then(char::from_u32).ok_or("bad reference")?,
            _ => return Err(format!("unknown entity {name}")),
        };
        if !xml_char(ch) {
            return Err(format!("reference to disallowed character {ch:?}"));
        }
        o.push(ch);
        for _ in 0..e + 1 {
            // entity names and the semicolon are ASCII
            it.next();
        }
    }
    Ok(o)
}

pub fn parse(s: &str) -> R<El> {
    let mut p = P { s, i: 0 };
    p.eat("\u{FEFF}");
    if p.rest().starts_with("<?xml ") {
        let d = p.until("?>")?;
        if !d.contains("version=\"1.0\"") {
            return Err("XML version".into());
        }
        if let Some(x) = d.find("encoding=") {
            let v = d[x + 9..].trim_matches(|c| c == '"' || c == '\'' || c == ' ').to_lowercase();
            if !v.starts_with("utf-8") {
                return Err(format!("encoding {v}"));
            }
        }
    }
    p.misc()?;
    let e = p.element()?;
    p.misc()?;
    if !p.rest().is_empty() {
        return Err(format!("trailing data {:?}", p.rest().chars().take(20).collect::<String>()));
    }
    Ok(e)
}

// ---- interpretation ----

impl El {
    pub fn children<'a>(&'a self, name: &'a str) -> impl Iterator<Item = &'a El> + 'a {
        self.kids.iter().filter_map(move |k| match k {
            Node::El(e) if e.name == name => Some(e),
            _ => None,
        })
    }
    pub fn child<'a>(&'a self, name: &'a str) -> R<&'a El> {
        let mut it = self.children(name);
        let r = it.next().ok_or_else(|| format!("{} without {name}", self.name))?;
        if it.next().is_some() {
            return Err(format!("{} with several {name}", self.name));
        }
        Ok(r)
    }
    pub fn text(&self) -> R<String> {
        let mut o = String::new();
        for k in &self.kids {
            match k {
                Node::Text(t) => o.push_str(t),
                _ => return Err(format!("element inside {}", self.name)),
            }
        }
        Ok(o)
    }
    pub fn protected(&self) -> bool {
        self.attrs.iter().any(|(k, v)| k == "Protected" && v == "True")
    }
    /// Checks that only blanks separate child elements.
    fn structural(&self) -> R<()> {
        for k in &self.kids {
            if let Node::Text(t) = k {
                if !t.trim_matches([' ', '\t', '\n', '\r']).is_empty() {
                    return Err(format!("text {t:?} directly inside {}", self.name));
                }
            }
        }
        Ok(())
    }
}

/// Replaces the text of each protected element, in document order, by its decrypted form.
/// Returns the decrypted bytes in order.
pub fn decrypt_dom(e: &mut El, ks: &mut KeyStream, out: &mut Vec<Vec<u8>>) -> R<()> {
    if e.protected() {
        let mut v = unb64(e.text()?.trim()).ok_or_else(|| format!("protected {} is not base64", e.name))?;
        ks.xor(&mut v);
        out.push(v.clone());
        e.kids = match String::from_utf8(v) {
            Ok(s) if s.is_empty() => vec![],
            Ok(s) => vec![Node::Text(s)],
            Err(_) if e.name == "Value" => return Err("protected value does not decrypt to UTF-8".into()),
            Err(_) => vec![],
        };
        return Ok(());
    }
    for k in e.kids.iter_mut() {
        if let Node::El(c) = k {
            decrypt_dom(c, ks, out)?;
        }
    }
    Ok(())
}

fn rd_bool(e: &El) -> R<bool> {
    match e.text()?.as_str() {
        "True" => Ok(true),
        "False" => Ok(false),
        x => Err(format!("boolean {x:?} in {}", e.name)),
    }
}
fn rd_uuid(e: &El) -> R<u128> {
    let b = unb64(&e.text()?).ok_or("UUID base64")?;
    Ok(u128::from_be_bytes(b.try_into().map_err(|_| "UUID length")?))
}
fn rd_time(e: &El, tf: TimeForm) -> R<i64> {
    let t = e.text()?;
    match tf {
        TimeForm::B64 => {
            let b = unb64(&t).ok_or("time base64")?;
            Ok(i64::from_le_bytes(b.try_into().map_err(|_| format!("time {t:?} has not 8 bytes"))?))
        }
        TimeForm::Iso => {
            let b = t.as_bytes();
            if b.len() != 20 || b[4] != b'-' || b[10] != b'T' || b[19] != b'Z' {
                return Err(format!("ISO time {t:?}"));
            }
            let n = |a: usize, z: usize| t[a..z].parse::<i64>().map_err(|e| e.to_string());
            Ok(days_from_civil(n(0, 4)?, n(5, 7)? as u32, n(8, 10)? as u32) * 86_400 + n(11, 13)? * 3600 + n(14, 16)? * 60 + n(17, 19)?)
        }
    }
}
fn rd_times(e: &El, tf: TimeForm) -> R<MTimes> {
    e.structural()?;
    let g = |n| e.child(n).and_then(|c| rd_time(c, tf));
    Ok(MTimes {
        t: [g("LastModificationTime")?, g("CreationTime")?, g("LastAccessTime")?, g("ExpiryTime")?, g("LocationChanged")?],
        expires: rd_bool(e.child("Expires")?)?,
        usage: e.child("UsageCount")?.text()?.parse().map_err(|_| "UsageCount")?,
    })
}
fn rd_field(e: &El) -> R<MField> {
    e.structural()?;
    let v = e.child("Value")?;
    let k = e.child("Key")?.text()?;
    if k.is_empty() {
        return Err("empty key".into());
    }
    Ok(MField { key: k, value: v.text()?, prot: v.protected() })
}
fn rd_entry(e: &El, tf: TimeForm) -> R<MEntry> {
    e.structural()?;
    let mut h = vec![];
    if e.children("History").count() > 1 {
        return Err("several History".into());
    }
    for hs in e.children("History") {
        hs.structural()?;
        for x in hs.children("Entry") {
            h.push(rd_entry(x, tf)?);
        }
    }
    Ok(MEntry {
        uuid: rd_uuid(e.child("UUID")?)?,
        fields: e.children("String").map(rd_field).collect::<R<_>>()?,
        times: rd_times(e.child("Times")?, tf)?,
        history: h,
    })
}
fn rd_group(e: &El, tf: TimeForm) -> R<MGroup> {
    e.structural()?;
    Ok(MGroup {
        uuid: rd_uuid(e.child("UUID")?)?,
        name: e.child("Name")?.text()?,
        times: rd_times(e.child("Times")?, tf)?,
        entries: e.children("Entry").map(|x| rd_entry(x, tf)).collect::<R<_>>()?,
        groups: e.children("Group").map(|x| rd_group(x, tf)).collect::<R<_>>()?,
    })
}

/// Reads a database from an already decrypted document.
pub fn interpret(e: &El, tf: TimeForm) -> R<MDb> {
    if e.name != "KeePassFile" {
        return Err(format!("root element {}", e.name));
    }
    e.structural()?;
    let meta = e.child("Meta")?;
    meta.structural()?;
    let mp = meta.child("MemoryProtection")?;
    mp.structural()?;
    let g = |n| mp.child(n).and_then(rd_bool);
    let mut custom = vec![];
    for c in meta.children("CustomData") {
        c.structural()?;
        for i in c.children("Item") {
            custom.push(rd_field(i)?);
        }
    }
    let root = e.child("Root")?;
    root.structural()?;
    Ok(MDb {
        name: meta.child("DatabaseName")?.text()?,
        desc: meta.child("DatabaseDescription")?.text()?,
        custom,
        mp: [g("ProtectTitle")?, g("ProtectUserName")?, g("ProtectPassword")?, g("ProtectURL")?, g("ProtectNotes")?],
        root: rd_group(root.child("Group")?, tf)?,
    })
}

pub fn read_db(xml: &[u8], ks: &mut KeyStream, tf: TimeForm) -> R<MDb> {
    let s = std::str::from_utf8(xml).map_err(|e| e.to_string())?;
    let mut e = parse(s)?;
    let mut out = vec![];
    decrypt_dom(&mut e, ks, &mut out)?;
    interpret(&e, tf)
}
