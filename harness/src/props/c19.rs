//! The database read from XML depends on its content, not its layout.

use crate::engine::*;
use crate::layouts::{insert_at, insertion_points, plain3};
use crate::lib_io::*;
use crate::model::*;
use crate::refcodec::*;
use crate::refxml::*;
use crate::{bail, ensure};

/// How a document is put into text.
#[derive(Clone, Debug, Hash)]
struct Style {
    head: &'static str,
    tail: &'static str,
    eol: &'static str,
    indent: &'static str,
    quote: char,
    /// inside of tags: before attributes, around =, before >
    blanks: [&'static str; 3],
    /// form of elements without content
    empty: u8,
}
const PLAIN: Style = Style { head: "", tail: "", eol: "", indent: "", quote: '"', blanks: [" ", "", ""], empty: 0 };

fn draw(e: &El, depth: usize, s: &Style, ks: &mut KeyStream, o: &mut String) {
    let pad = |o: &mut String, d: usize| {
        o.push_str(s.eol);
        for _ in 0..d {
            o.push_str(s.indent);
        }
    };
    o.push('<');
    o.push_str(&e.name);
    for (k, v) in &e.attrs {
        let v = esc(v).replace('"', "&quot;").replace('\'', "&apos;");
        o.push_str(&format!("{}{k}{}={}{q}{v}{q}", s.blanks[0], s.blanks[1], s.blanks[1], q = s.quote));
    }
    o.push_str(s.blanks[2]);
    let nothing = e.kids.iter().all(|k| matches!(k, Node::Text(t) | Node::Raw(t) if t.is_empty()) || matches!(k, Node::Prot(v) if v.is_empty()));
    if nothing && s.empty < 2 {
        o.push_str(["/>", " />"][s.empty as usize]);
        return;
    }
    o.push('>');
    let mixed = e.kids.iter().any(|k| !matches!(k, Node::El(_)));
    for k in &e.kids {
        match k {
            Node::El(c) => {
                if !mixed {
                    pad(o, depth + 1);
                }
                draw(c, depth + 1, s, ks, o);
            }
            Node::Text(t) => o.push_str(&esc(t)),
            Node::Prot(v) => o.push_str(&encrypted(v, ks)),
            Node::Raw(t) => o.push_str(t),
        }
    }
    if !mixed && !nothing {
        pad(o, depth);
    }
    o.push_str("</");
    o.push_str(&e.name);
    o.push_str(s.blanks[2]);
    o.push('>');
}
fn encrypted(v: &[u8], ks: &mut KeyStream) -> String {
    let mut v = v.to_vec();
    ks.xor(&mut v);
    b64(&v)
}
fn document(e: &El, s: &Style, inner: Inner) -> Vec<u8> {
    let mut o = String::from(s.head);
    draw(e, 0, s, &mut KeyStream::new(inner, &key()), &mut o);
    o.push_str(s.tail);
    o.into_bytes()
}
fn key() -> Vec<u8> {
    bytes(64, 5)
}

fn same(xml: &[u8], inner: Inner, want: &MDb, what: &dyn Fn() -> String) -> Res {
    let mut s = lib_inner(inner).stream_cipher(&key()).map_err(|e| Violation::from(format!("stream cipher: {e}")))?;
    match api("parse_xml", || kdbx_rs::xml::parse_xml(xml, &mut *s))? {
        Err(e) => bail!("{}: {e}", what()),
        Ok(db) => {
            let got = observe(&db);
            ensure!(&got == want, "{}: {}", what(), diff(want, &got));
        }
    }
    Ok(())
}

/// A database with texts that need care.
fn texty() -> MDb {
    let mut d = small();
    d.name = " a <b> & \"c\" 'd' ]]> ".into();
    d.desc = "\tline one\nline two \u{e9}\u{1F511}\u{a0}\n".into();
    d.custom.push(f(" key ", "  ", false));
    d.custom.push(f("tok", "x]]>y", true));
    d.root.name = "  \n ".into();
    d.root.entries[0].fields.push(f("Notes", "  two  blanks  \n\n", false));
    d.root.entries[0].fields.push(f("none", "", false));
    d.root.entries[0].fields.push(f("hidden none", "", true));
    let mut h = d.root.entries[0].clone();
    h.fields.truncate(2);
    h.fields[0].value = " old ".into();
    d.root.entries[0].history.push(h);
    let mut g = mgroup(0x41, "sub & more");
    g.entries.push(mentry(0x42, vec![f("Password", "after everything", true)]));
    d.root.groups.push(g);
    d
}

/// Visits every element in document order.
fn each(e: &mut El, at: &mut usize, f: &mut dyn FnMut(&mut El, usize)) {
    f(e, *at);
    *at += 1;
    for k in &mut e.kids {
        if let Node::El(c) = k {
            each(c, at, f);
        }
    }
}
fn elements(e: &El) -> usize {
    1 + e.kids.iter().map(|k| if let Node::El(c) = k { elements(c) } else { 0 }).sum::<usize>()
}
/// Gaps between the parts of all elements: (element, position). Text counts by character.
fn gaps(e: &El) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut e = e.clone();
    each(&mut e, &mut 0, &mut |x, i| {
        let leaf = !x.kids.iter().any(|k| matches!(k, Node::El(_)));
        let n = if leaf { text_len(x) } else { x.kids.len() };
        for p in 0..=n {
            v.push((i, p));
        }
    });
    v
}
fn text_len(x: &El) -> usize {
    match x.kids.first() {
        Some(Node::Text(t)) => t.chars().count(),
        Some(Node::Prot(v)) if !v.is_empty() => 4 * v.len().div_ceil(3),
        _ => 0,
    }
}

/// Turns encrypted values into plain text nodes, so that their text can be rearranged.
fn settled(e: &El, inner: Inner) -> El {
    fn go(e: &mut El, ks: &mut KeyStream) {
        for k in &mut e.kids {
            match k {
                Node::Prot(v) => *k = Node::Text(encrypted(v, ks)),
                Node::El(c) => go(c, ks),
                _ => {}
            }
        }
    }
    let mut e = e.clone();
    go(&mut e, &mut KeyStream::new(inner, &key()));
    e
}

const DECORATIONS: [&str; 12] = [
    "<!-- comment -->", "<!---->", "<!-- <Entry><UUID>x</UUID></Entry> -->", "<!-- a - b & c < d ]]> -->", "<?pi?>", "<?pi data=\"x\" ?>", "<?pi </Group> ?>",
    "<!-- one --><!-- two -->", "<!--\n\t\n-->", "<?a b?><!-- c --><?d e?>", "<!-- Protected=\"True\" -->", "<?xml-stylesheet href='a.xsl'?>",
];

/// Inserts raw text at a gap.
fn decorate(e: &mut El, gap: (usize, usize), raw: &str) {
    each(e, &mut 0, &mut |x, i| {
        if i != gap.0 {
            return;
        }
        let leaf = !x.kids.iter().any(|k| matches!(k, Node::El(_)));
        if leaf {
            let t = match x.kids.first() {
                Some(Node::Text(t)) => t.clone(),
                _ => String::new(),
            };
            let cut = t.char_indices().nth(gap.1).map(|c| c.0).unwrap_or(t.len());
            x.kids = vec![Node::Text(t[..cut].into()), Node::Raw(raw.into()), Node::Text(t[cut..].into())];
        } else {
            x.kids.insert(gap.1, Node::Raw(raw.into()));
        }
    });
}

/// Ways to write one character.
fn forms(c: char, k: usize) -> String {
    let n = c as u32;
    match k {
        0 => format!("&#{n};"),
        1 => format!("&#x{n:x};"),
        2 => format!("&#x{n:X};"),
        3 => format!("&#{n:07};"),
        4 => format!("&#x{n:06X};"),
        5 if c == '>' => "<![CDATA[>]]>".into(),
        5 => format!("<![CDATA[{c}]]>"),
        6 => match c {
            '<' => "&lt;".into(),
            '>' => "&gt;".into(),
            '&' => "&amp;".into(),
            '"' => "&quot;".into(),
            '\'' => "&apos;".into(),
            _ => esc(&c.to_string()),
        },
        _ => match c {
            '>' => ">".into(),
            _ => esc(&c.to_string()),
        },
    }
}
fn cdata(t: &str) -> String {
    format!("<![CDATA[{}]]>", t.replace("]]>", "]]]]><![CDATA[>"))
}
/// Whole-text forms.
fn rewrite(t: &str, k: usize) -> String {
    match k {
        0..=6 => t.chars().map(|c| forms(c, k)).collect(),
        7 => cdata(t),
        8 => t.chars().enumerate().map(|(i, c)| forms(c, i % 7)).collect(),
        9 => t.chars().enumerate().map(|(i, c)| if i % 2 == 0 { forms(c, 5) } else { esc(&c.to_string()) }).collect(),
        10 => format!("<![CDATA[]]>{}<![CDATA[]]>", esc(t)),
        _ => format!("{}<!-- c -->{}", cdata(&t.chars().take(t.chars().count() / 2).collect::<String>()), rewrite(&t.chars().skip(t.chars().count() / 2).collect::<String>(), 1)),
    }
}

/// Orders of the children of an element that keep the order of repeated ones.
fn reorder(e: &mut El, n: u64) -> bool {
    let p = permutation(e.kids.len(), n);
    let name = |k: &Node| if let Node::El(x) = k { x.name.clone() } else { String::new() };
    for i in 0..p.len() {
        for j in i + 1..p.len() {
            if p[i] > p[j] && name(&e.kids[p[i]]) == name(&e.kids[p[j]]) {
                return false;
            }
        }
    }
    e.kids = p.iter().map(|i| e.kids[*i].clone()).collect();
    true
}

/// Elements no reader of this schema has to know, some with familiar parts.
fn unknown(k: usize) -> Node {
    let entry = dom_entry(&mentry(0x77, vec![f("Title", "not an entry", false), f("Password", "of nobody", true)]), TimeForm::B64);
    let mut attr = el("Attributed", vec![Node::Text("x".into())]);
    if let Node::El(e) = &mut attr {
        e.attrs = vec![("ID".into(), "0".into()), ("Protected".into(), "False".into())];
    }
    match k {
        0 => el("Unknown", vec![]),
        1 => txt("Unknown", "text of no interest"),
        2 => el("Unknown", vec![el("Inner", vec![txt("Key", "k"), txt("Value", "v")]), txt("UUID", "not an identifier")]),
        3 => protected_el("Unknown", b"hidden text of no interest"),
        4 => el("Unknown", vec![el("String", vec![txt("Key", "k"), protected_el("Value", b"twenty-three characters")]), protected_el("Blob", &bytes(100, 1))]),
        5 => el("Unknown", vec![entry]),
        6 => el("Unknown", vec![el("Root", vec![dom_group(&mgroup(0x78, "not a group"), TimeForm::B64)]), el("Meta", vec![txt("DatabaseName", "no")])]),
        7 => el("Unknown", vec![el("Unknown", vec![el("Unknown", vec![protected_el("Unknown", b"deep")])])]),
        8 => protected_el("Unknown", b""),
        9 => el("DeletedObjects", vec![el("DeletedObject", vec![txt("UUID", &b64(&[1; 16])), txt("DeletionTime", "2020-01-01T00:00:00Z")])]),
        10 => txt("key", "names differ in case"),
        11 => txt("uuid", "AAAA"),
        12 => attr,
        _ => el("Unknown", vec![Node::Text("mixed ".into()), txt("Name", "x"), Node::Text(" content".into())]),
    }
}
const UNKNOWNS: u64 = 14;
/// Known names in places where they have no meaning.
const MISPLACED: [(&str, &str); 20] = [
    ("Meta", "Group"), ("Meta", "Entry"), ("Meta", "String"), ("Meta", "UUID"), ("Meta", "Times"), ("Meta", "Key"), ("Meta", "Item"), ("Meta", "Root"), ("Root", "Entry"), ("Root", "Meta"),
    ("Group", "String"), ("Group", "History"), ("Group", "Key"), ("Group", "Value"), ("Group", "CustomData"), ("Entry", "Group"), ("Entry", "Name"), ("Entry", "Item"), ("String", "UUID"), ("Times", "UUID"),
];

pub fn run(e: &mut Engine) {
    e.rule = "a case is one document text; distinct by its bytes; the database parsed from it must equal the one the text was made from".into();
    e.assumptions.push("elements inside of text elements (mixed content) are not part of the schema and are left out".into());
    let thorough = !e.quick();
    let docs: Vec<MDb> = vec![texty(), rich(), small()];
    let doms: Vec<El> = docs.iter().map(|d| dom_db(d, TimeForm::B64)).collect();
    let inners = [Inner::Chacha, Inner::Salsa];

    // -- styles --
    let heads = ["", "<?xml version=\"1.0\" encoding=\"utf-8\"?>", "<?xml version='1.0' encoding='UTF-8' standalone='yes' ?>\r\n", "<?xml version=\"1.0\"?><!-- head -->\n", "<!-- head --><?pi x?>\n\n", "<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"no\"?>\n<?pi?>\n", "\n", "<?xml version=\"1.1\"?>"];
    let tails = ["", "\n", "<!-- tail -->", "\r\n<?pi?>\r\n\r\n"];
    let eols = [("", ""), ("\n", "\t"), ("\n", "    "), ("\r\n", "\t"), ("\n\n", " "), ("\t", "")];
    let blanks = [[" ", "", ""], [" ", "", " "], ["\n\t", "", "\n"], ["  ", " ", ""], ["\t", "\n", "\t "]];
    let n = (heads.len() * tails.len() * eols.len() * blanks.len() * 3 * 2 * 3) as u64;
    let style = |i: &mut Dec| {
        let eol = *i.of(&eols);
        Style { head: i.of(&heads), tail: i.of(&tails), eol: eol.0, indent: eol.1, quote: ['"', '\''][i.pick(2)], blanks: *i.of(&blanks), empty: i.pick(3) as u8 }
    };
    e.phase("styles", n, |i, c| {
        let mut x = Dec(i);
        let k = x.pick(3);
        let s = style(&mut x);
        let inner = inners[i as usize % 2];
        let xml = document(&doms[k], &s, inner);
        same(&xml, inner, &docs[k], &|| format!("document {k} as {s:?}"))?;
        c.seen("same", &xml);
        c.sample(|| format!("document {k} as {s:?}"));
        Ok(())
    });
    // -- whole archives in these styles --
    e.phase("archives", n / 8 * 2, |i, c| {
        let mut x = Dec(i);
        let v3 = x.pick(2) == 1;
        let mut x = Dec(x.0 * 8 + x.0 % 8);
        let k = x.pick(3);
        let s = style(&mut x);
        let (b, cfg) = if v3 {
            let mut cfg = plain3();
            cfg.inner_key = key();
            let l = Layout3::of(&cfg);
            let mut dom = dom_db(&docs[k], TimeForm::Iso);
            with_header_hash(&mut dom, &l.header());
            (encode3(&cfg, &l, &document(&dom, &s, cfg.inner)), cfg)
        } else {
            let mut cfg = Cfg::plain();
            cfg.inner_key = key();
            (encode4(&cfg, &Layout4::of(&cfg), &document(&doms[k], &s, cfg.inner)), cfg)
        };
        expect_db(&b, &cfg.cred, &docs[k], &format!("document {k} as {s:?}"))?;
        c.seen("same", &b);
        Ok(())
    });

    // -- comments and processing instructions at every place --
    let set: Vec<El> = (0..3).map(|k| settled(&doms[k], Inner::Chacha)).collect();
    for k in 0..2 {
        let g = gaps(&set[k]);
        e.phase(&format!("decorations.{k}"), g.len() as u64 * DECORATIONS.len() as u64, |i, c| {
            let mut x = Dec(i);
            let d = x.of(&DECORATIONS);
            let at = g[x.0 as usize];
            let mut dom = set[k].clone();
            decorate(&mut dom, at, d);
            let s = if i % 2 == 0 { PLAIN } else { Style { eol: "\n", indent: "\t", ..PLAIN } };
            let xml = document(&dom, &s, Inner::Chacha);
            same(&xml, Inner::Chacha, &docs[k], &|| format!("{d} in element {} at {}", at.0, at.1))?;
            c.seen("same", &xml);
            c.sample(|| format!("{d} in element {} at {}", at.0, at.1));
            Ok(())
        });
    }
    // pairs of places
    let g: Vec<_> = gaps(&set[2]);
    let step = e.pick(4, 1) as usize;
    let first: Vec<_> = g.iter().copied().step_by(step).collect();
    e.phase("decoration-pairs", first.len() as u64 * g.len() as u64, |i, c| {
        let mut x = Dec(i);
        let (a, b) = (*x.of(&g), *x.of(&first));
        let mut dom = set[2].clone();
        // inserted from the back so that the first place stays where it is
        let (lo, hi) = if a < b { (a, b) } else { (b, a) };
        if lo.0 == hi.0 {
            // one element: both in one go
            decorate(&mut dom, hi, "<?pi?><!-- c -->");
        } else {
            decorate(&mut dom, hi, "<!-- c -->");
            decorate(&mut dom, lo, "<?pi?>");
        }
        let xml = document(&dom, &PLAIN, Inner::Chacha);
        same(&xml, Inner::Chacha, &docs[2], &|| format!("decorations at {a:?} and {b:?}"))?;
        c.seen("same", &xml);
        Ok(())
    });

    // -- forms of text --
    for k in 0..2 {
        let count = elements(&set[k]) as u64;
        e.phase(&format!("text-forms.{k}"), (count + 1) * 12, |i, c| {
            let mut x = Dec(i);
            let form = x.pick(12);
            let which = x.0 as usize;
            let mut dom = set[k].clone();
            // the last case rewrites all texts at once
            each(&mut dom, &mut 0, &mut |x, at| {
                if at == which || which as u64 == count {
                    for n in &mut x.kids {
                        if let Node::Text(t) = n {
                            *n = Node::Raw(rewrite(t, form));
                        }
                    }
                }
            });
            let xml = document(&dom, &PLAIN, Inner::Chacha);
            same(&xml, Inner::Chacha, &docs[k], &|| format!("text of element {which} in form {form}"))?;
            c.seen("same", &xml);
            c.sample(|| format!("text of element {which} in form {form}"));
            Ok(())
        });
        // one character in another form
        let places: Vec<(usize, usize)> = gaps(&set[k]).into_iter().filter(|g| {
            let mut leaf = false;
            each(&mut set[k].clone(), &mut 0, &mut |x, i| leaf |= i == g.0 && g.1 < text_len_settled(x));
            leaf
        }).collect();
        e.phase(&format!("characters.{k}"), places.len() as u64 * 8, |i, c| {
            let mut x = Dec(i);
            let form = x.pick(8);
            let at = places[x.0 as usize];
            let mut dom = set[k].clone();
            each(&mut dom, &mut 0, &mut |x, i| {
                if i == at.0 {
                    if let Some(Node::Text(t)) = x.kids.first() {
                        let ch = t.chars().nth(at.1).unwrap();
                        let cut = t.char_indices().nth(at.1).unwrap().0;
                        let (a, b) = (t[..cut].to_string(), t[cut + ch.len_utf8()..].to_string());
                        // "]]>" may not appear as it is
                        let mid = if form == 7 && ch == '>' && a.ends_with("]]") { "&gt;".into() } else { forms(ch, form) };
                        x.kids = vec![Node::Text(a), Node::Raw(mid), Node::Text(b)];
                    }
                }
            });
            let xml = document(&dom, &PLAIN, Inner::Chacha);
            same(&xml, Inner::Chacha, &docs[k], &|| format!("character {} of element {} in form {form}", at.1, at.0))?;
            c.seen("same", &xml);
            Ok(())
        });
    }
    // -- blanks in text are content --
    let alphabet = [' ', '\t', '\n', 'a', '\u{a0}', '\u{2003}'];
    let len = if thorough { 5 } else { 4 };
    e.phase("blanks", words(6, len) * 7 * 3, |i, c| {
        let mut x = Dec(i);
        let pos = [0usize, 1, 3, 5, 7, 10, 9][x.pick(7)];
        let form = [7usize, 0, 12][x.pick(3)];
        let t: String = word(6, x.0).iter().map(|k| alphabet[*k]).collect();
        if t.is_empty() && pos == 9 {
            c.seen("trivial", &0);
            return Ok(());
        }
        let mut d = small();
        put_text(&mut d, pos, &t);
        let mut dom = settled(&dom_db(&d, TimeForm::B64), Inner::Chacha);
        if form < 12 {
            each(&mut dom, &mut 0, &mut |x, _| {
                for n in &mut x.kids {
                    if let Node::Text(u) = n {
                        if *u == t {
                            *n = Node::Raw(rewrite(u, form));
                        }
                    }
                }
            });
        }
        let s = if i % 2 == 0 { PLAIN } else { Style { eol: "\r\n", indent: "  ", ..PLAIN } };
        let xml = document(&dom, &s, Inner::Chacha);
        same(&xml, Inner::Chacha, &d, &|| format!("text {t:?} at position {pos} in form {form}"))?;
        c.seen("same", &xml);
        Ok(())
    });

    // -- order of siblings --
    let mut od = texty();
    od.root.entries[0].fields.truncate(3);
    od.root.entries.push(mentry(0x51, vec![f("Password", "second", true)]));
    od.root.groups.push(mgroup(0x52, "second group"));
    od.custom.truncate(2);
    let odom = dom_db(&od, TimeForm::B64);
    let mut targets: Vec<(usize, String, u64)> = vec![];
    each(&mut odom.clone(), &mut 0, &mut |x, i| {
        let n = x.kids.iter().filter(|k| matches!(k, Node::El(_))).count();
        if n > 1 {
            targets.push((i, x.name.clone(), factorial(n as u64)));
        }
    });
    for (at, name, n) in &targets {
        e.phase(&format!("order.{at}.{name}"), *n, |i, c| {
            let mut dom = odom.clone();
            let mut ok = false;
            each(&mut dom, &mut 0, &mut |x, k| {
                if k == *at && !ok {
                    ok = reorder(x, i);
                }
            });
            if !ok {
                c.seen("trivial", &0);
                return Ok(());
            }
            let xml = document(&dom, &PLAIN, Inner::Salsa);
            same(&xml, Inner::Salsa, &od, &|| format!("children of {name} {at} in order {:?}", permutation_of(*n, i)))?;
            c.seen("same", &xml);
            c.sample(|| format!("children of {name} {at}, order {i}"));
            Ok(())
        });
    }
    // every element of one kind reordered the same way, several kinds at once
    e.phase("order-combined", 2 * 2 * 2 * 120 * 24 * 6, |i, c| {
        let mut x = Dec(i);
        let picks: Vec<(&str, u64)> = vec![("KeePassFile", x.pick(2) as u64), ("String", x.pick(2) as u64), ("Item", x.pick(2) as u64), ("Meta", x.pick(120) as u64), ("Entry", 7 * x.pick(24) as u64), ("Group", 13 * x.pick(6) as u64)];
        let mut dom = odom.clone();
        let mut n = 0;
        fn go(e: &mut El, picks: &[(&str, u64)], n: &mut u64) {
            for k in &mut e.kids {
                if let Node::El(c) = k {
                    go(c, picks, n);
                }
            }
            if let Some(p) = picks.iter().find(|p| p.0 == e.name) {
                if reorder(e, p.1 % factorial(e.kids.len() as u64)) {
                    *n += 1;
                }
            }
        }
        go(&mut dom, &picks, &mut n);
        let xml = document(&dom, &PLAIN, Inner::Salsa);
        same(&xml, Inner::Salsa, &od, &|| format!("orders {picks:?}"))?;
        c.add("reordered elements", n);
        c.seen("same", &xml);
        Ok(())
    });

    // each single child at each place among many repeated ones
    let most = e.pick(24, 70);
    e.phase("order-among-many", 3 * most * (most + 1) * 5, |i, c| {
        let mut x = Dec(i);
        let kind = x.pick(3);
        let count = 1 + x.pick(most);
        let which = x.pick(5);
        let place = x.0 as usize;
        let mut d = texty();
        d.root.entries.truncate(1);
        d.root.groups.truncate(1);
        match kind {
            0 => d.root.groups = (0..count).map(|k| mgroup(0x100 + k as u128, &format!("g{k}"))).collect(),
            1 => d.root.entries = (0..count).map(|k| mentry(0x100 + k as u128, vec![f("Title", &format!("e{k}"), k % 2 == 0)])).collect(),
            _ => d.root.entries[0].fields = (0..count).map(|k| f(&format!("k{k}"), &format!("v{k}"), k % 3 == 0)).collect(),
        }
        let (parent, repeated) = [("Group", "Group"), ("Group", "Entry"), ("Entry", "String")][kind];
        let mut dom = dom_db(&d, TimeForm::B64);
        let mut hit = false;
        each(&mut dom, &mut 0, &mut |x, _| {
            let is = |n: &Node, name: &str| matches!(n, Node::El(e) if e.name == name);
            if hit || x.name != parent || !x.kids.iter().any(|k| is(k, repeated)) {
                return;
            }
            // the children that occur once, moved before the repeated one of this number
            let singles: Vec<usize> = (0..x.kids.len()).filter(|k| matches!(&x.kids[*k], Node::El(e) if e.name != repeated)).collect();
            let Some(at) = singles.get(which) else { return };
            let single = x.kids.remove(*at);
            let to = match (0..x.kids.len()).filter(|k| is(&x.kids[*k], repeated)).nth(place) {
                Some(k) => k,
                None if place == count => x.kids.len(),
                None => {
                    x.kids.insert(*at, single);
                    return;
                }
            };
            x.kids.insert(to, single);
            hit = true;
        });
        if !hit {
            c.seen("trivial", &0);
            return Ok(());
        }
        let xml = document(&dom, &PLAIN, Inner::Salsa);
        same(&xml, Inner::Salsa, &d, &|| format!("child {which} of {parent} before {repeated} {place} of {count}"))?;
        c.seen("same", &xml);
        c.sample(|| format!("child {which} of {parent} before {repeated} {place} of {count}"));
        Ok(())
    });

    // -- booleans --
    let mut bd = texty();
    bd.root.times.expires = true;
    bd.mp = [true, false, true, false, true];
    let bdom = dom_db(&bd, TimeForm::B64);
    let mut bools: Vec<(usize, bool)> = vec![];
    each(&mut bdom.clone(), &mut 0, &mut |x, i| match x.kids.first() {
        Some(Node::Text(t)) if x.name != "Value" && t == "True" => bools.push((i, true)),
        Some(Node::Text(t)) if x.name != "Value" && t == "False" => bools.push((i, false)),
        _ => {}
    });
    let cased = |t: &str, bits: u64| t.chars().enumerate().map(|(k, c)| if bits >> k & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect::<String>();
    e.phase("booleans", (bools.len() as u64 + 1) * 32, |i, c| {
        let mut x = Dec(i);
        let bits = x.pick(32) as u64;
        let which = x.0 as usize;
        let mut dom = bdom.clone();
        each(&mut dom, &mut 0, &mut |x, at| {
            if let Some(k) = bools.iter().position(|b| b.0 == at) {
                if k == which || which == bools.len() {
                    x.kids = vec![Node::Text(cased(if bools[k].1 { "true" } else { "false" }, bits))];
                }
            }
        });
        let xml = document(&dom, &PLAIN, Inner::Chacha);
        same(&xml, Inner::Chacha, &bd, &|| format!("boolean {which} in case {bits:05b}"))?;
        c.seen("same", &xml);
        Ok(())
    });
    let values = elements(&bdom) as u64;
    e.phase("protected-attribute", (values + 1) * 32 * 4, |i, c| {
        let mut x = Dec(i);
        let bits = x.pick(32) as u64;
        let extra = x.pick(4);
        let which = x.0;
        let mut dom = bdom.clone();
        let mut any = false;
        each(&mut dom, &mut 0, &mut |x, at| {
            if x.name != "Value" || (at as u64 != which && which != values) {
                return;
            }
            any = true;
            let p = !x.attrs.is_empty();
            x.attrs = match (p, extra) {
                // an unprotected value may say so
                (false, 0) => vec![],
                (p, _) => vec![("Protected".into(), cased(if p { "true" } else { "false" }, bits))],
            };
            match extra {
                1 => x.attrs.push(("ProtectInMemory".into(), "True".into())),
                2 => x.attrs.insert(0, ("Ref".into(), "True".into())),
                3 => x.attrs.insert(0, ("xml:space".into(), "preserve".into())),
                _ => {}
            }
        });
        if !any {
            c.seen("trivial", &0);
            return Ok(());
        }
        let xml = document(&dom, &PLAIN, Inner::Chacha);
        same(&xml, Inner::Chacha, &bd, &|| format!("attribute of value {which} in case {bits:05b}, extra {extra}"))?;
        c.seen("same", &xml);
        Ok(())
    });
    // unknown attributes anywhere
    e.phase("attributes", elements(&doms[1]) as u64 * 6, |i, c| {
        let mut x = Dec(i);
        let (k, v) = [("ID", "0"), ("Compressed", "True"), ("protected", "True"), ("Name", "a<b&'\"c"), ("xml:lang", "en"), ("Value", "")][x.pick(6)];
        let which = x.0 as usize;
        let mut dom = doms[1].clone();
        each(&mut dom, &mut 0, &mut |x, at| {
            if at == which {
                x.attrs.push((k.into(), v.into()));
            }
        });
        let xml = document(&dom, &PLAIN, Inner::Chacha);
        same(&xml, Inner::Chacha, &docs[1], &|| format!("attribute {k} on element {which}"))?;
        c.seen("same", &xml);
        Ok(())
    });
    // -- empty containers may be left out or present --
    e.phase("empty-containers", 2 * 3 * 2, |i, c| {
        let mut x = Dec(i);
        let present = x.pick(2) == 1;
        let s = Style { empty: x.pick(3) as u8, ..PLAIN };
        let d = small();
        let mut dom = dom_db(&d, TimeForm::B64);
        let history = x.pick(2) == 1;
        each(&mut dom, &mut 0, &mut |x, _| {
            if x.name == "Meta" && !present {
                x.kids.retain(|k| !matches!(k, Node::El(e) if e.name == "CustomData"));
            }
            if x.name == "Entry" && history {
                x.kids.push(el("History", vec![]));
            }
        });
        let xml = document(&dom, &s, Inner::Chacha);
        same(&xml, Inner::Chacha, &d, &|| format!("custom data present: {present}, empty history: {history}"))?;
        c.seen("same", &xml);
        Ok(())
    });

    // -- unknown elements --
    for k in 0..2 {
        let points = insertion_points(&doms[k]) as u64;
        e.phase(&format!("unknown.{k}"), points * UNKNOWNS, |i, c| {
            let mut x = Dec(i);
            let u = x.pick(UNKNOWNS);
            let mut at = x.0 as usize;
            let mut dom = doms[k].clone();
            let place = insert_at(&mut dom, &mut at, &unknown(u));
            let inner = inners[i as usize % 2];
            let xml = document(&dom, &PLAIN, inner);
            same(&xml, inner, &docs[k], &|| format!("unknown element {u} in {place:?}"))?;
            c.seen("same", &xml);
            c.sample(|| format!("unknown element {u} in {place:?}"));
            Ok(())
        });
    }
    let points = insertion_points(&doms[2]) as u64;
    let kinds = e.pick(5, 14) as u64;
    e.phase("unknown-pairs", points * points * kinds * kinds, |i, c| {
        let mut x = Dec(i);
        let (a, b) = (x.pick(kinds), x.pick(kinds));
        let (p, q) = (x.pick(points), x.pick(points));
        let mut dom = doms[2].clone();
        let pick = |k: usize| unknown(if kinds == 5 { [0, 2, 3, 4, 6][k] } else { k });
        insert_at(&mut dom, &mut p.max(q).clone(), &pick(a));
        insert_at(&mut dom, &mut p.min(q).clone(), &pick(b));
        let xml = document(&dom, &PLAIN, Inner::Chacha);
        same(&xml, Inner::Chacha, &docs[2], &|| format!("unknown elements {a} and {b} at {p} and {q}"))?;
        c.seen("same", &xml);
        Ok(())
    });
    // known names where they mean nothing
    e.phase("misplaced", MISPLACED.len() as u64 * 60 * 4, |i, c| {
        let mut x = Dec(i);
        let (parent, name) = *x.of(&MISPLACED);
        let body = x.pick(4);
        let mut at = x.0 as usize;
        let n = match body {
            0 => el(name, vec![]),
            1 => txt(name, "text"),
            2 => protected_el(name, b"hidden"),
            _ => el(name, vec![txt("UUID", &b64(&[9; 16])), txt("Name", "n"), txt("Key", "k"), protected_el("Value", b"hidden"), el("Times", vec![]), el("Entry", vec![]), el("Group", vec![])]),
        };
        let mut dom = doms[0].clone();
        let mut done = false;
        each(&mut dom, &mut 0, &mut |x, _| {
            if x.name == parent && !done {
                if at <= x.kids.len() {
                    x.kids.insert(at, n.clone());
                    done = true;
                } else {
                    at -= x.kids.len() + 1;
                }
            }
        });
        if !done {
            c.seen("trivial", &0);
            return Ok(());
        }
        let xml = document(&dom, &PLAIN, Inner::Chacha);
        same(&xml, Inner::Chacha, &docs[0], &|| format!("{name} inside of {parent}, body {body}"))?;
        c.seen("same", &xml);
        Ok(())
    });
}

fn text_len_settled(x: &El) -> usize {
    match x.kids.first() {
        Some(Node::Text(t)) => t.chars().count(),
        _ => 0,
    }
}
fn permutation_of(n: u64, i: u64) -> Vec<usize> {
    let mut k = 1;
    while factorial(k) < n {
        k += 1;
    }
    permutation(k as usize, i)
}
