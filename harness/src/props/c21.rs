//! One-time-password settings.

use crate::engine::*;
use crate::lib_io;
use crate::refcodec::Cfg;
use crate::{bail, ensure};
use kdbx_rs::database::{Entry, Field, Otp};

const ALPHA: &[u8; 33] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567=";
const NUMS: [u32; 8] = [0, 1, 6, 30, 60, 255, 65_536, u32::MAX];

fn judge(o: &Otp, secret: Option<&str>, period: Option<u32>, digits: Option<u32>, what: &str) -> Res {
    let (s, p, d) = api("Otp accessors", || (o.secret().map(str::to_string), o.period(), o.digits()))?;
    let same_secret = s.as_deref() == secret || (s.is_none() && secret == Some(""));
    ensure!(same_secret, "{what}: secret is {s:?}, expected {secret:?}");
    ensure!(p == period, "{what}: period is {p:?}, expected {period:?}");
    ensure!(d == digits, "{what}: digits are {d:?}, expected {digits:?}");
    Ok(())
}

pub fn run(e: &mut Engine) {
    e.rule = "a case is one secret/period/digits triple or one stored address; all are non-trivial".into();
    let depth = e.pick(4, 4);
    let n = words(33, depth);
    e.phase("created", n, |i, c| {
        let s: String = word(33, i).iter().map(|k| ALPHA[*k] as char).collect();
        let (p, d) = (NUMS[(i % 8) as usize], NUMS[(i / 8 % 8) as usize]);
        let o = api("Otp::new", || Otp::new(&s, p, d))?;
        judge(&o, Some(&s), Some(p), Some(d), &format!("Otp::new({s:?}, {p}, {d})"))?;
        c.seen("read back", &(&s, p, d));
        c.sample(|| format!("Otp::new({s:?}, {p}, {d})"));
        Ok(())
    });
    // long secrets, every number of 32 bits with few bits set
    let top = e.pick(1100, 5000);
    e.phase("lengths", top, |i, c| {
        for kind in 0..3 {
            let n = i as usize;
            let s: String = match kind {
                0 => "A".repeat(n),
                1 => (0..n).map(|k| ALPHA[k % 32] as char).collect(),
                _ => (0..n).map(|k| if k + n % 7 >= n { '=' } else { ALPHA[(k * 7 + n) % 32] as char }).collect(),
            };
            let o = api("Otp::new", || Otp::new(&s, 30, 6))?;
            judge(&o, Some(&s), Some(30), Some(6), &format!("secret of {n}"))?;
            let mut en = Entry::default();
            api("set_otp", || en.set_otp(o))?;
            let Some(o) = api("otp", || en.otp())? else { bail!("otp() is absent after set_otp") };
            judge(&o, Some(&s), Some(30), Some(6), &format!("stored secret of {n}"))?;
            c.seen("read back", &s);
        }
        Ok(())
    });
    e.phase("numbers", 33 * 33 * 3, |i, c| {
        let mut x = Dec(i);
        let bit = |k: usize| if k < 32 { 1u32 << k } else { 0 };
        let v = bit(x.pick(33)) ^ bit(x.pick(33));
        let v = [v, !v, v.wrapping_sub(1)][x.pick(3)];
        for (p, d) in [(v, 6), (30, v), (v, !v)] {
            let o = api("Otp::new", || Otp::new("ABC", p, d))?;
            judge(&o, Some("ABC"), Some(p), Some(d), &format!("Otp::new(_, {p}, {d})"))?;
            c.seen("read back", &(p, d));
        }
        Ok(())
    });
    // every padding form of realistic secrets, through an entry, saved and reopened
    e.phase("stored", 8 * 8 * 8, |i, c| {
        let mut x = Dec(i);
        let pad = x.pick(8);
        let (p, d) = (*x.of(&NUMS), *x.of(&NUMS));
        let s = format!("{}{}", &"JBSWY3DPEHPK3PXP"[..16 - pad], "=".repeat(pad));
        let mut en = Entry::default();
        let o = Otp::new(&s, p, d);
        api("set_otp", || en.set_otp(o))?;
        for round in 0..2 {
            let Some(o) = api("otp", || en.otp())? else { bail!("otp() is absent after set_otp") };
            judge(&o, Some(&s), Some(p), Some(d), &format!("entry round {round}, secret {s:?}"))?;
            drop(o);
            if round == 0 {
                let mut db = kdbx_rs::Database::default();
                db.add_entry(en.clone());
                let cfg = Cfg::plain();
                let mut k = kdbx_rs::Kdbx::from_database(db);
                lib_io::configure(&mut k, &cfg);
                if k.set_key(cfg.cred.lib()).is_err() {
                    bail!("set_key failed");
                }
                let b = lib_io::save(&k)??;
                let k = lib_io::load(&b, &cfg.cred)??;
                let Some(back) = k.root().entries().next() else { bail!("entry lost") };
                en = back.clone();
            }
        }
        c.seen("stored", &(s, p, d));
        Ok(())
    });
    // addresses: all ordered selections of up to 4 (quick) or 5 parameters
    let params: Vec<(&str, Option<&str>, Option<u32>)> = vec![
        ("secret=ABC234", Some("ABC234"), None),
        ("secret=ABC2====", Some("ABC2===="), None),
        ("secret", None, None),
        ("period=30", None, Some(30)),
        ("period=4294967295", None, Some(u32::MAX)),
        ("period=soon", None, None),
        ("period=", None, None),
        ("digits=6", None, Some(6)),
        ("digits=0", None, Some(0)),
        ("digits=4294967296", None, None),
        ("digits=-1", None, None),
        ("issuer=secret", None, None),
        ("issuer=a?b", None, None),
        ("xsecret=NO", None, None),
        ("secretx=NO", None, None),
        ("flag", None, None),
        ("", None, None),
        ("algorithm=SHA1", None, None),
        ("image=http://x/y?period=1", None, None),
        ("note=digits=9", None, None),
    ];
    let k = params.len() as u64;
    let l = e.pick(4, 5);
    let n = words(k, l);
    let labels = ["otpauth://totp/label", "otpauth://totp/Issuer:acc%20ount", "otpauth://totp/secret=X&period=1", ""];
    e.phase("addresses", n * labels.len() as u64, |i, c| {
        let label = labels[(i % 4) as usize];
        let w = word(k, i / 4);
        let name = |j: usize| params[j].0.split('=').next().unwrap();
        // each of the three settings at most once: repeated parameters have no defined meaning
        for s in ["secret", "period", "digits"] {
            if w.iter().filter(|j| name(**j) == s).count() > 1 {
                c.seen("trivial", "");
                return Ok(());
            }
        }
        let url = format!("{label}?{}", w.iter().map(|j| params[*j].0).collect::<Vec<_>>().join("&"));
        let secret = w.iter().find_map(|j| params[*j].1);
        let period = w.iter().filter(|j| name(**j) == "period").find_map(|j| params[*j].2);
        let digits = w.iter().filter(|j| name(**j) == "digits").find_map(|j| params[*j].2);
        let mut en = Entry::default();
        en.add_field(Field::new_protected("otp", &url));
        let Some(o) = api("otp", || en.otp())? else { bail!("no otp for {url:?}") };
        judge(&o, secret, period, digits, &url)?;
        c.seen("address", &url);
        c.sample(|| url.clone());
        Ok(())
    });
    // the settings between many or long other parameters
    let top = e.pick(130, 1100);
    e.phase("among-others", top * 4 * 6, |i, c| {
        let mut x = Dec(i);
        let n = x.pick(top);
        let kind = x.pick(4);
        let order = permutation(3, x.pick(6) as u64);
        let ours = ["secret=ABC234==", "period=45", "digits=8"];
        let other = |k: usize| match kind {
            0 => format!("p{k}=1"),
            1 => format!("p{k}"),
            2 => String::new(),
            _ => format!("p={}", "x".repeat(k)),
        };
        let others: Vec<String> = if kind == 3 { vec![other(n)] } else { (0..n).map(other).collect() };
        let all = |mut v: Vec<String>, at: [usize; 3]| {
            for (j, o) in order.iter().enumerate() {
                v.insert((at[j] + j).min(v.len()), ours[*o].to_string());
            }
            format!("otpauth://totp/l?{}", v.join("&"))
        };
        let h = others.len();
        for at in [[0, 0, 0], [h, h, h], [0, h / 2, h], [h / 3, h / 2, h]] {
            let url = all(others.clone(), at);
            let mut en = Entry::default();
            en.add_field(Field::new_protected("otp", &url));
            let Some(o) = api("otp", || en.otp())? else { bail!("no otp for {url:?}") };
            judge(&o, Some("ABC234=="), Some(45), Some(8), &url)?;
            c.seen("address", &url);
        }
        Ok(())
    });
    e.phase("bare", 4, |i, c| {
        let url = ["", "otpauth://totp/x", "secret=ABC", "otpauth://totp/secret=ABC&period=30&digits=6"][i as usize];
        let mut en = Entry::default();
        en.add_field(Field::new_protected("otp", url));
        let Some(o) = api("otp", || en.otp())? else { bail!("no otp for {url:?}") };
        judge(&o, None, None, None, url)?;
        c.seen("no parameters", url);
        Ok(())
    });
}
