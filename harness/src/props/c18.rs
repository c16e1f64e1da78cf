//! Identifiers and times.

use crate::engine::*;
use crate::model::{dt, secs};
use crate::refxml::{civil_from_days, days_from_civil, iso};
use crate::{bail, ensure};
use kdbx_rs::xml::{decode_datetime, decode_uuid, encode_datetime, encode_uuid};
use uuid::Uuid;

const TABLE: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

/// Straightforward base64 by the definition.
fn enc(b: &[u8]) -> String {
    let mut o = String::new();
    for ch in b.chunks(3) {
        let v = (ch[0] as u32) << 16 | (*ch.get(1).unwrap_or(&0) as u32) << 8 | *ch.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            if k <= ch.len() {
                o.push(TABLE[(v >> (18 - 6 * k) & 63) as usize] as char);
            } else {
                o.push('=');
            }
        }
    }
    o
}

enum Dec64 {
    Bytes(Vec<u8>),
    /// unused bits of the last symbol are set: readers may accept or reject
    Loose(Vec<u8>),
    Bad,
}
fn dec(s: &str) -> Dec64 {
    let b = s.as_bytes();
    if b.len() % 4 != 0 {
        return Dec64::Bad;
    }
    let mut o = vec![];
    let mut loose = false;
    for (ci, ch) in b.chunks(4).enumerate() {
        let last = (ci + 1) * 4 == b.len();
        let pads = ch.iter().rev().take_while(|c| **c == b'=').count();
        if pads > 2 || (pads > 0 && !last) {
            return Dec64::Bad;
        }
        let mut v = 0u32;
        for c in &ch[..4 - pads] {
            match TABLE.iter().position(|t| t == c) {
                Some(p) => v = v << 6 | p as u32,
                None => return Dec64::Bad,
            }
        }
        v <<= 6 * pads;
        o.push((v >> 16) as u8);
        if pads < 2 {
            o.push((v >> 8) as u8);
        } else {
            loose |= v & 0xffff != 0;
        }
        if pads < 1 {
            o.push(v as u8);
        } else {
            loose |= v & 0xff != 0;
        }
    }
    if loose { Dec64::Loose(o) } else { Dec64::Bytes(o) }
}

/// All ASCII characters and one of each longer encoded length.
fn damage(k: usize) -> char {
    match k {
        0..=127 => k as u8 as char,
        128 => '\u{e9}',
        129 => '\u{20ac}',
        _ => '\u{1F511}',
    }
}

fn judge_uuid_text(s: &str, c: &mut Case) -> Res {
    let got = api("decode_uuid", || decode_uuid(s))?;
    let (want, either) = match dec(s) {
        Dec64::Bytes(b) if b.len() == 16 => (Some(Uuid::from_bytes(b.try_into().unwrap())), false),
        Dec64::Loose(b) if b.len() == 16 => (Some(Uuid::from_bytes(b.try_into().unwrap())), true),
        _ => (None, false),
    };
    ensure!(got == want || (either && got.is_none()), "decode_uuid({s:?}) = {got:?}, expected {want:?}");
    c.seen(if got.is_some() { "accepted" } else { "rejected" }, s);
    Ok(())
}

fn judge_time_text(s: &str, c: &mut Case) -> Res {
    let got = api("decode_datetime", || decode_datetime(s))?;
    let (want, either) = match dec(s) {
        Dec64::Bytes(b) if b.len() == 8 => (Some(i64::from_le_bytes(b.try_into().unwrap())), false),
        Dec64::Loose(b) if b.len() == 8 => (Some(i64::from_le_bytes(b.try_into().unwrap())), true),
        _ => (None, false),
    };
    let lo = 0;
    let hi = days_from_civil(10_000, 1, 1) * 86_400;
    match (want, &got) {
        (None, Some(g)) => bail!("malformed time {s:?} decodes to {g:?}"),
        (Some(w), None) => ensure!(either || !(lo..hi).contains(&w), "time {s:?} ({w} s) is rejected"),
        (Some(w), Some(g)) => ensure!(secs(g) == w, "time {s:?} ({w} s) decodes to {g:?}"),
        (None, None) => {}
    }
    c.seen(if got.is_some() { "accepted" } else { "rejected" }, s);
    Ok(())
}

pub fn run(e: &mut Engine) {
    e.rule = "a case is one identifier, one instant or one text; each evaluated text or value is distinct and non-trivial".into();
    e.assumptions = vec!["identifier and time texts are judged without surrounding blanks".into()];
    let last = days_from_civil(10_000, 1, 1);
    let step = 64;
    let times: Vec<i64> = if e.quick() { vec![0, 86_399] } else { vec![0, 1, 59, 60, 3599, 3600, 43_199, 43_200, 45_296, 86_399] };
    e.phase("days", (last as u64).div_ceil(step), |i, c| {
        for day in i * step..((i + 1) * step).min(last as u64) {
            for s in &times {
                let t = day as i64 * 86_400 + s;
                let d = dt(t);
                let x = api("encode_datetime", || encode_datetime(d))?;
                let want = enc(&t.to_le_bytes());
                ensure!(x == want, "{d} encodes to {x:?}, expected {want:?}");
                let back = api("decode_datetime", || decode_datetime(&x))?;
                ensure!(back == Some(d), "{d} encodes to {x:?} which decodes to {back:?}");
                let text = iso(t);
                let back = api("decode_datetime", || decode_datetime(&text))?;
                ensure!(back == Some(d), "{text} decodes to {back:?}");
                c.seen("instant", &t);
            }
            c.sample(|| format!("{:?}", civil_from_days(day as i64)));
        }
        Ok(())
    });
    // every second of selected days
    let days = [0i64, days_from_civil(2000, 2, 29), days_from_civil(1970, 1, 1), last - 1];
    let nd = e.pick(2, 4);
    e.phase("seconds", 1440 * nd, |i, c| {
        let day = days[(i / 1440) as usize];
        for s in (i % 1440) as i64 * 60..(i % 1440) as i64 * 60 + 60 {
            let t = day * 86_400 + s;
            let d = dt(t);
            let x = api("encode_datetime", || encode_datetime(d))?;
            let back = api("decode_datetime", || decode_datetime(&x))?;
            ensure!(x == enc(&t.to_le_bytes()) && back == Some(d), "{d} encodes to {x:?} which decodes to {back:?}");
            let text = iso(t);
            let back = api("decode_datetime", || decode_datetime(&text))?;
            ensure!(back == Some(d), "{text} decodes to {back:?}");
            // sub-second parts are cut off
            let x = api("encode_datetime", || encode_datetime(d + chrono::Duration::milliseconds(999)))?;
            ensure!(x == enc(&t.to_le_bytes()), "{d}.999 encodes to {x:?}");
            c.seen("second", &t);
        }
        Ok(())
    });
    // the first and last second of every year outside those the format was made for
    let years: Vec<i64> = (-262_142i64..=0).chain(10_000..=262_141).collect();
    e.phase("far-years", years.len() as u64, |i, c| {
        let y = years[i as usize];
        for t in [days_from_civil(y, 1, 1) * 86_400, days_from_civil(y + 1, 1, 1) * 86_400 - 1] {
            let d = dt(t);
            let x = api("encode_datetime", || encode_datetime(d))?;
            ensure!(x == enc(&t.to_le_bytes()), "{d} encodes to {x:?}");
            let back = api("decode_datetime", || decode_datetime(&x))?;
            ensure!(back == Some(d), "{d} encodes to {x:?} which decodes to {back:?}");
            c.seen("instant", &t);
        }
        Ok(())
    });
    // counts of seconds at every power of two and around the calendar limits
    e.phase("counts", 64 * 3 * 2 + 9, |i, c| {
        let v = if i < 384 {
            let b = (1u64 << (i % 64)) as i64;
            let v = b.wrapping_add((i / 64 % 3) as i64 - 1);
            if i >= 192 { v.wrapping_neg() } else { v }
        } else {
            let l = last * 86_400;
            [0, -1, l - 1, l, i64::MAX, i64::MIN, 8_210_266_876_799 + 62_135_596_800, i64::MAX / 1000, i64::MIN / 1000][(i - 384) as usize]
        };
        judge_time_text(&enc(&v.to_le_bytes()), c)
    });
    // offsets
    e.phase("offsets", 48 * 60 + 8, |i, c| {
        let bases = [(2020, 2, 29), (2019, 12, 31), (1970, 1, 1), (1, 1, 2), (9999, 12, 30), (2000, 3, 1)];
        for (y, m, d) in bases {
            for s in [0i64, 1, 43_200, 86_399] {
                let t = days_from_civil(y, m, d) * 86_400 + s;
                let local = iso(t);
                let local = &local[..19];
                let (suffix, off) = if i < 48 * 60 {
                    let sign = if i / 1440 == 0 { 1 } else { -1 };
                    let mins = (i % 1440) as i64;
                    (format!("{}{:02}:{:02}", if sign > 0 { '+' } else { '-' }, mins / 60, mins % 60), sign * mins * 60)
                } else {
                    [("Z", 0), ("+00:00", 0), ("-00:00", 0), (".0Z", 0), (".5Z", 0), (".999999999Z", 0), (".123+01:00", 3600), (".000-11:30", -41_400)]
                        .map(|(a, b)| (a.to_string(), b as i64))[(i - 2880) as usize].clone()
                };
                let text = format!("{local}{suffix}");
                let got = api("decode_datetime", || decode_datetime(&text))?;
                let want = t - off;
                ensure!(got.as_ref().map(secs) == Some(want), "{text} decodes to {got:?}, expected {}", iso(want));
                c.seen("offset", &text);
            }
        }
        Ok(())
    });
    // calendar fields of ISO times: all values of two digits
    e.phase("fields", 6 * 100 * 4, |i, c| {
        let mut x = Dec(i);
        let v = x.pick(100);
        let field = x.pick(6);
        let y = [2020, 2019, 2000, 1900][x.pick(4)];
        let mut p = [y, 1, 15, 12, 30, 30];
        let mut want_ok = true;
        match field {
            0 => {} // month and day jointly below
            1 => p[1] = v as i64,
            2 => p[2] = v as i64,
            3 => p[3] = v as i64,
            4 => p[4] = v as i64,
            _ => p[5] = v as i64,
        }
        if field == 0 {
            p[1] = (v % 12 + 1) as i64;
            p[2] = 28 + (v / 12 % 5) as i64;
        }
        want_ok &= (1..=12).contains(&p[1]);
        want_ok = want_ok && p[2] >= 1 && p[2] <= crate::refxml::month_days(p[0], p[1] as u32) as i64;
        want_ok &= p[3] < 24 && p[4] < 60;
        if p[5] == 60 {
            // a leap second may be read or refused
            c.seen("trivial", "");
            return Ok(());
        }
        want_ok &= p[5] < 60;
        let text = format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}Z", p[0], p[1], p[2], p[3], p[4], p[5]);
        let got = api("decode_datetime", || decode_datetime(&text))?;
        let want = want_ok.then(|| days_from_civil(p[0], p[1] as u32, p[2] as u32) * 86_400 + p[3] * 3600 + p[4] * 60 + p[5]);
        ensure!(got.as_ref().map(secs) == want, "{text} decodes to {got:?}, expected {want:?} s");
        c.seen(if want_ok { "accepted" } else { "rejected" }, &text);
        Ok(())
    });
    // damaged ISO times: cut at each length, each character replaced or removed
    e.phase("damaged-iso", 20 + 20 * 7 + 20, |i, c| {
        let good = "2020-04-01T01:02:03Z";
        let text = if i < 20 {
            good[..i as usize].to_string()
        } else if i < 160 {
            let (p, r) = (((i - 20) % 20) as usize, ['x', '/', '.', '\u{e9}', '+', '\0', '\u{664}'][((i - 20) / 20) as usize]);
            let mut s: Vec<char> = good.chars().collect();
            s[p] = r;
            s.into_iter().collect()
        } else {
            let p = (i - 160) as usize;
            format!("{}{}", &good[..p], &good[p + 1..])
        };
        if !text.contains('-') {
            return judge_time_text(&text, c);
        }
        let got = api("decode_datetime", || decode_datetime(&text))?;
        ensure!(got.is_none(), "malformed time {text:?} decodes to {got:?}");
        c.seen("rejected", &text);
        Ok(())
    });
    // base64 texts: all byte lengths, every one-character change, every cut
    e.phase("time-lengths", 33, |i, c| {
        for fill in [0u8, 1, 0x7f, 0xff] {
            judge_time_text(&enc(&vec![fill; i as usize]), c)?;
        }
        Ok(())
    });
    e.phase("time-damage", 131 * 13 * 3, |i, c| {
        let mut x = Dec(i);
        let (ch, p) = (damage(x.pick(131)), x.pick(13));
        let base = enc(&[63_713_000_123i64, 0x0123_4567_89ab, 1][x.pick(3)].to_le_bytes());
        let mut s: Vec<char> = base.chars().collect();
        if p < 12 {
            s[p] = ch;
        } else {
            s.push(ch);
        }
        let s: String = s.into_iter().collect();
        if s.contains('-') {
            let got = api("decode_datetime", || decode_datetime(&s))?;
            ensure!(got.is_none(), "malformed time {s:?} decodes to {got:?}");
            c.seen("rejected", &s);
            return Ok(());
        }
        judge_time_text(&s, c)?;
        for cut in 0..s.len() {
            if s.is_char_boundary(cut) {
                judge_time_text(&s[..cut], c)?;
            }
        }
        Ok(())
    });
    // every pair of characters at every pair of places
    let pairs = |n: u64| n * (n - 1) / 2;
    let place = |mut k: u64, n: u64| {
        for a in 0..n {
            if k < n - 1 - a {
                return (a as usize, (a + 1 + k) as usize);
            }
            k -= n - 1 - a;
        }
        unreachable!()
    };
    e.phase("time-characters", pairs(12) * 65, |i, c| {
        let mut x = Dec(i);
        let first = x.pick(65);
        let (p, q) = place(x.0, 12);
        let chars: Vec<char> = TABLE.iter().map(|b| *b as char).chain(['=']).collect();
        for base in [63_713_000_123i64, 1] {
            let mut s: Vec<char> = enc(&base.to_le_bytes()).chars().collect();
            s[p] = chars[first];
            for ch in &chars {
                s[q] = *ch;
                judge_time_text(&s.iter().collect::<String>(), c)?;
            }
        }
        Ok(())
    });
    e.phase("uuid-characters", pairs(24) * 65, |i, c| {
        let mut x = Dec(i);
        let first = x.pick(65);
        let (p, q) = place(x.0, 24);
        let chars: Vec<char> = TABLE.iter().map(|b| *b as char).chain(['=']).collect();
        let mut s: Vec<char> = enc(Uuid::from_u128(0x0123_4567_89ab_cdef_fedc_ba98_7654_3210).as_bytes()).chars().collect();
        s[p] = chars[first];
        for ch in &chars {
            s[q] = *ch;
            judge_uuid_text(&s.iter().collect::<String>(), c)?;
        }
        Ok(())
    });
    e.phase("uuid-bytes", 16 * 256, |i, c| {
        let mut b = [0x11u8; 16];
        b[(i % 16) as usize] = (i / 16) as u8;
        for fill in [0x11u8, 0, 0xff] {
            let mut u = b;
            for x in u.iter_mut() {
                if *x == 0x11 {
                    *x = fill;
                }
            }
            let u = Uuid::from_bytes(u);
            let s = api("encode_uuid", || encode_uuid(u))?;
            ensure!(s == enc(u.as_bytes()), "{u} encodes to {s:?}");
            let back = api("decode_uuid", || decode_uuid(&s))?;
            ensure!(back == Some(u), "{u} encodes to {s:?} which decodes to {back:?}");
            c.seen("identifier", u.as_bytes());
        }
        Ok(())
    });
    e.phase("uuid-bits", 128 * 128, |i, c| {
        let u = Uuid::from_u128(1u128 << (i % 128) | 1u128 << (i / 128));
        let s = api("encode_uuid", || encode_uuid(u))?;
        let back = api("decode_uuid", || decode_uuid(&s))?;
        ensure!(s == enc(u.as_bytes()) && back == Some(u), "{u} encodes to {s:?} which decodes to {back:?}");
        c.seen("identifier", u.as_bytes());
        Ok(())
    });
    e.phase("uuid-lengths", 65, |i, c| {
        for fill in [0u8, 0x5a, 0xff] {
            judge_uuid_text(&enc(&vec![fill; i as usize]), c)?;
        }
        // the textual forms of identifiers are not the stored form
        let u = Uuid::from_u128(0x0123_4567_89ab_cdef_fedc_ba98_7654_3210u128.rotate_left(i as u32 * 2));
        for t in [u.to_string(), u.simple().to_string(), u.urn().to_string(), u.braced().to_string()] {
            judge_uuid_text(&t, c)?;
            judge_uuid_text(&t.to_uppercase(), c)?;
            judge_uuid_text(&enc(t.as_bytes()), c)?;
        }
        Ok(())
    });
    e.phase("uuid-damage", 131 * 25, |i, c| {
        let (ch, p) = (damage((i % 131) as usize), (i / 131) as usize);
        let mut s: Vec<char> = enc(Uuid::from_u128(0x0123_4567_89ab_cdef_fedc_ba98_7654_3210).as_bytes()).chars().collect();
        if p < 24 {
            s[p] = ch;
        } else {
            s.push(ch);
        }
        let s: String = s.into_iter().collect();
        judge_uuid_text(&s, c)?;
        for cut in (0..s.len()).filter(|k| s.is_char_boundary(*k)) {
            judge_uuid_text(&s[..cut], c)?;
        }
        Ok(())
    });
}
