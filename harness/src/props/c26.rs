//! New items carry the present.

use crate::clock;
use crate::engine::*;
use crate::lib_io::*;
use crate::model::*;
use crate::refcodec::*;
use crate::refxml::days_from_civil;
use crate::{bail, ensure};
use kdbx_rs::database::{Database, Entry, Group, Times};

/// Seconds from the first instant of year 1 to 1970.
const EPOCH: i64 = 62_135_596_800;
const BILLION: i128 = 1_000_000_000;

const MAKERS: [&str; 6] = ["Times::default", "Entry::default", "Group::new", "Group::default", "Database::default", "an archive"];
fn make(k: usize) -> Times {
    match k {
        0 => Times::default(),
        1 => Entry::default().times().clone(),
        2 => Group::new("new").times().clone(),
        3 => Group::default().times().clone(),
        4 => Database::default().root().times().clone(),
        _ => kdbx_rs::Kdbx::from_database(Database::default()).database().root().times().clone(),
    }
}

fn whole(t: &Times) -> bool {
    use chrono::Timelike;
    [t.last_modification_time, t.creation_time, t.last_access_time, t.expiry_time, t.location_changed].iter().all(|x| x.nanosecond() == 0)
}
fn fresh(t: &Times, from: i128, to: i128, what: &dyn Fn() -> String) -> Res {
    ensure!(whole(t), "{}: not whole seconds: {t:?}", what());
    let m = observe_times(t);
    ensure!(m.t.iter().all(|x| *x == m.t[0]), "{}: its times are of different moments: {:?}", what(), m.t);
    ensure!(!m.expires && m.usage == 0, "{}: expires {}, used {} times", what(), m.expires, m.usage);
    for (k, x) in m.t.iter().enumerate() {
        let x = (x - EPOCH) as i128;
        ensure!(from.div_euclid(BILLION) <= x && x <= to.div_euclid(BILLION), "{}: time {k} is {x}, the clock says {}", what(), from.div_euclid(BILLION));
    }
    Ok(())
}

/// Names of zones as rules, so that nothing depends on the zone files of the machine.
fn zones() -> Vec<String> {
    let mut v = vec!["UTC0".to_string()];
    // every quarter of an hour; rules give hours west of Greenwich
    for q in -56i32..=56 {
        let (s, q) = (if q < 0 { "-" } else { "" }, q.abs());
        v.push(format!("<zzz>{s}{}:{:02}", q / 4, q % 4 * 15));
    }
    v.push("<zzz>-0:00:01".into());
    v.push("<zzz>0:00:01".into());
    v.push("<zzz>-4:51:17".into());
    // with summer time
    for rule in ["CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "AEST-10AEDT,M10.1.0,M4.1.0/3", "<+1030>-10:30<+11>-11,M10.1.0,M4.1.0", "IST-1GMT0,M10.5.0,M3.5.0/1", "NZST-12NZDT,M9.5.0,M4.1.0/3"] {
        v.push(rule.into());
    }
    v
}

/// Instants in seconds since 1970.
fn instants() -> Vec<i64> {
    let mut v = vec![];
    // around turns of years, months and days
    for year in [1970, 1971, 1972, 1999, 2000, 2001, 2024, 2026, 2027, 2037, 2038, 2039, 2100, 2106, 2107, 2400, 3000, 9998] {
        for (m, d) in [(1, 1), (2, 28), (3, 1), (3, 31), (7, 1), (10, 25), (12, 31)] {
            let day = days_from_civil(year, m, d) * 86_400 - EPOCH;
            for s in [0, 1, 3599, 3600, 43_200, 82_800, 86_399] {
                v.push(day + s);
            }
        }
    }
    for b in 0..38 {
        v.extend([(1i64 << b) - 1, 1 << b, (1 << b) + 1]);
    }
    v.retain(|x| *x >= 0);
    v.sort();
    v.dedup();
    v
}

pub fn run(e: &mut Engine) {
    e.rule = "a case is one item made at one scripted reading of the clock in one time zone; distinct by item, instant and zone".into();
    let before = std::env::var_os("TZ");
    let (zones, instants) = (zones(), instants());
    let ni = instants.len() as u64;
    for (nz, z) in zones.iter().enumerate() {
        // between phases no other thread looks at the environment
        std::env::set_var("TZ", z);
        e.phase(&format!("zone:z{nz}"), ni * 6 * 3, |i, c| {
            let mut x = Dec(i);
            let k = x.pick(6);
            let part = *x.of(&[0i128, 1, 999_999_999]);
            let now = *x.of(&instants) as i128 * BILLION + part;
            let (t, reads) = clock::at(now, 0, || api("creation", || make(k)));
            let what = || format!("{} at {now} ns, zone {z}", MAKERS[k]);
            ensure!(reads > 0, "{}: the clock is not asked", what());
            fresh(&t?, now, now, &what)?;
            c.seen("the present", &(k, now, z));
            c.sample(what);
            Ok(())
        });
    }
    for (name, z) in [("utc", "UTC0"), ("summer-time", "CET-1CEST,M3.5.0,M10.5.0/3"), ("west", "<zzz>9:30")] {
        std::env::set_var("TZ", z);
        // every second of two days, one with a change to summer time
        e.phase(&format!("seconds:{name}"), 86_400 * 2, |i, c| {
            let mut x = Dec(i);
            let day = days_from_civil(2026, 3, [28, 29][x.pick(2)]);
            let now = (day * 86_400 - EPOCH + x.0 as i64) as i128 * BILLION + 500_000_000;
            let (t, _) = clock::at(now, 0, || api("creation", || make(1)));
            fresh(&t?, now, now, &|| format!("an entry at {now} ns, zone {z}"))?;
            c.seen("the present", &(now, z));
            Ok(())
        });
        // every day from 1970 on
        e.phase(&format!("days:{name}"), e.pick(1_000_000, 2_900_000), |i, c| {
            let now = (i as i64 * 86_400 + 79_261) as i128 * BILLION + 1;
            let (t, _) = clock::at(now, 0, || api("creation", || make(2)));
            fresh(&t?, now, now, &|| format!("a group at {now} ns, zone {z}"))?;
            c.seen("the present", &(now, z));
            Ok(())
        });
        // parts of a second
        e.phase(&format!("parts:{name}"), 1000 * 6, |i, c| {
            let mut x = Dec(i);
            let k = x.pick(6);
            let now = 1_794_820_000 * BILLION + x.0 as i128 * 1_000_000 + 999_999;
            let (t, _) = clock::at(now, 0, || api("creation", || make(k)));
            fresh(&t?, now, now, &|| format!("{} at {now} ns, zone {z}", MAKERS[k]))?;
            c.seen("the present", &(k, now, z));
            Ok(())
        });
        // a clock that moves between its readings
        let ticks: Vec<i128> = vec![1, 1_000_000, 499_999_999, BILLION, 60 * BILLION, 86_400 * BILLION];
        e.phase(&format!("ticking:{name}"), 6 * 6 * 40, |i, c| {
            let mut x = Dec(i);
            let k = x.pick(6);
            let tick = *x.of(&ticks);
            let now = 1_794_820_000 * BILLION + x.0 as i128 * 25_000_000;
            let (t, reads) = clock::at(now, tick, || api("creation", || make(k)));
            fresh(&t?, now, now + tick * reads as i128, &|| format!("{} at {now} ns with a clock moving {tick} ns, zone {z}", MAKERS[k]))?;
            c.seen("the present", &(k, now, tick));
            Ok(())
        });
        // sequences of creations while the clock goes on, stays or is set back
        let hands: [i64; 6] = [0, 1, 59, 86_400, 1_000_000_000, 4_102_444_800];
        let depth = e.pick(4, 5) as u32;
        e.phase(&format!("sequences:{name}"), words(18, depth), |i, c| {
            let seq = word(18, i);
            for (n, s) in seq.iter().enumerate() {
                let (hand, k) = (hands[s / 3], [1, 2, 4][s % 3]);
                let now = hand as i128 * BILLION + 7;
                let (t, _) = clock::at(now, 0, || api("creation", || make(k)));
                fresh(&t?, now, now, &|| format!("{} as creation {n} of {seq:?}, zone {z}", MAKERS[k]))?;
            }
            c.seen("the present", &seq);
            Ok(())
        });
        // as stored: read by the independent decoder
        let cfg = Cfg::plain();
        e.phase(&format!("stored:{name}"), ni, |i, c| {
            let now = instants[i as usize] as i128 * BILLION + 123_456_789;
            let (db, _) = clock::at(now, 0, || {
                api("creation", || {
                    let mut db = Database::default();
                    db.add_entry(Entry::default());
                    let mut g = Group::new("new");
                    g.add_entry(Entry::default());
                    db.add_group(g);
                    db
                })
            });
            let mut k = kdbx_rs::Kdbx::from_database(db?);
            configure(&mut k, &cfg);
            api("set_key", || k.set_key(cfg.cred.lib()))?.map_err(|e| Violation::from(format!("set_key: {e}")))?;
            let b = match save(&k)? {
                Ok(b) => b,
                Err(e) => bail!("a new database does not save: {e}"),
            };
            let d = decode(&b, &cfg.cred).and_then(|d| d.db()).map_err(|e| Violation::from(format!("a new database saved at {now}: {e}")))?;
            let g = &d.root;
            for m in [&g.times, &g.entries[0].times, &g.groups[0].times, &g.groups[0].entries[0].times] {
                ensure!(*m == MTimes { t: [instants[i as usize] + EPOCH; 5], expires: false, usage: 0 }, "stored times of an item made at {now} ns, zone {z}: {m:?}");
            }
            c.seen("the present", &(now, z));
            Ok(())
        });
    }
    match before {
        Some(x) => std::env::set_var("TZ", x),
        None => std::env::remove_var("TZ"),
    }
}
