use logicaffeine_base::temporal::*;
use vh::{Rng, H};

fn leap(y: i64) -> bool { y.rem_euclid(4) == 0 && (y.rem_euclid(100) != 0 || y.rem_euclid(400) == 0) }
fn jleap(y: i64) -> bool { y.rem_euclid(4) == 0 }
fn mlen(y: i64, m: u32, lp: fn(i64) -> bool) -> u32 { match m { 2 => if lp(y) { 29 } else { 28 }, 4 | 6 | 9 | 11 => 30, _ => 31 } }
/// day number by counting whole years and months from 1970 (independent of the closed formula)
pub fn dnum(y: i64, m: u32, d: u32) -> i64 {
    let k = (y - 2000).div_euclid(400); let mut n = k * 146097 + 10957; let mut yy = 2000 + k * 400;
    while yy < y { n += if leap(yy) { 366 } else { 365 }; yy += 1; }
    for mm in 1..m { n += mlen(y, mm, leap) as i64; }
    n + d as i64 - 1
}
pub fn dciv(z: i64) -> (i64, u32, u32) {
    let z0 = z - 10957; let k = z0.div_euclid(146097); let mut r = z0.rem_euclid(146097); let mut y = 2000 + k * 400;
    loop { let l = if leap(y) { 366 } else { 365 }; if r < l { break; } r -= l; y += 1; }
    let mut m = 1; loop { let l = mlen(y, m, leap) as i64; if r < l { break; } r -= l; m += 1; }
    (y, m, r as u32 + 1)
}
fn day_checks(h: &mut H, z: i64, y: i64, m: u32, d: u32, doy: i64) {
    let c = format!("day {z} = {y}-{m}-{d}");
    h.tick();
    let g = days_from_civil(y, m, d);
    h.check(g == z, "days_from_civil", || format!("days_from_civil({y},{m},{d}) = {g}, expected {z}"), || c.clone());
    let g = civil_from_days(z);
    h.check(g == (y, m, d), "civil_from_days", || format!("civil_from_days({z}) = {g:?}, expected {:?}", (y, m, d)), || c.clone());
    let w = (z + 4).rem_euclid(7);
    let g = weekday_from_days(z); h.check(g as i64 == w, "weekday", || format!("weekday_from_days({z}) = {g}"), || c.clone());
    let iw = if w == 0 { 7 } else { w };
    let g = iso_weekday_from_days(z); h.check(g as i64 == iw, "iso-weekday", || format!("iso_weekday_from_days({z}) = {g}"), || c.clone());
    let g = is_weekend(z); h.check(g == (w == 0 || w == 6), "weekend", || format!("is_weekend({z}) = {g}"), || c.clone());
    let g = day_of_year(y, m, d); h.check(g as i64 == doy, "day_of_year", || format!("day_of_year = {g}, expected {doy}"), || c.clone());
    // ISO week: the week's Thursday names year and week number
    let td = doy + 4 - iw; let yl = if leap(y) { 366 } else { 365 };
    let (iy, wk) = if td < 1 { let p = if leap(y - 1) { 366 } else { 365 }; (y - 1, (td + p - 1) / 7 + 1) } else if td > yl { (y + 1, (td - yl - 1) / 7 + 1) } else { (y, (td - 1) / 7 + 1) };
    let g = iso_week_from_days(z); h.check(g == (iy, wk as u32, iw as u32), "iso_week_from_days", || format!("iso_week_from_days({z}) = {g:?}, expected {:?}", (iy, wk, iw)), || c.clone());
    let g = days_from_iso_week(iy, wk as u32, iw as u32); h.check(g == z, "days_from_iso_week", || format!("days_from_iso_week({iy},{wk},{iw}) = {g}, expected {z}"), || c.clone());
    let g = last_day_of_month(y, m); h.check(g == mlen(y, m, leap), "last_day", || format!("last_day_of_month({y},{m}) = {g}"), || c.clone());
}
fn run_days(h: &mut H, y0: i64, years: i64) {
    let mut z = dnum(y0, 1, 1);
    for y in y0..y0 + years {
        let g = is_gregorian_leap(y); h.check(g == leap(y), "leap", || format!("is_gregorian_leap({y}) = {g}"), || format!("{y}"));
        let g = is_julian_leap(y); h.check(g == jleap(y), "jleap", || format!("is_julian_leap({y}) = {g}"), || format!("{y}"));
        let mut doy = 0;
        for m in 1..=12 { for d in 1..=mlen(y, m, leap) { doy += 1; day_checks(h, z, y, m, d, doy); z += 1; } }
        h.case(&format!("year {y}"), true);
    }
}
fn jnum(y: i64, m: u32, d: u32) -> i64 { // Julian-calendar day number by 4-year cycles; JDN 0 = -4712-01-01
    let k = (y + 4712).div_euclid(4); let mut n = k * 1461; let mut yy = -4712 + 4 * k;
    while yy < y { n += if jleap(yy) { 366 } else { 365 }; yy += 1; }
    for mm in 1..m { n += mlen(y, mm, jleap) as i64; }
    n + d as i64 - 1
}
pub fn c04(h: &mut H) {
    // dense: a full 400-year cycle around the epoch and one that crosses year 0
    if h.group("dense-cycle") { run_days(h, 1800, 420); run_days(h, -210, 420); }
    h.rounds("far-years", 2.0, 800, |h| { let y = match h.rng.below(3) { 0 => h.rng.range(-3_000_000, 3_000_000), 1 => h.rng.range(-20_000, 20_000), _ => h.rng.range(-2_000_000_000, 2_000_000_000) }; run_days(h, y, 1); });
    // Julian
    if h.group("julian-dense") { for y in -5400..2300i64 { let mut z = jnum(y, 1, 1); for m in 1..=12u32 { for d in 1..=mlen(y, m, jleap) { jul(h, y, m, d, z); z += 1; } } h.case(&format!("julian year {y}"), true); } }
    h.rounds("julian-far", 1.0, 20_000, |h| { let y = h.rng.range(-3_000_000, 3_000_000); let m = h.rng.range(1, 12) as u32; let d = h.rng.range(1, mlen(y, m, jleap) as i64) as u32; let z = jnum(y, m, d); jul(h, y, m, d, z); h.case(&format!("julian {y}-{m}-{d}"), true); });
    // calendar spans
    h.rounds("add_span", 2.0, 120_000, |h| {
        let r = &mut h.rng; let y = r.range(-3000, 5000); let m = r.range(1, 12) as u32; let d = if r.bool() { mlen(y, m, leap) } else { r.range(1, mlen(y, m, leap) as i64) as u32 };
        let (mo, da) = (match r.below(3) { 0 => r.range(-14, 14), 1 => 12 * r.range(-30, 30), _ => r.range(-5000, 5000) }, if r.bool() { 0 } else { r.range(-800, 800) });
        let dt = CivilDateTime { year: y, month: m, day: d, hour: r.below(24) as u32, minute: r.below(60) as u32, second: r.below(60) as u32, nanosecond: r.below(1_000_000_000) as u32 };
        let t = y * 12 + m as i64 - 1 + mo; let (ny, nm) = (t.div_euclid(12), t.rem_euclid(12) as u32 + 1); let nd = d.min(mlen(ny, nm, leap));
        let (ey, em, ed) = dciv(dnum(ny, nm, nd) + da); let want = CivilDateTime { year: ey, month: em, day: ed, ..dt };
        let g = add_span(dt, mo, da); let c = format!("add_span({dt:?}, {mo}, {da})"); h.case(&c, mo != 0 || da != 0);
        h.check(g == want, "add_span", || format!("got {g:?}, expected {want:?}"), || c.clone()); });
    // complete months / years between instants
    h.rounds("months_between", 3.0, 150_000, |h| {
        let r = &mut h.rng;
        let a = gen_ns(r); let mut b = if r.bool() { gen_ns(r) } else { let k = r.range(-60, 60); let ca = civ(a); let t = ca.0 * 12 + ca.1 as i64 - 1 + k; let (ny, nm) = (t.div_euclid(12), t.rem_euclid(12) as u32 + 1);
            let nd = ca.2.min(mlen(ny, nm, leap)); let v = dnum(ny, nm, nd) as i128 * 86_400_000_000_000 + ca.3 as i128; v.clamp(i64::MIN as i128, i64::MAX as i128) as i64 };
        b = match r.below(6) { 0 => b.saturating_add(1), 1 => b.saturating_sub(1), 2 => b.saturating_add(86_400_000_000_000), 3 => b.saturating_sub(86_400_000_000_000), _ => b };
        if r.chance(1, 60) { b = i64::MAX - r.below(1_000_000) as i64; }
        let c = format!("months_between({a}, {b})"); h.case(&c, a != b);
        let want = mb(a, b);
        if let Some(g) = h.guard("months_between", || c.clone(), || months_between(a, b)) { h.check(g == want, "months_between", || format!("got {g}, expected {want}"), || c.clone()); }
        if let Some(g) = h.guard("years_between", || c.clone(), || years_between(a, b)) { h.check(g == want / 12, "years_between", || format!("got {g}, expected {}", want / 12), || c.clone()); } });
    // business days
    h.rounds("business", 2.0, 30_000, |h| {
        let a = h.rng.range(-40_000, 40_000); let b = a + h.rng.range(-40, 40);
        let (lo, hi, s) = if a <= b { (a, b, 1) } else { (b, a, -1) };
        let want = s * (lo..hi).filter(|z| !matches!((z + 4).rem_euclid(7), 0 | 6)).count() as i64;
        let c = format!("business_days_between({a}, {b})"); h.case(&c, a != b);
        let g = business_days_between(a, b); h.check(g == want, "business_days_between", || format!("got {g}, expected {want}"), || c.clone());
        let n = h.rng.range(-60, 60); let mut d = a; let mut k = n.abs(); while k > 0 { d += n.signum(); if !matches!((d + 4).rem_euclid(7), 0 | 6) { k -= 1; } }
        let g = add_business_days(a, n); h.check(g == d, "add_business_days", || format!("got {g}, expected {d}"), || format!("add_business_days({a}, {n})"));
        // long spans: five per whole week
        let w = h.rng.range(0, 40_000); let g2 = business_days_between(lo - 7 * w, hi); let want2 = want * s + 5 * w; h.check(g2 == want2, "business_days_between", || format!("got {g2}, expected {want2}"), || format!("business_days_between({}, {hi})", lo - 7 * w)); });
    h.rounds("business-long-steps", 1.0, 400, |h| { let a = h.rng.range(-40_000, 40_000); let n = h.rng.range(-8000, 8000); let mut d = a; let mut k = n.abs(); while k > 0 { d += n.signum(); if !matches!((d + 4).rem_euclid(7), 0 | 6) { k -= 1; } }
        let c = format!("add_business_days({a}, {n})"); h.case(&c, true); let g = add_business_days(a, n); h.check(g == d, "add_business_days", || format!("got {g}, expected {d}"), || c.clone()); });
    h.rounds("nth-weekday", 1.0, 60_000, |h| { let y = h.rng.range(-3000, 5000); let m = h.rng.range(1, 12) as u32; let w = h.rng.range(1, 5) as u32; let wd = h.rng.below(7) as u32;
        let ds: Vec<u32> = (1..=mlen(y, m, leap)).filter(|d| (dnum(y, m, *d) + 4).rem_euclid(7) == wd as i64).collect(); let want = *ds.get(w as usize - 1).unwrap_or(ds.last().unwrap());
        let g = nth_weekday_of_month(y, m, w, wd); let c = format!("nth_weekday_of_month({y},{m},{w},{wd})"); h.case(&c, true); h.check(g == want, "nth_weekday", || format!("got {g}, expected {want}"), || c.clone()); });
}
fn jul(h: &mut H, y: i64, m: u32, d: u32, z: i64) {
    h.tick(); let c = format!("julian {y}-{m}-{d}");
    let g = jdn_from_julian(y, m, d); h.check(g == z, "jdn_from_julian", || format!("jdn_from_julian = {g}, expected {z}"), || c.clone());
    let g = julian_from_jdn(z); h.check(g == (y, m, d), "julian_from_jdn", || format!("julian_from_jdn({z}) = {g:?}"), || c.clone());
    let g = days_from_julian(y, m, d); h.check(g == z - 2440588, "days_from_julian", || format!("days_from_julian = {g}, expected {}", z - 2440588), || c.clone());
    let g = julian_from_days(z - 2440588); h.check(g == (y, m, d), "julian_from_days", || format!("julian_from_days = {g:?}"), || c.clone());
}
pub fn gen_ns(r: &mut Rng) -> i64 {
    match r.below(6) { 0 => r.u64() as i64, 1 => r.edge() as i64, 2 => r.range(-4_000_000_000, 4_000_000_000) * 1_000_000_000, 3 => r.range(-100_000, 100_000) * 86_400_000_000_000 + r.range(-2, 2),
        4 => { let y = r.range(1680, 2260); let m = r.range(1, 12) as u32; dnum(y, m, mlen(y, m, leap)) * 86_400_000_000_000 + r.range(0, 86_399) * 1_000_000_000 } _ => r.range(-4_000_000_000_000_000, 4_000_000_000_000_000) * 1000 }
}
fn civ(ns: i64) -> (i64, u32, u32, i64) { let z = ns.div_euclid(86_400_000_000_000); let (y, m, d) = dciv(z); (y, m, d, ns.rem_euclid(86_400_000_000_000)) }
fn mb(a: i64, b: i64) -> i64 { // largest k with a + k months <= b
    if b < a { return -mb(b, a); }
    let (ya, ma, da, ta) = civ(a); let (yb, mb_, _, _) = civ(b);
    let mut k = (yb - ya) * 12 + mb_ as i64 - ma as i64 + 1;
    loop { let t = ya * 12 + ma as i64 - 1 + k; let (ny, nm) = (t.div_euclid(12), t.rem_euclid(12) as u32 + 1); let v = dnum(ny, nm, da.min(mlen(ny, nm, leap))) as i128 * 86_400_000_000_000 + ta as i128; if v <= b as i128 { return k; } k -= 1; }
}
// ---------------------------------------------------------------- C05
const LEAPS: [(i64, u32, i64); 28] = [(1972, 1, 10), (1972, 7, 11), (1973, 1, 12), (1974, 1, 13), (1975, 1, 14), (1976, 1, 15), (1977, 1, 16), (1978, 1, 17), (1979, 1, 18), (1980, 1, 19), (1981, 7, 20), (1982, 7, 21), (1983, 7, 22), (1985, 7, 23), (1988, 1, 24), (1990, 1, 25), (1991, 1, 26), (1992, 7, 27), (1993, 7, 28), (1994, 7, 29), (1996, 1, 30), (1997, 7, 31), (1999, 1, 32), (2006, 1, 33), (2009, 1, 34), (2012, 7, 35), (2015, 7, 36), (2017, 1, 37)];
fn off(u: i64) -> i64 { let mut o = 10; for (y, m, v) in LEAPS { if dnum(y, m, 1) * 86400 <= u { o = v; } } o }
fn rfc(s: &str) -> Option<i128> {
    let b = s.as_bytes(); if b.len() < 20 { return None; }
    let num = |r: std::ops::Range<usize>| -> Option<i128> { let t = b.get(r)?; if !t.iter().all(|c| c.is_ascii_digit()) { return None; } Some(t.iter().fold(0i128, |a, c| a * 10 + (c - b'0') as i128)) };
    for (i, c) in [(4, b'-'), (7, b'-'), (10, b'T'), (13, b':'), (16, b':')] { if b[i] != c { return None; } }
    let (y, mo, d, hh, mi, ss) = (num(0..4)?, num(5..7)?, num(8..10)?, num(11..13)?, num(14..16)?, num(17..19)?);
    if !(1..=12).contains(&mo) || d < 1 || d > mlen(y as i64, mo as u32, leap) as i128 || hh > 23 || mi > 59 || ss > 59 { return None; }
    let mut p = 19; let mut ns = 0i128;
    if b[p] == b'.' { p += 1; let st = p; let mut k = 100_000_000; while p < b.len() && b[p].is_ascii_digit() { ns += (b[p] - b'0') as i128 * k; k /= 10; p += 1; } if p == st { return None; } }
    let o = match *b.get(p)? { b'Z' => { p += 1; 0 } c @ (b'+' | b'-') => { let (oh, om) = (num(p + 1..p + 3)?, num(p + 4..p + 6)?); if *b.get(p + 3)? != b':' || oh > 23 || om > 59 { return None; } p += 6; (oh * 3600 + om * 60) * if c == b'+' { 1 } else { -1 } } _ => return None };
    if p != b.len() { return None; }
    let v = dnum(y as i64, mo as u32, d as u32) as i128 * 86_400_000_000_000 + (hh * 3600 + mi * 60 + ss - o) * 1_000_000_000 + ns;
    i64::try_from(v).ok().map(|x| x as i128)
}
/// exact value of a duration text; Err(()) where this oracle gives no opinion
fn dur(s: &str) -> Result<Option<i64>, ()> {
    let (neg, mut t) = match s.as_bytes().first() { Some(b'-') => (true, &s[1..]), Some(b'+') => (false, &s[1..]), _ => (false, s) };
    if t.is_empty() { return Ok(None); }
    let mut tot: i128 = 0;
    while !t.is_empty() {
        let n = t.bytes().take_while(|c| c.is_ascii_digit()).count(); let int = &t[..n]; t = &t[n..];
        let mut fr = ""; if t.starts_with('.') { t = &t[1..]; let n = t.bytes().take_while(|c| c.is_ascii_digit()).count(); fr = &t[..n]; t = &t[n..]; if n == 0 { return Err(()); } }
        if int.is_empty() && fr.is_empty() { return Ok(None); }
        let us: [(&str, i128); 8] = [("ms", 1_000_000), ("ns", 1), ("us", 1000), ("µs", 1000), ("s", 1_000_000_000), ("m", 60_000_000_000), ("h", 3_600_000_000_000), ("d", 86_400_000_000_000)];
        let Some((u, v)) = us.iter().find(|(u, _)| t.starts_with(u)) else { return Ok(None) }; t = &t[u.len()..];
        if int.len() > 20 || fr.len() > 20 { return Err(()); }
        let iv: i128 = if int.is_empty() { 0 } else { int.parse().unwrap() };
        tot += iv * v; if !fr.is_empty() { let f: i128 = fr.parse().unwrap(); tot += f * v / 10i128.pow(fr.len() as u32); }
    }
    Ok(i64::try_from(if neg { -tot } else { tot }).ok())
}
fn rule_day(y: i64, m: u32, week: u32) -> i64 { let ds: Vec<i64> = (1..=mlen(y, m, leap)).map(|d| dnum(y, m, d)).filter(|z| (z + 4).rem_euclid(7) == 0).collect(); *ds.get(week as usize - 1).unwrap_or(ds.last().unwrap()) }
/// offset in force by the published rules
fn zone_off(name: &str, u: i64) -> i64 {
    let y = dciv(u.div_euclid(86400)).0;
    let us = |std: i64| { let s = rule_day(y, 3, 2) * 86400 + 2 * 3600 - std; let e = rule_day(y, 11, 1) * 86400 + 2 * 3600 - (std + 3600); if u >= s && u < e { std + 3600 } else { std } };
    let eu = |std: i64| { let s = rule_day(y, 3, 5) * 86400 + 3600; let e = rule_day(y, 10, 5) * 86400 + 3600; if u >= s && u < e { std + 3600 } else { std } };
    match name { "UTC" | "Etc/UTC" | "Zulu" => 0, "America/New_York" => us(-18000), "America/Chicago" => us(-21600), "America/Denver" => us(-25200), "America/Los_Angeles" => us(-28800), "America/Phoenix" => -25200,
        "Europe/London" | "Europe/Dublin" | "Europe/Lisbon" => eu(0), "Asia/Kolkata" | "Asia/Calcutta" => 19800, "Asia/Tokyo" => 32400, "Asia/Shanghai" => 28800,
        "Australia/Sydney" => { let e = rule_day(y, 4, 1) * 86400 + 3 * 3600 - 39600; let s = rule_day(y, 10, 1) * 86400 + 2 * 3600 - 36000; if u < e || u >= s { 39600 } else { 36000 } }
        _ => eu(3600) }
}
const ZONES: [&str; 20] = ["UTC", "Etc/UTC", "Zulu", "America/New_York", "America/Chicago", "America/Denver", "America/Los_Angeles", "America/Phoenix", "Europe/London", "Europe/Dublin", "Europe/Lisbon", "Europe/Paris", "Europe/Berlin", "Europe/Madrid", "Europe/Rome", "Europe/Amsterdam", "Asia/Kolkata", "Asia/Tokyo", "Asia/Shanghai", "Australia/Sydney"];
fn dt_of(ns: i128) -> CivilDateTime { let z = ns.div_euclid(86_400_000_000_000); let r = ns.rem_euclid(86_400_000_000_000); let (y, m, d) = dciv(z as i64); let s = (r / 1_000_000_000) as u32; CivilDateTime { year: y, month: m, day: d, hour: s / 3600, minute: s / 60 % 60, second: s % 60, nanosecond: (r % 1_000_000_000) as u32 } }
pub fn c05(h: &mut H) {
    h.rounds("instants", 3.0, 300_000, |h| {
        let n = gen_ns(&mut h.rng); let c = format!("instant {n}"); h.case(&c, n != 0);
        let g = civil_from_unix_nanos(n); let w = dt_of(n as i128); h.check(g == w, "civil_from_unix_nanos", || format!("got {g:?}, expected {w:?}"), || c.clone());
        if n > i64::MIN + 86_400_000_000_000 { let b = unix_nanos_from_civil(w); h.check(b == n, "unix_nanos_from_civil", || format!("got {b}"), || c.clone()); }
        let t = format_rfc3339(n);
        let want = { let mut s = format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}", w.year, w.month, w.day, w.hour, w.minute, w.second); if w.nanosecond != 0 { s.push('.'); s.push_str(format!("{:09}", w.nanosecond).trim_end_matches('0')); } s.push('Z'); s };
        h.check(t == want, "format_rfc3339", || format!("got {t}, expected {want}"), || c.clone());
        if let Some(p) = h.guard("parse_rfc3339", || t.clone(), || parse_rfc3339(&t)) { h.check(p == Some(n), "rfc3339-roundtrip", || format!("parse({t}) = {p:?}"), || c.clone()); }
        let d = format_duration(n); let p = parse_duration(&d); h.check(p == Some(n), "duration-roundtrip", || format!("format {d}, parsed {p:?}"), || c.clone());
        let t = format_time_of_day(n); let want = { let mut s = format!("{:02}:{:02}:{:02}", w.hour, w.minute, w.second); if w.nanosecond != 0 { s.push('.'); s.push_str(format!("{:09}", w.nanosecond).trim_end_matches('0')); } s };
        h.check(t == want, "time_of_day", || format!("got {t}, expected {want}"), || c.clone()); });
    h.rounds("durations", 2.0, 120_000, |h| { let r = &mut h.rng; let n = match r.below(5) { 0 => r.range(-2000, 2000), 1 => *r.pick(&[1i64, 1000, 1_000_000, 1_000_000_000, 60_000_000_000, 3_600_000_000_000, 86_400_000_000_000]) * r.range(-200, 200) + r.range(-1, 1), 2 => r.range(-2_000_000_000, 2_000_000_000), _ => r.edge() as i64 };
        let d = format_duration(n); h.case(&format!("duration {n}"), n != 0); let p = parse_duration(&d); h.check(p == Some(n) && dur(&d) == Ok(Some(n)), "duration-roundtrip", || format!("format {d}, parsed {p:?}"), || format!("{n}")); });
    h.rounds("duration-text", 3.0, 200_000, |h| {
        let s = { let r = &mut h.rng; let mut s = String::new(); if r.chance(1, 4) { s.push(*r.pick(&['-', '+'])); }
            for _ in 0..r.range(0, 3) { if !r.chance(1, 12) { for _ in 0..r.range(1, 6) { s.push((b'0' + r.below(10) as u8) as char); } } if r.chance(1, 3) { s.push('.'); for _ in 0..r.range(0, 11) { s.push((b'0' + r.below(10) as u8) as char); } } s.push_str(*r.pick(&["d", "h", "m", "s", "ms", "us", "µs", "ns", "s", "ms", "x", "", "M", "w"])); }
            if r.chance(1, 8) { s.push(*r.pick(&[' ', 'z', '9', '.'])); } s };
        h.case(&format!("parse_duration {s:?}"), !s.is_empty());
        if let Some(g) = h.guard("parse_duration", || format!("parse_duration({s:?})"), || parse_duration(&s)) { if let Ok(w) = dur(&s) { h.check(g == w, "parse_duration", || format!("got {g:?}, expected {w:?}"), || format!("{s:?}")); } } });
    h.rounds("duration-extreme-text", 1.0, 4000, |h| { let s = { let r = &mut h.rng; let mut s = String::new(); for _ in 0..r.range(0, 60) { s.push((b'0' + r.below(10) as u8) as char); } if r.bool() { s.push('.'); for _ in 0..r.range(0, 60) { s.push((b'0' + r.below(10) as u8) as char); } } s.push_str(*r.pick(&["d", "h", "ns", "s"])); s };
        h.case(&s, true); h.guard("parse_duration", || format!("parse_duration({s:?})"), || parse_duration(&s)); });
    h.rounds("rfc3339-text", 3.0, 200_000, |h| {
        let s = { let r = &mut h.rng; let mut s = format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}", if r.chance(1, 4) { r.range(0, 9999) } else { r.range(1600, 2300) }, r.range(0, 13), if r.bool() { r.range(1, 28) } else { r.range(0, 32) }, r.range(0, 24), r.range(0, 60), r.range(0, 60));
            if r.bool() { s.push('.'); for _ in 0..r.range(0, 12) { s.push((b'0' + r.below(10) as u8) as char); } }
            match r.below(5) { 0 | 1 => s.push('Z'), 2 => s.push_str(&format!("+{:02}:{:02}", r.range(0, 24), r.range(0, 60))), 3 => s.push_str(&format!("-{:02}:{:02}", r.range(0, 24), r.range(0, 60))), _ => s.push_str(*r.pick(&["", "z", "+0100", "+01:0", "ZZ", "-1:00"])) }
            if r.chance(1, 4) { let mut b = s.into_bytes(); let i = r.us(b.len()); match r.below(3) { 0 => b[i] = *r.pick(b"0:-TZ+ .a9"), 1 => { b.remove(i); } _ => b.insert(i, *r.pick(b"0:-TZ+ .a9")) } s = String::from_utf8(b).unwrap(); } s };
        h.case(&s, true); let w = rfc(&s).map(|x| x as i64);
        if let Some(g) = h.guard("parse_rfc3339", || format!("parse_rfc3339({s:?})"), || parse_rfc3339(&s)) { h.check(g == w, "parse_rfc3339", || format!("got {g:?}, expected {w:?}"), || format!("{s:?}")); } });
    // time scales: every leap boundary densely, plus random
    if h.group("leap-boundaries") { for (y, m, _) in LEAPS { let e = dnum(y, m, 1) * 86400; for u in e - 60..e + 60 { scales(h, u); } } }
    h.rounds("scales", 1.0, 60_000, |h| { let u = match h.rng.below(3) { 0 => h.rng.range(-9_000_000_000, 9_000_000_000), 1 => h.rng.range(0, 2_000_000_000), _ => h.rng.range(-100, 100) }; scales(h, u); });
    // zones
    h.rounds("zones", 3.0, 100_000, |h| {
        let zn = *h.rng.pick(&ZONES); let n = { let r = &mut h.rng; if r.bool() { let y = r.range(1700, 2250); let m = *r.pick(&[3u32, 4, 10, 11, 12, 1]); (rule_day(y, m, r.range(1, 5) as u32) * 86400 + r.range(-50_000, 50_000)) * 1_000_000_000 + r.below(3) as i64 } else { r.range(-8_000_000_000, 8_000_000_000) * 1_000_000_000 } };
        let c = format!("{zn} at {n}"); h.case(&c, true); let z = zone_by_name(zn); let Some(z) = z else { h.violation("zone_by_name", "known zone rejected", zn); return };
        let o = zone_off(zn, n.div_euclid(1_000_000_000)); let w = dt_of(n as i128 + o as i128 * 1_000_000_000);
        let g = z.to_local(n); h.check(g == w, "zone-to_local", || format!("got {g:?}, expected {w:?}"), || c.clone());
        let g = local_instant_nanos(n, zn); h.check(g == Some(n + o * 1_000_000_000), "local_instant_nanos", || format!("got {g:?}"), || c.clone());
        let g = format_zoned(n, zn); let want = format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}{}{:02}:{:02}", w.year, w.month, w.day, w.hour, w.minute, w.second, if o < 0 { '-' } else { '+' }, o.abs() / 3600, o.abs() / 60 % 60);
        h.check(g.as_deref() == Some(&want), "format_zoned", || format!("got {g:?}, expected {want}"), || c.clone());
        let y = w.year; let tz = z.transitions(y - 1, y + 1); let srt = tz.windows(2).all(|p| p[0].at_unix_seconds < p[1].at_unix_seconds); h.check(srt, "transitions-sorted", || "transitions not ascending".into(), || c.clone());
        local(h, &tz, z.std_offset, n, &c); });
    h.rounds("unknown-zone", 0.2, 50, |h| { let s = format!("Zone/{}", h.rng.below(1000)); h.case(&s, true); h.check(zone_by_name(&s).is_none() && format_zoned(0, &s).is_none() && local_instant_nanos(0, &s).is_none(), "unknown-zone", || "unknown zone accepted".into(), || s.clone()); });
    h.rounds("synthetic-zones", 3.0, 80_000, |h| {
        let (tz, base, n) = { let r = &mut h.rng; let base = r.range(-14, 14) as i32 * 1800; let mut at = r.range(-1_000_000, 1_000_000); let close = r.chance(1, 2); let mut tz = vec![]; for _ in 0..r.below(5) { tz.push(ZoneTransition { at_unix_seconds: at, offset_seconds: r.range(-14, 14) as i32 * 1800 }); at += if close { r.range(1, 9_000) } else { r.range(60_000, 400_000) }; }
            let n = if tz.is_empty() || r.chance(1, 4) { r.range(-3_000_000, 3_000_000) } else { let t: ZoneTransition = *r.pick(&tz); t.at_unix_seconds + r.range(-60_000, 60_000) }; (tz, base, n * 1_000_000_000 + r.below(2) as i64) };
        let c = format!("base {base} transitions {:?} at {n}", tz.iter().map(|t| (t.at_unix_seconds, t.offset_seconds)).collect::<Vec<_>>()); h.case(&c, !tz.is_empty());
        let o = seg_off(&tz, base, n.div_euclid(1_000_000_000)); let g = offset_at(&tz, base, n); h.check(g == o, "offset_at", || format!("got {g}, expected {o}"), || c.clone());
        let g = to_local(&tz, base, n); let w = dt_of(n as i128 + o as i128 * 1_000_000_000); h.check(g == w, "to_local", || format!("got {g:?}, expected {w:?}"), || c.clone());
        local(h, &tz, base, n, &c); });
}
fn seg_off(tz: &[ZoneTransition], base: i32, s: i64) -> i32 { tz.iter().rev().find(|t| t.at_unix_seconds <= s).map(|t| t.offset_seconds).unwrap_or(base) }
fn local(h: &mut H, tz: &[ZoneTransition], base: i32, n: i64, c: &str) {
    let w = dt_of(n as i128 + seg_off(tz, base, n.div_euclid(1_000_000_000)) as i128 * 1_000_000_000); let l = n + seg_off(tz, base, n.div_euclid(1_000_000_000)) as i64 * 1_000_000_000;
    let mut v: Vec<i64> = vec![]; for i in 0..=tz.len() { let o = if i == 0 { base } else { tz[i - 1].offset_seconds }; let u = l - o as i64 * 1_000_000_000; let s = u.div_euclid(1_000_000_000); if (i == 0 || tz[i - 1].at_unix_seconds <= s) && (i == tz.len() || s < tz[i].at_unix_seconds) { v.push(u); } }
    v.sort(); let (e, lt) = (v[0], *v.last().unwrap());
    if v.len() > 1 { h.count("ambiguous-local"); }
    let g = from_local(tz, base, w, Fold::Earlier); h.check(g == e, "from_local-earlier", || format!("got {g}, expected {e}"), || c.into());
    let g = from_local(tz, base, w, Fold::Later); h.check(g == lt, "from_local-later", || format!("got {g}, expected {lt}"), || c.into());
}
fn scales(h: &mut H, u: i64) {
    let c = format!("unix second {u}"); h.case(&c, true); let o = off(u);
    let g = tai_minus_utc(u); h.check(g == o, "tai_minus_utc", || format!("got {g}, expected {o}"), || c.clone());
    let t = unix_to_tai_seconds(u); h.check(t == u + o, "unix_to_tai", || format!("got {t}"), || c.clone());
    let b = tai_to_unix_seconds(u + o); h.check(b == u, "tai_to_unix", || format!("tai {} gives {b}", u + o), || c.clone());
    h.check(unix_to_tai_seconds(u) < unix_to_tai_seconds(u + 1) && tai_to_unix_seconds(u) <= tai_to_unix_seconds(u + 1), "tai-monotone", || "not monotone".into(), || c.clone());
    if u.abs() < 9_000_000_000 { for k in [0, 1, 999_999_999] { let n = u * 1_000_000_000 + k; let c = format!("unix nanos {n}");
        let g = tai_nanos_from_unix_nanos(n); h.check(g == n + o * 1_000_000_000, "tai_nanos", || format!("got {g}"), || c.clone());
        let t = tt_nanos_from_unix_nanos(n); h.check(t == n + o * 1_000_000_000 + 32_184_000_000, "tt_nanos", || format!("got {t}"), || c.clone());
        let b = unix_nanos_from_tt_nanos(n + o * 1_000_000_000 + 32_184_000_000); h.check(b == n, "tt-roundtrip", || format!("got {b}"), || c.clone()); } }
}
// ---------------------------------------------------------------- C22
fn ghlc(r: &mut Rng) -> Hlc { Hlc { physical_nanos: match r.below(4) { 0 => r.range(-3, 3), 1 => r.edge() as i64, _ => r.range(0, 50) }, logical: match r.below(4) { 0 => r.edge() as u32, 1 => *r.pick(&[0, 1, u32::MAX - 1, u32::MAX]), _ => r.below(4) as u32 } } }
fn key(a: Hlc) -> (i64, u32) { (a.physical_nanos, a.logical) }
fn giv(r: &mut Rng) -> EstimateInterval { let a = if r.chance(1, 6) { r.edge() as i64 } else { r.range(-20, 20) }; let b = if r.chance(1, 6) { r.edge() as i64 } else { r.range(-20, 30) }; EstimateInterval::new(a, b) }
fn gclock(r: &mut Rng) -> SyncClock { let mut c = SyncClock::new(); c.hlc = ghlc(r); for _ in 0..r.below(5) { let (n, i) = (r.below(5), giv(r)); c.knowledge.insert(n, i); } c }
pub fn c22(h: &mut H) {
    h.rounds("hlc", 4.0, 1_500_000, |h| {
        let (a, m, now) = { let r = &mut h.rng; let a = ghlc(r); let m = if r.chance(1, 3) { Hlc { physical_nanos: a.physical_nanos, logical: ghlc(r).logical } } else { ghlc(r) }; let now = match r.below(4) { 0 => a.physical_nanos, 1 => m.physical_nanos, 2 => a.physical_nanos.saturating_add(r.range(-2, 2)), _ => r.range(-3, 60) }; (a, m, now) };
        // nothing is later than the last representable stamp
        let top = a.physical_nanos.max(m.physical_nanos).max(now) == i64::MAX;
        let c = format!("{a:?} recv {m:?} now {now}"); h.case(&c, true);
        if !(top && a.logical == u32::MAX) { if let Some(t) = h.guard("tick", || c.clone(), || a.tick(now)) {
            h.check(key(t) > key(a) && t > a, "tick-order", || format!("tick gave {t:?}, not after {a:?}"), || c.clone());
            h.check(t.physical_nanos >= now, "tick-behind", || format!("tick gave {t:?}, behind {now}"), || c.clone());
            if now > a.physical_nanos { h.check(t.physical_nanos == now, "tick-drift", || format!("tick gave {t:?}, physical clock {now} is ahead"), || c.clone()); } } }
        if !(top && (a.logical == u32::MAX || m.logical == u32::MAX)) { if let Some(t) = h.guard("recv", || c.clone(), || a.recv(m, now)) {
            h.check(key(t) > key(a) && key(t) > key(m), "recv-order", || format!("recv gave {t:?}, not after both {a:?} and {m:?}"), || c.clone());
            h.check(t.physical_nanos >= now, "recv-behind", || format!("recv gave {t:?}, behind {now}"), || c.clone()); } }
        h.check((a.cmp(&m)) == key(a).cmp(&key(m)), "hlc-order", || "derived order is not lexicographic".into(), || c.clone()); });
    h.rounds("history", 2.0, 4000, |h| { // whole histories of several nodes: happens-before implies smaller stamp
        let n = 3; let mut cl = vec![Hlc::ZERO; n]; let mut phys = vec![0i64; n]; let mut sent: Vec<(Hlc, usize)> = vec![]; let mut log = String::new();
        for _ in 0..24 { let i = h.rng.us(n); phys[i] += h.rng.range(-2, 3); let before = cl[i];
            let (t, extra) = if !sent.is_empty() && h.rng.bool() { let (m, _) = *h.rng.pick(&sent); log.push_str(&format!("{i} recv {m:?}@{}; ", phys[i])); (cl[i].recv(m, phys[i]), Some(m)) } else { log.push_str(&format!("{i} tick@{}; ", phys[i])); (cl[i].tick(phys[i]), None) };
            h.check(key(t) > key(before) && extra.map(|m| key(t) > key(m)).unwrap_or(true) && t.physical_nanos >= phys[i], "history-order", || format!("stamp {t:?} after {before:?}"), || log.clone());
            cl[i] = t; if h.rng.bool() { sent.push((t, i)); } }
        h.case(&log, true); });
    h.rounds("intervals", 1.0, 200_000, |h| { let (a, b, d, t) = { let r = &mut h.rng; let (a, b, d) = (giv(r), giv(r), giv(r)); let t = *r.pick(&[a.lower_nanos, a.upper_nanos, b.lower_nanos, b.upper_nanos, 0, 5]); (a, b, d, t) }; let c = format!("{a:?} {b:?} {d:?} at {t}"); h.case(&c, true);
        let i = a.intersect(&b);
        h.check(i.contains(t) == (a.lower_nanos <= t && t <= a.upper_nanos && b.lower_nanos <= t && t <= b.upper_nanos), "intersect", || format!("{i:?} is not the meet"), || c.clone());
        h.check(i.lower_nanos == a.lower_nanos.max(b.lower_nanos) && i.upper_nanos == a.upper_nanos.min(b.upper_nanos), "intersect", || format!("{i:?} is not the meet"), || c.clone());
        h.check(i == b.intersect(&a) && a.intersect(&a) == a && i.intersect(&d) == a.intersect(&b.intersect(&d)), "intersect-laws", || "not commutative/associative/idempotent".into(), || c.clone()); });
    h.rounds("merge", 3.0, 150_000, |h| {
        let (a, b, d) = { let r = &mut h.rng; let a = gclock(r); let b = gclock(r); let d = gclock(r); (a, b, d) }; let c = format!("{a:?} | {b:?} | {d:?}"); h.case(&c, !a.knowledge.is_empty() && !b.knowledge.is_empty());
        let ab = a.merge(&b);
        h.check(ab == b.merge(&a), "merge-comm", || "merge not commutative".into(), || c.clone());
        h.check(a.merge(&a) == a && ab.merge(&b) == ab && ab.merge(&a) == ab, "merge-idem", || "merge not idempotent".into(), || c.clone());
        h.check(ab.merge(&d) == a.merge(&b.merge(&d)), "merge-assoc", || "merge not associative".into(), || c.clone());
        h.check(key(ab.hlc) == key(a.hlc).max(key(b.hlc)), "merge-hlc", || format!("hlc {:?}", ab.hlc), || c.clone());
        let mut ks: Vec<u64> = a.knowledge.keys().chain(b.knowledge.keys()).copied().collect(); ks.sort(); ks.dedup();
        h.check(ab.knowledge.keys().copied().collect::<Vec<_>>() == ks, "merge-keys", || "node lost or invented".into(), || c.clone());
        for k in ks { let i = ab.knowledge.get(&k).copied(); let w = match (a.knowledge.get(&k), b.knowledge.get(&k)) { (Some(x), Some(y)) => EstimateInterval::new(x.lower_nanos.max(y.lower_nanos), x.upper_nanos.min(y.upper_nanos)), (Some(x), None) => *x, (None, Some(y)) => *y, _ => unreachable!() }; h.check(i == Some(w), "merge-interval", || format!("node {k}: {i:?}, expected {w:?}"), || c.clone()); }
        let (n, iv, now) = { let r = &mut h.rng; (r.below(5), giv(r), r.range(-3, 60)) };
        let o = a.observe(n, iv); let w = a.knowledge.get(&n).map(|x| EstimateInterval::new(x.lower_nanos.max(iv.lower_nanos), x.upper_nanos.min(iv.upper_nanos))).unwrap_or(iv); let mut e = a.clone(); e.knowledge.insert(n, w);
        h.check(o == e, "observe", || format!("observe({n}, {iv:?}) gave {o:?}"), || c.clone());
        if a.hlc.logical < u32::MAX { let t = a.tick(now); h.check(t.knowledge == a.knowledge && t.hlc == a.hlc.tick(now), "clock-tick", || format!("tick gave {t:?}"), || c.clone()); } });
}
