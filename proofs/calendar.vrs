//#SUBST hasoff: offsets.contains(&t.offset_seconds) =>> has_off(&offsets, &t.offset_seconds)
//#SUBST sortv: valid.sort_unstable() =>> sort_i64(&mut valid)
//#SUBST dedupv: valid.dedup() =>> dedup_i64(&mut valid)
//#SUBST sortc: cands.sort_unstable() =>> sort_i64(&mut cands)
//#SUBST lastv: *valid.last().unwrap() =>> last_i64(&valid)
//#SUBST lastc: *cands.last().unwrap() =>> last_i64(&cands)
//#SUBST weekend: matches!(weekday_from_days(z), 0 | 6) =>> is_0_or_6(weekday_from_days(z))
//#SUBST allbut: CivilDateTime { year, month, day, ..dt } =>> CivilDateTime { year: year, month: month, day: day, hour: dt.hour, minute: dt.minute, second: dt.second, nanosecond: dt.nanosecond }
//#RAW
use vstd::prelude::*;
verus! {
global size_of usize == 8;
// std: Euclidean division, absolute value (trusted specifications)
pub assume_specification [i64::div_euclid] (a: i64, b: i64) -> (r: i64) requires b > 0 ensures r as int == a as int / b as int;
pub assume_specification [i64::rem_euclid] (a: i64, b: i64) -> (r: i64) requires b > 0 ensures r as int == a as int % b as int;
pub assume_specification [i64::abs] (a: i64) -> (r: i64) requires a != i64::MIN ensures r as int == (if a < 0 { -a } else { a as int });
//#ITEM crates/logicaffeine_base/src/temporal.rs :: const UNIX_EPOCH_JDN
//#ITEM crates/logicaffeine_base/src/temporal.rs :: const NANOS_PER_SECOND
//#ITEM crates/logicaffeine_base/src/temporal.rs :: const SECONDS_PER_DAY
//#ITEM crates/logicaffeine_base/src/temporal.rs :: const NANOS_PER_DAY
//#RAW
// ---- the calendar by its rules ----
// the supported range: about five thousand million million years on either side
spec fn oky(y: int) -> bool { -5_000_000_000_000_000 <= y <= 5_000_000_000_000_000 }
spec fn okz(z: int) -> bool { -1_850_000_000_000_000_000 <= z <= 1_850_000_000_000_000_000 }
spec fn leap(y: int) -> bool { (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 }
spec fn mlen(y: int, m: int) -> int { if m == 2 { if leap(y) { 29 } else { 28 } } else if m == 4 || m == 6 || m == 9 || m == 11 { 30 } else { 31 } }
spec fn valid(y: int, m: int, d: int) -> bool { 1 <= m <= 12 && 1 <= d <= mlen(y, m) }
// the day number in closed form (years from March)
spec fn base(yy: int) -> int { 365 * yy + yy / 4 - yy / 100 + yy / 400 }
spec fn dn(y: int, m: int, d: int) -> int { if m > 2 { base(y) + (153 * (m - 3) + 2) / 5 + d - 1 - 719468 } else { base(y - 1) + (153 * (m + 9) + 2) / 5 + d - 1 - 719468 } }
spec fn next(y: int, m: int, d: int) -> (int, int, int) { if d < mlen(y, m) { (y, m, d + 1) } else if m < 12 { (y, m + 1, 1) } else { (y + 1, 1, 1) } }
// the closed form is the day count: day 0 is 1970-01-01 and the number advances by one per calendar day
proof fn lem_epoch() ensures dn(1970, 1, 1) == 0 {}
proof fn lem_next(y: int, m: int, d: int) requires valid(y, m, d)
    ensures ({ let n = next(y, m, d); valid(n.0, n.1, n.2) && dn(n.0, n.1, n.2) == dn(y, m, d) + 1 }) { lem_base_step(y - 1); }
proof fn lem_base_step(y: int) ensures base(y + 1) == base(y) + 365 + (if leap(y + 1) { 1int } else { 0int }) {
    assert((y + 1) / 4 == y / 4 + (if (y + 1) % 4 == 0 { 1int } else { 0int }));
    assert((y + 1) / 100 == y / 100 + (if (y + 1) % 100 == 0 { 1int } else { 0int }));
    assert((y + 1) / 400 == y / 400 + (if (y + 1) % 400 == 0 { 1int } else { 0int }));
}
proof fn lem_base_mono(a: int, b: int) requires a < b ensures base(a) + 365 * (b - a) <= base(b) decreases b - a { lem_base_step(b - 1); if a + 1 < b { lem_base_mono(a, b - 1); } }
spec fn before(y: int, m: int, d: int, y2: int, m2: int, d2: int) -> bool { y < y2 || (y == y2 && (m < m2 || (m == m2 && d < d2))) }
// the mapping is strictly increasing in the calendar order, hence one to one
proof fn lem_mono(y: int, m: int, d: int, y2: int, m2: int, d2: int)
    requires valid(y, m, d), valid(y2, m2, d2), before(y, m, d, y2, m2, d2)
    ensures dn(y, m, d) < dn(y2, m2, d2)
{
    lem_base_step(y - 1); lem_base_step(y2 - 1);
    if y < y2 { lem_year_end(y, m, d); lem_year_start(y2, m2, d2); if y + 1 < y2 { lem_base_mono(y, y2 - 1); } }
}
proof fn lem_year_end(y: int, m: int, d: int) requires valid(y, m, d) ensures dn(y, m, d) < dn(y + 1, 1, 1), dn(y, m, d) >= dn(y, 1, 1) { lem_base_step(y - 1); }
proof fn lem_year_start(y: int, m: int, d: int) requires valid(y, m, d) ensures dn(y, m, d) >= dn(y, 1, 1) { lem_base_step(y - 1); }
proof fn lem_inj(y: int, m: int, d: int, y2: int, m2: int, d2: int)
    requires valid(y, m, d), valid(y2, m2, d2), dn(y, m, d) == dn(y2, m2, d2)
    ensures y == y2, m == m2, d == d2
{ if before(y, m, d, y2, m2, d2) { lem_mono(y, m, d, y2, m2, d2); } else if before(y2, m2, d2, y, m, d) { lem_mono(y2, m2, d2, y, m, d); } }
//#FN crates/logicaffeine_base/src/temporal.rs :: fn is_gregorian_leap
fn is_gregorian_leap(year: i64) -> /*@ (r: @*/ bool /*@ ) ensures r == leap(year as int) @*/ {
    (year % 4 == 0 && year % 100 != 0) || year % 400 == 0
}
//#FN crates/logicaffeine_base/src/temporal.rs :: fn is_julian_leap
fn is_julian_leap(year: i64) -> /*@ (r: @*/ bool /*@ ) ensures r == (year as int % 4 == 0) @*/ {
    year.rem_euclid(4) == 0
}
//#FN crates/logicaffeine_base/src/temporal.rs :: fn last_day_of_month
fn last_day_of_month(year: i64, month: u32) -> /*@ (r: @*/ u32 /*@ ) ensures 1 <= month <= 12 ==> r == mlen(year as int, month as int) @*/ {
    match month {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 => if is_gregorian_leap(year) { 29 } else { 28 },
        _ => 0,
    }
}
//#RAW
proof fn lem_era(era: int, yoe: int) requires 0 <= yoe < 400 ensures base(400 * era + yoe) == 146097 * era + 365 * yoe + yoe / 4 - yoe / 100
{ assert((400 * era + yoe) / 4 == 100 * era + yoe / 4); assert((400 * era + yoe) / 100 == 4 * era + yoe / 100); assert((400 * era + yoe) / 400 == era); }
proof fn lem_leap_era(era: int, yoe: int) ensures leap(yoe + 400 * era + 1) == leap(yoe + 1) { let y = yoe + 400 * era; assert((y + 1) % 4 == (yoe + 1) % 4); assert((y + 1) % 100 == (yoe + 1) % 100); assert((y + 1) % 400 == (yoe + 1) % 400); }
proof fn lem_iso_oky(y: int, m: int, d: int) requires valid(y, m, d), -1_810_000_000_000_000_000 <= dn(y, m, d) <= 1_810_000_000_000_000_000 ensures oky(y) {}
proof fn lem_dn_bound(y: int, m: int, d: int) requires oky(y), 1 <= m <= 12, 1 <= d <= 31 ensures okz(dn(y, m, d)) {}
//#FN crates/logicaffeine_base/src/temporal.rs :: fn days_from_civil
fn days_from_civil(year: i64, month: u32, day: u32) -> /*@ (r: @*/ i64 /*@ )
    requires oky(year as int), 1 <= month <= 12, 1 <= day <= 31
    ensures r == dn(year as int, month as int, day as int), okz(r as int) @*/ {
    let y = if month <= 2 { year - 1 } else { year };
    let era = (if y >= 0 { y } else { y - 399 }) / 400;
    /*@ proof { assert(era == y as int / 400); lem_era(era as int, y - era * 400); assert(400 * era + (y - era * 400) == y); } @*/
    let yoe = (y - era * 400) as i64;
    let m = month as i64;
    let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + day as i64 - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}
//#RAW
spec fn yb(yoe: int) -> int { 365 * yoe + yoe / 4 - yoe / 100 }
proof fn lem_yoe(doe: int, yoe: int)
    requires 0 <= doe <= 146096, yoe == (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365
    ensures 0 <= yoe <= 399, yb(yoe) <= doe, doe - yb(yoe) <= 365, (doe - yb(yoe) == 365) ==> leap(yoe + 1)
{
    let c = doe / 36524;
    let q = doe / 1460;
    if doe == 146096 { assert(doe / 146096 == 1); assert(c == 4); assert(q == 100); } else {
        assert(doe / 146096 == 0); assert(0 <= c <= 4); 
    }
}
proof fn lem_month(y: int, doy: int, mp: int, day: int, month: int, year: int)
    requires 0 <= doy <= 365, doy == 365 ==> leap(y + 1), mp == (5 * doy + 2) / 153, day == doy - (153 * mp + 2) / 5 + 1, month == (if mp < 10 { mp + 3 } else { mp - 9 }), year == (if month <= 2 { y + 1 } else { y })
    ensures valid(year, month, day), dn(year, month, day) == base(y) + doy - 719468, 0 <= mp <= 11
{
    assert(0 <= mp <= 11);
    if mp == 0 {} else if mp == 1 {} else if mp == 2 {} else if mp == 3 {} else if mp == 4 {} else if mp == 5 {} else if mp == 6 {} else if mp == 7 {} else if mp == 8 {} else if mp == 9 {} else if mp == 10 {} else {}
}
//#FN crates/logicaffeine_base/src/temporal.rs :: fn civil_from_days
fn civil_from_days(z: i64) -> /*@ (r: @*/ (i64, u32, u32) /*@ )
    requires okz(z as int)
    ensures valid(r.0 as int, r.1 as int, r.2 as int), dn(r.0 as int, r.1 as int, r.2 as int) == z, -5_100_000_000_000_000 <= r.0 <= 5_100_000_000_000_000 @*/ {
    let z = z + 719468;
    let era = (if z >= 0 { z } else { z - 146096 }) / 146097;
    /*@ proof { assert(era == z as int / 146097); } @*/
    let doe = z - era * 146097;
    /*@ proof { assert(0 <= doe <= 146096); } @*/
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    /*@ proof { lem_yoe(doe as int, yoe as int); } @*/
    let y = yoe + era * 400;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let day = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let month = (if mp < 10 { mp + 3 } else { mp - 9 }) as u32;
    let year = if month <= 2 { y + 1 } else { y };
    /*@ proof {
        lem_era(era as int, yoe as int); lem_leap_era(era as int, yoe as int);
        lem_month(y as int, doy as int, mp as int, day as int, month as int, year as int);
    } @*/
    (year, month, day)
}
//#FN crates/logicaffeine_base/src/temporal.rs :: fn weekday_from_days
fn weekday_from_days(z: i64) -> /*@ (r: @*/ u32 /*@ ) requires z <= i64::MAX - 4 ensures r == (z + 4) % 7, r < 7 @*/ {
    (z + 4).rem_euclid(7) as u32
}
//#FN crates/logicaffeine_base/src/temporal.rs :: fn iso_weekday_from_days
fn iso_weekday_from_days(z: i64) -> /*@ (r: @*/ u32 /*@ ) requires z <= i64::MAX - 4 ensures r == (z + 3) % 7 + 1, 1 <= r <= 7 @*/ {
    (z + 3).rem_euclid(7) as u32 + 1
}
//#RAW
// weekdays advance cyclically
proof fn lem_weekday(z: int) ensures (z + 1 + 4) % 7 == ((z + 4) % 7 + 1) % 7 {}
//#FN crates/logicaffeine_base/src/temporal.rs :: fn day_of_year
fn day_of_year(year: i64, month: u32, day: u32) -> /*@ (r: @*/ u32 /*@ )
    requires oky(year as int), valid(year as int, month as int, day as int)
    ensures r == dn(year as int, month as int, day as int) - dn(year as int, 1, 1) + 1, 1 <= r <= (if leap(year as int) { 366int } else { 365int }) @*/ {
    /*@ proof { lem_year_start(year as int, month as int, day as int); lem_year_end(year as int, month as int, day as int); lem_base_step(year - 1); } @*/
    (days_from_civil(year, month, day) - days_from_civil(year, 1, 1) + 1) as u32
}
//#RAW
// Monday of ISO week 1: the week that holds January 4
spec fn w1(y: int) -> int { let j = dn(y, 1, 4); j - (j + 3) % 7 }
spec fn isodn(y: int, w: int, d: int) -> int { w1(y) + (w - 1) * 7 + d - 1 }
spec fn iso_valid(y: int, w: int, d: int) -> bool { 1 <= w && 1 <= d <= 7 && isodn(y, w, d) < w1(y + 1) }
// ISO years are whole weeks: 52 or 53
proof fn lem_iso_year(y: int) ensures w1(y + 1) - w1(y) == 364 || w1(y + 1) - w1(y) == 371 { lem_base_step(y - 1); }
proof fn lem_w1_mono(y: int, y2: int) requires y < y2 ensures w1(y) < w1(y2) decreases y2 - y { lem_iso_year(y2 - 1); if y + 1 < y2 { lem_w1_mono(y, y2 - 1); } }
// the ISO mapping is one to one
proof fn lem_iso_inj(y: int, w: int, d: int, y2: int, w2: int, d2: int)
    requires iso_valid(y, w, d), iso_valid(y2, w2, d2), isodn(y, w, d) == isodn(y2, w2, d2)
    ensures y == y2, w == w2, d == d2
{ if y < y2 { if y + 1 < y2 { lem_w1_mono(y + 1, y2); } } else if y2 < y { if y2 + 1 < y { lem_w1_mono(y2 + 1, y); } } }
proof fn lem_w1_aligned(y: int) ensures (w1(y) + 3) % 7 == 0, dn(y, 1, 4) - 6 <= w1(y) <= dn(y, 1, 4), dn(y, 1, 4) == dn(y, 1, 1) + 3 {}
proof fn lem_iso_at(z: int, dow: int, y: int, m: int, d: int)
    requires valid(y, m, d), dow == (z + 3) % 7 + 1, dn(y, m, d) == z + 4 - dow
    ensures ({ let q = (z - w1(y)) / 7; w1(y) <= z < w1(y + 1) && z == w1(y) + q * 7 + dow - 1 && 0 <= q <= 52 })
{
    lem_year_start(y, m, d); lem_year_end(y, m, d); lem_w1_aligned(y); lem_w1_aligned(y + 1); lem_iso_year(y);
    lem_week_arith(z, dow, w1(y), w1(y + 1), dn(y, 1, 1), dn(y + 1, 1, 1));
}
proof fn lem_week_arith(z: int, dow: int, a: int, b: int, j: int, k: int)
    requires dow == (z + 3) % 7 + 1, (a + 3) % 7 == 0, (b + 3) % 7 == 0, j - 3 <= a <= j + 3, k - 3 <= b <= k + 3, j <= z + 4 - dow < k, b - a == 364 || b - a == 371
    ensures ({ let q = (z - a) / 7; a <= z < b && z == a + q * 7 + dow - 1 && 0 <= q <= 52 })
{}
//#FN crates/logicaffeine_base/src/temporal.rs :: fn iso_week_from_days
fn iso_week_from_days(z: i64) -> /*@ (r: @*/ (i64, u32, u32) /*@ )
    requires -1_800_000_000_000_000_000 <= z <= 1_800_000_000_000_000_000
    ensures iso_valid(r.0 as int, r.1 as int, r.2 as int), isodn(r.0 as int, r.1 as int, r.2 as int) == z, r.2 == (z + 3) % 7 + 1, r.1 <= 53 @*/ {
    let iso_dow = iso_weekday_from_days(z);
    let thursday = z + (4 - iso_dow as i64);
    let (iso_year, _, _) = /*@ { let c = @*/ civil_from_days(thursday) /*@ ; proof { lem_iso_at(z as int, iso_dow as int, c.0 as int, c.1 as int, c.2 as int); lem_iso_oky(c.0 as int, c.1 as int, c.2 as int); } c } @*/ ;
    let jan4 = days_from_civil(iso_year, 1, 4);
    let week1_monday = jan4 - (iso_weekday_from_days(jan4) as i64 - 1);
    /*@ proof { assert(week1_monday == w1(iso_year as int)); } @*/
    let week = ((z - week1_monday) / 7 + 1) as u32;
    (iso_year, week, iso_dow)
}
//#FN crates/logicaffeine_base/src/temporal.rs :: fn days_from_iso_week
fn days_from_iso_week(iso_year: i64, week: u32, iso_weekday: u32) -> /*@ (r: @*/ i64 /*@ )
    requires oky(iso_year as int), 1 <= week, 1 <= iso_weekday <= 7
    ensures r == isodn(iso_year as int, week as int, iso_weekday as int) @*/ {
    let jan4 = days_from_civil(iso_year, 1, 4);
    let week1_monday = jan4 - (iso_weekday_from_days(jan4) as i64 - 1);
    week1_monday + (week as i64 - 1) * 7 + (iso_weekday as i64 - 1)
}
//#RAW
// ---- Julian calendar ----
spec fn jmlen(y: int, m: int) -> int { if m == 2 { if y % 4 == 0 { 29 } else { 28 } } else if m == 4 || m == 6 || m == 9 || m == 11 { 30 } else { 31 } }
spec fn jvalid(y: int, m: int, d: int) -> bool { 1 <= m <= 12 && 1 <= d <= jmlen(y, m) }
spec fn jbase(yy: int) -> int { 365 * yy + yy / 4 }
spec fn jn(y: int, m: int, d: int) -> int { if m > 2 { jbase(y + 4800) + (153 * (m - 3) + 2) / 5 + d - 32083 } else { jbase(y + 4799) + (153 * (m + 9) + 2) / 5 + d - 32083 } }
proof fn lem_jnext(y: int, m: int, d: int) requires jvalid(y, m, d)
    ensures ({ let n = if d < jmlen(y, m) { (y, m, d + 1) } else if m < 12 { (y, m + 1, 1) } else { (y + 1, 1, 1) }; jvalid(n.0, n.1, n.2) && jn(n.0, n.1, n.2) == jn(y, m, d) + 1 }) {}
// 1970-01-01 Gregorian is 1969-12-19 Julian
proof fn lem_jepoch() ensures jn(1969, 12, 19) == 2440588 {}
proof fn lem_jinj(y: int, m: int, d: int, y2: int, m2: int, d2: int)
    requires jvalid(y, m, d), jvalid(y2, m2, d2), jn(y, m, d) == jn(y2, m2, d2)
    ensures y == y2, m == m2, d == d2
{ }
//#FN crates/logicaffeine_base/src/temporal.rs :: fn jdn_from_julian
fn jdn_from_julian(year: i64, month: u32, day: u32) -> /*@ (r: @*/ i64 /*@ )
    requires oky(year as int), 1 <= month <= 12, 1 <= day <= 31
    ensures r == jn(year as int, month as int, day as int) @*/ {
    let a = (14 - month as i64) / 12;
    let y = year + 4800 - a;
    let m = month as i64 + 12 * a - 3;
    day as i64 + (153 * m + 2) / 5 + 365 * y + y.div_euclid(4) - 32083
}
//#FN crates/logicaffeine_base/src/temporal.rs :: fn julian_from_jdn
fn julian_from_jdn(jdn: i64) -> /*@ (r: @*/ (i64, u32, u32) /*@ )
    requires -1_900_000_000_000_000_000 <= jdn <= 1_900_000_000_000_000_000
    ensures jvalid(r.0 as int, r.1 as int, r.2 as int), jn(r.0 as int, r.1 as int, r.2 as int) == jdn @*/ {
    let c = jdn + 32082;
    let d = (4 * c + 3).div_euclid(1461);
    let e = c - (1461 * d).div_euclid(4);
    /*@ proof { assert(0 <= e <= 365); assert(e == 365 ==> (d + 1) % 4 == 0); assert(jbase(d as int) == (1461 * d) as int / 4); } @*/
    let m = (5 * e + 2) / 153;
    let day = (e - (153 * m + 2) / 5 + 1) as u32;
    let month = (m + 3 - 12 * (m / 10)) as u32;
    let year = d - 4800 + m / 10;
    (year, month, day)
}
//#FN crates/logicaffeine_base/src/temporal.rs :: fn days_from_julian
fn days_from_julian(year: i64, month: u32, day: u32) -> /*@ (r: @*/ i64 /*@ )
    requires oky(year as int), 1 <= month <= 12, 1 <= day <= 31
    ensures r == jn(year as int, month as int, day as int) - 2440588 @*/ {
    jdn_from_julian(year, month, day) - UNIX_EPOCH_JDN
}
//#FN crates/logicaffeine_base/src/temporal.rs :: fn julian_from_days
fn julian_from_days(z: i64) -> /*@ (r: @*/ (i64, u32, u32) /*@ )
    requires okz(z as int)
    ensures jvalid(r.0 as int, r.1 as int, r.2 as int), jn(r.0 as int, r.1 as int, r.2 as int) - 2440588 == z @*/ {
    julian_from_jdn(z + UNIX_EPOCH_JDN)
}
//#RAW
// ---- civil date-times ----
//#ITEM crates/logicaffeine_base/src/temporal.rs :: struct CivilDateTime
//#RAW
proof fn lem_civ_in(z: int, y: int, m: int, d: int) requires valid(y, m, d), dn(y, m, d) == z ensures civ(z) == (y, m, d)
{ let t = (y, m, d); assert(is_date(t, z)); let c = civ(z); assert(is_date(c, z)); lem_inj(c.0, c.1, c.2, y, m, d); }
spec fn is_date(t: (int, int, int), z: int) -> bool { valid(t.0, t.1, t.2) && dn(t.0, t.1, t.2) == z }
// the date of a day number
spec fn civ(z: int) -> (int, int, int) { choose|t: (int, int, int)| #[trigger] is_date(t, z) }
spec fn cvalid(c: CivilDateTime) -> bool { valid(c.year as int, c.month as int, c.day as int) && c.hour < 24 && c.minute < 60 && c.second < 60 && c.nanosecond < 1_000_000_000 }
spec fn tod(c: CivilDateTime) -> int { (c.hour * 3600 + c.minute * 60 + c.second) * 1_000_000_000 + c.nanosecond }
spec fn wide(c: CivilDateTime) -> int { dn(c.year as int, c.month as int, c.day as int) * 86_400_000_000_000 + tod(c) }
// adding k months to a date: the same day, clamped to the end of the month
spec fn addm(y: int, m: int, d: int, k: int) -> (int, int, int) { let t = y * 12 + m - 1 + k; let ny = t / 12; let nm = t % 12 + 1; (ny, nm, if d <= mlen(ny, nm) { d } else { mlen(ny, nm) }) }
proof fn lem_addm(y: int, m: int, d: int, k: int) requires valid(y, m, d) ensures ({ let t = addm(y, m, d, k); valid(t.0, t.1, t.2) }) {}
// civil fields decompose an instant exactly, and one to one
proof fn lem_wide_inj(a: CivilDateTime, b: CivilDateTime) requires cvalid(a), cvalid(b), wide(a) == wide(b) ensures a == b
{
    let x = dn(a.year as int, a.month as int, a.day as int); let y = dn(b.year as int, b.month as int, b.day as int);
    assert(0 <= tod(a) < 86_400_000_000_000); assert(0 <= tod(b) < 86_400_000_000_000);
    assert(x == y); lem_inj(a.year as int, a.month as int, a.day as int, b.year as int, b.month as int, b.day as int);
}
//#FN crates/logicaffeine_base/src/temporal.rs :: fn civil_from_unix_nanos
fn civil_from_unix_nanos(ns: i64) -> /*@ (r: @*/ CivilDateTime /*@ ) ensures cvalid(r), wide(r) == ns, -300 <= r.year - 1970 <= 300 @*/ {
    let day = ns.div_euclid(NANOS_PER_DAY);
    let rem = ns.rem_euclid(NANOS_PER_DAY);
    /*@ proof { assert(-106752 <= day <= 106751); } @*/
    let (year, month, d) = civil_from_days(day);
    /*@ proof {
        if year > 2270 { lem_mono(2270, 1, 1, year as int, month as int, d as int); } if year < 1670 { lem_mono(year as int, month as int, d as int, 1670, 1, 1); }
        assert(dn(2270, 1, 1) == 109573); assert(dn(1670, 1, 1) == -109572);
    } @*/
    let secs = rem / NANOS_PER_SECOND;
    CivilDateTime {
        year,
        month,
        day: d,
        hour: (secs / 3600) as u32,
        minute: ((secs % 3600) / 60) as u32,
        second: (secs % 60) as u32,
        nanosecond: (rem % NANOS_PER_SECOND) as u32,
    }
}
//#FN crates/logicaffeine_base/src/temporal.rs :: fn unix_nanos_from_civil
fn unix_nanos_from_civil(dt: CivilDateTime) -> /*@ (r: @*/ i64 /*@ )
    requires cvalid(dt), oky(dt.year as int), i64::MIN <= wide(dt) <= i64::MAX
    ensures r == wide(dt) @*/ {
    wide_nanos_from_civil(dt) as i64
}
//#FN crates/logicaffeine_base/src/temporal.rs :: fn wide_nanos_from_civil
fn wide_nanos_from_civil(dt: CivilDateTime) -> /*@ (r: @*/ i128 /*@ )
    requires cvalid(dt), oky(dt.year as int)
    ensures r == wide(dt) @*/ {
    let days = days_from_civil(dt.year, dt.month, dt.day);
    let secs = dt.hour as i64 * 3600 + dt.minute as i64 * 60 + dt.second as i64;
    /*@ proof { assert(NANOS_PER_DAY == 86_400_000_000_000); assert(days as int * NANOS_PER_DAY as int == days * 86_400_000_000_000); assert(secs as int * NANOS_PER_SECOND as int == secs * 1_000_000_000); } @*/
    days as i128 * NANOS_PER_DAY as i128 + secs as i128 * NANOS_PER_SECOND as i128 + dt.nanosecond as i128
}
//#FN crates/logicaffeine_base/src/temporal.rs :: fn add_span | allbut
fn add_span(dt: CivilDateTime, months: i64, days: i64) -> /*@ (r: @*/ CivilDateTime /*@ )
    requires cvalid(dt), -4_000_000_000_000_000 <= dt.year <= 4_000_000_000_000_000, -4_000_000_000_000_000 <= months <= 4_000_000_000_000_000, -4_000_000_000_000_000 <= days <= 4_000_000_000_000_000
    ensures
        cvalid(r), tod(r) == tod(dt), r.hour == dt.hour, r.minute == dt.minute, r.second == dt.second, r.nanosecond == dt.nanosecond,
        ({ let t = addm(dt.year as int, dt.month as int, dt.day as int, months as int); dn(r.year as int, r.month as int, r.day as int) == dn(t.0, t.1, t.2) + days && (days == 0 ==> (r.year as int, r.month as int, r.day as int) == t) }), @*/ {
    let total = (dt.year * 12 + (dt.month as i64 - 1)) + months;
    let new_year = total.div_euclid(12);
    let new_month = (total.rem_euclid(12) + 1) as u32;
    let clamped_day = dt.day.min(last_day_of_month(new_year, new_month));
    /*@ proof { assert(addm(dt.year as int, dt.month as int, dt.day as int, months as int) == (new_year as int, new_month as int, clamped_day as int)); lem_addm(dt.year as int, dt.month as int, dt.day as int, months as int); lem_far(new_year as int, new_month as int, clamped_day as int); } @*/
    let z = days_from_civil(new_year, new_month, clamped_day) + days;
    let (year, month, day) = civil_from_days(z);
    /*@ proof { if days == 0 { lem_inj(year as int, month as int, day as int, new_year as int, new_month as int, clamped_day as int); } } @*/
    CivilDateTime { year: year, month: month, day: day, hour: dt.hour, minute: dt.minute, second: dt.second, nanosecond: dt.nanosecond }
}
//#RAW
proof fn lem_far(y: int, m: int, d: int) requires valid(y, m, d), -4_400_000_000_000_000 <= y <= 4_400_000_000_000_000 ensures -1_700_000_000_000_000_000 <= dn(y, m, d) <= 1_700_000_000_000_000_000 {}
// the instant k months after the civil time c
spec fn after_months(c: CivilDateTime, k: int) -> int { let t = addm(c.year as int, c.month as int, c.day as int, k); dn(t.0, t.1, t.2) * 86_400_000_000_000 + tod(c) }
spec fn whole_months(a: CivilDateTime, b: int, r: int) -> bool { r >= 0 && after_months(a, r) <= b && b < after_months(a, r + 1) }
spec fn is_civil(c: CivilDateTime, ns: int) -> bool { cvalid(c) && wide(c) == ns }
// an instant in an earlier month is earlier
proof fn lem_month_order(y: int, m: int, d: int, y2: int, m2: int, d2: int, t1: int, t2: int)
    requires valid(y, m, d), valid(y2, m2, d2), y * 12 + m < y2 * 12 + m2, 0 <= t1 < 86_400_000_000_000, 0 <= t2 < 86_400_000_000_000
    ensures dn(y, m, d) * 86_400_000_000_000 + t1 < dn(y2, m2, d2) * 86_400_000_000_000 + t2
{ lem_mono(y, m, d, y2, m2, d2); }
//#FN crates/logicaffeine_base/src/temporal.rs :: fn months_between
fn months_between(a_nanos: i64, b_nanos: i64) -> /*@ (r: @*/ i64 /*@ )
    ensures
        -8000 <= r <= 8000,
        a_nanos <= b_nanos ==> forall|a: CivilDateTime| #[trigger] is_civil(a, a_nanos as int) ==> whole_months(a, b_nanos as int, r as int),
        b_nanos < a_nanos ==> forall|b: CivilDateTime| #[trigger] is_civil(b, b_nanos as int) ==> whole_months(b, a_nanos as int, -r),
    decreases (if b_nanos < a_nanos { 1int } else { 0int }) @*/ {
    if b_nanos < a_nanos {
        return -months_between(b_nanos, a_nanos);
    }
    let a = civil_from_unix_nanos(a_nanos);
    let b = civil_from_unix_nanos(b_nanos);
    let mut months = (b.year - a.year) * 12 + (b.month as i64 - a.month as i64);
    /*@ let ghost mm = months as int; proof {
        assert(0 <= tod(a) < 86_400_000_000_000); assert(0 <= tod(b) < 86_400_000_000_000);
        let y = a.year as int; let m = a.month as int; let d = a.day as int;
        let t0 = addm(y, m, d, mm - 1); let t1 = addm(y, m, d, mm + 1);
        lem_addm(y, m, d, mm - 1); lem_addm(y, m, d, mm + 1); lem_addm(y, m, d, mm);
        lem_month_order(t0.0, t0.1, t0.2, b.year as int, b.month as int, b.day as int, tod(a), tod(b));
        lem_month_order(b.year as int, b.month as int, b.day as int, t1.0, t1.1, t1.2, tod(b), tod(a));
        if mm < 0 { lem_month_order(b.year as int, b.month as int, b.day as int, y, m, d, tod(b), tod(a)); }
        if mm == 0 { assert(addm(y, m, d, 0) == (y, m, d)); }
    } @*/
    if wide_nanos_from_civil(add_span(a, months, 0)) > b_nanos as i128 {
        months -= 1;
    }
    /*@ proof { assert forall|c: CivilDateTime| #[trigger] is_civil(c, a_nanos as int) implies whole_months(c, b_nanos as int, months as int) by { lem_wide_inj(c, a); } } @*/
    months
}
//#FN crates/logicaffeine_base/src/temporal.rs :: fn years_between
fn years_between(a_nanos: i64, b_nanos: i64) -> /*@ (r: @*/ i64 /*@ )
    ensures
        a_nanos <= b_nanos ==> forall|a: CivilDateTime| #[trigger] is_civil(a, a_nanos as int) ==> r >= 0 && after_months(a, 12 * r) <= b_nanos && b_nanos < after_months(a, 12 * r + 12),
        b_nanos < a_nanos ==> forall|b: CivilDateTime| #[trigger] is_civil(b, b_nanos as int) ==> r <= 0 && after_months(b, 12 * -r) <= a_nanos && a_nanos < after_months(b, 12 * -r + 12), @*/ {
    /*@ proof {
        assert forall|c: CivilDateTime, b: int, q: int| whole_months(c, b, q) && cvalid(c) implies q >= 0 && after_months(c, 12 * (q / 12)) <= b && b < after_months(c, 12 * (q / 12) + 12) by { lem_after_mono(c, 12 * (q / 12), q); lem_after_mono(c, q + 1, 12 * (q / 12) + 12); }
    } @*/
    months_between(a_nanos, b_nanos) / 12
}
//#RAW
proof fn lem_after_mono(c: CivilDateTime, k: int, k2: int) requires cvalid(c), k <= k2 ensures after_months(c, k) <= after_months(c, k2)
{
    if k < k2 {
        let y = c.year as int; let m = c.month as int; let d = c.day as int;
        lem_addm(y, m, d, k); lem_addm(y, m, d, k2);
        let t = addm(y, m, d, k); let t2 = addm(y, m, d, k2);
        assert(0 <= tod(c) < 86_400_000_000_000);
        lem_month_order(t.0, t.1, t.2, t2.0, t2.1, t2.2, tod(c), tod(c));
    }
}
// ---- business days ----
spec fn bday(z: int) -> bool { 1 <= (z + 4) % 7 <= 5 }
// the business days of [a, b), one by one
spec fn bcount(a: int, b: int) -> int decreases b - a { if a >= b { 0 } else { bcount(a, b - 1) + (if bday(b - 1) { 1int } else { 0int }) } }
proof fn lem_weeks(a: int, w: int) requires w >= 0 ensures bcount(a, a + 7 * w) == 5 * w decreases w
{ if w > 0 { lem_weeks(a, w - 1); let b = a + 7 * (w - 1); reveal_with_fuel(bcount, 8); assert(bcount(a, b + 7) == bcount(a, b) + 5); } }
proof fn lem_bcount_split(a: int, b: int, c: int) requires a <= b <= c ensures bcount(a, c) == bcount(a, b) + bcount(b, c) decreases c - b { if b < c { lem_bcount_split(a, b, c - 1); } }
fn is_0_or_6(x: u32) -> (r: bool) ensures r == (x == 0 || x == 6) { x == 0 || x == 6 }
//#FN crates/logicaffeine_base/src/temporal.rs :: fn is_weekend | weekend
fn is_weekend(z: i64) -> /*@ (r: @*/ bool /*@ ) requires z <= i64::MAX - 4 ensures r == !bday(z as int) @*/ {
    is_0_or_6(weekday_from_days(z))
}
//#FN crates/logicaffeine_base/src/temporal.rs :: fn business_days_between
fn business_days_between(a: i64, b: i64) -> /*@ (r: @*/ i64 /*@ )
    requires okz(a as int), okz(b as int)
    ensures a <= b ==> r == bcount(a as int, b as int), b < a ==> r == -bcount(b as int, a as int) @*/ {
    if a == b {
        return 0;
    }
    let (lo, hi, sign) = if a < b { (a, b, 1 ) } else { (b, a, -1 ) };
    let span = hi - lo;
    let full_weeks = span / 7;
    let mut count = full_weeks * 5;
    let mut d = lo + full_weeks * 7;
    /*@ proof { lem_weeks(lo as int, full_weeks as int); } @*/
    while d < hi
        /*@ invariant lo <= d <= hi, okz(lo as int), okz(hi as int), count == bcount(lo as int, d as int), 0 <= count <= hi - lo - (hi - d), decreases hi - d @*/
    {
        if !is_weekend(d) {
            count += 1;
        }
        d += 1;
    }
    /*@ proof { assert(sign == 1 ==> sign * count == count) by (nonlinear_arith); assert(sign == -1 ==> sign * count == -count) by (nonlinear_arith); } @*/
    sign * count
}
//#FN crates/logicaffeine_base/src/temporal.rs :: fn add_business_days
fn add_business_days(z: i64, n: i64) -> /*@ (r: @*/ i64 /*@ )
    requires okz(z as int), -1_000_000_000_000_000_000 <= n <= 1_000_000_000_000_000_000
    ensures
        n == 0 ==> r == z,
        n > 0 ==> r > z && bday(r as int) && bcount(z + 1, r + 1) == n,
        n < 0 ==> r < z && bday(r as int) && bcount(r as int, z as int) == -n, @*/ {
    let step = if n >= 0 { 1 } else { -1 };
    let mut remaining = n.abs();
    let mut d = z;
    /*@ let ghost mut w: int = 0; @*/
    while remaining > 0
        /*@ invariant
            okz(z as int), -1_000_000_000_000_000_000 <= n <= 1_000_000_000_000_000_000, 0 <= remaining <= (if n >= 0 { n as int } else { -n }), 0 <= w <= 2,
            step == (if n >= 0 { 1int } else { -1int }),
            n == 0 ==> d == z,
            n >= 0 ==> d >= z && d - z <= 3 * (n - remaining) + w && bcount(z + 1, d + 1) == n - remaining && (remaining == n ==> w == d - z) && (remaining == 0 && n > 0 ==> bday(d as int) && d > z) && (w == 1 ==> !bday(d as int)) && (w == 2 ==> !bday(d as int) && !bday(d - 1)) && (w == 0 ==> d == z || bday(d as int)),
            n < 0 ==> d <= z && z - d <= 3 * (-n - remaining) + w && bcount(d as int, z as int) == -n - remaining && (remaining == 0 ==> bday(d as int) && d < z) && (w == 1 ==> !bday(d as int)) && (w == 2 ==> !bday(d as int) && !bday(d + 1)),
        decreases remaining, 2 - w @*/
    {
        /*@ proof { if n < 0 { lem_bcount_split(d - 1, d as int, z as int); reveal_with_fuel(bcount, 2); } } @*/
        d += step;
        if !is_weekend(d) {
            remaining -= 1;
            /*@ proof { w = 0; } @*/
        } /*@ else { proof { w = w + 1; } } @*/
    }
    d
}
//#RAW
proof fn lem_nth(f: int, fw: int, wd: int, to: int, week: int) requires fw == (f + 4) % 7, 0 <= wd < 7, to == (wd + 7 - fw) % 7 ensures (f + to + (week - 1) * 7 + 4) % 7 == wd, 0 <= to < 7 {}
proof fn lem_in_month(y: int, m: int) ensures forall|d: int| #[trigger] dn(y, m, d) == dn(y, m, 1) + d - 1 {}
//#FN crates/logicaffeine_base/src/temporal.rs :: fn nth_weekday_of_month
fn nth_weekday_of_month(year: i64, month: u32, week: u32, weekday: u32) -> /*@ (r: @*/ u32 /*@ )
    requires oky(year as int), 1 <= month <= 12, 1 <= week <= 5, weekday < 7
    ensures valid(year as int, month as int, r as int), (dn(year as int, month as int, r as int) + 4) % 7 == weekday, week <= 4 ==> 7 * (week - 1) < r <= 7 * week, week == 5 ==> r + 7 > mlen(year as int, month as int) @*/ {
    let first = days_from_civil(year, month, 1);
    let first_weekday = weekday_from_days(first);
    let to_first = (weekday + 7 - first_weekday) % 7;
    let mut day = 1 + to_first + (week - 1) * 7;
    let last = last_day_of_month(year, month);
    /*@ proof { lem_nth(first as int, first_weekday as int, weekday as int, to_first as int, week as int); assert(28 <= last <= 31); lem_in_month(year as int, month as int); } @*/
    while day > last
        /*@ invariant day >= 1, 28 <= last <= 31, day <= 35, week <= 4 ==> day <= 28 && day == 1 + to_first + (week - 1) * 7, week == 5 ==> day + 7 > last, (first + day + 3) % 7 == weekday, decreases day @*/
    {
        day -= 7;
    }
    /*@ proof { assert(dn(year as int, month as int, day as int) == first + day - 1); } @*/
    day
}
// ---- zones ----
//#ITEM crates/logicaffeine_base/src/temporal.rs :: struct ZoneTransition
//#ITEM crates/logicaffeine_base/src/temporal.rs :: enum Fold
//#RAW
spec fn sorted_tr(t: Seq<ZoneTransition>) -> bool { forall|i: int, j: int| 0 <= i <= j < t.len() ==> (#[trigger] t[i]).at_unix_seconds <= (#[trigger] t[j]).at_unix_seconds }
// the offset in force: that of the last transition at or before the instant
spec fn in_force(t: Seq<ZoneTransition>, base: i32, secs: int, off: int) -> bool {
    (off == base && (t.len() == 0 || secs < t[0].at_unix_seconds)) || exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).at_unix_seconds <= secs && (i + 1 < t.len() ==> secs < t[i + 1].at_unix_seconds) && off == t[i].offset_seconds
}
spec fn off_at(t: Seq<ZoneTransition>, base: i32, secs: int, n: int) -> i32 decreases n { if n <= 0 { base } else if t[n - 1].at_unix_seconds <= secs { t[n - 1].offset_seconds } else { off_at(t, base, secs, n - 1) } }
proof fn lem_off(t: Seq<ZoneTransition>, base: i32, secs: int, n: int, k: int)
    requires 0 <= k <= n <= t.len(), forall|i: int| k <= i < n ==> (#[trigger] t[i]).at_unix_seconds > secs
    ensures off_at(t, base, secs, n) == off_at(t, base, secs, k)
    decreases n
{ if k < n { assert(t[n - 1].at_unix_seconds > secs); lem_off(t, base, secs, n - 1, k); } }
proof fn lem_force(t: Seq<ZoneTransition>, base: i32, secs: int, n: int)
    requires sorted_tr(t), 0 <= n <= t.len(), n < t.len() ==> secs < t[n].at_unix_seconds
    ensures in_force(t, base, secs, off_at(t, base, secs, n) as int)
    decreases n
{ if n > 0 { if t[n - 1].at_unix_seconds > secs { lem_force(t, base, secs, n - 1); } else { let i = n - 1; assert(t[i].at_unix_seconds <= secs && (i + 1 < t.len() ==> secs < t[i + 1].at_unix_seconds)); } } }
spec fn zone_off(t: Seq<ZoneTransition>, base: i32, ns: int) -> i32 { off_at(t, base, ns / 1_000_000_000, t.len() as int) }
//#FN crates/logicaffeine_base/src/temporal.rs :: fn offset_at | forwhile
fn offset_at(transitions: &[ZoneTransition], base_offset: i32, instant_ns: i64) -> /*@ (r: @*/ i32 /*@ )
    requires sorted_tr(transitions@)
    ensures r == zone_off(transitions@, base_offset, instant_ns as int), in_force(transitions@, base_offset, instant_ns as int / 1_000_000_000, r as int) @*/ {
    let secs = instant_ns.div_euclid(NANOS_PER_SECOND);
    let mut off = base_offset;
    let mut t__i : usize = 0 ; while t__i < transitions . len ( )
        /*@ invariant_except_break off == off_at(transitions@, base_offset, secs as int, t__i as int),
        invariant t__i <= transitions@.len(), sorted_tr(transitions@),
        ensures off == off_at(transitions@, base_offset, secs as int, transitions@.len() as int)
        decreases transitions@.len() - t__i @*/
    { let t = & transitions [ t__i ] ; t__i += 1 ;
        if t.at_unix_seconds <= secs {
            off = t.offset_seconds;
        } else {
            /*@ proof { lem_off(transitions@, base_offset, secs as int, transitions@.len() as int, t__i - 1); } @*/
            break;
        }
    }
    /*@ proof { lem_force(transitions@, base_offset, secs as int, transitions@.len() as int); } @*/
    off
}
//#FN crates/logicaffeine_base/src/temporal.rs :: fn to_local
fn to_local(transitions: &[ZoneTransition], base_offset: i32, instant_ns: i64) -> /*@ (r: @*/ CivilDateTime /*@ )
    requires sorted_tr(transitions@), -7_000_000_000_000_000_000 <= instant_ns <= 7_000_000_000_000_000_000
    ensures cvalid(r), wide(r) == instant_ns + zone_off(transitions@, base_offset, instant_ns as int) * 1_000_000_000 @*/ {
    let off = offset_at(transitions, base_offset, instant_ns);
    civil_from_unix_nanos(instant_ns + off as i64 * NANOS_PER_SECOND)
}
//#RAW
fn has_off(v: &Vec<i32>, x: &i32) -> (r: bool) ensures r == v@.contains(*x)
{
    let mut i = 0;
    while i < v.len() invariant i <= v@.len(), forall|j: int| 0 <= j < i ==> v@[j] != *x decreases v@.len() - i { if v[i] == *x { return true; } i += 1; }
    false
}
spec fn ordered(v: Seq<i64>) -> bool { forall|i: int, j: int| 0 <= i <= j < v.len() ==> #[trigger] v[i] <= #[trigger] v[j] }
// std: sorting keeps the elements and orders them; removing equal neighbours keeps the elements and the order (trusted specifications)
#[verifier::external_body]
fn sort_i64(v: &mut Vec<i64>) ensures ordered(final(v)@), final(v)@.to_set() =~= old(v)@.to_set(), final(v)@.len() == old(v)@.len() { v.sort_unstable(); }
#[verifier::external_body]
fn dedup_i64(v: &mut Vec<i64>) ensures final(v)@.to_set() =~= old(v)@.to_set(), ordered(old(v)@) ==> ordered(final(v)@) { v.dedup(); }
fn last_i64(v: &Vec<i64>) -> (r: i64) requires v@.len() > 0 ensures r == v@[v@.len() - 1] { v[v.len() - 1] }
// u is an instant at which the zone's clock shows the local time l
spec fn reads(t: Seq<ZoneTransition>, base: i32, l: int, u: int) -> bool { u + zone_off(t, base, u) * 1_000_000_000 == l }
spec fn used(t: Seq<ZoneTransition>, base: i32, o: i32) -> bool { o == base || exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).offset_seconds == o }
proof fn lem_used(t: Seq<ZoneTransition>, base: i32, secs: int, n: int) requires 0 <= n <= t.len() ensures used(t, base, off_at(t, base, secs, n)) decreases n
{ if n > 0 { if t[n - 1].at_unix_seconds <= secs {} else { lem_used(t, base, secs, n - 1); } } }
proof fn lem_member(v: Seq<i64>, s: Set<i64>, i: int) requires v.to_set() == s, 0 <= i < v.len() ensures s.contains(v[i]) { assert(v.contains(v[i])); }
//#FN crates/logicaffeine_base/src/temporal.rs :: fn from_local | forwhile, iterloop, hasoff, sortv, dedupv, sortc, lastv, lastc
fn from_local(
    transitions: &[ZoneTransition],
    base_offset: i32,
    civil: CivilDateTime,
    fold: Fold,
) -> /*@ (r: @*/ i64 /*@ )
    requires sorted_tr(transitions@), cvalid(civil), oky(civil.year as int), -7_000_000_000_000_000_000 <= wide(civil) <= 7_000_000_000_000_000_000
    ensures
        // an instant that reads back as the local time, if there is one; the earliest or the latest as asked
        forall|u: int| #[trigger] reads(transitions@, base_offset, wide(civil), u) ==> reads(transitions@, base_offset, wide(civil), r as int) && (fold is Earlier ==> r <= u) && (fold is Later ==> r >= u), @*/ {
    let local_ns = unix_nanos_from_civil(civil);
    let mut offsets: Vec<i32> = vec![base_offset];
    /*@ proof { assert(offsets@[0] == base_offset); } @*/
    let mut t__i : usize = 0 ; while t__i < transitions . len ( )
        /*@ invariant t__i <= transitions@.len(), offsets@.contains(base_offset), forall|i: int| 0 <= i < t__i ==> offsets@.contains((#[trigger] transitions@[i]).offset_seconds) decreases transitions@.len() - t__i @*/
    { let t = & transitions [ t__i ] ; t__i += 1 ;
        /*@ let ghost o0 = offsets@; @*/
        if !has_off(&offsets, &t.offset_seconds) {
            offsets.push(t.offset_seconds);
            /*@ proof { assert(offsets@[o0.len() as int] == t.offset_seconds); assert forall|x: i32| o0.contains(x) implies offsets@.contains(x) by { let k = choose|k: int| 0 <= k < o0.len() && o0[k] == x; assert(offsets@[k] == x); } } @*/
        }
    }
    let mut valid: Vec<i64> = Vec::new();
    let mut o__i : usize = 0 ; while o__i < offsets . len ( )
        /*@ invariant
            o__i <= offsets@.len(), sorted_tr(transitions@), local_ns == wide(civil), -7_000_000_000_000_000_000 <= wide(civil) <= 7_000_000_000_000_000_000,
            forall|x: i64| #[trigger] valid@.contains(x) ==> reads(transitions@, base_offset, wide(civil), x as int),
            forall|k: int| 0 <= k < o__i && zone_off(transitions@, base_offset, local_ns - offsets@[k] * 1_000_000_000) == #[trigger] offsets@[k] ==> valid@.contains((local_ns - offsets@[k] * 1_000_000_000) as i64),
        decreases offsets@.len() - o__i @*/
    { let o = & offsets [ o__i ] ; o__i += 1 ;
        let utc = local_ns - *o as i64 * NANOS_PER_SECOND;
        /*@ let ghost v0 = valid@; @*/
        if offset_at(transitions, base_offset, utc) == *o {
            valid.push(utc);
            /*@ proof { assert(valid@[v0.len() as int] == utc); assert forall|x: i64| v0.contains(x) implies valid@.contains(x) by { let k = choose|k: int| 0 <= k < v0.len() && v0[k] == x; assert(valid@[k] == x); } assert forall|x: i64| #[trigger] valid@.contains(x) implies reads(transitions@, base_offset, wide(civil), x as int) by { if x != utc { let k = choose|k: int| 0 <= k < valid@.len() && valid@[k] == x; assert(v0[k] == x); assert(v0.contains(x)); } } } @*/
        }
    }
    /*@ let ghost s0 = valid@.to_set(); proof {
        assert forall|u: int| #[trigger] reads(transitions@, base_offset, wide(civil), u) implies s0.contains(u as i64) && u == u as i64 by {
            let o = zone_off(transitions@, base_offset, u);
            lem_used(transitions@, base_offset, u / 1_000_000_000, transitions@.len() as int);
            assert(offsets@.contains(o));
            let k = choose|k: int| 0 <= k < offsets@.len() && offsets@[k] == o;
            assert(local_ns - offsets@[k] * 1_000_000_000 == u);
            assert(valid@.contains((local_ns - offsets@[k] * 1_000_000_000) as i64));
        }
        assert forall|x: i64| s0.contains(x) implies reads(transitions@, base_offset, wide(civil), x as int) by { assert(valid@.contains(x)); }
    } @*/
    sort_i64(&mut valid);
    dedup_i64(&mut valid);
    /*@ proof {
        assert(valid@.to_set() =~= s0);
        assert forall|u: int| #[trigger] reads(transitions@, base_offset, wide(civil), u) implies valid@.len() > 0 && valid@[0] <= u <= valid@[valid@.len() - 1] by { assert(valid@.to_set().contains(u as i64)); let k = choose|k: int| 0 <= k < valid@.len() && valid@[k] == u as i64; assert(valid@[0] <= valid@[k]); assert(valid@[k] <= valid@[valid@.len() - 1]); }
        if valid@.len() > 0 { lem_member(valid@, s0, 0); lem_member(valid@, s0, valid@.len() - 1); }
    } @*/
    if valid.len() >= 2 {
        return match fold {
            Fold::Earlier => valid[0],
            Fold::Later => last_i64(&valid),
        };
    }
    if valid.len() == 1 {
        return valid[0];
    }
    let mut cands: Vec<i64> = { let mut o__vec /*@ : Vec<i64> @*/ = Vec :: new ( ) ; let mut o__k : usize = 0 ; while o__k < offsets . len ( )
        /*@ invariant o__k <= offsets@.len(), o__vec@.len() == o__k, -7_000_000_000_000_000_000 <= local_ns <= 7_000_000_000_000_000_000 decreases offsets@.len() - o__k @*/
    { let o = & offsets [ o__k ] ; o__k += 1 ; o__vec . push ( local_ns - *o as i64 * NANOS_PER_SECOND ) ; } o__vec };
    sort_i64(&mut cands);
    match fold {
        Fold::Earlier => cands[0],
        Fold::Later => last_i64(&cands),
    }
}
//#RAW
fn main() {}
}
