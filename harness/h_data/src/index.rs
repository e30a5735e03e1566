//! C20: 1-based indexing and exact keys; C03: exact comparison as emitted for generated code.
use logicaffeine_data::*;
use std::collections::{BTreeMap, BTreeSet};
use vh::big::Z;
use vh::{panics, Rng, H};

/// 0-based offset the position names, or None if it names nothing
fn want(i: i64, n: usize) -> Option<usize> { let n = n as i128; let i = i as i128; if i >= 1 && i <= n { Some((i - 1) as usize) } else if i <= -1 && -i <= n { Some((n + i) as usize) } else { None } }
fn idx(r: &mut Rng, n: usize) -> i64 { match r.below(6) { 0 => r.edge() as i64, 1 => n as i64 + r.range(-1, 2), 2 => -(n as i64) + r.range(-2, 1), 3 => r.range(-2, 2), _ => r.range(-(n as i64) - 1, n as i64 + 1) } }
fn text(r: &mut Rng) -> String {
    let n = r.us(9); let mode = r.below(3);
    (0..n).map(|_| if mode == 0 { (b'a' + r.below(26) as u8) as char } else { *r.pick(&['a', 'b', 'z', '0', 'é', '日', '😀', '\u{80}', '\u{301}', '\u{7ff}', '\u{800}']) }).collect()
}

/// the exact value of a finite float, as integer over 2^k
fn cmp_exact(i: i64, f: f64) -> Option<std::cmp::Ordering> {
    if f.is_nan() { return None; }
    if f == f64::INFINITY { return Some(std::cmp::Ordering::Less); }
    if f == f64::NEG_INFINITY { return Some(std::cmp::Ordering::Greater); }
    let b = f.to_bits(); let e = ((b >> 52) & 0x7ff) as i64; let m = if e == 0 { (b & ((1 << 52) - 1)) << 1 } else { (b & ((1 << 52) - 1)) | 1 << 52 }; let e = e - 1075;
    let m = Z::from_i128(if b >> 63 == 1 { -(m as i128) } else { m as i128 });
    let i = Z::from_i128(i as i128);
    Some(if e >= 0 { i.cmp(&m.shl(e as u32)) } else { i.shl((-e) as u32).cmp(&m) })
}
fn near(r: &mut Rng) -> (i64, f64) {
    let i = r.edge() as i64;
    let f = match r.below(6) { 0 => i as f64, 1 => f64::from_bits((i as f64).to_bits().wrapping_add(r.below(3)).wrapping_sub(1)), 2 => f64::from_bits(r.edge()), 3 => *r.pick(&[9223372036854775808.0, -9223372036854775808.0, 9223372036854774784.0, -9223372036854777856.0, 0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.5, -0.5, 5e-324, 9007199254740992.0, 9007199254740994.0]), 4 => r.range(-5, 5) as f64 / 2.0, _ => f64::from_bits(r.u64()) };
    (i, f)
}
pub fn c03(h: &mut H) {
    h.rounds("generated-compare", 3.0, 100_000, |h| {
        let (i, f) = near(&mut h.rng); let cs = format!("{i} vs {:#x} ({f:e})", f.to_bits()); h.case(&cs, true);
        let w = cmp_exact(i, f);
        let g = ops::logos_cmp_i64_f64(i, f);
        h.check(g == w, "generated-compare", || format!("{g:?}, exactly {w:?}"), || cs.clone());
        let e = ops::logos_i64_eq_f64(i, f);
        h.check(e == (w == Some(std::cmp::Ordering::Equal)), "generated-equality", || format!("{e}"), || cs.clone());
    });
}

macro_rules! listcheck { ($h:expr, $key:expr, $mk:expr, $v:expr, $i:expr, $vec:expr) => {{
    let (v, i) = ($v.clone(), $i); let w = want(i, v.len()); let cs = format!("{} {v:?} at {i}", $key);
    let c = $mk(v.clone()); let g = panics(|| LogosIndex::logos_get(&c, i));
    match (w, &g) { (Some(k), Ok(x)) => { $h.check(*x == v[k], concat!($key, "-get"), || format!("{x}, the element is {}", v[k]), || cs.clone()); }
        (None, Ok(x)) => $h.violation(concat!($key, "-oob"), format!("a position outside returned {x}"), cs.clone()), (Some(_), Err(p)) => $h.violation(concat!($key, "-refused"), p.clone(), cs.clone()), _ => {} }
    let mut c = $mk(v.clone()); let g = panics(|| { LogosIndexMut::logos_set(&mut c, i, 999_999); $vec(&c) });
    match (w, g) { (Some(k), Ok(x)) => { let mut e = v.clone(); e[k] = 999_999; $h.check(x == e, concat!($key, "-set"), || format!("{x:?}, expected {e:?}"), || cs.clone()); }
        (None, Ok(x)) => $h.violation(concat!($key, "-set-oob"), format!("a write outside gave {x:?}"), cs.clone()), (Some(_), Err(p)) => $h.violation(concat!($key, "-set-refused"), p, cs.clone()), (None, Err(_)) => { } }
}} }

macro_rules! mapcheck { ($h:expr, $key:expr, $t:ident, $kgen:expr, $vgen:expr) => {{
    let cap = $h.rng.us(20); let mut m = if $h.rng.bool() { $t::new() } else { $t::with_capacity(cap) };
    let mut o: BTreeMap<i64, i64> = BTreeMap::new(); let mut tr = format!("{} cap {cap}", $key); let n = $h.rng.us(60); let mut ks: Vec<i64> = vec![];
    for _ in 0..n {
        let k = if !ks.is_empty() && $h.rng.chance(1, 3) { *$h.rng.pick(&ks) } else { let k = $kgen(&mut $h.rng); ks.push(k); k };
        if $h.rng.chance(2, 3) { let v = $vgen(&mut $h.rng); tr.push_str(&format!(" {k}={v}")); if $h.guard($key, || tr.clone(), || m.insert(k, v)).is_none() { return; } o.insert(k, v); }
        let q = if $h.rng.bool() { k } else { $kgen(&mut $h.rng) };
        let Some(g) = $h.guard($key, || format!("{tr} get {q}"), || m.get(&q)) else { return };
        if !$h.check(g == o.get(&q).copied(), concat!($key, "-get"), || format!("{g:?}, expected {:?}", o.get(&q)), || format!("{tr} get {q}")) { return; }
        $h.check(m.contains_key(&q) == o.contains_key(&q) && m.len() == o.len() && m.is_empty() == o.is_empty(), concat!($key, "-members"), || format!("contains {} len {}", m.contains_key(&q), m.len()), || format!("{tr} get {q}"));
    }
    for (k, v) in &o { if !$h.check(m.get(k) == Some(*v), concat!($key, "-get"), || format!("{:?}, expected {v}", m.get(k)), || format!("{tr} get {k}")) { return; } }
    $h.case(&tr, o.len() > 6);
}} }
macro_rules! setcheck { ($h:expr, $key:expr, $t:ident, $kgen:expr) => {{
    let cap = $h.rng.us(20); let mut m = if $h.rng.bool() { $t::new() } else { $t::with_capacity(cap) };
    let mut o: BTreeSet<i64> = BTreeSet::new(); let mut tr = format!("{} cap {cap}", $key); let n = $h.rng.us(60); let mut ks: Vec<i64> = vec![];
    for _ in 0..n {
        let k = if !ks.is_empty() && $h.rng.chance(1, 3) { *$h.rng.pick(&ks) } else { let k = $kgen(&mut $h.rng); ks.push(k); k };
        if $h.rng.chance(2, 3) { tr.push_str(&format!(" +{k}")); if $h.guard($key, || tr.clone(), || m.insert(k, 1)).is_none() { return; } o.insert(k); }
        let q = if $h.rng.bool() { k } else { $kgen(&mut $h.rng) };
        let Some(g) = $h.guard($key, || format!("{tr} has {q}"), || m.contains_key(&q)) else { return };
        if !$h.check(g == o.contains(&q) && m.len() == o.len() && m.is_empty() == o.is_empty(), concat!($key, "-members"), || format!("contains {g} len {}", m.len()), || format!("{tr} has {q}")) { return; }
    }
    for k in &o { if !$h.check(m.contains_key(k), concat!($key, "-members"), || "a member is gone".into(), || format!("{tr} has {k}")) { return; } }
    $h.case(&tr, o.len() > 6);
}} }
fn k64(r: &mut Rng) -> i64 { match r.below(4) { 0 => r.range(-10, 10), 1 => r.range(-3, 3) << 32, 2 => r.range(0, 20) * 8, _ => r.edge() as i64 } }
fn k32(r: &mut Rng) -> i64 { match r.below(4) { 0 => r.range(-10, 10), 1 => *r.pick(&[i32::MIN as i64, i32::MAX as i64, i32::MIN as i64 + 1, 65536, -65536]), 2 => r.range(0, 20) * 8, _ => r.edge() as i32 as i64 } }

fn ops_exact(h: &mut H) {
    let e = |r: &mut Rng| -> i64 { match r.below(4) { 0 => r.range(-5, 5), 1 => (1i64 << r.below(63)).wrapping_neg(), _ => r.edge() as i64 } };
    let (a, b) = (e(&mut h.rng), e(&mut h.rng)); let cs = format!("{a} {b}"); h.case(&cs, true);
    let (x, y) = (a as i128, b as i128); let (za, zb) = (Z::from_i128(x), Z::from_i128(y));
    let fit = |v: i128| i64::try_from(v).ok();
    let mut one = |h: &mut H, key: &str, w: Option<i64>, g: Result<i64, String>| { let g = g.ok(); h.check(g == w, key, || format!("{g:?}, exactly {w:?} (none: must fail)"), || cs.clone()); };
    one(h, "add-i64", fit(x + y), panics(|| logos_add_i64(a, b)));
    one(h, "sub-i64", fit(x - y), panics(|| logos_sub_i64(a, b)));
    one(h, "mul-i64", za.mul(&zb).to_i128().and_then(fit), panics(|| logos_mul_i64(a, b)));
    one(h, "div-i64", if b == 0 { None } else { fit(x / y) }, panics(|| logos_div_i64(a, b)));
    one(h, "rem-i64", if b == 0 { None } else { fit(x % y) }, panics(|| logos_rem_i64(a, b)));
    one(h, "narrow-i128", fit(x + y), panics(|| logos_narrow_i128(x + y)));
    let mut big = |h: &mut H, key: &str, w: Option<Z>, g: Result<LogosInt, String>| { let g = g.ok().map(|v| v.to_string()); let w = w.map(|z| z.dec()); h.check(g == w, key, || format!("{g:?}, exactly {w:?}"), || cs.clone()); };
    big(h, "add-exact", Some(za.add(&zb)), panics(|| logos_add_exact(a, b)));
    big(h, "sub-exact", Some(za.sub(&zb)), panics(|| logos_sub_exact(a, b)));
    big(h, "mul-exact", Some(za.mul(&zb)), panics(|| logos_mul_exact(a, b)));
    let nz = b != 0;
    big(h, "div-exact", nz.then(|| za.divrem(&zb).0), panics(|| logos_div_exact(a, b)));
    big(h, "rem-exact", nz.then(|| za.divrem(&zb).1), panics(|| logos_rem_exact(a, b)));
    big(h, "floordiv-exact", nz.then(|| za.divfloor(&zb)), panics(|| logos_floordiv_exact(a, b)));
    let p = h.rng.range(0, 20); big(h, "pow-exact", Some(za.pow(p as u32)), panics(|| logos_pow_exact(a, p)));
    // chains: promoted operands
    let (m, d) = (logos_mul_exact(a, b), logos_mul_exact(b, b)); let (zm, zd) = (za.mul(&zb), zb.mul(&zb));
    big(h, "chain-sub", Some(zm.sub(&zd)), panics(|| logos_sub_exact(m.clone(), d.clone())));
    big(h, "chain-div", nz.then(|| zm.divrem(&zd).0), panics(|| logos_div_exact(m.clone(), d.clone())));
    big(h, "chain-floordiv", nz.then(|| zm.divfloor(&zd)), panics(|| logos_floordiv_exact(m.clone(), d.clone())));
    big(h, "chain-rem", nz.then(|| zm.divrem(&zd).1), panics(|| logos_rem_exact(m.clone(), d.clone())));
}

pub fn c20(h: &mut H) {
    h.rounds("lists", 2.5, 40_000, |h| {
        let n = h.rng.us(7); let v: Vec<i64> = (0..n).map(|_| h.rng.range(0, 99)).collect(); let i = idx(&mut h.rng, n);
        h.case(&format!("list {v:?} at {i}"), n > 0);
        listcheck!(h, "vec", |v: Vec<i64>| v, v, i, |c: &Vec<i64>| c.clone());
        listcheck!(h, "seq", |v: Vec<i64>| LogosSeq::from_vec(v), v, i, |c: &LogosSeq<i64>| c.to_vec());
        let w = want(i, n);
        let g = panics(|| <[i64] as LogosIndex<i64>>::logos_get(&v[..], i)).ok();
        h.check(g == w.map(|k| v[k]), "slice-get", || format!("{g:?}"), || format!("slice {v:?} at {i}"));
        let mut m = v.clone(); let g = panics(|| { let mut s = &mut m[..]; LogosIndexMut::logos_set(&mut s, i, -7); LogosIndex::logos_get(&s, i) }).ok();
        let mut e = v.clone(); if let Some(k) = w { e[k] = -7; }
        h.check(m == e && g == w.map(|_| -7), "slice-set", || format!("{m:?} {g:?}"), || format!("slice {v:?} set at {i}"));
        let g = panics(|| indexing::resolve_logos_index(i, n)).ok();
        h.check(g == w, "resolve", || format!("{g:?}, expected {w:?}"), || format!("resolve {i} of {n}"));
    });
    h.rounds("resolve", 1.0, 60_000, |h| {
        let n = h.rng.edge() as usize; let i = if h.rng.bool() { h.rng.edge() as i64 } else { (n as i64).wrapping_add(h.rng.range(-2, 2)).wrapping_mul(if h.rng.bool() { 1 } else { -1 }) };
        h.case(&format!("resolve {i} of {n}"), true);
        let g = panics(|| indexing::resolve_logos_index(i, n)).ok(); let w = want(i, n);
        h.check(g == w, "resolve", || format!("{g:?}, expected {w:?}"), || format!("resolve {i} of {n}"));
    });
    h.rounds("texts", 2.5, 40_000, |h| {
        let t = text(&mut h.rng); let cv: Vec<char> = t.chars().collect(); let i = idx(&mut h.rng, cv.len());
        let cs = format!("text {t:?} at {i}"); h.case(&cs, !t.is_ascii());
        let w = want(i, cv.len()).map(|k| cv[k]);
        let g = panics(|| t.logos_get(i)).ok();
        h.check(g == w.map(|c| c.to_string()), "text-get", || format!("{g:?}, the character is {w:?}"), || cs.clone());
        let g = panics(|| t.logos_get_char(i)).ok();
        h.check(g == w, "text-get-char", || format!("{g:?}, the character is {w:?}"), || cs.clone());
        let b = text_bytes(&t); h.check(text_from_bytes(&b) == t, "text-bytes", || "text_from_bytes(text_bytes) differs".into(), || cs.clone());
    });
    h.rounds("keys", 1.5, 60_000, |h| {
        let (i, f) = near(&mut h.rng); let cs = format!("{:#x} ({f:e})", f.to_bits()); h.case(&cs, true);
        let g = ops::logos_i64_key_of_f64(f);
        // exactly the integer equal to the float, if there is one
        let w = if f.is_finite() && f.fract() == 0.0 && f.abs() <= 9223372036854775808.0 { i64::try_from(f as i128).ok() } else { None };
        h.check(g == w, "float-key", || format!("key {g:?}, the equal integer is {w:?}"), || cs.clone());
        if let Some(k) = g { h.check(cmp_exact(k, f) == Some(std::cmp::Ordering::Equal), "float-key", || format!("key {k} is not equal to the float"), || cs.clone()); }
        let _ = i;
    });
    h.rounds("maps", 4.0, 6_000, |h| {
        match h.rng.below(4) {
            0 => mapcheck!(h, "i64map", LogosI64Map, k64, |r: &mut Rng| r.edge() as i64),
            1 => mapcheck!(h, "i32map", LogosI32Map, k32, k32),
            2 => setcheck!(h, "i64set", LogosI64Set, k64),
            _ => setcheck!(h, "i32set", LogosI32Set, k32),
        }
    });
    h.rounds("dense", 2.0, 6_000, |h| {
        let n = 1 + h.rng.us(140); let lo = if h.rng.bool() { h.rng.range(-200, 200) } else { *h.rng.pick(&[i64::MIN, i64::MAX - 200, 0, 1, -64, 64]) };
        let mut m = LogosDenseI64Map::with_bounds(lo, n); let mut s = LogosDenseI64Set::with_bounds(lo, n); let mut np = LogosDenseI64MapNoPresence::with_bounds(lo, n);
        let mut o: BTreeMap<i64, i64> = BTreeMap::new(); let mut tr = format!("dense {lo}+{n}");
        for _ in 0..h.rng.us(40) {
            let k = lo + if h.rng.chance(1, 3) { *h.rng.pick(&[0, n - 1, n / 2, 63.min(n - 1), 64.min(n - 1)]) } else { h.rng.us(n) } as i64; let v = h.rng.edge() as i64; tr.push_str(&format!(" {k}={v}"));
            if h.guard("dense", || tr.clone(), || { m.insert(k, v); s.insert(k, v); np.insert(k, v) }).is_none() { return; } o.insert(k, v);
        }
        h.case(&tr, o.len() > 3);
        for q in 0..n { let q = lo + q as i64; let Some((a, b, c)) = h.guard("dense", || format!("{tr} get {q}"), || (m.get(&q), m.contains_key(&q), s.contains_key(&q))) else { return };
            let w = o.get(&q).copied();
            if !h.check(a == w && b == w.is_some() && c == w.is_some() && (w.is_none() || np.get(&q) == w), "dense-get", || format!("{a:?} {b} {c}, expected {w:?}"), || format!("{tr} get {q}")) { return; } }
        h.check(m.len() == o.len() && s.len() == o.len(), "dense-len", || format!("{} {}", m.len(), s.len()), || tr.clone());
        // outside the window: refuse rather than alias another key (in a build with debug assertions)
        for q in [lo.wrapping_sub(1), lo.wrapping_add(n as i64)] { if (q < lo) != (q == lo.wrapping_sub(1)) { continue; } h.check(panics(|| m.get(&q)).map(|g| g.is_none()).unwrap_or(true), "dense-outside", || "an entry was returned".into(), || format!("{tr} get {q}")); }
    });
    h.rounds("hashmaps", 1.5, 8_000, |h| {
        let mut m: LogosMap<i64, i64> = LogosMap::new(); let mut f: FxHashMap<String, i64> = FxHashMap::default(); let mut l: LogosMap<String, i64> = LogosMap::new();
        let mut o: BTreeMap<i64, i64> = BTreeMap::new(); let mut tr = String::from("map");
        for _ in 0..h.rng.us(12) { let k = h.rng.range(-4, 4); let v = h.rng.range(0, 99); tr.push_str(&format!(" {k}={v}"));
            LogosIndexMut::logos_set(&mut m, k, v); LogosIndexMut::logos_set(&mut f, k.to_string().as_str(), v); LogosIndexMut::logos_set(&mut l, k.to_string().as_str(), v); o.insert(k, v); }
        h.case(&tr, o.len() > 2);
        for q in -5..=5 { let w = o.get(&q).copied(); let s = q.to_string();
            for (n, g) in [("map", panics(|| LogosIndex::logos_get(&m, q)).ok()), ("fx-str", panics(|| LogosIndex::logos_get(&f, s.as_str())).ok()), ("fx", panics(|| LogosIndex::logos_get(&f, s.clone())).ok()), ("map-str", panics(|| LogosIndex::logos_get(&l, s.as_str())).ok()), ("map-string", panics(|| LogosIndex::logos_get(&l, s.clone())).ok())] {
                h.check(g == w, "hashmap-get", || format!("{n}: {g:?}, expected {w:?}"), || format!("{tr} get {q}")); } }
        h.check(m.len() == o.len() && l.len() == o.len(), "hashmap-len", || format!("{} {}", m.len(), l.len()), || tr.clone());
    });
    h.rounds("divisor", 2.0, 60_000, |h| {
        let d = loop { let d = h.rng.edge(); if d != 0 { break d; } }; let n = if h.rng.bool() { h.rng.edge() } else { d.wrapping_mul(h.rng.edge()).wrapping_add(h.rng.below(3)).wrapping_sub(1) };
        let cs = format!("{n} / {d}"); h.case(&cs, true);
        let Some((q, r)) = h.guard("divisor", || cs.clone(), || { let m = LogosDivU64::new(d); (m.div(n), m.rem(n)) }) else { return };
        h.check(q == n / d && r == n % d, "divisor", || format!("{q} rem {r}, exactly {} rem {}", n / d, n % d), || cs.clone());
    });
    h.rounds("nested", 1.0, 10_000, |h| {
        let (a, b) = (1 + h.rng.us(4), 1 + h.rng.us(4));
        let row = |r: &mut Rng| -> Vec<i64> { (0..b).map(|_| r.range(0, 9)).collect() };
        let mut rows: Vec<Vec<i64>> = (0..a).map(|_| row(&mut h.rng)).collect();
        let grid = LogosSeq::from_vec(rows.iter().map(|r| LogosSeq::from_vec(r.clone())).collect::<Vec<_>>());
        let keep = rows.clone(); let other = grid.deep_clone(); let shared = LogosSeq(grid.borrow()[0].0.clone());
        let (k, i) = (h.rng.us(a), h.rng.us(b)); grid.set_nested(k, i, 77); rows[k][i] = 77;
        let got: Vec<Vec<i64>> = grid.borrow().iter().map(|r| r.to_vec()).collect(); let cs = format!("{keep:?} set {k},{i}"); h.case(&cs, true);
        h.check(got == rows, "nested-set", || format!("{got:?}"), || cs.clone());
        h.check(shared.to_vec() == keep[0], "nested-alias", || format!("a sibling holding row 0 now shows {:?}", shared.to_vec()), || cs.clone());
        let _ = other;
    });
    h.rounds("checked-ops", 2.0, 20_000, ops_exact);
}
