//! C18: erasure coding against plain recovery.
use logicaffeine_compile::concurrency::fec;
use vh::{Rng, H};

fn kn(r: &mut Rng) -> (usize, usize) {
    match r.below(8) {
        0 => { let n = *r.pick(&[255usize, 256, 254, 128, 129]); let k = *r.pick(&[1usize, 2, 3, 5]); (k.min(n), n) }
        1 => { let k = 1 + r.us(4); (k, k) }
        2 => { let n = 17 + r.us(40); let k = 1 + r.us(n); (k, n) }
        _ => { let k = 1 + r.us(7); let e = r.us(6); (k, k + e) }
    }
}
fn data(r: &mut Rng, k: usize) -> Vec<u8> {
    let n = match r.below(6) { 0 => 0, 1 => 1, 2 => k, 3 => k.saturating_sub(1), 4 => k + 1, _ => { let m = 1 + r.us(90); r.us(m) } };
    match r.below(5) { 0 => vec![0; n], 1 => vec![255; n], _ => r.bytes(n) }
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }

fn codec(h: &mut H) {
    let (k, n) = kn(&mut h.rng);
    let d = data(&mut h.rng, k);
    let case = format!("encode k={k} n={n} data={}", hex(&d));
    h.case(&case, n > k && !d.is_empty());
    let Some(e) = h.guard("encode", || case.clone(), || fec::encode(&d, k, n)) else { return };
    let Some((len, sh)) = e else { h.violation("encode-none", "admissible k and n refused", case); return };
    if !h.check(len == d.len() && sh.len() == n && sh.iter().all(|s| s.len() == sh[0].len()), "encode-shape", || format!("len {len}, {} shards", sh.len()), || case.clone()) { return; }
    for _ in 0..4 {
        let mut idx: Vec<usize> = (0..n).collect();
        h.rng.shuffle(&mut idx);
        let style = h.rng.below(6);
        let take = match style { 0 => k - 1, 1 => n, _ => k + if n > k { h.rng.us(n - k + 1) } else { 0 } };
        if style == 5 { idx.sort(); idx.reverse(); }
        idx.truncate(take);
        let mut have: Vec<(usize, Vec<u8>)> = idx.iter().map(|i| (*i, sh[*i].clone())).collect();
        // duplicates, and shards that cannot belong (index or length impossible)
        let mut noise = vec![];
        for _ in 0..h.rng.us(3) { if let Some(x) = (!have.is_empty()).then(|| { let j = h.rng.us(have.len()); have[j].clone() }) { let at = h.rng.us(have.len() + 1); have.insert(at, x); noise.push("dup"); } }
        if h.rng.chance(1, 4) { let at = h.rng.us(have.len() + 1); let i = n + h.rng.us(3); let b = h.rng.bytes(sh[0].len()); have.insert(at, (i, b)); noise.push("index"); }
        if h.rng.chance(1, 4) { let at = h.rng.us(have.len() + 1); let i = h.rng.us(n); let l = sh[0].len(); let l = if h.rng.bool() { l + 1 } else { l - 1 }; let b = h.rng.bytes(l); have.insert(at, (i, b)); noise.push("length"); }
        let c2 = format!("{case}; decode from shards {:?} (noise {noise:?})", have.iter().map(|(i, b)| format!("{i}:{}", hex(b))).collect::<Vec<_>>());
        h.tick();
        let Some(r) = h.guard("decode", || c2.clone(), || fec::decode(len, k, n, &have)) else { return };
        if take < k { h.check(r.is_none(), "fewer-than-k", || format!("{} distinct shards of k={k} answered {:?}", take, r.as_ref().map(|x| hex(x))), || c2.clone()); }
        else { h.check(r.as_deref() == Some(&d[..]), if noise.is_empty() { "decode" } else { "decode-noise" }, || format!("recovered {:?}", r.as_ref().map(|x| hex(x))), || c2.clone()); }
    }
}
fn degenerate(h: &mut H) {
    let (k, n) = *h.rng.pick(&[(0usize, 0usize), (0, 4), (5, 4), (3, 257), (257, 257), (1, 300), (256, 256), (1, 1)]);
    let d = data(&mut h.rng, 3);
    let case = format!("k={k} n={n} data={}", hex(&d)); h.case(&case, true);
    let ok = k >= 1 && k <= n && n <= 256;
    let e = h.guard("encode", || case.clone(), || fec::encode(&d, k, n)).flatten();
    h.check(e.is_some() == ok, "degenerate", || format!("encode answered {}", e.is_some()), || case.clone());
    let f = h.guard("frame", || case.clone(), || fec::frame_redundant(7, &d, k, n)).flatten();
    h.check(f.is_some() == ok, "degenerate", || format!("frame_redundant answered {}", f.is_some()), || case.clone());
    if !ok { let r = h.guard("decode", || case.clone(), || fec::decode(2, k, n, &[(0, vec![1]), (1, vec![2])])).flatten(); h.check(r.is_none(), "degenerate", || "decode answered".into(), || case.clone()); }
    let r = h.guard("decode", || case.clone(), || fec::decode(0, 2, 3, &[])).flatten(); h.check(r.is_none(), "degenerate", || "decode of nothing answered".into(), || case.clone());
}
/// every pattern of k shards out of small n
fn exhaustive(h: &mut H) {
    if !h.group("exhaustive") { return; }
    for n in 1..=7usize { for k in 1..=n {
        let mut r = Rng::new(h.seed + (n * 16 + k) as u64);
        let d = r.bytes(k * 2 + 1);
        let Some((len, sh)) = fec::encode(&d, k, n) else { h.violation("encode-none", "refused", format!("k={k} n={n}")); continue };
        for m in 0u32..(1 << n) { if m.count_ones() as usize != k { continue; }
            let have: Vec<(usize, Vec<u8>)> = (0..n).filter(|i| m >> i & 1 == 1).map(|i| (i, sh[i].clone())).collect();
            let case = format!("k={k} n={n} data={} shards {:b}", hex(&d), m); h.case(&case, true);
            let g = h.guard("decode", || case.clone(), || fec::decode(len, k, n, &have)).flatten();
            h.check(g.as_deref() == Some(&d[..]), "decode", || format!("recovered {:?}", g.as_ref().map(|x| hex(x))), || case.clone());
        }
    } }
    // all field products appear: one byte of every value through two-shard parity, every pair of parity shards
    for a in 0..=255u8 { for n in [3usize, 9, 256] {
        let d = [a, a.wrapping_mul(37).wrapping_add(11)];
        let (len, sh) = fec::encode(&d, 2, n).unwrap();
        let i = 2 + (a as usize) % (n - 2); let j = if n > 3 { 2 + (a as usize + 1) % (n - 2) } else { 0 };
        let have = vec![(i, sh[i].clone()), (j, sh[j].clone())];
        let case = format!("k=2 n={n} data={} shards {i},{j}", hex(&d)); h.case(&case, true);
        let g = h.guard("decode", || case.clone(), || fec::decode(len, 2, n, &have)).flatten();
        h.check(g.as_deref() == Some(&d[..]), "decode", || format!("recovered {:?}", g.as_ref().map(|x| hex(x))), || case.clone());
    } }
}
fn frames(h: &mut H) {
    let nm = 1 + h.rng.us(3);
    let base = h.rng.edge();
    let mut msgs: Vec<(u64, usize, usize, Vec<u8>)> = vec![];
    for i in 0..nm { let k = 1 + h.rng.us(5); let n = k + h.rng.us(4); let d = data(&mut h.rng, k); let id = if h.rng.chance(1, 3) { h.rng.edge() } else { base.wrapping_add(i as u64) }; if !msgs.iter().any(|m| m.0 == id) { msgs.push((id, k, n, d)); } }
    let mut bag: Vec<Vec<u8>> = vec![]; let mut counts = vec![];
    let mut case = String::from("frames:");
    for (id, k, n, d) in &msgs {
        let Some(Some(f)) = h.guard("frame", || format!("id={id} k={k} n={n} data={}", hex(d)), || fec::frame_redundant(*id, d, *k, *n)) else { h.violation("frame-none", "refused", format!("k={k} n={n}")); return };
        for x in &f { let g = h.guard("header", || hex(x), || fec::shard_header(x)).flatten(); h.check(g == Some((*id, *k, *n)), "header", || format!("{g:?}"), || hex(x)); }
        let mut ix: Vec<usize> = (0..*n).collect(); h.rng.shuffle(&mut ix);
        let t = h.rng.us(*n + 1); ix.truncate(t); counts.push(t);
        case += &format!(" message {id} k={k} n={n} data={} shards {ix:?};", hex(d));
        bag.extend(ix.iter().map(|i| f[*i].clone()));
    }
    for _ in 0..h.rng.us(3) { if !bag.is_empty() { let j = h.rng.us(bag.len()); bag.push(bag[j].clone()); } }
    let real = bag.clone();
    // malformed frames: random bytes, truncations, impossible headers (same id as a real message)
    for _ in 0..h.rng.us(4) {
        let w = match h.rng.below(5) {
            0 => { let n = h.rng.us(40); h.rng.bytes(n) }
            1 if !real.is_empty() => { let j = h.rng.us(real.len()); let mut b = real[j].clone(); let l = h.rng.us(b.len()); b.truncate(l); b }
            2 if !real.is_empty() => { let j = h.rng.us(real.len()); let mut b = real[j].clone(); b[0] ^= 1; b }
            3 if !real.is_empty() => { let j = h.rng.us(real.len()); let mut b = real[j].clone(); b.push(9); b }
            _ if !real.is_empty() => { let j = h.rng.us(real.len()); let mut b = real[j].clone(); if h.rng.bool() { b[9] = 0; b[10] = 0 } else { b[17] = 0xff; b[18] = 0xff; } b }
            _ => vec![],
        };
        case += &format!(" bad frame {};", hex(&w));
        bag.push(w);
    }
    h.rng.shuffle(&mut bag);
    h.case(&case, nm > 1);
    let Some(r) = h.guard("reconstruct", || case.clone(), || fec::reconstruct_redundant(&bag)) else { return };
    let full: Vec<usize> = (0..msgs.len()).filter(|i| counts[*i] >= msgs[*i].1).collect();
    let order = || bag.iter().map(|b| hex(b)).collect::<Vec<_>>().join(" ");
    match r {
        None => { h.check(full.is_empty(), "reconstruct-none", || format!("message {} has enough shards and is not rebuilt; received in order {}", msgs[full[0]].0, order()), || case.clone()); }
        Some((id, d)) => { h.check(full.iter().any(|i| msgs[*i].0 == id && msgs[*i].3 == d), "reconstruct", || format!("rebuilt message {id} = {}; received in order {}", hex(&d), order()), || case.clone()); }
    }
}
pub fn c18(h: &mut H) {
    exhaustive(h);
    h.rounds("degenerate", 0.5, 60, degenerate);
    h.rounds("codec", 12.0, 20_000, codec);
    h.rounds("frames", 8.0, 100_000, frames);
}
