//! C14: cryptographic primitives against other implementations and the text of the standards.
use chacha20poly1305::aead::{Aead, KeyInit, Payload};
use logicaffeine_base::{Word16, Word8};
use logicaffeine_system::{aead, keccak, mldsa, mlkem, ntt};
use ml_dsa::{KeyGen, MlDsa65};
use ml_kem::kem::Decapsulate;
use ml_kem::{EncapsulateDeterministic, EncodedSizeUser, KemCore, MlKem768};
use sha3::digest::{ExtendableOutput, Update, XofReader};
use sha3::Digest;
use vh::big::Z;
use vh::{Rng, H};

const Q: i64 = 3329;

fn hex(b: &[u8]) -> String {
    if b.len() > 48 {
        return format!("{}…({} bytes)", hex(&b[..40]), b.len());
    }
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// Bytes that are random, constant, sparse or saturated.
fn data(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.us(5) {
        0 => vec![*r.pick(&[0u8, 0xff, 0x80, 1]); n],
        1 => {
            let mut v = vec![0u8; n];
            if n > 0 {
                let i = r.us(n);
                v[i] = 1 << r.us(8);
            }
            v
        }
        2 => {
            let mut v = vec![0xffu8; n];
            for _ in 0..3 {
                if n > 0 {
                    let i = r.us(n);
                    v[i] = r.u64() as u8;
                }
            }
            v
        }
        _ => r.bytes(n),
    }
}

fn arr<const K: usize>(r: &mut Rng) -> [u8; K] {
    data(r, K).try_into().unwrap()
}

fn length(r: &mut Rng, max: usize) -> usize {
    let block = *r.pick(&[16usize, 64, 72, 136, 168, 256, 512]);
    let near = (block * r.us(max / block + 1)) as i64 + r.range(-2, 2);
    if r.bool() { near.clamp(0, max as i64) as usize } else { r.us(max + 1) }
}

// ---------------------------------------------------------------- hashes

fn rotation(x: usize, y: usize) -> u32 {
    // The walk of the standard: (x, y) -> (y, 2x + 3y), offset (t+1)(t+2)/2.
    if (x, y) == (0, 0) {
        return 0;
    }
    let (mut a, mut b) = (1usize, 0usize);
    for t in 0..24u32 {
        if (a, b) == (x, y) {
            return (t + 1) * (t + 2) / 2 % 64;
        }
        (a, b) = (b, (2 * a + 3 * b) % 5);
    }
    unreachable!()
}

/// Keccak-f[1600] as the standard writes it, with the round constants from their shift register.
fn permutation(st: &[u64; 25]) -> [u64; 25] {
    let mut a = *st;
    let mut lfsr = 1u8;
    let mut bit = || {
        let out = lfsr & 1;
        let hi = lfsr & 0x80 != 0;
        lfsr <<= 1;
        if hi {
            lfsr ^= 0x71;
        }
        out as u64
    };
    for _ in 0..24 {
        let c: Vec<u64> = (0..5).map(|x| (0..5).fold(0, |s, y| s ^ a[x + 5 * y])).collect();
        for x in 0..5 {
            for y in 0..5 {
                a[x + 5 * y] ^= c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            }
        }
        let mut b = [0u64; 25];
        for x in 0..5 {
            for y in 0..5 {
                b[y + 5 * ((2 * x + 3 * y) % 5)] = a[x + 5 * y].rotate_left(rotation(x, y));
            }
        }
        for x in 0..5 {
            for y in 0..5 {
                a[x + 5 * y] = b[x + 5 * y] ^ (!b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
            }
        }
        for j in 0..7 {
            if bit() == 1 {
                a[0] ^= 1u64 << ((1u32 << j) - 1);
            }
        }
    }
    a
}

fn hashes(h: &mut H, m: &[u8], outlen: usize) {
    let case = format!("message {} out {outlen}", hex(m));
    h.case(&case, !m.is_empty());
    let i64s: Vec<i64> = m.iter().map(|b| *b as i64).collect();
    let w8: Vec<Word8> = m.iter().map(|b| Word8(*b)).collect();
    let xof = |which: usize| {
        let mut out = vec![0u8; outlen];
        if which == 128 {
            let mut x = sha3::Shake128::default();
            x.update(m);
            x.finalize_xof().read(&mut out);
        } else {
            let mut x = sha3::Shake256::default();
            x.update(m);
            x.finalize_xof().read(&mut out);
        }
        out
    };
    let want: [(&str, Vec<u8>); 4] = [
        ("sha3_256", sha3::Sha3_256::digest(m).to_vec()),
        ("sha3_512", sha3::Sha3_512::digest(m).to_vec()),
        ("shake128", xof(128)),
        ("shake256", xof(256)),
    ];
    let o = outlen as i64;
    let c = case.clone();
    let got = h.guard("hash", || c.clone(), || {
        let b = |s: logicaffeine_data::LogosSeq<i64>| -> Vec<u8> { s.borrow().iter().map(|x| *x as u8).collect() };
        let w = |s: logicaffeine_data::LogosSeq<Word8>| -> Vec<u8> { s.borrow().iter().map(|x| x.0).collect() };
        [
            [keccak::sha3_256_bytes(m).to_vec(), b(keccak::sha3_256(&i64s)), w(ntt::sha3_256_w8_seq(&w8))],
            [keccak::sha3_512_bytes(m).to_vec(), b(keccak::sha3_512(&i64s)), w(ntt::sha3_512_w8_seq(&w8))],
            [keccak::shake128_bytes(m, outlen), b(keccak::shake128(&i64s, o)), w(ntt::shake128_w8_seq(&w8, o))],
            [keccak::shake256_bytes(m, outlen), b(keccak::shake256(&i64s, o)), w(ntt::shake256_w8_seq(&w8, o))],
        ]
    });
    if let Some(got) = got {
        for (i, (name, want)) in want.iter().enumerate() {
            for g in &got[i] {
                h.check(g == want, name, || format!("got {} want {}", hex(g), hex(want)), || case.clone());
            }
        }
    }
}

// ---------------------------------------------------------------- authenticated encryption

fn chacha_ref(key: &[u8; 32], nonce: &[u8; 12], counter: u32, data: &[u8]) -> Vec<u8> {
    let le = |b: &[u8]| u32::from_le_bytes(b.try_into().unwrap());
    let mut out = Vec::new();
    for (i, chunk) in data.chunks(64).enumerate() {
        let mut s = [0u32; 16];
        for (k, c) in b"expand 32-byte k".chunks(4).enumerate() {
            s[k] = le(c);
        }
        for k in 0..8 {
            s[4 + k] = le(&key[4 * k..4 * k + 4]);
        }
        s[12] = counter.wrapping_add(i as u32);
        for k in 0..3 {
            s[13 + k] = le(&nonce[4 * k..4 * k + 4]);
        }
        let mut x = s;
        for _ in 0..10 {
            for [a, b, c, d] in [[0, 4, 8, 12], [1, 5, 9, 13], [2, 6, 10, 14], [3, 7, 11, 15], [0, 5, 10, 15], [1, 6, 11, 12], [2, 7, 8, 13], [3, 4, 9, 14]] {
                for (p, q, r, n) in [(a, b, d, 16), (c, d, b, 12), (a, b, d, 8), (c, d, b, 7)] {
                    x[p] = x[p].wrapping_add(x[q]);
                    x[r] = (x[r] ^ x[p]).rotate_left(n);
                }
            }
        }
        for (j, b) in chunk.iter().enumerate() {
            out.push(b ^ x[j / 4].wrapping_add(s[j / 4]).to_le_bytes()[j % 4]);
        }
    }
    out
}

fn le_int(b: &[u8]) -> Z {
    let mut r = Z::from_i128(0);
    for x in b.iter().rev() {
        r = r.mul(&Z::from_i128(256)).add(&Z::from_i128(*x as i128));
    }
    r
}

/// The authenticator in whole-number arithmetic.
fn poly_ref(key: &[u8; 32], msg: &[u8]) -> [u8; 16] {
    let p = Z::from_i128(2).pow(130).sub(&Z::from_i128(5));
    let mut rb: [u8; 16] = key[..16].try_into().unwrap();
    for i in [3, 7, 11, 15] {
        rb[i] &= 15;
    }
    for i in [4, 8, 12] {
        rb[i] &= 252;
    }
    let r = le_int(&rb);
    let mut acc = Z::from_i128(0);
    for c in msg.chunks(16) {
        let mut b = c.to_vec();
        b.push(1);
        acc = acc.add(&le_int(&b)).mul(&r).modp(&p);
    }
    let t = acc.add(&le_int(&key[16..])).modp(&Z::from_i128(2).pow(128));
    let mut out = [0u8; 16];
    for i in 0..16 {
        out[i] = (t.m.get(i / 4).copied().unwrap_or(0) >> (8 * (i % 4))) as u8;
    }
    out
}

fn sealing(h: &mut H) {
    let key: [u8; 32] = arr(&mut h.rng);
    let nonce: [u8; 12] = arr(&mut h.rng);
    let n = length(&mut h.rng, 1400);
    let m = data(&mut h.rng, n);
    let an = if h.rng.chance(1, 4) { length(&mut h.rng, 600) } else { h.rng.us(40) };
    let ad = data(&mut h.rng, an);
    let case = format!("key {} nonce {} aad {} message {}", hex(&key), hex(&nonce), hex(&ad), hex(&m));
    h.case(&case, !m.is_empty());
    let c = case.clone();
    let Some((sealed, opened)) = h.guard("seal", || c.clone(), || {
        let s = aead::chacha20poly1305_seal(&key, &nonce, &ad, &m);
        let o = aead::chacha20poly1305_open(&key, &nonce, &ad, &s);
        (s, o)
    }) else {
        return;
    };
    let other = chacha20poly1305::ChaCha20Poly1305::new((&key).into());
    let want = other.encrypt((&nonce).into(), Payload { msg: &m, aad: &ad }).unwrap();
    if !h.check(sealed == want, "seal", || format!("got {} want {}", hex(&sealed), hex(&want)), || case.clone()) {
        return;
    }
    h.check(opened.as_deref() == Some(&m[..]), "open", || "a genuine message is not opened".into(), || case.clone());
    // Tampering: one bit anywhere, or a different length.
    for _ in 0..12 {
        let (mut k, mut nn, mut a, mut s) = (key, nonce, ad.clone(), sealed.clone());
        let what = match h.rng.us(8) {
            0 => { let i = h.rng.us(256); k[i / 8] ^= 1 << (i % 8); format!("key bit {i}") }
            1 => { let i = h.rng.us(96); nn[i / 8] ^= 1 << (i % 8); format!("nonce bit {i}") }
            2 if !a.is_empty() => { let i = h.rng.us(a.len() * 8); a[i / 8] ^= 1 << (i % 8); format!("aad bit {i}") }
            3 => { let i = s.len() * 8 - 1 - h.rng.us(128); s[i / 8] ^= 1 << (i % 8); format!("tag bit {i}") }
            4 => { let k = 1 + h.rng.us(s.len().min(40)); let l = s.len(); s.truncate(l - k); format!("cut by {k}") }
            5 => { let k = h.rng.us(20) + 1; let e = vec![0u8; k]; if h.rng.bool() { s.extend(e); "zeros behind".into() } else { a.extend(e); "zeros behind aad".into() } }
            6 if !a.is_empty() && m.len() > 0 => { let b = a.pop().unwrap(); s.insert(0, b); "byte moved from aad".into() }
            _ => { let i = h.rng.us(s.len() * 8); s[i / 8] ^= 1 << (i % 8); format!("bit {i}") }
        };
        h.tick();
        let c = format!("{case} changed {what}");
        let o = h.guard("open", || c.clone(), || aead::chacha20poly1305_open(&k, &nn, &a, &s));
        if let Some(o) = o {
            h.check(o.is_none(), "tampered-open", || "a changed message is opened".into(), || c.clone());
        }
    }
}

/// Authenticator accumulators that end where the final subtraction of the modulus must decide: r = 1 makes the accumulator
/// the plain sum of the blocks, so the last block is chosen to land it on, or a few steps beside, a multiple of the modulus,
/// a limb boundary, or the top of the range.
fn tag_edges(h: &mut H) {
    let two = |k: u32| Z::from_i128(2).pow(k);
    let p = two(130).sub(&Z::from_i128(5));
    let mut key: [u8; 32] = arr(&mut h.rng);
    key[..16].fill(0);
    key[0] = 1;
    let n = 1 + h.rng.us(6);
    let mut m = vec![];
    let mut acc = Z::from_i128(0);
    for _ in 0..n {
        let mut b = if h.rng.chance(1, 3) { vec![0xff; 16] } else { h.rng.bytes(16) };
        m.extend_from_slice(&b);
        b.push(1);
        acc = acc.add(&le_int(&b));
    }
    let base = match h.rng.us(4) {
        0 => two(26 * (1 + h.rng.us(4) as u32)),
        1 => p.sub(&two(26 * h.rng.us(5) as u32)),
        _ => p.clone(),
    };
    let want = base.add(&Z::from_i128(h.rng.range(-8, 8) as i128)).sub(&acc).sub(&two(128)).modp(&p);
    if want.m.len() <= 4 {
        for i in 0..16 { m.push((want.m.get(i / 4).copied().unwrap_or(0) >> (8 * (i % 4))) as u8); }
    }
    let case = format!("one-time key {} message {}", key.iter().map(|x| format!("{x:02x}")).collect::<String>(), hex(&m));
    h.case(&case, true);
    let c = case.clone();
    if let Some(g) = h.guard("poly", || c.clone(), || aead::poly1305(&key, &m)) {
        let w = poly_ref(&key, &m);
        h.check(g == w, "poly", || format!("got {} want {}", hex(&g), hex(&w)), || case.clone());
    }
}

fn stream_and_tag(h: &mut H) {
    let mut key: [u8; 32] = arr(&mut h.rng);
    let nonce: [u8; 12] = arr(&mut h.rng);
    let counter = match h.rng.us(4) {
        0 => u32::MAX - h.rng.us(20) as u32,
        1 => 0,
        2 => 1,
        _ => h.rng.u64() as u32,
    };
    let n = length(&mut h.rng, 1300);
    let m = data(&mut h.rng, n);
    let case = format!("key {} nonce {} counter {counter} data {}", hex(&key), hex(&nonce), hex(&m));
    h.case(&case, n > 0);
    let c = case.clone();
    if let Some(g) = h.guard("chacha", || c.clone(), || aead::chacha20_xor(&key, &nonce, counter, &m)) {
        let w = chacha_ref(&key, &nonce, counter, &m);
        h.check(g == w, "chacha", || format!("got {} want {}", hex(&g), hex(&w)), || case.clone());
    }
    // Authenticator inputs near the modulus: big r, saturated blocks, sums of all ones.
    if h.rng.bool() {
        for b in key.iter_mut() {
            *b = if h.rng.chance(7, 8) { 0xff } else { h.rng.u64() as u8 };
        }
        if h.rng.chance(1, 3) {
            key[..16].fill(0);
            key[0] = 1 + h.rng.us(4) as u8;
        }
    }
    let case = format!("one-time key {} message {}", key.iter().map(|x| format!("{x:02x}")).collect::<String>(), hex(&m));
    let c = case.clone();
    if let Some(g) = h.guard("poly", || c.clone(), || aead::poly1305(&key, &m)) {
        let w = poly_ref(&key, &m);
        h.check(g == w, "poly", || format!("got {} want {}", hex(&g), hex(&w)), || case.clone());
    }
    if h.rng.chance(1, 4) {
        let ki: Vec<i64> = key.iter().map(|b| *b as i64).collect();
        let mi: Vec<i64> = m.iter().map(|b| *b as i64).collect();
        let ni: Vec<i64> = nonce.iter().map(|b| *b as i64).collect();
        let a: Vec<u8> = aead::poly1305_seq(&ki, &mi).borrow().iter().map(|x| *x as u8).collect();
        h.check(a == aead::poly1305(&key, &m), "poly-seq", || "the sequence form differs".into(), || case.clone());
        let a: Vec<u8> = aead::chacha20_encrypt_seq(&ki, &ni, counter as i64, &mi).borrow().iter().map(|x| *x as u8).collect();
        h.check(a == aead::chacha20_xor(&key, &nonce, counter, &m), "chacha-seq", || "the sequence form differs".into(), || case.clone());
    }
}

// ---------------------------------------------------------------- transforms

fn pw(b: i64, e: u64, q: i64) -> i64 {
    let (mut r, mut b, mut e) = (1i64, b % q, e);
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % q;
        }
        b = b * b % q;
        e >>= 1;
    }
    r
}

fn brv7(i: usize) -> u64 {
    (i as u8).reverse_bits() as u64 >> 1
}

/// The transform by its meaning: the remainders of the polynomial modulo X^2 - ζ^(2·brv(i)+1).
fn ntt_ref(f: &[i64]) -> Vec<i64> {
    let mut out = vec![0i64; 256];
    for i in 0..128 {
        let g = pw(17, 2 * brv7(i) + 1, Q);
        let mut p = 1i64;
        for k in 0..128 {
            out[2 * i] = (out[2 * i] + f[2 * k].rem_euclid(Q) * p) % Q;
            out[2 * i + 1] = (out[2 * i + 1] + f[2 * k + 1].rem_euclid(Q) * p) % Q;
            p = p * g % Q;
        }
    }
    out
}

fn schoolbook(a: &[i64], b: &[i64]) -> Vec<i64> {
    let mut c = vec![0i64; 256];
    for i in 0..256 {
        for j in 0..256 {
            let p = a[i] * b[j] % Q;
            if i + j < 256 { c[i + j] += p } else { c[i + j - 256] -= p }
        }
    }
    c.iter().map(|x| x.rem_euclid(Q)).collect()
}

fn poly(r: &mut Rng) -> Vec<i64> {
    let k = r.us(6);
    let c = r.below(Q as u64) as i64;
    (0..256usize)
        .map(|i| match k {
            0 => *r.pick(&[0, 1, Q - 1, Q / 2, Q / 2 + 1]),
            1 => Q - 1,
            2 => (i as i64 % 2) * (Q - 1),
            3 => if i as i64 == c % 256 { c } else { 0 },
            _ => r.below(Q as u64) as i64,
        })
        .collect()
}

fn transforms(h: &mut H) {
    let (a, b) = (poly(&mut h.rng), poly(&mut h.rng));
    let case = format!("a {a:?} b {b:?}");
    h.case(&case, a.iter().any(|x| *x != 0) && b.iter().any(|x| *x != 0));
    let w16 = |v: &[i64]| -> Vec<Word16> { v.iter().map(|x| Word16(*x as u16)).collect() };
    let un = |v: Vec<Word16>| -> Vec<i64> { v.iter().map(|w| w.0 as i64).collect() };
    let un2 = |v: logicaffeine_data::LogosSeq<Word16>| -> Vec<i64> { v.borrow().iter().map(|w| w.0 as i64).collect() };
    let un3 = |v: logicaffeine_data::LogosSeq<i64>| -> Vec<i64> { v.borrow().clone() };
    // Any whole numbers are allowed on the way in.
    let big: Vec<i64> = a
        .iter()
        .map(|x| match h.rng.us(6) {
            0 => (i64::MAX / Q - 1 - h.rng.us(9) as i64) * Q + x,
            1 => (i64::MIN / Q + 1 + h.rng.us(9) as i64) * Q + x,
            2 => x - Q,
            _ => *x,
        })
        .collect();
    let c = case.clone();
    let got = h.guard("ntt", || c.clone(), || {
        let (na, nb) = (un3(ntt::mlkem_ntt(&a)), un3(ntt::mlkem_ntt(&b)));
        let nw = un(ntt::mlkem_ntt_w16(&w16(&a)));
        let ns = un2(ntt::mlkem_ntt_w16_seq(&w16(&a)));
        let nbig = un3(ntt::mlkem_ntt(&big));
        let bm = un3(ntt::mlkem_base_mul(&na, &nb));
        let bw = un(ntt::mlkem_base_mul_w16(&w16(&na), &w16(&nb)));
        let bs = un2(ntt::mlkem_base_mul_w16_seq(&w16(&na), &w16(&nb)));
        let iv = un3(ntt::mlkem_inv_ntt(&bm));
        let iw = un(ntt::mlkem_inv_ntt_w16(&w16(&bm)));
        let is = un2(ntt::mlkem_inv_ntt_w16_seq(&w16(&bm)));
        let tm = un3(ntt::mlkem_to_mont(&a));
        let tw = un(ntt::mlkem_to_mont_w16(&w16(&a)));
        let ad = un2(ntt::mlkem_add_mod_q_w16(&w16(&a), &w16(&b)));
        let sb = un2(ntt::mlkem_sub_mod_q_w16(&w16(&a), &w16(&b)));
        let ia = un3(ntt::mlkem_inv_ntt(&a));
        let iwa = un(ntt::mlkem_inv_ntt_w16(&w16(&a)));
        (na, [nw, ns, nbig], [bm, bw, bs], [iv, iw, is], [tm, tw], ad, sb, [ia, iwa])
    });
    let Some((na, ntts, bms, ivs, tms, ad, sb, ias)) = got else { return };
    let want = ntt_ref(&a);
    h.check(na == want, "ntt", || "differs from the remainders of the polynomial".into(), || case.clone());
    for (i, g) in ntts.iter().enumerate() {
        h.check(*g == want, "ntt-form", || format!("form {i} differs"), || format!("{case} wide {big:?}"));
    }
    let rinv = pw(65536, Q as u64 - 2, Q);
    let nb = ntt_ref(&b);
    let bm: Vec<i64> = (0..128)
        .flat_map(|i| {
            let g = pw(17, 2 * brv7(i) + 1, Q);
            let (a0, a1, b0, b1) = (want[2 * i], want[2 * i + 1], nb[2 * i], nb[2 * i + 1]);
            [(a0 * b0 + a1 * b1 % Q * g) % Q * rinv % Q, (a0 * b1 + a1 * b0) % Q * rinv % Q]
        })
        .collect();
    for (i, g) in bms.iter().enumerate() {
        h.check(*g == bm, "base-mul", || format!("form {i} differs from the product of remainders"), || case.clone());
    }
    let prod = schoolbook(&a, &b);
    for (i, g) in ivs.iter().enumerate() {
        h.check(*g == prod, "product", || format!("form {i} differs from the polynomial product"), || case.clone());
    }
    for g in &tms {
        h.check((0..256).all(|i| g[i] == a[i] * 65536 % Q), "to-mont", || "not the input times 2^16".into(), || case.clone());
    }
    h.check((0..256).all(|i| ad[i] == (a[i] + b[i]) % Q), "add-mod", || "wrong sum".into(), || case.clone());
    h.check((0..256).all(|i| sb[i] == (a[i] - b[i]).rem_euclid(Q)), "sub-mod", || "wrong difference".into(), || case.clone());
    // Inverse of arbitrary transform-domain data: transforming it again gives the data times 2^16.
    for g in &ias {
        let back = ntt_ref(g);
        h.check((0..256).all(|i| back[i] == a[i] * 65536 % Q) && g.iter().all(|x| (0..Q).contains(x)), "inverse", || "the inverse is not an inverse".into(), || case.clone());
    }
}

fn coding(h: &mut H) {
    let d = 1 + h.rng.us(12);
    let a = poly(&mut h.rng);
    let bytes = data(&mut h.rng, 32 * d);
    let case = format!("d {d} coefficients {a:?} bytes {}", hex(&bytes));
    h.case(&case, true);
    let two = 1i64 << d;
    let w: Vec<Word16> = a.iter().map(|x| Word16(*x as u16)).collect();
    let bi: Vec<i64> = bytes.iter().map(|b| *b as i64).collect();
    let c = case.clone();
    let small: Vec<i64> = a.iter().map(|x| x % two).collect();
    let sw: Vec<Word16> = small.iter().map(|x| Word16(*x as u16)).collect();
    let got = h.guard("coding", || c.clone(), || {
        let u = |v: logicaffeine_data::LogosSeq<i64>| -> Vec<i64> { v.borrow().clone() };
        (
            [u(ntt::mlkem_compress(&a, d as i64)), ntt::mlkem_compress_w16(&w, d).iter().map(|x| x.0 as i64).collect()],
            [u(ntt::mlkem_decompress(&small, d as i64)), ntt::mlkem_decompress_w16(&sw, d).iter().map(|x| x.0 as i64).collect()],
            [u(ntt::mlkem_byte_encode(&small, d as i64)), ntt::mlkem_byte_encode_w16(&sw, d).iter().map(|x| *x as i64).collect()],
            [u(ntt::mlkem_byte_decode(&bi, d as i64)), ntt::mlkem_byte_decode_w16(&bytes, d).iter().map(|x| x.0 as i64).collect()],
        )
    });
    let Some((co, de, en, dc)) = got else { return };
    if d < 12 {
        for g in &co {
            // round(2^d x / q) mod 2^d, half up
            h.check((0..256).all(|i| g[i] == (2 * two * a[i] + Q) / (2 * Q) % two), "compress", || "not the nearest multiple".into(), || case.clone());
        }
        for g in &de {
            h.check((0..256).all(|i| g[i] == (2 * Q * small[i] + two) / (2 * two)), "decompress", || "not the nearest multiple".into(), || case.clone());
        }
    }
    let bit = |v: i64, k: usize| v >> k & 1;
    for g in &en {
        let ok = g.len() == 32 * d && (0..256 * d).all(|k| bit(g[k / 8], k % 8) == bit(small[k / d], k % d));
        h.check(ok, "byte-encode", || "bits out of place".into(), || case.clone());
    }
    for g in &dc {
        let ok = g.len() == 256
            && (0..256).all(|i| {
                let v: i64 = (0..d).map(|k| bit(bi[(i * d + k) / 8], (i * d + k) % 8) << k).sum();
                g[i] == if d == 12 { v % Q } else { v }
            });
        h.check(ok, "byte-decode", || "bits out of place".into(), || case.clone());
    }
    // Centred binomial noise by counting bits.
    for eta in [2usize, 3] {
        let buf = data(&mut h.rng, 64 * eta);
        let bi: Vec<i64> = buf.iter().map(|b| *b as i64).collect();
        let b = |k: usize| (buf[k / 8] >> (k % 8) & 1) as i64;
        let want: Vec<i64> = (0..256).map(|i| (0..eta).map(|k| b(2 * i * eta + k) - b(2 * i * eta + eta + k)).sum()).collect();
        let case = format!("eta {eta} bytes {}", hex(&buf));
        let c = case.clone();
        let got = h.guard("noise", || c.clone(), || {
            if eta == 2 { (ntt::mlkem_cbd2(&bi).borrow().clone(), ntt::mlkem_cbd2_w16(&buf)) } else { (ntt::mlkem_cbd3(&bi).borrow().clone(), ntt::mlkem_cbd3_w16(&buf)) }
        });
        if let Some((g, w)) = got {
            h.check(g == want && (0..256).all(|i| w[i].0 as i64 == want[i].rem_euclid(Q)), "noise", || "not the difference of bit counts".into(), || case.clone());
        }
    }
    // Uniform sampling by the rejection rule.
    let seed = data(&mut h.rng, 32);
    let (i, j) = (h.rng.us(4), h.rng.us(4));
    let mut x = sha3::Shake128::default();
    x.update(&seed);
    x.update(&[i as u8, j as u8]);
    let mut rd = x.finalize_xof();
    let mut want = Vec::new();
    while want.len() < 256 {
        let mut t = [0u8; 3];
        rd.read(&mut t);
        for v in [t[0] as i64 + 256 * (t[1] as i64 % 16), t[1] as i64 / 16 + 16 * t[2] as i64] {
            if v < Q && want.len() < 256 {
                want.push(v);
            }
        }
    }
    let si: Vec<i64> = seed.iter().map(|b| *b as i64).collect();
    let case = format!("seed {} entry {i} {j}", hex(&seed));
    let c = case.clone();
    let got = h.guard("sample", || c.clone(), || {
        let m = ntt::mlkem_sample_matrix_w16(&seed);
        let slot = (i * 3 + j) * 256;
        (
            ntt::mlkem_sample_a(&si, i as i64, j as i64).borrow().clone(),
            ntt::mlkem_sample_a_w16(&seed, i as i64, j as i64),
            if i < 3 && j < 3 { Some(m[slot..slot + 256].to_vec()) } else { None },
        )
    });
    if let Some((g, w, m)) = got {
        let same = |v: &[Word16]| v.len() == 256 && (0..256).all(|k| v[k].0 as i64 == want[k]);
        h.check(g == want && same(&w) && m.map_or(true, |m| same(&m)), "sample", || "differs from the rejection rule".into(), || case.clone());
    }
}

/// Every coefficient value through the element-wise reductions.
fn all_coefficients(h: &mut H) {
    for start in (0..Q).step_by(256) {
        let a: Vec<i64> = (0..256).map(|i| (start + i) % Q).collect();
        let w: Vec<Word16> = a.iter().map(|x| Word16(*x as u16)).collect();
        h.case(&format!("coefficients from {start}"), true);
        let c = format!("coefficients {start}..");
        let t = h.guard("to-mont", || c.clone(), || (ntt::mlkem_to_mont_w16(&w), ntt::mlkem_to_mont(&a).borrow().clone()));
        if let Some((g, g2)) = t {
            h.check((0..256).all(|i| g[i].0 as i64 == a[i] * 65536 % Q && g2[i] == a[i] * 65536 % Q), "to-mont", || "not the input times 2^16".into(), || c.clone());
        }
        for d in 1..12usize {
            let g = ntt::mlkem_compress_w16(&w, d);
            h.check((0..256).all(|i| g[i].0 as i64 == (2 * (a[i] << d) + Q) / (2 * Q) % (1 << d)), "compress", || "not the nearest multiple".into(), || format!("{c} d {d}"));
        }
    }
}

// ---------------------------------------------------------------- key encapsulation

fn kem(h: &mut H) {
    let (d, z, m): ([u8; 32], [u8; 32], [u8; 32]) = (arr(&mut h.rng), arr(&mut h.rng), arr(&mut h.rng));
    let case = format!("d {} z {} m {}", hex(&d), hex(&z), hex(&m));
    h.case(&case, true);
    let c = case.clone();
    let got = h.guard("kem", || c.clone(), || {
        let (ek, dk) = mlkem::keygen(&d, &z);
        let (ct, ss) = mlkem::encaps(&ek, &m);
        let back = mlkem::decaps(&dk, &ct);
        (ek, dk, ct, ss, back)
    });
    let Some((ek, dk, ct, ss, back)) = got else { return };
    let (dko, eko) = MlKem768::generate_deterministic(&d.into(), &z.into());
    let (cto, sso) = eko.encapsulate_deterministic(&m.into()).unwrap();
    h.check(ek[..] == eko.as_bytes()[..] && dk[..] == dko.as_bytes()[..], "kem-keys", || "keys differ from the standard".into(), || case.clone());
    h.check(ct[..] == cto[..] && ss[..] == sso[..], "kem-encaps", || "encapsulation differs from the standard".into(), || case.clone());
    h.check(back == ss, "kem-decaps", || "the encapsulated key is not recovered".into(), || case.clone());
    for _ in 0..4 {
        let (mut c2, mut dk2) = (ct.clone(), dk.clone());
        let what = if h.rng.chance(3, 4) {
            let i = h.rng.us(c2.len() * 8);
            c2[i / 8] ^= 1 << (i % 8);
            format!("ciphertext bit {i}")
        } else {
            let i = h.rng.us(32 * 8);
            let n = dk2.len();
            dk2[n - 64 + i / 8] ^= 1 << (i % 8);
            format!("key hash bit {i}")
        };
        h.tick();
        let c = format!("{case} changed {what}");
        if let Some(g) = h.guard("kem-reject", || c.clone(), || mlkem::decaps(&dk2, &c2)) {
            h.check(g != ss, "kem-tamper", || "a changed ciphertext gives the same key".into(), || c.clone());
            if dk2 == dk {
                let mut o = cto;
                o.copy_from_slice(&c2);
                let w = dko.decapsulate(&o).unwrap();
                h.check(g[..] == w[..], "kem-reject", || "the key for a changed ciphertext differs from the standard".into(), || c.clone());
            }
        }
    }
}

// ---------------------------------------------------------------- signatures

fn signatures(h: &mut H) {
    let seed: [u8; 32] = arr(&mut h.rng);
    let (mn, cn) = (length(&mut h.rng, 400), if h.rng.chance(1, 5) { *h.rng.pick(&[254usize, 255]) } else { h.rng.us(30) });
    let (m, ctx) = (data(&mut h.rng, mn), data(&mut h.rng, cn));
    let case = format!("seed {} message {} context {}", hex(&seed), hex(&m), hex(&ctx));
    h.case(&case, true);
    let c = case.clone();
    let got = h.guard("sign", || c.clone(), || {
        let (pk, sk) = mldsa::keygen(&seed);
        let sig = mldsa::sign(&sk, &m, &ctx);
        let ok = mldsa::verify(&pk, &m, &ctx, &sig);
        (pk, sk, sig, ok)
    });
    let Some((pk, sk, sig, ok)) = got else { return };
    let kp = MlDsa65::key_gen_internal(&seed.into());
    h.check(pk[..] == kp.verifying_key().encode()[..] && sk[..] == kp.signing_key().encode()[..], "sign-keys", || "keys differ from the standard".into(), || case.clone());
    if let Ok(s) = kp.signing_key().sign_deterministic(&m, &ctx) {
        h.check(sig[..] == s.encode()[..], "sign", || "signature differs from the standard".into(), || case.clone());
    }
    h.check(ok, "verify", || "a genuine signature is rejected".into(), || case.clone());
    let hints = sig.len() - 61;
    for _ in 0..10 {
        let (mut p, mut mm, mut cc, mut s) = (pk.clone(), m.clone(), ctx.clone(), sig.clone());
        let flip = |r: &mut Rng, v: &mut Vec<u8>, lo: usize, hi: usize| {
            let i = lo * 8 + r.us((hi - lo) * 8);
            v[i / 8] ^= 1 << (i % 8);
            format!("bit {i}")
        };
        let what = match h.rng.us(10) {
            0 => format!("key {}", flip(&mut h.rng, &mut p, 0, pk.len())),
            1 if !m.is_empty() => format!("message {}", flip(&mut h.rng, &mut mm, 0, m.len())),
            2 if !ctx.is_empty() => format!("context {}", flip(&mut h.rng, &mut cc, 0, ctx.len())),
            3 => format!("signature {}", flip(&mut h.rng, &mut s, 0, 48)),
            4 | 5 => format!("signature {}", flip(&mut h.rng, &mut s, hints, sig.len())),
            6 => { // the same hints in another order
                let n = s[hints + 55] as usize;
                if n < 2 { continue; }
                let i = h.rng.us(n - 1);
                s.swap(hints + i, hints + i + 1);
                if s == sig { continue; }
                format!("hints {i} and {} exchanged", i + 1)
            }
            7 => { // one hint twice
                let first = s[hints + 55] as usize;
                let total = s[hints + 60] as usize;
                if first == 0 || total >= 55 { continue; }
                let dup = s[hints];
                s[hints..hints + 55].copy_within(0..54, 1);
                s[hints] = dup;
                for k in 55..61 { s[hints + k] += 1; }
                "first hint repeated".into()
            }
            8 => { if h.rng.bool() { s.push(0); "a byte behind".into() } else { s.pop(); "last byte dropped".into() } }
            _ => format!("signature {}", flip(&mut h.rng, &mut s, 48, hints)),
        };
        h.tick();
        let c = format!("{case} changed {what}");
        if let Some(ok) = h.guard("verify", || c.clone(), || mldsa::verify(&p, &mm, &cc, &s)) {
            h.check(!ok, "tampered-verify", || "a changed signature, message or key is accepted".into(), || c.clone());
        }
    }
    // The boundary between context and message is signed too.
    let long = { let k = 255 + h.rng.us(4); data(&mut h.rng, k) };
    let r = vh::panics(|| mldsa::sign(&sk, &m, &long));
    let moved: Vec<(Vec<u8>, Vec<u8>)> = (0..3).map(|_| { let k = h.rng.us(long.len()); (long[..k].to_vec(), [&long[k..], &m[..]].concat()) }).chain([(Vec::new(), [&long[..], &m[..]].concat())]).collect();
    if let Ok(sig) = r {
        for (c2, m2) in moved {
            let c = format!("{case}: signed with a context of {} bytes, verified with the last {} of them moved into the message", long.len(), long.len() - c2.len());
            if let Some(ok) = h.guard("verify", || c.clone(), || mldsa::verify(&pk, &m2, &c2, &sig)) {
                h.check(!ok, "context-boundary", || "a signature for another context is accepted".into(), || c.clone());
            }
        }
    }
}

pub fn c14(h: &mut H) {
    if h.group("every hash length") {
        for n in 0..=700usize {
            let m = data(&mut h.rng, n);
            hashes(h, &m, n % 400);
        }
    }
    h.rounds("hashes", 3.0, 1500, |h| {
        let n = length(&mut h.rng, 3000);
        let m = data(&mut h.rng, n);
        let o = length(&mut h.rng, 700);
        hashes(h, &m, o)
    });
    h.rounds("permutation", 1.0, 2000, |h| {
        let mut st = [0u64; 25];
        for x in st.iter_mut() {
            *x = h.rng.edge();
        }
        let case = format!("{st:x?}");
        h.case(&case, true);
        let want = permutation(&st);
        let mut got = st;
        keccak::keccak_f1600(&mut got);
        h.check(got == want, "permutation", || format!("got {got:x?}"), || case.clone());
    });
    h.rounds("sealing", 4.0, 1500, sealing);
    if h.group("every sealed length") {
        let key = [7u8; 32];
        let nonce = [9u8; 12];
        for n in 0..=1100usize {
            let m = vec![0xff; n];
            h.case(&format!("sealed length {n}"), n > 0);
            let s = aead::chacha20poly1305_seal(&key, &nonce, &m[..n % 70], &m);
            let w = chacha20poly1305::ChaCha20Poly1305::new((&key).into()).encrypt((&nonce).into(), Payload { msg: &m, aad: &m[..n % 70] }).unwrap();
            h.check(s == w, "seal", || "differs from the standard".into(), || format!("{n} bytes 0xff, aad {}", n % 70));
        }
    }
    h.rounds("stream and tag", 4.0, 1500, stream_and_tag);
    h.rounds("tag edges", 1.0, 3000, tag_edges);
    h.rounds("transforms", 5.0, 500, transforms);
    h.rounds("coding and sampling", 4.0, 1500, coding);
    if h.group("every coefficient") {
        all_coefficients(h);
    }
    h.rounds("key encapsulation", 6.0, 400, kem);
    h.rounds("signatures", 8.0, 200, signatures);
}
