//! C21: the line index against a character-by-character reference.
use logicaffeine_lsp::{document::apply_content_change, line_index::LineIndex};
use tower_lsp::lsp_types::{Position, Range};
use vh::{Rng, H};

fn text(r: &mut Rng) -> String {
    let n = match r.below(6) { 0 => 0, 1 => 1, 2 => 2, _ => r.us(30) };
    let set: &[char] = match r.below(4) { 0 => &['a', 'b', '\n'], 1 => &['\n', '\r', 'x'], _ => &['a', ' ', '\n', '\r', '\t', 'é', '中', '😀', '𝔘', '\u{0301}', '\u{FEFF}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{2028}', '\u{0}'] };
    (0..n).map(|_| if r.chance(1, 8) { ['\r', '\n'][r.us(2)] } else { *r.pick(set) }).collect()
}
/// (line, utf16 column) of every character boundary
fn refpos(s: &str) -> Vec<(usize, (u32, u32))> {
    let (mut l, mut c) = (0, 0); let mut v = vec![];
    for (i, ch) in s.char_indices() { v.push((i, (l, c))); if ch == '\n' { l += 1; c = 0 } else { c += if (ch as u32) > 0xffff { 2 } else { 1 } } }
    v.push((s.len(), (l, c)));
    v
}
fn doc(h: &mut H) {
    let s = text(&mut h.rng);
    let ix = LineIndex::new(&s);
    let rp = refpos(&s);
    let case = format!("document {s:?}");
    h.case(&case, s.len() > 1);
    let mut last = None;
    for (o, (l, c)) in &rp {
        let Some(p) = h.guard("position", || format!("{case} offset {o}"), || ix.position(*o)) else { return };
        h.check((p.line, p.character) == (*l, *c), "position", || format!("offset {o} is {l}:{c}, answered {}:{}", p.line, p.character), || case.clone());
        h.check(last.map_or(true, |q| q < p), "order", || format!("position of offset {o} not after the previous one"), || case.clone());
        last = Some(p);
        let Some(b) = h.guard("offset", || format!("{case} position {p:?}"), || ix.offset(p)) else { return };
        h.check(b == *o, "roundtrip", || format!("offset {o} -> {p:?} -> {b}"), || case.clone());
    }
    // past the end of the document
    for extra in [1usize, 5, usize::MAX - s.len()] {
        let Some(p) = h.guard("position", || case.clone(), || ix.position(s.len() + extra)) else { return };
        let e = rp.last().unwrap().1;
        h.check((p.line, p.character) == e, "position-clamp", || format!("{p:?} past the end"), || case.clone());
    }
    let nlines = rp.last().unwrap().1 .0 + 1;
    // any position an editor can send
    for _ in 0..12 {
        let l = match h.rng.below(5) { 0 => h.rng.edge() as u32, 1 => nlines, _ => h.rng.below(nlines as u64 + 1) as u32 };
        let c = match h.rng.below(4) { 0 => h.rng.edge() as u32, _ => h.rng.below(9) as u32 };
        let Some(o) = h.guard("offset", || format!("{case} position {l}:{c}"), || ix.offset(Position { line: l, character: c })) else { return };
        h.tick();
        let c2 = || format!("{case} position {l}:{c}");
        if !h.check(o <= s.len() && s.is_char_boundary(o), "offset-range", || format!("offset {o}"), c2) { return; }
        if l >= nlines { h.check(o == s.len(), "line-clamp", || format!("line beyond the document gave {o}"), c2); continue; }
        let on: Vec<&(usize, (u32, u32))> = rp.iter().filter(|x| x.1 .0 == l).collect();
        if let Some(x) = on.iter().find(|x| x.1 .1 == c) { h.check(o == x.0, "offset", || format!("offset {o}, should be {}", x.0), c2); continue; }
        let end = on.last().unwrap();
        if c > end.1 .1 {
            // beyond the line: its end, i.e. before the line terminator
            let mut e = end.0; let mut acc = vec![e];
            if s[..e].ends_with('\r') && s[e..].starts_with('\n') { e -= 1; acc = vec![e]; }
            h.check(acc.contains(&o), "line-end-clamp", || format!("offset {o}, should be {}", acc[0]), c2);
        } else {
            // inside a surrogate pair: one of the two ends of that character
            let i = on.iter().position(|x| x.1 .1 > c).unwrap();
            h.check(o == on[i].0 || o == on[i - 1].0, "surrogate", || format!("offset {o}"), c2);
        }
    }
    // line starts and lengths
    for l in 0..nlines as usize + 2 {
        let e = rp.iter().find(|x| x.1 .0 as usize == l).map(|x| x.0).unwrap_or(s.len());
        let g = h.guard("line-start", || case.clone(), || ix.line_start_offset(l));
        h.check(g == Some(e), "line-start", || format!("line {l} starts at {e}, answered {g:?}"), || case.clone());
    }
    let (i, j) = (h.rng.us(rp.len()), h.rng.us(rp.len()));
    let (a, b) = (rp[i].0, rp[j].0);
    let e = if a < b { s[a..b].chars().map(|c| if (c as u32) > 0xffff { 2 } else { 1 }).sum() } else { 0u32 };
    let g = h.guard("utf16-length", || format!("{case} {a}..{b}"), || ix.utf16_length(a, b));
    h.check(g == Some(e), "utf16-length", || format!("{a}..{b}: {g:?}, should be {e}"), || case.clone());
}
/// edits: a range replaced in the document
fn edit(h: &mut H) {
    let s = text(&mut h.rng);
    let rp = refpos(&s);
    let (i, j) = (h.rng.us(rp.len()), h.rng.us(rp.len()));
    let (i, j) = if i <= j || h.rng.chance(1, 6) { (i, j) } else { (j, i) };
    let t = text(&mut h.rng);
    let wild = h.rng.chance(1, 4);
    let pos = |p: (u32, u32)| Position { line: p.0, character: p.1 };
    let mut range = Range { start: pos(rp[i].1), end: pos(rp[j].1) };
    if wild { range = Range { start: Position { line: h.rng.below(4) as u32, character: h.rng.below(12) as u32 }, end: Position { line: h.rng.edge() as u32, character: h.rng.edge() as u32 } }; }
    let case = format!("document {s:?} edit {range:?} with {t:?}");
    h.case(&case, !s.is_empty());
    let mut d = s.clone();
    if h.guard("edit", || case.clone(), || apply_content_change(&mut d, Some(range), &t)).is_none() { return; }
    if !wild && i <= j {
        let e = format!("{}{}{}", &s[..rp[i].0], t, &s[rp[j].0..]);
        h.check(d == e, "edit", || format!("became {d:?}, should be {e:?}"), || case.clone());
    }
    let mut d = s.clone();
    apply_content_change(&mut d, None, &t);
    h.check(d == t, "replace", || format!("{d:?}"), || case.clone());
}
/// documents whose line length, line count or byte count passes a machine-word boundary, probed around it
fn long(h: &mut H) {
    let unit = *h.rng.pick(&["a", "é", "中", "😀"]);
    let n = *h.rng.pick(&[250usize, 32_760, 65_530]) + h.rng.us(14);
    let mut s = text(&mut h.rng);
    let kind = h.rng.below(3);
    match kind { 0 => s.push_str(&unit.repeat(n)), 1 => { for _ in 0..n { s.push('\n'); } s.push_str(unit); } _ => { s.push_str(&"x".repeat(h.rng.us(5))); s.push_str(&format!("{unit}\n").repeat(n)); } }
    s.push_str(&text(&mut h.rng));
    let ix = LineIndex::new(&s);
    let rp = refpos(&s);
    let case = format!("document of {} bytes, kind {kind}, {n} times {unit:?}, first {:?} last {:?}", s.len(), s.chars().take(24).collect::<String>(), s.chars().rev().take(24).collect::<String>());
    h.case(&case, true);
    for k in 0..48 {
        let i = match k % 4 { 0 => h.rng.us(rp.len()), 1 => rp.len() - 1 - h.rng.us(rp.len().min(40)), 2 => h.rng.us(rp.len().min(40)), _ => (n + h.rng.us(40)).min(rp.len() - 1) };
        let (o, (l, c)) = rp[i];
        let Some(p) = h.guard("position", || format!("{case} offset {o}"), || ix.position(o)) else { return };
        h.check((p.line, p.character) == (l, c), "position", || format!("offset {o} is {l}:{c}, answered {}:{}", p.line, p.character), || case.clone());
        let Some(b) = h.guard("offset", || format!("{case} position {l}:{c}"), || ix.offset(Position { line: l, character: c })) else { return };
        h.check(b == o, "roundtrip", || format!("{l}:{c} is offset {o}, answered {b}"), || case.clone());
        let j = h.rng.us(rp.len()); let (x, y) = (rp[i.min(j)].0, rp[i.max(j)].0);
        if k < 6 {
            let e: u32 = s[x..y].chars().map(|c| if (c as u32) > 0xffff { 2 } else { 1 }).sum();
            let g = h.guard("utf16-length", || format!("{case} {x}..{y}"), || ix.utf16_length(x, y));
            h.check(g == Some(e), "utf16-length", || format!("{x}..{y}: {g:?}, should be {e}"), || case.clone());
        }
    }
}
pub fn c21(h: &mut H) {
    h.rounds("documents", 6.0, 600_000, doc);
    h.rounds("long", 2.0, 400, long);
    h.rounds("edits", 4.0, 400_000, edit);
}
