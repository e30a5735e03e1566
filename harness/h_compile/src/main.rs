mod engines;
mod fec;
mod lines;
use vh::H;
fn main() {
    let p = std::env::args().nth(1).expect("property id");
    if p == "run" { engines::show(&std::fs::read_to_string(std::env::args().nth(2).unwrap()).unwrap()); return }
    let mut h = H::start(&p, 30.0);
    match p.as_str() {
        "C19" => engines::c19(&mut h),
        "C18" => fec::c18(&mut h),
        "C21" => lines::c21(&mut h),
        _ => panic!("unknown property"),
    }
    h.finish();
}
