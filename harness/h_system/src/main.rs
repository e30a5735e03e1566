mod crypto;
mod journal;
mod paths;
use vh::H;
fn main() {
    let p = std::env::args().nth(1).expect("property id");
    if p == "C16" && !paths::supervised() {
        paths::supervise();
    }
    let mut h = H::start(&p, 30.0);
    match p.as_str() {
        "C14" => crypto::c14(&mut h),
        "C15" => journal::c15(&mut h),
        "C16" => paths::c16(&mut h),
        _ => panic!("unknown property"),
    }
    h.finish();
}
