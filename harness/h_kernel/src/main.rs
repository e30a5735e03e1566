mod arith;
mod cc;
mod sound;
use vh::H;
fn main() {
    let p = std::env::args().nth(1).expect("property id");
    let mut h = H::start(&p, 30.0);
    match p.as_str() {
        "C09" => arith::c09(&mut h),
        "C10" => sound::c10(&mut h),
        "C23" => cc::c23(&mut h),
        _ => panic!("unknown property"),
    }
    h.finish();
}
