mod sched;
use vh::H;
fn main() {
    let p = std::env::args().nth(1).expect("property id");
    let mut h = H::start(&p, 30.0);
    match p.as_str() {
        "C17" => sched::c17(&mut h),
        _ => panic!("unknown property"),
    }
    h.finish();
}
