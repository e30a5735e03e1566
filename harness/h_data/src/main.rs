mod crdt;
mod index;
mod wire;
use vh::H;
fn main() {
    let p = std::env::args().nth(1).expect("property id");
    let mut h = H::start(&p, 30.0);
    match p.as_str() {
        "C03" => index::c03(&mut h),
        "C11" => crdt::c11(&mut h),
        "C12" => wire::c12(&mut h),
        "C20" => index::c20(&mut h),
        _ => panic!("unknown property"),
    }
    h.finish();
}
