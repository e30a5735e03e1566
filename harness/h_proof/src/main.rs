mod cert;
mod sat;
mod pb;
mod unify;
use vh::H;
fn main() {
    let p = std::env::args().nth(1).expect("property id");
    let mut h = H::start(&p, 30.0);
    match p.as_str() {
        "C06" => cert::c06(&mut h),
        "C07" => sat::c07(&mut h),
        "C08" => pb::c08(&mut h),
        "C24" => unify::c24(&mut h),
        _ => panic!("unknown property"),
    }
    h.finish();
}
