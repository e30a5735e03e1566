mod num;
mod time;
mod words;
use vh::H;
fn main() {
    let p = std::env::args().nth(1).expect("property id");
    let mut h = H::start(&p, 20.0);
    match p.as_str() {
        "C01" => num::c01(&mut h),
        "C02" => num::c02(&mut h),
        "C03" => num::c03(&mut h),
        "C04" => time::c04(&mut h),
        "C05" => time::c05(&mut h),
        "C13" => words::c13(&mut h),
        "C22" => time::c22(&mut h),
        _ => panic!("unknown property"),
    }
    h.finish();
}
