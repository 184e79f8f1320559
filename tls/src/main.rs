#[macro_use]
#[path = "../../driver/src/core.rs"]
pub mod core;
#[allow(dead_code, unused_macros, unexpected_cfgs)]
#[path = "../../driver/src/ec.rs"]
mod ec;
#[allow(dead_code, unused_macros, unexpected_cfgs)]
#[path = "../../driver/src/der.rs"]
mod der;
mod rec;
mod kx;
mod rng;

use crate::core::*;

fn cases(p: &str) -> Vec<Case> {
    match p { "C23" => rec::c23(), "C24" => rec::c24(), "C25" => kx::c25(), "C26" => kx::c26(), "C28" => rng::c28(), _ => vec![] }
}
fn main() {
    let mut o = Opts { prop: String::new(), seed: 1, secs: 10.0, threads: 8, out: "/dev/stdout".into(), only: None, mult: 1, cap: u64::MAX, filter: None };
    let a: Vec<String> = std::env::args().collect();
    o.prop = a[1].clone();
    let mut i = 2;
    while i < a.len() {
        let v = a[i + 1].clone();
        match a[i].as_str() {
            "--seed" => o.seed = v.parse().unwrap(),
            "--secs" => o.secs = v.parse().unwrap(),
            "--threads" => o.threads = v.parse().unwrap(),
            "--cap" => o.cap = v.parse().unwrap(),
            "--mult" => o.mult = v.parse().unwrap(),
            "--out" => o.out = v,
            "--filter" => o.filter = Some(v),
            "--only" => { let (c, n) = v.rsplit_once(':').unwrap(); o.only = Some((c.into(), n.parse().unwrap())) }
            x => panic!("bad arg {x}"),
        }
        i += 2;
    }
    std::process::exit(run(&cases(&o.prop), &o));
}
