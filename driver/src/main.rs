#[macro_use]
pub mod core;
mod sym;
mod hashes;
mod ec;
mod der;
mod cv;
mod rsa;
mod pi;
mod kem;
mod zero;

use crate::core::*;

fn cases(p: &str) -> Vec<Case> {
    match p {
        "C01" => sym::c01(), "C02" => sym::c02(), "C03" => sym::c03(),
        "C04" => hashes::c04(), "C05" => hashes::c05(), "C06" => hashes::c06(),
        "C10" => ec::c10(), "C11" => ec::c11(), "C12" => ec::c12(), "C13" => ec::c13(),
        "C14" => cv::c14(), "C15" => cv::c15(),
        "C16" => rsa::c16(), "C17" => rsa::c17(), "C18" => pi::c18(),
        "C07" => der::c07(), "C08" => der::c08(), "C09" => der::c09(),
        "C19" => kem::c19(), "C20" => kem::c20(),
        "C21" => zero::c21(), "C22" => c22(),
        _ => vec![],
    }
}

/// every family of operations, to be run under each CPU feature set
fn c22() -> Vec<Case> {
    let mut v = vec![];
    for (p, w, m) in [("C01", 6, 400), ("C04", 6, 400), ("C03", 2, 60), ("C02", 2, 60), ("C05", 1, 30), ("C06", 3, 60), ("C10", 1, 10), ("C11", 1, 10), ("C12", 1, 10), ("C13", 2, 20), ("C14", 1, 10), ("C15", 2, 20), ("C16", 1, 10), ("C17", 1, 4), ("C19", 1, 10), ("C20", 1, 10)] {
        for c in cases(p) {
            if c.weight == 0 || c.name.contains("long") || c.name.contains("generate") { continue }
            v.push(Case { name: Box::leak(format!("{p}.{}", c.name).into_boxed_str()), min: c.min.min(m), max: c.max, weight: c.weight * w, f: c.f });
        }
    }
    #[cfg(feature = "h_cpu")]
    v.push(once("tokens", 1, tokens));
    v
}
#[cfg(feature = "h_cpu")]
extern "Rust" { fn gvd_cpu_tokens() -> (bool, bool, bool); fn gvd_cpu_verify(); }
/// a feature token exists exactly when every feature its kernels need is present
#[cfg(feature = "h_cpu")]
fn tokens(s: &mut Src) -> R {
    macro_rules! on { ($f:tt) => { is_x86_feature_detected!($f) && std::env::var(concat!("GRAVIOLA_CPU_DISABLE_", $f)).is_err() } }
    let g = unsafe { gvd_cpu_tokens() };
    let want = (on!("avx512f") && on!("avx512bw") && on!("avx512vl") && on!("vaes") && on!("vpclmulqdq"), on!("sha"), on!("bmi2"));
    s.note = format!("{:?}", std::env::vars().filter(|x| x.0.starts_with("GRAVIOLA_CPU")).collect::<Vec<_>>());
    ck!(!g.0 || want.0, "AVX-512 AES-GCM kernels selected without their features ({})", s.note); ck!(!g.1 || want.1, "SHA kernels selected without their features ({})", s.note); ck!(!g.2 || want.2, "BMI2 kernels selected without their feature ({})", s.note);
    let base = on!("aes") && on!("pclmulqdq") && on!("bmi1") && on!("avx2") && on!("adx");
    let ok = std::panic::catch_unwind(|| unsafe { gvd_cpu_verify() }).is_ok();
    ck!(ok == base || std::env::var("UNDER_VALGRIND").is_ok(), "mandatory CPU features: verified={ok}, present={base} ({})", s.note);
    Ok(())
}
fn main() {
    let mut o = Opts { prop: String::new(), seed: 1, secs: 10.0, threads: 8, out: "/dev/stdout".into(), only: None, mult: 1, cap: u64::MAX, filter: None };
    let a: Vec<String> = std::env::args().collect();
    o.prop = a[1].clone();
    let mut i = 2;
    while i < a.len() {
        let v = a[i + 1].clone();
        match a[i].as_str() {
            "--seed" => o.seed = v.parse().unwrap(),
            "--secs" => o.secs = v.parse().unwrap(),
            "--threads" => o.threads = v.parse().unwrap(),
            "--cap" => o.cap = v.parse().unwrap(),
            "--mult" => o.mult = v.parse().unwrap(),
            "--out" => o.out = v,
            "--filter" => o.filter = Some(v),
            "--only" => { let (c, n) = v.rsplit_once(':').unwrap(); o.only = Some((c.into(), n.parse().unwrap())) }
            x => panic!("bad arg {x}"),
        }
        i += 2;
    }
    std::process::exit(run(&cases(&o.prop), &o));
}
