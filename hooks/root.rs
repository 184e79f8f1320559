// Shared by every harness: a source of nondeterministic values (`kani::any` under Kani; a byte
// stream when a counterexample is replayed natively on the compiled code).
#[cfg(kani)]
pub struct Nd;
#[cfg(not(kani))]
pub struct Nd {
    pub b: Vec<u8>,
    pub i: usize,
}
/// payload of the panic raised natively when a harness precondition does not hold
pub struct AssumeFailed;

macro_rules! nd_prim { ($($t:ident),*) => { $(
    #[cfg(kani)]
    pub fn $t(&mut self) -> $t { kani::any() }
    #[cfg(not(kani))]
    pub fn $t(&mut self) -> $t { let mut b = [0u8; size_of::<$t>()]; self.take(&mut b); $t::from_le_bytes(b) }
)* } }
impl Nd {
    nd_prim!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64);
    #[cfg(not(kani))]
    fn take(&mut self, o: &mut [u8]) {
        for x in o {
            *x = self.b.get(self.i).copied().unwrap_or(0);
            self.i += 1;
        }
    }
    pub fn bool(&mut self) -> bool { self.u8() & 1 == 1 }
    #[cfg(kani)]
    pub fn bytes<const N: usize>(&mut self) -> [u8; N] { kani::any() }
    #[cfg(not(kani))]
    pub fn bytes<const N: usize>(&mut self) -> [u8; N] { let mut b = [0u8; N]; self.take(&mut b); b }
    pub fn words<const N: usize>(&mut self) -> [u64; N] { let mut b = [0u64; N]; let mut i = 0; while i < N { b[i] = self.u64(); i += 1; } b }
    #[cfg(kani)]
    pub fn assume(&mut self, c: bool) { kani::assume(c) }
    #[cfg(not(kani))]
    pub fn assume(&mut self, c: bool) { if !c { std::panic::panic_any(AssumeFailed) } }
    /// a length in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        #[cfg(kani)]
        { let x: usize = kani::any(); kani::assume(x >= lo && x <= hi); x }
        #[cfg(not(kani))]
        { let x = self.usize(); if x >= lo && x <= hi { x } else { lo + x % (hi - lo + 1) } }
    }
}

macro_rules! harness {
    ($(#[$m:meta])* $name:ident, $unwind:expr, |$nd:ident| $body:block) => {
        #[cfg(kani)]
        #[kani::proof]
        #[kani::unwind($unwind)]
        $(#[$m])*
        fn $name() {
            let mut nd = $crate::verif_root::Nd;
            let $nd = &mut nd;
            $body
            kani::cover!(true, "harness end reachable");
        }
        #[cfg(not(kani))]
        #[allow(unsafe_code)]
        #[unsafe(no_mangle)]
        pub fn $name($nd: &mut $crate::verif_root::Nd) $body
    };
}
#[allow(unused_imports)]
pub(crate) use harness;
