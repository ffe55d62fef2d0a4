//! Source of the universally quantified values of a contract.
//!
//! Under `cfg(kani)` every draw is a fresh symbolic value, so a contract body is a proof
//! harness over all values.  Natively the same contract body is executed on concrete values:
//! drawn from a seeded generator (counterexample search) or from a recorded tape (replay).

#[cfg(kani)]
pub struct Nd;

#[cfg(kani)]
impl Nd {
    pub fn u8(&mut self) -> u8 {
        kani::any()
    }
    pub fn u16(&mut self) -> u16 {
        kani::any()
    }
    pub fn u32(&mut self) -> u32 {
        kani::any()
    }
    pub fn i16(&mut self) -> i16 {
        kani::any()
    }
    pub fn bool(&mut self) -> bool {
        kani::any()
    }
    pub fn assume(&mut self, c: bool) {
        kani::assume(c)
    }
    /// a value in lo..=hi
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        let v: u32 = kani::any();
        kani::assume(lo <= v && v <= hi);
        v
    }
    /// a bound: the Kani bound, or the (larger) bound of the native search
    pub fn bound(&self, kani: u32, _native: u32) -> u32 {
        kani
    }
}

#[cfg(not(kani))]
pub struct Discard;

#[cfg(not(kani))]
pub struct Nd {
    state: u64,
    tape_in: Option<Vec<u64>>,
    pos: usize,
    pub tape: Vec<u64>,
    /// true while replaying a tape Kani produced: bounds are then the Kani ones
    pub kani_bounds: bool,
}

#[cfg(not(kani))]
impl Nd {
    pub fn seeded(seed: u64) -> Nd {
        Nd { state: seed ^ 0x9E3779B97F4A7C15, tape_in: None, pos: 0, tape: vec![], kani_bounds: false }
    }
    pub fn from_tape(t: Vec<u64>, kani_bounds: bool) -> Nd {
        Nd { state: 1, tape_in: Some(t), pos: 0, tape: vec![], kani_bounds }
    }
    fn next(&mut self) -> u64 {
        // splitmix64
        self.state = self.state.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn take(&mut self) -> Option<u64> {
        if let Some(t) = &self.tape_in {
            let v = t.get(self.pos).copied().unwrap_or(0);
            self.pos += 1;
            Some(v)
        } else {
            None
        }
    }
    fn rec(&mut self, v: u64) -> u64 {
        self.tape.push(v);
        v
    }
    pub fn u8(&mut self) -> u8 {
        let v = match self.take() {
            Some(v) => v,
            None => {
                let k = self.next();
                let r = self.next();
                match k % 8 {
                    0 => r % 4,
                    1 => 48 + r % 5,
                    2 => [0u64, 1, 2, 7, 8, 9, 10, 0x1b, 0x1d, 0x1c, 0x10, 0x18, 126, 127, 128, 254, 255, 65, 66, 72, 73, 79, 80][(r % 23) as usize],
                    3 => r % 16,
                    _ => r & 255,
                }
            }
        };
        self.rec(v & 255) as u8
    }
    pub fn u16(&mut self) -> u16 {
        let v = match self.take() {
            Some(v) => v,
            None => {
                let k = self.next();
                let r = self.next();
                match k % 6 {
                    0 => r % 8,
                    1 => [0u64, 1, 2, 255, 256, 257, 511, 512, 32767, 32768, 32769, 65534, 65535][(r % 13) as usize],
                    2 => r % 256,
                    3 => r % 1024,
                    _ => r & 0xffff,
                }
            }
        };
        self.rec(v & 0xffff) as u16
    }
    pub fn i16(&mut self) -> i16 {
        self.u16() as i16
    }
    pub fn u32(&mut self) -> u32 {
        let v = match self.take() {
            Some(v) => v,
            None => {
                let k = self.next();
                let r = self.next();
                match k % 8 {
                    0 => r % 8,
                    1 => [0u64, 1, 2, 255, 256, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff][(r % 11) as usize],
                    2 => r % 256,
                    3 | 4 => r % 1024,
                    5 => r & 0xffff,
                    _ => r & 0xffff_ffff,
                }
            }
        };
        self.rec(v & 0xffff_ffff) as u32
    }
    pub fn bool(&mut self) -> bool {
        let v = match self.take() {
            Some(v) => v,
            None => self.next() >> 17,
        };
        self.rec(v & 1) == 1
    }
    pub fn assume(&mut self, c: bool) {
        if !c {
            std::panic::resume_unwind(Box::new(Discard));
        }
    }
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        let v = match self.take() {
            Some(v) => v as u32,
            None => {
                let k = self.next();
                let r = self.next();
                let span = (hi as u64) - (lo as u64) + 1;
                (match k % 8 {
                    0 => lo as u64,
                    1 => hi as u64,
                    2 => lo as u64 + r % span.min(4),
                    _ => lo as u64 + r % span,
                }) as u32
            }
        };
        self.rec(v as u64);
        self.assume(lo <= v && v <= hi);
        v
    }
    pub fn bound(&self, kani: u32, native: u32) -> u32 {
        if self.kani_bounds {
            kani
        } else {
            native
        }
    }
}

impl Nd {
    /// a value below max
    pub fn below(&mut self, max: u32) -> u32 {
        let v = self.u32();
        #[cfg(kani)]
        kani::assume(v < max);
        #[cfg(not(kani))]
        let v = v % max;
        v
    }
    /// n div u
    pub fn div(&mut self, n: u16, u: u8) -> u32 {
        #[cfg(kani)]
        return crate::stubs::quotient::unsigned(n as u32, u as u32);
        #[cfg(not(kani))]
        (n as u32 / u as u32)
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        let mut i = 0;
        while i < n {
            v.push(self.u8());
            i += 1;
        }
        v
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        let i = self.range(0, xs.len() as u32 - 1) as usize;
        xs[i]
    }
}

/// How a contract takes part in a check.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    /// Kani harness with no bound on the quantified values
    Full,
    /// Kani harness whose quantified sizes are bounded (labelled bounded)
    Bounded,
    /// executed only: counterexample search for functions Verus decides
    Exec,
}

pub struct Contract {
    pub name: &'static str,
    pub mode: Mode,
    pub file: &'static str,
    pub f: fn(&mut Nd),
}

/// contracts! { full 4 fn name(nd) { .. } bounded 9 fn .. { } exec fn .. { } }
#[macro_export]
macro_rules! contracts {
    (@acc [$($reg:tt)*] ) => {
        #[cfg(not(kani))]
        pub const REG: &[$crate::nd::Contract] = &[$($reg)*];
    };
    (@acc [$($reg:tt)*] full $u:literal fn $name:ident($nd:ident) $body:block $($rest:tt)*) => {
        $crate::contracts!{@kani $u $name ($nd) $body}
        $crate::contracts!{@acc [$($reg)* $crate::nd::Contract{name:stringify!($name),mode:$crate::nd::Mode::Full,file:file!(),f:$name},] $($rest)*}
    };
    (@acc [$($reg:tt)*] bounded $u:literal fn $name:ident($nd:ident) $body:block $($rest:tt)*) => {
        $crate::contracts!{@kani $u $name ($nd) $body}
        $crate::contracts!{@acc [$($reg)* $crate::nd::Contract{name:stringify!($name),mode:$crate::nd::Mode::Bounded,file:file!(),f:$name},] $($rest)*}
    };
    (@acc [$($reg:tt)*] exec fn $name:ident($nd:ident) $body:block $($rest:tt)*) => {
        #[cfg(not(kani))]
        pub fn $name($nd: &mut $crate::nd::Nd) $body
        $crate::contracts!{@acc [$($reg)* $crate::nd::Contract{name:stringify!($name),mode:$crate::nd::Mode::Exec,file:file!(),f:$name},] $($rest)*}
    };
    (@kani $u:literal $name:ident ($nd:ident) $body:block) => {
        #[cfg(not(kani))]
        pub fn $name($nd: &mut $crate::nd::Nd) $body
        #[cfg(kani)]
        #[kani::proof]
        #[kani::unwind($u)]
        #[kani::stub(std::collections::hash_map::RandomState::new, $crate::stubs::random_state)]
        #[kani::stub(thermal_parser::decoder::get_codepage, $crate::stubs::codepage)]
        #[kani::stub(u32::saturating_div, $crate::stubs::quotient::unsigned)]
        #[kani::stub(i16::saturating_div, $crate::stubs::quotient::signed)]
        fn $name() {
            fn body($nd: &mut $crate::nd::Nd) $body
            let mut nd = $crate::nd::Nd;
            body(&mut nd);
            kani::cover!(true, "contract_end_reached");
        }
    };
    // a contract with several alternatives over one arbitrary printer state
    (@acc [$($reg:tt)*] states $u:literal fn $name:ident { $($part:ident),* $(,)? } $($rest:tt)*) => {
        #[cfg(not(kani))]
        pub fn $name(nd: &mut $crate::nd::Nd) {
            let which = nd.range(0, [$(stringify!($part)),*].len() as u32 - 1);
            let mut c = $crate::snap::any_state(nd);
            let want = $crate::snap::snap(&c);
            let mut k = 0;
            $( if which == k { return $part(nd, &mut c, want); } k += 1; )*
            let _ = k;
        }
        #[cfg(kani)]
        #[kani::proof]
        #[kani::unwind($u)]
        #[kani::stub(std::collections::hash_map::RandomState::new, $crate::stubs::random_state)]
        #[kani::stub(thermal_parser::decoder::get_codepage, $crate::stubs::codepage)]
        #[kani::stub(u32::saturating_div, $crate::stubs::quotient::unsigned)]
        #[kani::stub(i16::saturating_div, $crate::stubs::quotient::signed)]
        fn $name() {
            let nd = &mut $crate::nd::Nd;
            let which = nd.range(0, [$(stringify!($part)),*].len() as u32 - 1);
            let mut c = $crate::snap::any_state(nd);
            let want = $crate::snap::snap(&c);
            let mut k = 0;
            $( if which == k {
                $part(nd, &mut c, want);
                kani::cover!(true, "contract_end_reached");
                kani::assume(false);
                return;
            } k += 1; )*
            let _ = k;
        }
        $crate::contracts!{@acc [$($reg)* $crate::nd::Contract{name:stringify!($name),mode:$crate::nd::Mode::Full,file:file!(),f:$name},] $($rest)*}
    };
    ($($t:tt)*) => { $crate::contracts!{@acc [] $($t)*} };
}
