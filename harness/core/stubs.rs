//! Trusted stand-ins, used under Kani only, for two callees no contract here speaks about.
#![allow(dead_code)]
use std::mem::MaybeUninit;
use thermal_parser::decoder::Codepage;

/// The hash seed: SipHash keys are random; the contracts never depend on the hash order.
pub fn random_state() -> std::collections::hash_map::RandomState {
    unsafe { std::mem::transmute([1u64, 2u64]) }
}

/// get_codepage(a, b): the 256-entry string table is left unspecified, and the pair of
/// arguments is remembered through the lengths of the names so a contract can tell that the
/// decoder was rebuilt for the right pair.  The table itself has its own property (decoding).
pub fn codepage(a: u8, b: u8) -> Codepage {
    const PAD: &str = unsafe { std::str::from_utf8_unchecked(&[b'.'; 256]) };
    let mut m = MaybeUninit::<Codepage>::uninit();
    unsafe {
        let p = m.as_mut_ptr();
        std::ptr::addr_of_mut!((*p).name).write(PAD.get_unchecked(0..a as usize));
        std::ptr::addr_of_mut!((*p).language).write(PAD.get_unchecked(0..b as usize));
        std::ptr::addr_of_mut!((*p).use_utf8_table).write(false);
        m.assume_init()
    }
}

/// Unsigned and signed division by a motion unit, by its definition: the quotient is the one d
/// with d*u <= n < d*u + u.  The code and the contract ask for the same quotient, so it is drawn
/// once and remembered (functional consistency), which spares the solver two divider circuits.
#[cfg(kani)]
pub mod quotient {
    // the last four quotients
    static mut SEEN: [(u32, u32, u32); 4] = [(0, 0, 0); 4];
    static mut NEXT: usize = 0;
    pub fn unsigned(n: u32, u: u32) -> u32 {
        assert!(u != 0, "attempt to divide by zero");
        if u == 1 {
            return n;
        }
        unsafe {
            let s = &*std::ptr::addr_of!(SEEN);
            if s[0].0 == n && s[0].1 == u {
                return s[0].2;
            }
            if s[1].0 == n && s[1].1 == u {
                return s[1].2;
            }
            if s[2].0 == n && s[2].1 == u {
                return s[2].2;
            }
            if s[3].0 == n && s[3].1 == u {
                return s[3].2;
            }
        }
        let d: u32 = kani::any();
        kani::assume(n > 0xffff || u > 0xff || (d <= n && d * u <= n && n - d * u < u));
        unsafe {
            SEEN[NEXT % 4] = (n, u, d);
            NEXT = NEXT + 1;
        }
        d
    }
    pub fn signed(n: i16, u: i16) -> i16 {
        if u <= 0 {
            return kani::any();
        }
        let d = unsigned(n.unsigned_abs() as u32, u as u32) as i32;
        (if n < 0 { -d } else { d }) as i16
    }
}
