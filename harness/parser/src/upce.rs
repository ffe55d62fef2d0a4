//! C25: UPC-E symbols carry exactly the number they were given.
use crate::nd::Nd;
use thermal_parser::utils::barcodes::upce::UPCE;

/// The left-odd patterns of the digits (as numbers of 7 bits); an even digit is the mirror
/// image of the complement.
const ODD: [u8; 10] = [0b0001101, 0b0011001, 0b0010011, 0b0111101, 0b0100011, 0b0110001, 0b0101111, 0b0111011, 0b0110111, 0b0001011];
/// Even (1) and odd (0) digits of a symbol of number system 0, by check digit; number system 1
/// exchanges them.
const EVEN: [u8; 10] = [0b111000, 0b110100, 0b110010, 0b110001, 0b101100, 0b100110, 0b100011, 0b101010, 0b101001, 0b100101];

fn even(d: u8) -> u8 {
    let c = !ODD[d as usize] & 0x7f;
    c.reverse_bits() >> 1
}
/// The number of an eight digit UPC-E code (number system, six digits, check digit).
fn expanded(e: &[u8; 8]) -> [u8; 12] {
    let d = &e[1..7];
    let [m, p]: [[u8; 5]; 2] = match d[5] {
        0 | 1 | 2 => [[d[0], d[1], d[5], 0, 0], [0, 0, d[2], d[3], d[4]]],
        3 => [[d[0], d[1], d[2], 0, 0], [0, 0, 0, d[3], d[4]]],
        4 => [[d[0], d[1], d[2], d[3], 0], [0, 0, 0, 0, d[4]]],
        _ => [[d[0], d[1], d[2], d[3], d[4]], [0, 0, 0, 0, d[5]]],
    };
    [e[0], m[0], m[1], m[2], m[3], m[4], p[0], p[1], p[2], p[3], p[4], e[7]]
}
fn check_digit(a: &[u8; 12]) -> u8 {
    let odd = (a[0] + a[2] + a[4] + a[6] + a[8] + a[10]) as u32;
    let evens = (a[1] + a[3] + a[5] + a[7] + a[9]) as u32;
    ((10 - (3 * odd + evens) % 10) % 10) as u8
}
/// Is there a UPC-E code for this number?
fn compressible(a: &[u8; 12]) -> bool {
    if a[0] > 1 {
        return false;
    }
    let (m, p) = (&a[1..6], &a[6..11]);
    let product = p[0] as u32 * 10000 + p[1] as u32 * 1000 + p[2] as u32 * 100 + p[3] as u32 * 10 + p[4] as u32;
    if m[3] == 0 && m[4] == 0 && m[2] <= 2 {
        product <= 999
    } else if m[3] == 0 && m[4] == 0 {
        product <= 99
    } else if m[4] == 0 {
        product <= 9
    } else {
        product >= 5 && product <= 9
    }
}
/// The number the modules of a symbol say, read by the patterns.
fn read(modules: &[u8]) -> [u8; 12] {
    assert!(modules.len() == 51, "51 modules");
    assert!(modules[0] == 1 && modules[1] == 0 && modules[2] == 1, "left guard");
    let mut i = 45;
    while i < 51 {
        assert!(modules[i] == (i % 2 == 0) as u8, "right guard");
        i += 1;
    }
    let mut code = [0u8; 8];
    let mut parity = 0u8;
    let mut k = 0;
    while k < 6 {
        let mut bits = 0u8;
        let mut i = 0;
        while i < 7 {
            let m = modules[3 + 7 * k + i];
            assert!(m <= 1);
            bits = bits * 2 + m;
            i += 1;
        }
        let mut d = 0;
        while d < 10 && ODD[d as usize] != bits && even(d) != bits {
            d += 1;
        }
        assert!(d < 10, "a digit");
        code[k + 1] = d;
        parity = parity * 2 + (even(d) == bits) as u8;
        k += 1;
    }
    let mut c = 0;
    while c < 10 && EVEN[c as usize] != parity && (!EVEN[c as usize] & 0x3f) != parity {
        c += 1;
    }
    assert!(c < 10, "the parity of a check digit");
    code[0] = (EVEN[c as usize] != parity) as u8;
    code[7] = c;
    expanded(&code)
}
/// What has to come of the given digits: the number of the symbol, or none.
fn wanted(d: &[u8]) -> Option<[u8; 12]> {
    let n = d.len();
    let mut a = [0u8; 12];
    if n == 11 || n == 12 {
        a[..n].copy_from_slice(d);
        if n == 11 {
            a[11] = check_digit(&a);
        }
    } else if n == 6 || n == 7 || n == 8 {
        let mut e = [0u8; 8];
        if n == 6 {
            e[1..7].copy_from_slice(d);
        } else {
            e[..n].copy_from_slice(d);
        }
        a = expanded(&e);
        if n < 8 {
            a[11] = check_digit(&a);
        }
    } else {
        return None;
    }
    if compressible(&a) { Some(a) } else { None }
}
fn digits(nd: &mut Nd, n: usize) -> ([u8; 12], String) {
    let mut d = [0u8; 12];
    let mut s = Vec::with_capacity(12);
    let mut i = 0;
    while i < n {
        d[i] = nd.range(0, 9) as u8;
        s.push(48 + d[i]);
        i += 1;
    }
    (d, unsafe { String::from_utf8_unchecked(s) })
}
fn is_code(e: &[u8]) -> bool {
    e.len() == 8 && e[0] <= 1 && e[1] <= 9 && e[2] <= 9 && e[3] <= 9 && e[4] <= 9 && e[5] <= 9 && e[6] <= 9 && e[7] <= 9
}
/// Contract of UPCE::new: the digits of the symbol are those of a code that expands to the
/// wanted number.  (Natively the symbol is drawn and read back.)
fn symbol(nd: &mut Nd, n: usize) {
    let (d, s) = digits(nd, n);
    let want = wanted(&d[..n]);
    let r = std::mem::ManuallyDrop::new(UPCE::new(s));
    match &*r {
        Ok(u) => {
            assert!(want.is_some(), "a number that can not be shortened is rejected: {:?}", &d[..n]);
            #[cfg(kani)]
            {
                let e = u.verif_digits();
                assert!(is_code(e), "a symbol has 8 digits and number system 0 or 1");
                let e = [e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7]];
                assert!(Some(expanded(&e)) == want, "the symbol says that number");
            }
            #[cfg(not(kani))]
            assert!(Some(read(&u.encode())) == want, "the symbol of {:?} says that number", &d[..n]);
        }
        Err(_) => assert!(want.is_none(), "{:?} has a symbol", &d[..n]),
    }
}
/// Contract of UPCE::encode: the modules of a code, read by the published patterns, say its number.
#[cfg(not(kani))]
fn modules(e: &[u8; 8]) {
    if let Ok(u) = UPCE::new(e.iter().map(|d| (48 + d) as char).collect()) {
        let a = read(&u.encode());
        assert!(a == expanded(e), "the modules of {:?} say {:?}", e, a);
    }
}

crate::contracts! {
    exec fn c25_modules(nd) {
        // every digit in every place with every check digit and number system, around some code
        let mut base = [0u8; 8];
        for d in base.iter_mut() {
            *d = nd.range(0, 9) as u8;
        }
        for place in 1..7 {
            for digit in 0..10 {
                for system in 0..2 {
                    for check in 0..10 {
                        let mut e = base;
                        e[place] = digit;
                        e[0] = system;
                        e[7] = check;
                        modules(&e);
                    }
                }
            }
        }
    }
    full 14 fn c25_six_digits(nd) { symbol(nd, 6) }
    full 14 fn c25_seven_digits(nd) { symbol(nd, 7) }
    full 14 fn c25_eight_digits(nd) { symbol(nd, 8) }
    full 14 fn c25_eleven_digits(nd) { symbol(nd, 11) }
    full 14 fn c25_twelve_digits(nd) { symbol(nd, 12) }
    exec fn c25_sparse(nd) {
        // numbers full of zeroes: those that can be shortened
        let n = nd.pick(&[6usize, 7, 8, 11, 12]);
        let mut d = [0u8; 12];
        d[0] = nd.range(0, 2) as u8;
        for i in 1..n {
            d[i] = if nd.bool() { 0 } else { nd.range(0, 9) as u8 };
        }
        let s: String = d[..n].iter().map(|d| (48 + d) as char).collect();
        let want = wanted(&d[..n]);
        match UPCE::new(s.clone()) {
            Ok(u) => assert!(Some(read(&u.encode())) == want, "the symbol of {} says that number", s),
            Err(e) => assert!(want.is_none(), "{} has a symbol, not {}", s, e),
        }
    }
    exec fn c25_rejected(nd) {
        // anything that is not a number of those lengths
        let n = nd.range(0, 14) as usize;
        let mut s = String::new();
        let spoil = nd.range(0, 14) as usize;
        for i in 0..n {
            if i == spoil {
                s.push_str(nd.pick(&["a", " ", "/", ":", "-", "\u{e9}", "\u{661}", "\0", "+", "."]));
            } else {
                s.push((48 + nd.range(0, 9) as u8) as char);
            }
        }
        let r = UPCE::new(s.clone());
        if spoil < n || !matches!(n, 6 | 7 | 8 | 11 | 12) {
            assert!(r.is_err(), "{:?} is rejected", s);
        }
    }
}
