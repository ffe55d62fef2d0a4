//! The one defect that is recorded and not repaired (known_findings.txt): the qr_code crate
//! panics on some Micro QR data.  Inputs that run into it are identified by asking that crate.
use qr_code::{EcLevel, QrCode, Version};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Does the qr_code crate panic on this data in some Micro version at this level?
pub fn qr_crate_panics(data: &[u8], ec: EcLevel) -> bool {
    (1..=4).any(|v| catch_unwind(AssertUnwindSafe(|| QrCode::with_version(data, Version::Micro(v), ec).is_ok())).is_err())
}
/// Does a stream store such data?  (Any bytes after GS ( k that store QR data count.)
pub fn stream_hits(bytes: &[u8]) -> bool {
    let mut i = 0;
    while i + 8 <= bytes.len() {
        if bytes[i..i + 3] == [0x1d, b'(', b'k'] && bytes[i + 5..i + 7] == [49, 80] {
            let n = (bytes[i + 3] as usize + 256 * bytes[i + 4] as usize).saturating_sub(3);
            let d = &bytes[i + 8..(i + 8 + n).min(bytes.len())];
            if [EcLevel::L, EcLevel::M, EcLevel::Q, EcLevel::H].into_iter().any(|ec| qr_crate_panics(d, ec)) {
                return true;
            }
        }
        i += 1;
    }
    false
}
