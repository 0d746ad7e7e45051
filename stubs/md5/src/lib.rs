//! Offline stand-in for `md5` (only used for anonymous metrics ids): FNV based, NOT md5.
use std::fmt;
pub struct Digest(pub [u8; 16]);
impl fmt::LowerHex for Digest { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { for b in self.0 { write!(f, "{:02x}", b)?; } Ok(()) } }
impl fmt::Debug for Digest { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::LowerHex::fmt(self, f) } }
pub fn compute<T: AsRef<[u8]>>(data: T) -> Digest {
  let mut h: u128 = 0x6c62272e07bb014262b821756295c58d;
  for b in data.as_ref() { h ^= *b as u128; h = h.wrapping_mul(0x0000000001000000000000000000013B); }
  Digest(h.to_be_bytes())
}
