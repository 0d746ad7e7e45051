use core::mem::MaybeUninit;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Error(i32);
impl core::fmt::Display for Error { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { write!(f, "getrandom error {}", self.0) } }
impl std::error::Error for Error {}
pub fn fill(dest: &mut [u8]) -> Result<(), Error> {
  let mut done = 0;
  while done < dest.len() {
    let n = unsafe { libc::getrandom(dest[done..].as_mut_ptr() as *mut _, dest.len() - done, 0) };
    if n <= 0 { return Err(Error(n as i32)); }
    done += n as usize;
  }
  Ok(())
}
pub fn fill_uninit(dest: &mut [MaybeUninit<u8>]) -> Result<&mut [u8], Error> {
  for b in dest.iter_mut() { *b = MaybeUninit::new(0); }
  let d = unsafe { &mut *(dest as *mut [MaybeUninit<u8>] as *mut [u8]) };
  fill(d)?;
  Ok(d)
}
pub fn u32() -> Result<u32, Error> { let mut b = [0; 4]; fill(&mut b)?; Ok(u32::from_ne_bytes(b)) }
pub fn u64() -> Result<u64, Error> { let mut b = [0; 8]; fill(&mut b)?; Ok(u64::from_ne_bytes(b)) }

impl Error {
  pub fn raw_os_error(&self) -> Option<i32> { Some(self.0) }
  pub fn new_custom(_: u16) -> Error { Error(1) }
}
