//! A random number generator that plays a given tape, then a fixed filler byte.
use rand_core::{CryptoRng, Error, RngCore};

#[derive(Clone)]
pub struct Tape {
    pub buf: Vec<u8>,
    pub pos: usize,
    pub filler: u8,
    /// give up (panic) after this many bytes
    pub limit: usize,
}
impl Tape {
    pub fn new(buf: &[u8], filler: u8) -> Tape {
        Tape { buf: buf.to_vec(), pos: 0, filler, limit: 1 << 20 }
    }
    fn byte(&mut self) -> u8 {
        let b = self.buf.get(self.pos).copied().unwrap_or(self.filler);
        self.pos += 1;
        assert!(self.pos <= self.limit, "tape limit");
        b
    }
    /// the bytes handed out so far
    pub fn used(&self) -> Vec<u8> {
        (0..self.pos).map(|i| self.buf.get(i).copied().unwrap_or(self.filler)).collect()
    }
}
impl RngCore for Tape {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for d in dest {
            *d = self.byte();
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for Tape {}
