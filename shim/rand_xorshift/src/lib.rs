//! Stand-in for `rand_xorshift`.
use rand_core::{impls, Error, RngCore, SeedableRng};
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct XorShiftRng { x: u32, y: u32, z: u32, w: u32 }
impl RngCore for XorShiftRng {
    fn next_u32(&mut self) -> u32 {
        let t = self.x ^ (self.x << 11);
        self.x = self.y; self.y = self.z; self.z = self.w;
        self.w = self.w ^ (self.w >> 19) ^ (t ^ (t >> 8));
        self.w
    }
    fn next_u64(&mut self) -> u64 { impls::next_u64_via_u32(self) }
    fn fill_bytes(&mut self, dest: &mut [u8]) { impls::fill_bytes_via_next(self, dest) }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> { self.fill_bytes(dest); Ok(()) }
}
impl SeedableRng for XorShiftRng {
    type Seed = [u8; 16];
    fn from_seed(s: [u8; 16]) -> Self {
        let g = |i: usize| u32::from_le_bytes([s[i], s[i + 1], s[i + 2], s[i + 3]]);
        let (x, y, z, w) = (g(0), g(4), g(8), g(12));
        if x | y | z | w == 0 { return Self { x: 0xbad5eed, y: 0xbad5eed, z: 0xbad5eed, w: 0xbad5eed } }
        Self { x, y, z, w }
    }
}
