use std::hash::{BuildHasherDefault, Hasher};
#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
const K: u64 = 0x517cc1b727220a95;
impl Fx {
    #[inline]
    fn add(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(K);
    }
}
impl Hasher for Fx {
    fn write(&mut self, b: &[u8]) {
        let mut c = b.chunks_exact(8);
        for x in &mut c {
            self.add(u64::from_le_bytes(x.try_into().unwrap()));
        }
        let mut t = 0u64;
        for (i, x) in c.remainder().iter().enumerate() {
            t |= (*x as u64) << (8 * i);
        }
        self.add(t ^ ((b.len() as u64) << 56));
    }
    fn write_u8(&mut self, v: u8) {
        self.add(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.add(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.add(v)
    }
    fn write_usize(&mut self, v: usize) {
        self.add(v as u64)
    }
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
}
pub type Map<K, V> = std::collections::HashMap<K, V, BuildHasherDefault<Fx>>;
pub type Set<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;
