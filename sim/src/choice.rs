//! One choice sequence decides everything in a run.
pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut s = a ^ b.wrapping_mul(0xD6E8FEB86659FD93).rotate_left(23);
    splitmix(&mut s)
}
pub fn fnv(s: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s { h ^= *b as u64; h = h.wrapping_mul(0x100000001b3); }
    h
}

/// When set, every choice is also written to this descriptor, so that the choices of a
/// run that kills its process survive.
pub static STREAM: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);

pub struct Choices {
    state: u64,
    replay: Option<Vec<u64>>,
    pub pos: usize,
    pub rec: Vec<u64>,
    stream: i32,
}

impl Choices {
    pub fn seeded(seed: u64) -> Self { Choices { state: seed, replay: None, pos: 0, rec: Vec::with_capacity(4096), stream: STREAM.load(std::sync::atomic::Ordering::Relaxed) } }
    pub fn replay(v: Vec<u64>) -> Self { Choices { state: 0, replay: Some(v), pos: 0, rec: Vec::with_capacity(4096), stream: STREAM.load(std::sync::atomic::Ordering::Relaxed) } }
    /// A value in 0..n. 0 is always the plainest option (no fault, no switch, smallest).
    pub fn choose(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        if n <= 1 { return 0; }
        let v = match &self.replay {
            Some(r) => if self.pos < r.len() { r[self.pos] % n } else { 0 },
            None => { let x = splitmix(&mut self.state); ((x as u128 * n as u128) >> 64) as u64 }
        };
        self.pos += 1;
        self.rec.push(v);
        if self.stream >= 0 { crate::sys::write_all(self.stream, &v.to_le_bytes()); }
        v
    }
}
