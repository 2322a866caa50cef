//! Message contents: see spec/Content.tla.

pub const CHUNK: usize = 2048;

/// A position in a message: byte b of chunk a.
#[derive(Clone, Copy, Default)]
pub struct Pos {
    pub a: u64,
    pub b: usize,
}

impl Pos {
    pub fn advance(&mut self, n: usize) {
        let t = self.b + n;
        self.a += (t / CHUNK) as u64;
        self.b = t % CHUNK;
    }
}

pub fn pattern(kind: u64, a: u64, b: usize) -> u8 {
    match kind {
        0 => 0,
        1 => 255,
        _ => {
            let (k, a, b) = (kind, a % 65536, b as u64);
            let sq = (b + a + k) % 251;
            (b * 31 + (b / 8) * 17 + a * 101 + (a / 64) * 7 + k * 59 + sq * sq) as u8
        }
    }
}

pub fn fill(buf: &mut [u8], kind: u64, pos: &mut Pos) {
    for x in buf.iter_mut() {
        *x = pattern(kind, pos.a, pos.b);
        pos.advance(1);
    }
}
