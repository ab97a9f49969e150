//! A small deterministic generator.

/// Inputs are kept small where every step is interpreted.
pub const SMALL: bool = cfg!(miri);

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &b in bytes {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h ^ (bytes.len() as u64))
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0x9e3779b97f4a7c15))
    }

    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }

    /// In `0..n`.
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }

    /// In `a..=b`.
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }

    pub fn chance(&mut self, one_in: usize) -> bool {
        self.below(one_in) == 0
    }

    pub fn pick<'a, T>(&mut self, of: &'a [T]) -> &'a T {
        &of[self.below(of.len())]
    }

    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }

    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }

    pub fn word(&mut self, alphabet: &[u8], min: usize, max: usize) -> String {
        let n = self.range(min, max);
        (0..n).map(|_| *self.pick(alphabet) as char).collect()
    }

    /// Text with characters of all UTF-8 lengths.
    pub fn text(&mut self, max: usize) -> String {
        let n = self.below(max + 1);
        (0..n)
            .map(|_| match self.below(8) {
                0 => *self.pick(&['é', 'ß', '\u{80}', '\u{7ff}']),
                1 => *self.pick(&['€', '\u{800}', '\u{ffff}', '\u{d7ff}', '\u{e000}']),
                2 => *self.pick(&['𐘐', '\u{10000}', '\u{10ffff}', '😀', '\u{feff}', '\u{2028}', '\u{85}', '\u{202e}']),
                3 => *self.pick(&['\0', '\n', '\r', '"', '\\', '\u{7f}']),
                _ => (b' ' + self.below(95) as u8) as char,
            })
            .collect()
    }
}
