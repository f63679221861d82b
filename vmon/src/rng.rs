//! Small deterministic generator (splitmix64 seeding, xoshiro256**).
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}
fn sm(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng { s: [sm(&mut x), sm(&mut x), sm(&mut x), sm(&mut x)] }
    }
    pub fn for_case(seed: u64, stream: &str, i: u64) -> Rng {
        Rng::new(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ crate::hash64(stream) ^ i.wrapping_mul(0x9e3779b97f4a7c15))
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.u64() % n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        let span = (hi - lo) as u64 + 1;
        lo + (self.u64() % span) as i64
    }
    /// Uniform in 0..n (0 when n is 0).
    pub fn ub(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.u64() % n }
    }
    /// Uniform in lo..=hi.
    pub fn ur(&mut self, lo: u64, hi: u64) -> u64 {
        if hi < lo { lo } else { lo + self.ub((hi - lo).saturating_add(1)) }
    }
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        (self.u64() % den as u64) < num as u64
    }
    pub fn coin(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// String over an alphabet with length in lo..=hi.
    pub fn string(&mut self, alphabet: &str, lo: usize, hi: usize) -> String {
        let cs: Vec<char> = alphabet.chars().collect();
        let n = self.range(lo as i64, hi as i64) as usize;
        (0..n).map(|_| cs[self.below(cs.len())]).collect()
    }
    pub fn token(&mut self, lo: usize, hi: usize) -> String {
        self.string("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-.!%*_+`'~", lo, hi)
    }
    pub fn alnum(&mut self, lo: usize, hi: usize) -> String {
        self.string("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789", lo, hi)
    }
    pub fn lower(&mut self, lo: usize, hi: usize) -> String {
        self.string("abcdefghijklmnopqrstuvwxyz", lo, hi)
    }
    pub fn bytes(&mut self, lo: usize, hi: usize) -> Vec<u8> {
        let n = self.range(lo as i64, hi as i64) as usize;
        (0..n).map(|_| self.u64() as u8).collect()
    }
    /// A hostile string: mixes structure characters, unicode and controls.
    pub fn nasty(&mut self, lo: usize, hi: usize) -> String {
        const P: &[&str] = &[
            "a", "b", "7", "0", " ", ";", ",", ":", "=", "\"", "<", ">", "@", "?", "&", "%", "\\", "\r", "\n", "\r\n", "\t", "\0",
            "é", "中", "😀", "[", "]", "(", ")", "/", "+", "-", "tag=", "sip:", "branch=z9hG4bK", "\u{7f}", "%41", "%0d%0a", "''", "*", "\u{2028}",
        ];
        let n = self.range(lo as i64, hi as i64) as usize;
        (0..n).map(|_| *self.pick(P)).collect()
    }
    /// Randomly corrupt a byte string.
    pub fn mutate(&mut self, v: &mut Vec<u8>, edits: usize) {
        const T: &[&[u8]] = &[
            b"\r\n", b"\n", b"\r", b"\0", b";", b",", b":", b"\"", b"<", b">", b" ", b"\t", b"=", b"%", b"@", b"\\", "é".as_bytes(), "😀".as_bytes(), b"0", b"-1",
            b"99999999999999999999", b"4294967296", b"2147483648", b"\r\n\r\n", b"\r\n ", b"65536", b"[", b"]", b"(", b")", b"/", b"?", b"&", b"'", b"\xff",
        ];
        for _ in 0..edits {
            let n = v.len();
            match self.below(8) {
                0 if n > 0 => {
                    let i = self.below(n);
                    v[i] = self.u64() as u8;
                }
                1 if n > 0 => {
                    let i = self.below(n);
                    v.remove(i);
                }
                2 | 3 => {
                    let i = self.below(n + 1);
                    let t = *self.pick(T);
                    v.splice(i..i, t.iter().copied());
                }
                4 if n > 1 => {
                    let a = self.below(n);
                    let b = (a + 1 + self.below(20)).min(n);
                    v.drain(a..b);
                }
                5 if n > 1 => {
                    let a = self.below(n);
                    let b = (a + 1 + self.below(30)).min(n);
                    let s = v[a..b].to_vec();
                    let i = self.below(n);
                    v.splice(i..i, s);
                }
                6 if n > 0 => {
                    let i = self.below(n);
                    v[i] ^= 1 << self.below(8);
                }
                7 if n > 0 => {
                    let i = self.below(n);
                    if v[i].is_ascii_alphabetic() {
                        v[i] ^= 0x20;
                    } else {
                        v.truncate(i);
                    }
                }
                _ => {}
            }
        }
    }
}
