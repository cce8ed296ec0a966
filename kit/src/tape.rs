//! A choice tape: every random decision of the generators is read from a
//! sequence of numbers produced (and shrunk) by proptest. Exhausted tape = 0,
//! and 0 always selects the simplest alternative.
pub struct Src<'a> {
    d: &'a [u32],
    p: usize,
}
impl<'a> Src<'a> {
    pub fn new(d: &'a [u32]) -> Self {
        Src { d, p: 0 }
    }
    pub fn used(&self) -> usize {
        self.p
    }
    pub fn raw(&mut self) -> u32 {
        let v = self.d.get(self.p).copied().unwrap_or(0);
        self.p += 1;
        v
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        let v = self.raw();
        ((v as u64 * n as u64) >> 32) as usize
    }
    /// uniform in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    /// true with probability pct/100 (0 on the tape gives false)
    pub fn pct(&mut self, pct: u32) -> bool {
        let v = self.raw();
        ((v as u64 * 100) >> 32) as u32 >= 100 - pct.min(100)
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        let i = self.below(xs.len());
        &xs[i]
    }
    /// index chosen with the given weights; 0 on the tape gives the first non-zero weight
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut v = self.below(total.max(1) as usize) as u32;
        for (i, &x) in w.iter().enumerate() {
            if v < x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in 0..xs.len().saturating_sub(1) {
            let j = i + self.below(xs.len() - i);
            xs.swap(i, j);
        }
    }
}
