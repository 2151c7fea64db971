//! One integer decides everything: PRNG and the recorded sequence of decisions.
#[derive(Clone, Debug)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x5851_f42d_4c95_7f2d);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, pct: u32) -> bool {
        (self.next() % 100) < pct as u64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
}

/// Decisions taken while a run proceeds. In search mode they come from the PRNG and are recorded,
/// in replay mode they come from the recorded list; 0 always means "nothing unusual".
pub struct Choices {
    rng: Option<Rng>,
    list: Vec<u32>,
    pos: usize,
    pub record: Vec<u32>,
}
impl Choices {
    pub fn search(seed: u64) -> Choices {
        Choices { rng: Some(Rng::new(seed)), list: vec![], pos: 0, record: vec![] }
    }
    pub fn replay(list: &[u32]) -> Choices {
        Choices { rng: None, list: list.to_vec(), pos: 0, record: vec![] }
    }
    /// weighted choice; weights[0] belongs to the default
    pub fn pick(&mut self, weights: &[u32]) -> usize {
        let v = match &mut self.rng {
            Some(r) => {
                let total: u64 = weights.iter().map(|x| *x as u64).sum();
                if total == 0 {
                    0
                } else {
                    let mut x = r.next() % total;
                    let mut k = 0;
                    for (i, w) in weights.iter().enumerate() {
                        if x < *w as u64 {
                            k = i;
                            break;
                        }
                        x -= *w as u64;
                    }
                    k
                }
            }
            None => {
                let v = self.list.get(self.pos).copied().unwrap_or(0) as usize;
                self.pos += 1;
                if v < weights.len() && weights[v] > 0 {
                    v
                } else {
                    0
                }
            }
        };
        self.record.push(v as u32);
        v
    }
    /// a number below n (recorded)
    pub fn number(&mut self, n: u32) -> u32 {
        let v = match &mut self.rng {
            Some(r) => (r.next() % n.max(1) as u64) as u32,
            None => {
                let v = self.list.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v % n.max(1)
            }
        };
        self.record.push(v);
        v
    }
    pub fn yes(&mut self, pct: u32) -> bool {
        self.pick(&[100 - pct.min(100), pct.min(100)]) == 1
    }
}

pub fn fnv(h: &mut u64, b: &[u8]) {
    for x in b {
        *h ^= *x as u64;
        *h = h.wrapping_mul(0x100_0000_01b3);
    }
}
pub fn hash(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325 ^ (b.len() as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    let mut c = b.chunks_exact(8);
    for w in &mut c {
        h = (h.rotate_left(23) ^ u64::from_le_bytes(w.try_into().unwrap())).wrapping_mul(0xff51_afd7_ed55_8ccd);
        h ^= h >> 29;
    }
    fnv(&mut h, c.remainder());
    h = (h ^ (h >> 31)).wrapping_mul(0xc4ce_b9fe_1a85_ec53);
    h ^ (h >> 33)
}
