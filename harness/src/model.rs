//! Sorted-vector reference dictionary and the history generator.
use crate::core::Rng;

#[derive(Clone, Debug, Default)]
pub struct Model<T> {
    pub e: Vec<(u64, T)>,
}
impl<T> Model<T> {
    pub fn new() -> Self {
        Model { e: Vec::new() }
    }
    pub fn clone_entries(&self) -> Vec<(u64, T)>
    where
        T: Clone,
    {
        self.e.clone()
    }
    pub fn len(&self) -> usize {
        self.e.len()
    }
    pub fn is_empty(&self) -> bool {
        self.e.is_empty()
    }
    pub fn find(&self, o: u64) -> Result<usize, usize> {
        if let Some(l) = self.e.last() {
            if o > l.0 {
                return Err(self.e.len());
            }
        }
        self.e.binary_search_by(|x| x.0.cmp(&o))
    }
    pub fn get(&self, o: u64) -> Option<&T> {
        self.find(o).ok().map(|i| &self.e[i].1)
    }
    pub fn get_mut(&mut self, o: u64) -> Option<&mut T> {
        match self.find(o) {
            Ok(i) => Some(&mut self.e[i].1),
            Err(_) => None,
        }
    }
    /// returns the replaced payload
    pub fn insert(&mut self, o: u64, t: T) -> Option<T> {
        match self.find(o) {
            Ok(i) => Some(std::mem::replace(&mut self.e[i].1, t)),
            Err(i) => {
                self.e.insert(i, (o, t));
                None
            }
        }
    }
    pub fn remove(&mut self, o: u64) -> Option<T> {
        match self.find(o) {
            Ok(i) => Some(self.e.remove(i).1),
            Err(_) => None,
        }
    }
    pub fn at(&self, i: usize) -> u64 {
        self.e[i].0
    }
    /// nearest key strictly above / below
    pub fn above(&self, o: u64) -> Option<&(u64, T)> {
        let i = match self.find(o) {
            Ok(i) => i + 1,
            Err(i) => i,
        };
        self.e.get(i)
    }
    pub fn below(&self, o: u64) -> Option<&(u64, T)> {
        let i = match self.find(o) {
            Ok(i) => i,
            Err(i) => i,
        };
        i.checked_sub(1).map(|i| &self.e[i])
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
    Ins(u64),
    Del(u64),
}

/// Phase-driven generator of insertions and removals. Each phase pushes the tree into a
/// particular regime (one-sided growth, thinning, hovering at the minimum, sliding, ...).
#[derive(Clone)]
pub struct Shaper {
    ph: u8,
    left: u64,
    cur: u64,
    idx: usize,
    step: u64,
    stop: usize,
    pub target: usize,
    pub dom: u64,
    maxo: u64,
    n: usize,
    pub phases: u64,
}
pub const PHASES: u8 = 20;

impl Shaper {
    /// `n`: node capacity, `target`: size to grow to, `maxo`: exclusive bound of key numbers
    pub fn new(rng: &mut Rng, n: usize, target: usize, maxo: u64) -> Self {
        let t = target.max(1) as u64;
        let dom = match rng.below(4) {
            0 => t * 2 + 2,
            1 => t * 4 + 4,
            2 => t * 16 + 16,
            _ => t * 100 + 100,
        };
        Shaper {
            ph: 0,
            left: 0,
            cur: 0,
            idx: 0,
            step: 1,
            stop: 0,
            target: target.max(1),
            dom: dom.min(maxo),
            maxo,
            n,
            phases: 0,
        }
    }
    fn enter<T>(&mut self, rng: &mut Rng, m: &Model<T>, ph: u8) {
        self.phases += 1;
        self.ph = ph;
        let len = m.len();
        let t = self.target as u64;
        self.left = match rng.below(3) {
            0 => rng.range(1, 2 * self.n as u64),
            1 => rng.range(1, t.max(2)),
            _ => rng.range(t / 4 + 1, t + 2),
        };
        self.step = if rng.chance(1, 2) { 1 } else { rng.range(1, 4) };
        self.cur = rng.below(self.dom);
        self.idx = if len > 0 { rng.idx(len) } else { 0 };
        self.stop = match rng.below(4) {
            0 => 0,
            1 => rng.range(0, 3) as usize,
            2 => len / 2,
            _ => rng.below(len as u64 + 1) as usize,
        };
        match ph {
            // one-sided growth starts beyond the present keys, most of the time
            0 | 11 if rng.chance(3, 4) => self.cur = m.e.last().map_or(0, |x| x.0 + self.step),
            1 | 12 if rng.chance(3, 4) => self.cur = m.e.first().map_or(self.dom - 1, |x| x.0),
            15 => self.cur = if len > 0 { m.at(self.idx) } else { self.cur },
            _ => {}
        }
        if matches!(ph, 5..=10 | 17 | 18) {
            // removal phases run to their stop size
            self.left = u64::MAX;
            if len <= self.stop {
                self.stop = len.saturating_sub(self.n);
            }
        }
    }
    fn choose<T>(&mut self, rng: &mut Rng, m: &Model<T>) {
        let len = m.len();
        let ph = if len == 0 {
            rng.pick(&[0, 0, 1, 2, 2, 3, 15])
        } else if len > self.target + self.target / 4 + 2 * self.n {
            rng.pick(&[5, 6, 7, 8, 9, 10, 17, 18])
        } else if len < self.target / 3 && rng.chance(3, 5) {
            rng.pick(&[0, 1, 2, 2, 2, 3, 15, 19])
        } else {
            rng.below(PHASES as u64) as u8
        };
        self.enter(rng, m, ph);
    }
    pub fn phase(&self) -> u8 {
        self.ph
    }
    fn clampo(&self, o: u64) -> u64 {
        o % self.maxo
    }
    pub fn next<T>(&mut self, rng: &mut Rng, m: &Model<T>) -> Act {
        loop {
            let len = m.len();
            let removal = matches!(self.ph, 5..=10 | 17 | 18);
            if self.left == 0
                || self.phases == 0
                || (removal && (len == 0 || len <= self.stop))
                || (!removal && len > self.target + self.target / 2 + 4 * self.n)
            {
                self.choose(rng, m);
                if m.len() == 0 && matches!(self.ph, 4 | 5..=10 | 13 | 14 | 16 | 17 | 18) {
                    self.enter(rng, m, 2);
                }
                continue;
            }
            self.left -= 1;
            let del = |i: usize| Act::Del(m.at(i));
            return match self.ph {
                0 => {
                    let o = self.clampo(self.cur);
                    self.cur = o + self.step;
                    Act::Ins(o)
                }
                1 => {
                    let o = self.cur.wrapping_sub(self.step);
                    let o = if o < self.maxo {
                        o
                    } else {
                        self.left = 0;
                        rng.below(self.dom)
                    };
                    self.cur = o;
                    Act::Ins(o)
                }
                2 => Act::Ins(rng.below(self.dom)),
                3 => {
                    let o = self.cur + rng.below(3 * self.n as u64);
                    Act::Ins(self.clampo(o))
                }
                4 => {
                    if len > 0 && rng.chance(1, 2) {
                        del(rng.idx(len))
                    } else {
                        Act::Ins(rng.below(self.dom))
                    }
                }
                5 => del(0),
                6 => del(len - 1),
                7 => del(rng.idx(len)),
                8 => del(self.idx.min(len - 1)),
                9 => {
                    let i = self.idx.min(len - 1);
                    self.idx = i.saturating_sub(1);
                    del(i)
                }
                10 => {
                    // keep every step-th entry
                    self.idx = (self.idx + self.step as usize) % len;
                    del(self.idx)
                }
                11 => {
                    if self.left % 2 == 0 || len < 2 {
                        let o = self.clampo(m.e.last().map_or(0, |x| x.0) + self.step);
                        Act::Ins(o)
                    } else {
                        del(0)
                    }
                }
                12 => {
                    if self.left % 2 == 0 || len < 2 {
                        let f = m.e.first().map_or(self.dom, |x| x.0);
                        if f >= self.step {
                            Act::Ins(f - self.step)
                        } else {
                            self.left = 0;
                            Act::Ins(rng.below(self.dom))
                        }
                    } else {
                        del(len - 1)
                    }
                }
                13 => {
                    if len == 0 {
                        Act::Ins(rng.below(self.dom))
                    } else {
                        Act::Ins(m.at(rng.idx(len)))
                    }
                }
                14 => Act::Del(rng.below(self.dom)),
                15 => {
                    // descending into the gap below a pivot
                    if self.cur == 0 {
                        self.left = 0;
                        Act::Ins(rng.below(self.dom))
                    } else {
                        self.cur -= 1;
                        Act::Ins(self.clampo(self.cur))
                    }
                }
                16 => {
                    // hover in a narrow window of positions
                    if len > 2 && rng.chance(1, 2) {
                        let i = (self.idx % len + rng.idx(self.n)) % len;
                        del(i)
                    } else {
                        let base = if len > 0 { m.at(self.idx % len) } else { self.cur };
                        Act::Ins(self.clampo(base + rng.below(2 * self.n as u64)))
                    }
                }
                17 => {
                    // zig-zag from both ends
                    if self.idx % 2 == 0 {
                        self.idx += 1;
                        del(0)
                    } else {
                        self.idx += 1;
                        del(len - 1)
                    }
                }
                18 => {
                    // whole stretches at random places
                    if rng.chance(1, self.n as u64 + 1) {
                        self.idx = rng.idx(len);
                    }
                    del(self.idx.min(len - 1))
                }
                _ => {
                    // growth interleaved with removal of neighbours
                    if len > 0 && rng.chance(1, 4) {
                        let o = self.cur;
                        match m.find(o) {
                            Ok(i) => del(i),
                            Err(i) => del(i.min(len - 1)),
                        }
                    } else {
                        self.cur = rng.below(self.dom);
                        Act::Ins(self.cur)
                    }
                }
            };
        }
    }
}
