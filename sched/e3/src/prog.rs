//! Programs: a header, and a flat list of operations tagged with the section they belong to.
//! Sections: 0 setup, 1..=3 threads, 6 calls that destructors make, 7 afterwards.

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Prog {
    pub n: u8,
    pub n2: u8,
    pub threads: u8,
    pub dist: [u8; 8],
    pub ops: Vec<[u8; 4]>,
}

pub const AFTER: u8 = 7;
pub const NEST: u8 = 6;

pub const NAMES: [&str; 24] = ["clone", "clone_left", "clone_right", "split_off_left", "split_off_right", "downgrade", "upgrade", "drop", "get_mut", "into_mut", "into_immut", "mut split", "mut write", "into parts", "part", "read", "weak clone", "parts clone", "into_iter", "iter next", "send", "recv", "mut parts", "mut part"];

impl Prog {
    pub fn encode(&self) -> String {
        let d: String = self.dist.iter().map(|x| format!("{:x}", x & 15)).collect();
        let o: String = self.ops.iter().map(|o| o.iter().map(|b| format!("{:02x}", b)).collect::<String>()).collect();
        format!("{}.{}.{}.{} {}", self.n, self.n2, self.threads, d, if o.is_empty() { "-".into() } else { o })
    }

    pub fn decode(h: &str, o: &str) -> Option<Prog> {
        let w: Vec<&str> = h.split('.').collect();
        if w.len() != 4 {
            return None;
        }
        let mut dist = [0; 8];
        for (i, c) in w[3].chars().take(8).enumerate() {
            dist[i] = c.to_digit(16)? as u8;
        }
        let mut ops = vec![];
        if o != "-" {
            let b: Vec<u8> = (0..o.len() / 2).map(|i| u8::from_str_radix(&o[2 * i..2 * i + 2], 16).unwrap_or(0)).collect();
            for c in b.chunks(4) {
                if c.len() == 4 {
                    ops.push([c[0], c[1], c[2], c[3]]);
                }
            }
        }
        Some(Prog { n: w[0].parse().ok()?, n2: w[1].parse().ok()?, threads: w[2].parse().ok()?, dist, ops })
    }
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn n(&mut self, n: u64) -> u64 {
        (self.next() >> 11) % n
    }
    fn pick(&mut self, w: &[(u8, u32)]) -> u8 {
        let t: u32 = w.iter().map(|x| x.1).sum();
        let mut k = self.n(t as u64) as u32;
        for (o, x) in w {
            if k < *x {
                return *o;
            }
            k -= x;
        }
        0
    }
}

const SETUP: &[(u8, u32)] = &[(0, 6), (1, 6), (2, 6), (3, 2), (4, 2), (5, 6), (6, 2), (7, 2), (9, 1), (13, 1), (16, 1), (11, 1), (10, 1)];
const MIX: &[(u8, u32)] = &[(0, 4), (1, 8), (2, 8), (3, 3), (4, 3), (5, 6), (6, 8), (7, 14), (8, 8), (9, 7), (10, 3), (11, 2), (12, 2), (13, 2), (14, 3), (15, 3), (16, 1), (17, 1), (18, 1), (19, 1), (20, 2), (21, 3), (22, 1), (23, 1)];
const DERIVE: &[(u8, u32)] = &[(0, 2), (1, 10), (2, 10), (3, 4), (4, 4), (7, 10), (6, 3), (5, 1), (13, 3), (14, 4), (8, 1), (9, 1)];
const EXCL: &[(u8, u32)] = &[(0, 2), (1, 4), (2, 4), (5, 5), (6, 12), (7, 12), (8, 10), (9, 10), (10, 2), (16, 1), (12, 1), (20, 1), (21, 1)];
const WEAKS: &[(u8, u32)] = &[(5, 6), (6, 16), (7, 10), (8, 3), (9, 4), (1, 3), (2, 3), (0, 1), (16, 2)];

pub const PROFILES: [(&str, &[(u8, u32)]); 4] = [("mixed", MIX), ("derive", DERIVE), ("exclusive", EXCL), ("weak", WEAKS)];

/// The shared and weak handles a thread of `dance` has, in the order of its list.
#[derive(Default)]
struct Own(Vec<(bool, u8)>);
impl Own {
    fn idx(&self, weak: bool) -> Vec<usize> {
        (0..self.0.len()).filter(|&i| self.0[i].0 == weak).collect()
    }
    /// The operand byte of one of them, mostly the newest; its place in the list.
    fn pick(&self, r: &mut Rng, weak: bool) -> Option<(u8, usize)> {
        let v = self.idx(weak);
        if v.is_empty() {
            return None;
        }
        let k = if r.n(2) == 0 { v.len() - 1 } else { r.n(v.len() as u64) as usize };
        Some((k as u8, v[k]))
    }
    /// What a call does to the list: new handle first, then the one it was made from.
    fn made(&mut self, i: usize, weak: bool, len: u8) {
        let x = self.0.remove(i);
        self.0.push((weak, len));
        self.0.push(x);
    }
}

fn dance_op(r: &mut Rng, own: &mut Own, t: u8, setup: bool) -> Option<[u8; 4]> {
    let (s, w) = (own.idx(false).len(), own.idx(true).len());
    if s + w == 0 {
        return None;
    }
    let weights = [
        (6u8, if w > 0 { 8 } else { 0 }),
        (5, if s > 0 { if w < 2 { 5 } else { 2 } } else { 0 }),
        (1, if s > 0 { 2 } else { 0 }),
        (2, if s > 0 { 2 } else { 0 }),
        (0, if s > 0 && s < 3 { 1 } else { 0 }),
        (7, if s > 0 { if setup { 1 } else { 6 } } else { 0 }),
        (255, if w > 0 { if s > 0 { 4 } else { 1 } } else { 0 }),
        (8, if s > 0 && !setup { 1 } else { 0 }),
        (9, if s > 0 && !setup { 1 } else { 0 }),
    ];
    let o = r.pick(&weights);
    Some(match o {
        6 => {
            let (a, i) = own.pick(r, true)?;
            let l = own.0[i].1;
            own.made(i, false, l);
            [t, 6, a, 0]
        }
        5 | 0 => {
            let (a, i) = own.pick(r, false)?;
            let l = own.0[i].1;
            own.made(i, o == 5, l);
            [t, o, a, 0]
        }
        1 | 2 => {
            let (a, i) = own.pick(r, false)?;
            let l = own.0[i].1;
            own.made(i, false, if o == 1 { l / 2 } else { l - l / 2 });
            [t, o, a, 0]
        }
        7 | 255 => {
            let (_, i) = own.pick(r, o == 255)?;
            own.0.remove(i);
            // drop selects among all handles
            [t, 7, i as u8, r.n(256) as u8]
        }
        _ => {
            let (a, i) = own.pick(r, false)?;
            if o == 9 { own.0.remove(i); }
            [t, o, a, 0]
        }
    })
}

/// One thread asks for exclusive access (or derives, or drops), the others walk over the handles they hold,
/// from one to its weak handle, its halves and back.
fn dance(r: &mut Rng) -> Prog {
    let n = [1u8, 2, 2, 3, 4][r.n(5) as usize];
    let threads = 2 + (r.n(6) == 0) as u8;
    let mut ops = vec![];
    let mut own = Own::default();
    own.0.push((false, n));
    for _ in 0..1 + r.n(3) {
        ops.extend(dance_op(r, &mut own, 0, true));
    }
    let mut dist = [0u8; 8];
    let mut owns: Vec<Own> = (0..=threads).map(|_| Own::default()).collect();
    let strong: Vec<usize> = own.idx(false);
    let taken = if strong.is_empty() { 0 } else { strong[r.n(strong.len() as u64) as usize] };
    for i in 0..own.0.len() {
        let d = if i == taken { 1 } else if r.n(8) == 0 { 1 } else { 2 + r.n(threads as u64 - 1) as u8 };
        dist[i % 8] = d;
        owns[d as usize].0.push(own.0[i]);
    }
    for _ in 0..1 + r.n(2) {
        let o = &mut owns[1];
        match r.n(8) {
            0 => ops.extend(dance_op(r, o, 1, false)),
            k => {
                if let Some((a, i)) = o.pick(r, false) {
                    let c = [8u8, 8, 8, 9, 9, 1 + (a & 1), 3][k as usize - 1];
                    if c == 9 || c == 3 { o.0.remove(i); }
                    ops.push([1, c, a, 0]);
                }
            }
        }
    }
    for t in 2..=threads {
        for _ in 0..1 + r.n(4) {
            let own = &mut owns[t as usize];
            let n = own.0.len();
            ops.extend(dance_op(r, own, t, false));
            if own.0.len() > n && r.n(5) > 0 {
                // moves on to the new handle, or falls back to the old one
                let i = own.0.len() - 1 - (r.n(3) == 0) as usize;
                own.0.remove(i);
                ops.push([t, 7, i as u8, r.n(256) as u8]);
            }
        }
    }
    for _ in 0..r.n(5) {
        let w = if r.n(2) == 0 { MIX } else { EXCL };
        ops.push([AFTER, r.pick(w), r.n(256) as u8, r.n(256) as u8]);
    }
    Prog { n, n2: 0, threads, dist, ops }
}

pub fn generate(r: &mut Rng, profile: usize) -> Prog {
    if r.n(5) < 2 {
        return dance(r);
    }
    let n = [1u8, 2, 2, 3, 3, 4, 4, 5, 6, 8][r.n(10) as usize];
    let n2 = if r.n(8) == 0 { 1 + r.n(3) as u8 } else { 0 };
    let threads = 2 + (r.n(5) == 0) as u8;
    let mut dist = [0u8; 8];
    let pool = r.n(3) == 0;
    for (i, d) in dist.iter_mut().enumerate() {
        *d = match r.n(10) {
            0 => 0,
            1 | 2 if pool => threads + 1,
            _ => 1 + ((i as u64 + r.n(2)) % threads as u64) as u8,
        };
    }
    let mut ops = vec![];
    let focus = r.n(2) == 0;
    if focus {
        // few handles, on a chain of sub-slices
        let mut n = 1;
        for _ in 0..r.n(4) {
            let o = [1, 2, 0, 5, 5][r.n(5) as usize];
            // 255 picks the last of the candidates more often
            ops.push([0, o, if r.n(2) == 0 { 255 } else { r.n(256) as u8 }, 0]);
            n += 1;
        }
        if r.n(3) > 0 {
            ops.push([0, 5, r.n(256) as u8, 0]);
            n += 1;
        }
        while n > 2 && r.n(3) > 0 {
            ops.push([0, 7, r.n(256) as u8, 1]);
            n -= 1;
        }
    } else {
        for _ in 0..1 + r.n(6) {
            ops.push([0, r.pick(SETUP), r.n(256) as u8, r.n(256) as u8]);
        }
    }
    let per = if focus { 1 + r.n(3) } else { 1 + r.n(4) };
    for t in 1..=threads {
        for _ in 0..1 + r.n(per + 1) {
            let w = if r.n(if focus { 8 } else { 4 }) == 0 { MIX } else { PROFILES[profile].1 };
            ops.push([t, r.pick(w), r.n(256) as u8, r.n(256) as u8]);
        }
    }
    for _ in 0..r.n(9) {
        let w = if r.n(2) == 0 { MIX } else { EXCL };
        ops.push([AFTER, r.pick(w), r.n(256) as u8, r.n(256) as u8]);
    }
    Prog { n, n2, threads, dist, ops }
}

const NESTED: &[(u8, u32)] = &[(255, 4), (0, 1), (1, 3), (2, 3), (3, 1), (4, 1), (5, 3), (6, 12), (7, 8), (8, 4), (9, 3), (10, 1), (12, 1), (14, 2), (15, 1), (16, 1), (19, 1), (20, 1), (23, 1)];

/// The same, with destructors that make calls.
pub fn generate_nested(r: &mut Rng, profile: usize) -> Prog {
    let mut p = generate(r, profile);
    for t in 1..=p.threads {
        // there must be something to destroy
        for _ in 0..r.n(3) {
            p.ops.push([t, 7, r.n(256) as u8, r.n(256) as u8]);
        }
    }
    for _ in 0..1 + r.n(6) {
        p.ops.push([NEST, r.pick(NESTED), r.n(256) as u8, r.n(256) as u8]);
    }
    p
}
