//! The programs of sched/e3 on real threads, for Miri: its race detector, weak memory emulation
//! and random scheduler are the oracle, with a few relaxed counters of our own, which do not
//! order anything.
//!
//! mirithr gen SEED FROM TO BY PROFILE...   or   mirithr one HEAD OPS
#[path = "../../../sched/e3/src/prog.rs"]
#[allow(dead_code)]
mod prog;

use prog::{Prog, Rng, AFTER};
use rc_slice::arc::{ArcSliceMutIter, ArcSliceMutParts, ArcSliceParts, WeakSlice};
use rc_slice::{ArcSlice, ArcSliceMut};
use std::sync::atomic::{AtomicI32, Ordering::Relaxed};
use std::sync::mpsc;

const MAX: usize = 16;
const MAGIC: u32 = 0x17E3_17E3;
const Z: AtomicI32 = AtomicI32::new(0);
static LIVE: [AtomicI32; MAX] = [Z; MAX];
static EXCL: [AtomicI32; MAX] = [Z; MAX];
static DROPS: [AtomicI32; MAX] = [Z; MAX];
static OUT: [AtomicI32; MAX] = [Z; MAX];

fn die(m: String) -> ! {
    println!("FAIL {}", m);
    std::process::exit(1)
}

struct It {
    magic: u32,
    id: u32,
    stamp: u32,
}

impl Drop for It {
    fn drop(&mut self) {
        let i = self.id as usize;
        if self.magic != MAGIC || i >= MAX {
            die("a destructor runs on memory that holds no item".into());
        }
        if DROPS[i].fetch_add(1, Relaxed) != 0 {
            die(format!("item {} is destroyed twice", i));
        }
        if OUT[i].fetch_add(0, Relaxed) == 0 && LIVE[i].fetch_add(0, Relaxed) != 0 {
            die(format!("item {} is destroyed while a handle covers it", i));
        }
        self.stamp = 0;
    }
}

enum Hd {
    Sh(ArcSlice<It>),
    Wk(WeakSlice<It>),
    Mu(ArcSliceMut<It>),
    Pa(ArcSliceParts<It>, Vec<(u32, u32)>),
    It(ArcSliceMutIter<It>),
    Mp(ArcSliceMutParts<It>, Vec<(u32, u32)>),
}

struct H {
    lo: u32,
    len: u32,
    h: Hd,
}

fn kind(h: &Hd) -> u8 {
    match h {
        Hd::Sh(_) => 0,
        Hd::Wk(_) => 1,
        Hd::Mu(_) => 2,
        Hd::Pa(..) => 3,
        Hd::It(_) => 4,
        Hd::Mp(..) => 5,
    }
}

fn add(k: u8, lo: u32, len: u32, d: i32) {
    if k == 1 {
        return;
    }
    for i in lo..lo + len {
        LIVE[i as usize].fetch_add(d, Relaxed);
        if d > 0 && matches!(k, 0 | 3) && EXCL[i as usize].fetch_add(0, Relaxed) != 0 {
            die(format!("a handle on item {} is obtained while it is exclusively held", i));
        }
    }
}

fn peek(lo: u32, len: u32, s: &[It]) {
    if s.len() != len as usize {
        die("a handle shows a wrong number of items".into());
    }
    for (k, it) in s.iter().enumerate() {
        if it.magic != MAGIC || it.id != lo + k as u32 {
            die(format!("a handle shows item {} in place of {}", it.id, lo + k as u32));
        }
        std::hint::black_box(it.stamp);
    }
}

fn view(h: &H) {
    match &h.h {
        Hd::Sh(x) => peek(h.lo, h.len, x),
        Hd::Mu(x) => peek(h.lo, h.len, x),
        Hd::Pa(x, _) => peek(h.lo, h.len, x.as_slice()),
        Hd::It(x) => peek(h.lo, h.len, x.as_slice()),
        Hd::Mp(x, _) => peek(h.lo, h.len, x.as_slice()),
        Hd::Wk(_) => {}
    }
}

fn halves(lo: u32, len: u32) -> ((u32, u32), (u32, u32)) {
    let m = len / 2;
    ((lo, m), (lo + m, len - m))
}

fn part_ranges(lo: u32, len: u32, k: usize) -> Vec<(u32, u32)> {
    if k == 1 {
        return vec![(lo, len)];
    }
    let (a, b) = halves(lo, len);
    let mut v = part_ranges(a.0, a.1, k / 2);
    v.extend(part_ranges(b.0, b.1, k / 2));
    v
}

fn cover(v: &[(u32, u32)]) -> (u32, u32) {
    match (v.first(), v.last()) {
        (Some(a), Some(b)) => (a.0, b.0 + b.1 - a.0),
        _ => (0, 0),
    }
}

fn exclusive(lo: u32, len: u32, v: i32) {
    for i in lo..lo + len {
        EXCL[i as usize].fetch_add(v, Relaxed);
        if v > 0 && LIVE[i as usize].fetch_add(0, Relaxed) != 1 {
            die(format!("exclusive access to item {} is granted while other handles cover it", i));
        }
    }
}

struct T<'a> {
    l: Vec<H>,
    pool: &'a [H],
    send: Option<mpsc::Sender<H>>,
    recv: Option<mpsc::Receiver<H>>,
}

impl<'a> T<'a> {
    fn take(&mut self, a: u8, k: u8) -> Option<H> {
        let v: Vec<usize> = (0..self.l.len()).filter(|&i| k == 9 || kind(&self.l[i].h) == k).collect();
        if v.is_empty() { None } else { Some(self.l.remove(v[a as usize % v.len()])) }
    }

    fn pick(&self, a: u8, k: u8) -> Option<&H> {
        let v: Vec<&H> = self.l.iter().chain(self.pool).filter(|h| kind(&h.h) == k).collect();
        if v.is_empty() { None } else { Some(v[a as usize % v.len()]) }
    }

    fn got(&mut self, lo: u32, len: u32, h: Hd) {
        add(kind(&h), lo, len, 1);
        let h = H { lo, len, h };
        view(&h);
        self.l.push(h);
    }

    fn exec(&mut self, op: [u8; 4]) {
        let (code, a, b) = (op[1] as usize % prog::NAMES.len(), op[2], op[3]);
        if self.l.len() > 10 && matches!(code, 0..=6 | 13 | 16 | 17) {
            return;
        }
        match code {
            0 | 1 | 2 | 5 => {
                let Some(h) = self.pick(a, 0) else { return };
                let Hd::Sh(x) = &h.h else { return };
                let (l, r) = halves(h.lo, h.len);
                let (g, n) = match code {
                    0 => ((h.lo, h.len), Hd::Sh(x.clone())),
                    1 => (l, Hd::Sh(ArcSlice::clone_left(x))),
                    2 => (r, Hd::Sh(ArcSlice::clone_right(x))),
                    _ => ((h.lo, h.len), Hd::Wk(ArcSlice::downgrade(x))),
                };
                self.got(g.0, g.1, n);
            }
            3 | 4 => {
                let Some(h) = self.take(a, 0) else { return };
                let Hd::Sh(mut x) = h.h else { return };
                let y = if code == 3 { ArcSlice::split_off_left(&mut x) } else { ArcSlice::split_off_right(&mut x) };
                add(0, h.lo, h.len, -1);
                let (l, r) = halves(h.lo, h.len);
                let (m, o) = if code == 3 { (r, l) } else { (l, r) };
                self.got(m.0, m.1, Hd::Sh(x));
                self.got(o.0, o.1, Hd::Sh(y));
            }
            6 | 16 => {
                let Some(h) = self.pick(a, 1) else { return };
                let (lo, len) = (h.lo, h.len);
                let Hd::Wk(w) = &h.h else { return };
                if code == 16 {
                    let w = w.clone();
                    self.got(lo, len, Hd::Wk(w));
                } else if let Some(x) = w.upgrade() {
                    self.got(lo, len, Hd::Sh(x));
                }
            }
            7 => {
                let Some(h) = self.take(a, 9) else { return };
                if b % 3 == 0 {
                    view(&h);
                }
                release(h);
            }
            8 => {
                let Some(mut h) = self.take(a, 0) else { return };
                if let Hd::Sh(x) = &mut h.h {
                    if let Some(s) = ArcSlice::get_mut(x) {
                        exclusive(h.lo, h.len, 1);
                        for i in s.iter_mut() {
                            i.stamp += 1;
                        }
                        exclusive(h.lo, h.len, -1);
                    }
                }
                self.l.push(h);
            }
            9 => {
                let Some(h) = self.take(a, 0) else { return };
                let Hd::Sh(x) = h.h else { return };
                match ArcSlice::into_mut(x) {
                    Ok(m) => {
                        exclusive(h.lo, h.len, 1);
                        let h = H { lo: h.lo, len: h.len, h: Hd::Mu(m) };
                        view(&h);
                        self.l.push(h);
                    }
                    Err(x) => self.l.push(H { lo: h.lo, len: h.len, h: Hd::Sh(x) }),
                }
            }
            10 => {
                let Some(h) = self.take(a, 2) else { return };
                let Hd::Mu(x) = h.h else { return };
                exclusive(h.lo, h.len, -1);
                let h = H { lo: h.lo, len: h.len, h: Hd::Sh(ArcSliceMut::into_immut(x)) };
                view(&h);
                self.l.push(h);
            }
            11 => {
                let Some(h) = self.take(a, 2) else { return };
                let Hd::Mu(mut x) = h.h else { return };
                let y = if b & 1 == 0 { ArcSliceMut::split_off_left(&mut x) } else { ArcSliceMut::split_off_right(&mut x) };
                let (l, r) = halves(h.lo, h.len);
                let (m, o) = if b & 1 == 0 { (r, l) } else { (l, r) };
                for (g, x) in [(m, x), (o, y)] {
                    let h = H { lo: g.0, len: g.1, h: Hd::Mu(x) };
                    view(&h);
                    self.l.push(h);
                }
            }
            12 => {
                let Some(mut h) = self.take(a, 2) else { return };
                if let Hd::Mu(x) = &mut h.h {
                    for i in x.iter_mut() {
                        i.stamp += 1;
                    }
                }
                self.l.push(h);
            }
            13 => {
                let Some(h) = self.take(a, 0) else { return };
                let Hd::Sh(x) = h.h else { return };
                let k = 1usize << (b % 3);
                let h = H { lo: h.lo, len: h.len, h: Hd::Pa(ArcSlice::split_into_parts(x, k), part_ranges(h.lo, h.len, k)) };
                view(&h);
                self.l.push(h);
            }
            14 => {
                let Some(h) = self.take(a, 3) else { return };
                let Hd::Pa(mut p, mut v) = h.h else { return };
                let want = if v.is_empty() { None } else if b & 1 == 0 { Some(v.remove(0)) } else { v.pop() };
                let x = if b & 1 == 0 { p.next() } else { p.next_back() };
                add(3, h.lo, h.len, -1);
                let (lo, len) = cover(&v);
                self.got(lo, len, Hd::Pa(p, v));
                match (x, want) {
                    (Some(x), Some(w)) => self.got(w.0, w.1, Hd::Sh(x)),
                    (None, None) => {}
                    _ => die("a wrong number of parts".into()),
                }
            }
            15 => {
                for k in [0u8, 2, 3] {
                    if let Some(h) = self.pick(a, k) {
                        view(h);
                    }
                }
            }
            17 => {
                let Some(h) = self.pick(a, 3) else { return };
                let (lo, len) = (h.lo, h.len);
                let Hd::Pa(p, v) = &h.h else { return };
                let n = Hd::Pa(p.clone(), v.clone());
                self.got(lo, len, n);
            }
            18 => {
                let Some(h) = self.take(a, 2) else { return };
                let Hd::Mu(x) = h.h else { return };
                self.l.push(H { lo: h.lo, len: h.len, h: Hd::It(x.into_iter()) });
            }
            19 => {
                let Some(mut h) = self.take(a, 4) else { return };
                let Hd::It(x) = &mut h.h else { return };
                if let Some(i) = if b & 1 == 0 { x.next() } else { x.next_back() } {
                    OUT[i.id as usize].fetch_add(1, Relaxed);
                    if h.len == 0 || i.id != if b & 1 == 0 { h.lo } else { h.lo + h.len - 1 } {
                        die("an iterator yields a wrong item".into());
                    }
                    add(4, i.id, 1, -1);
                    h.len -= 1;
                    h.lo += (b & 1 == 0) as u32;
                }
                view(&h);
                self.l.push(h);
            }
            20 => {
                if self.send.is_some() {
                    if let Some(h) = self.take(a, 9) {
                        if let Err(e) = self.send.as_ref().unwrap().send(h) {
                            self.l.push(e.0);
                        }
                    }
                }
            }
            21 => {
                if let Some(h) = self.recv.as_ref().and_then(|r| r.try_recv().ok()) {
                    view(&h);
                    self.l.push(h);
                }
            }
            22 => {
                let Some(h) = self.take(a, 2) else { return };
                let Hd::Mu(x) = h.h else { return };
                let k = 1usize << (b % 3);
                self.l.push(H { lo: h.lo, len: h.len, h: Hd::Mp(ArcSliceMut::split_into_parts(x, k), part_ranges(h.lo, h.len, k)) });
            }
            _ => {
                let Some(h) = self.take(a, 5) else { return };
                let Hd::Mp(mut p, mut v) = h.h else { return };
                let want = if v.is_empty() { None } else if b & 1 == 0 { Some(v.remove(0)) } else { v.pop() };
                let x = if b & 1 == 0 { p.next() } else { p.next_back() };
                let (lo, len) = cover(&v);
                let h = H { lo, len, h: Hd::Mp(p, v) };
                view(&h);
                self.l.push(h);
                match (x, want) {
                    (Some(x), Some(w)) => {
                        let h = H { lo: w.0, len: w.1, h: Hd::Mu(x) };
                        view(&h);
                        self.l.push(h);
                    }
                    (None, None) => {}
                    _ => die("a wrong number of parts".into()),
                }
            }
        }
    }
}

fn release(h: H) {
    let k = kind(&h.h);
    if matches!(k, 2 | 4 | 5) {
        for i in h.lo..h.lo + h.len {
            EXCL[i as usize].fetch_add(-1, Relaxed);
        }
    }
    add(k, h.lo, h.len, -1);
    drop(h.h);
}

fn run(p: &Prog) {
    for i in 0..MAX {
        for a in [&LIVE, &EXCL, &DROPS, &OUT] {
            a[i].store(0, Relaxed);
        }
    }
    let mut m = T { l: vec![], pool: &[], send: None, recv: None };
    let mut lo = 0;
    for n in [p.n, p.n2] {
        if n > 0 {
            let v: Vec<It> = (0..n as u32).map(|i| It { magic: MAGIC, id: lo + i, stamp: 0 }).collect();
            m.got(lo, n as u32, Hd::Sh(ArcSlice::from_vec(v)));
            lo += n as u32;
        }
    }
    for op in p.ops.iter().filter(|o| o[0] == 0) {
        m.exec(*op);
    }
    let n = p.threads as usize;
    let mut local: Vec<Vec<H>> = (0..=n).map(|_| vec![]).collect();
    let mut pool = vec![];
    for (i, h) in m.l.drain(..).enumerate() {
        let d = p.dist[i % 8] as usize;
        if d == n + 1 { pool.push(h) } else { local[d.min(n)].push(h) }
    }
    m.l = local.remove(0);
    let mut rest = vec![];
    let (mut txs, mut rxs) = (vec![], vec![]);
    for _ in 0..n {
        let (a, b) = mpsc::channel();
        txs.push(a);
        rxs.push(b);
    }
    txs.rotate_left(1);
    let pl: &[H] = &pool;
    // so that threads begin at about the same time, with nothing ordered by it
    let begun = std::sync::atomic::AtomicUsize::new(0);
    let begun = &begun;
    std::thread::scope(|s| {
        let mut js = vec![];
        for (i, ((l, tx), rx)) in local.into_iter().zip(txs).zip(rxs).enumerate() {
            let ops: Vec<[u8; 4]> = p.ops.iter().copied().filter(|o| o[0] as usize == i + 1).collect();
            js.push(s.spawn(move || {
                let mut t = T { l, pool: pl, send: Some(tx), recv: Some(rx) };
                begun.fetch_add(1, Relaxed);
                while begun.load(Relaxed) < n { std::thread::yield_now() }
                for op in ops {
                    t.exec(op);
                }
                t.send = None;
                (t.l, t.recv.unwrap())
            }));
        }
        for j in js {
            let (l, rx) = j.join().unwrap_or_else(|_| die("a call panics".into()));
            rest.extend(l);
            rest.push(H { lo: 0, len: 0, h: Hd::Wk(WeakSlice::new()) });
            LATE.with(|x| x.borrow_mut().push(rx));
        }
    });
    LATE.with(|x| {
        for rx in x.borrow_mut().drain(..) {
            rest.extend(rx.try_iter());
        }
    });
    m.l.extend(rest);
    m.l.extend(pool);
    for op in p.ops.iter().filter(|o| o[0] == AFTER) {
        m.exec(*op);
    }
    for h in m.l.drain(..) {
        view(&h);
        release(h);
    }
    for i in 0..lo as usize {
        if DROPS[i].load(Relaxed) != 1 {
            die(format!("item {} is never destroyed", i));
        }
    }
}

thread_local!(static LATE: std::cell::RefCell<Vec<mpsc::Receiver<H>>> = std::cell::RefCell::new(vec![]));

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "one" {
        let p = Prog::decode(&a[2], &a[3]).unwrap();
        println!("CASE 0 {}", p.encode());
        run(&p);
        println!("DONE");
        return;
    }
    let num = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, to, by) = (num(2), num(4), num(5));
    let mut i = num(3);
    let profs: Vec<usize> = a[6..].iter().map(|x| x.parse().unwrap()).collect();
    while i < to {
        let mut r = Rng(seed);
        r = Rng(r.next() ^ i.wrapping_mul(0xA24B_AED4_963E_E407));
        let f = profs[r.n(profs.len() as u64) as usize];
        let p = prog::generate(&mut r, f);
        println!("CASE {} {}", i, p.encode());
        run(&p);
        i += by;
    }
    println!("DONE");
}
