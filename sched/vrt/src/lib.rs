//! Controlled scheduler, happens-before clocks and a bounded weak-memory emulation.
//! One OS thread; the program's threads are coroutines. Every atomic step of the code under
//! test calls in here first, so that every interleaving of such steps can be produced.
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAXT: usize = 6;

#[derive(Clone, Default, Debug)]
pub struct Clock {
    pub vc: [u32; MAXT],
    pub view: Vec<u32>,
}

impl Clock {
    pub fn join(&mut self, o: &Clock) {
        for i in 0..MAXT {
            if o.vc[i] > self.vc[i] {
                self.vc[i] = o.vc[i];
            }
        }
        join_view(&mut self.view, &o.view);
    }
}

fn join_view(a: &mut Vec<u32>, b: &[u32]) {
    if a.len() < b.len() {
        a.resize(b.len(), 0);
    }
    for (x, y) in a.iter_mut().zip(b) {
        if *y > *x {
            *x = *y;
        }
    }
}

#[derive(Clone)]
struct Msg {
    val: u64,
    rel: Clock,
}

#[derive(Default)]
struct Loc {
    /// index of msgs[0] in the modification order
    base: u32,
    msgs: Vec<Msg>,
    sview: u32,
}

#[derive(Default)]
struct Th {
    cur: Clock,
    acq: Clock,
    relf: Option<Clock>,
    done: bool,
    in_call: bool,
    prio: i64,
    spin_loc: u32,
    spin_n: u32,
    run: u32,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Class {
    /// contents, destruction, memory (C14)
    Safety,
    /// overlap with exclusive access (C15)
    Excl,
    /// a must-grant, must-upgrade or must-be-destroyed failed (C16)
    Must,
    /// hang (C17)
    Hang,
    /// unordered accesses (C22)
    Race,
    /// panic inside a call
    Panic,
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub class: Class,
    pub msg: String,
    pub stale: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Strategy {
    Sparse,
    Random(u32),
    Pct,
    Explicit,
    /// fair, with random quanta
    Fair,
    /// one thread stops anywhere (one step in so many), the others only between calls
    Calls(u32),
}

pub struct Plan {
    pub seed: u64,
    pub strategy: Strategy,
    pub nthreads: usize,
    pub stale: bool,
    pub est_len: u32,
    pub switches: Vec<(u32, u32)>,
    pub choices: Vec<(u32, u32)>,
}

pub struct Rt {
    pub cur: usize,
    pub nthreads: usize,
    th: Vec<Th>,
    locs: Vec<Loc>,
    sview: Vec<u32>,
    pub steps: u32,
    pub loads: u32,
    pub fail: Option<Fail>,
    strategy: Strategy,
    stale: bool,
    stale_used: bool,
    seed: u64,
    preempt: Vec<u32>,
    quantum: u32,
    /// how often a waiting thread looks before it must let others run; 6, or once per schedule much more
    patience: u32,
    fine: usize,
    next: usize,
    pub switches: Vec<(u32, u32)>,
    pub choices: Vec<(u32, u32)>,
    xswitches: Vec<(u32, u32)>,
    xchoices: Vec<(u32, u32)>,
    xs: usize,
    xc: usize,
    pub nswitch: u32,
    pub preemptions: u32,
    yielders: Vec<*const Yielder<(), Y>>,
    pub arcs_live: i64,
    quarantine: Vec<(*mut u8, std::alloc::Layout)>,
    pub log: Option<Vec<String>>,
    parallel: bool,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Y {
    Step,
    Join,
    Fail,
}

struct Cellx(UnsafeCell<Option<Box<Rt>>>);
unsafe impl Sync for Cellx {}
static RT: Cellx = Cellx(UnsafeCell::new(None));
static EPOCH: AtomicU32 = AtomicU32::new(1);

/// The runtime of the case being executed. One OS thread only; callers do not keep the
/// reference across a step.
#[allow(clippy::mut_from_ref)]
pub fn rt() -> Option<&'static mut Rt> {
    unsafe { (*RT.0.get()).as_deref_mut() }
}

fn mix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rt {
    fn rnd(&mut self, n: u64) -> u64 {
        (mix(&mut self.seed) >> 11) % n
    }

    pub fn set_fail(&mut self, class: Class, msg: String) {
        if self.fail.is_none() {
            let stale = self.stale_used;
            self.fail = Some(Fail { class, msg, stale });
        }
    }

    pub fn is_stale(&self) -> bool {
        self.stale
    }

    pub fn now(&self) -> (u8, u32) {
        (self.cur as u8, self.th[self.cur].cur.vc[self.cur])
    }

    pub fn seen(&self, who: u8, ts: u32) -> bool {
        self.th[self.cur].cur.vc[who as usize] >= ts
    }

    pub fn set_in_call(&mut self, b: bool) {
        let c = self.cur;
        self.th[c].in_call = b;
    }

    pub fn in_call(&self) -> bool {
        self.th[self.cur].in_call
    }

    pub fn others_in_call(&self) -> bool {
        (1..=self.nthreads).any(|i| i != self.cur && self.th[i].in_call && !self.th[i].done)
    }

    pub fn clock(&mut self) -> Clock {
        let c = self.cur;
        self.tick();
        self.th[c].cur.clone()
    }

    pub fn join_clock(&mut self, o: &Clock) {
        let c = self.cur;
        self.th[c].cur.join(o);
    }

    fn tick(&mut self) {
        let c = self.cur;
        self.th[c].cur.vc[c] += 1;
    }

    fn runnable(&self) -> Vec<usize> {
        (1..=self.nthreads).filter(|&i| !self.th[i].done).collect()
    }

    /// Picks the thread to run after the current one stops for good (`finished`) or must yield.
    fn pick_other(&mut self) -> Option<usize> {
        let r: Vec<usize> = self.runnable().into_iter().filter(|&i| i != self.cur).collect();
        if r.is_empty() {
            return None;
        }
        let t = match self.strategy {
            Strategy::Explicit => match self.explicit_here() {
                Some(t) if r.contains(&t) => t,
                _ => *r.iter().find(|&&i| i > self.cur).unwrap_or(&r[0]),
            },
            Strategy::Pct => *r.iter().max_by_key(|&&i| self.th[i].prio).unwrap(),
            _ => {
                let k = self.rnd(r.len() as u64) as usize;
                r[k]
            }
        };
        Some(t)
    }

    fn explicit_here(&mut self) -> Option<usize> {
        while self.xs < self.xswitches.len() && self.xswitches[self.xs].0 < self.steps {
            self.xs += 1;
        }
        if self.xs < self.xswitches.len() && self.xswitches[self.xs].0 == self.steps {
            let t = self.xswitches[self.xs].1 as usize;
            self.xs += 1;
            return Some(t);
        }
        None
    }

    /// Decides, before the next step of the current thread, who goes on.
    fn decide(&mut self, loc: u32, load: bool) -> Option<usize> {
        self.steps += 1;
        let c = self.cur;
        self.th[c].run += 1;
        if load && loc != 0 && self.th[c].spin_loc == loc {
            self.th[c].spin_n += 1;
        } else {
            self.th[c].spin_loc = if load { loc } else { 0 };
            self.th[c].spin_n = 0;
        }
        let forced = self.th[c].spin_n >= self.patience || self.th[c].run > 1500 + self.patience;
        if self.steps == 6000 {
            self.strategy = Strategy::Fair;
            self.quantum = 1;
        }
        if self.steps > 60000 {
            let w = if self.th[c].spin_n > 0 { "waiting for a gate" } else { "retrying" };
            self.set_fail(Class::Hang, format!("no progress after 60000 steps under a fair schedule (thread {} {})", c, w));
            return None;
        }
        let want = match self.strategy {
            Strategy::Explicit => {
                if let Some(t) = self.explicit_here() {
                    if t != c && t <= self.nthreads && t > 0 && !self.th[t].done {
                        return Some(t);
                    }
                    return None;
                }
                false
            }
            Strategy::Sparse => {
                if self.preempt.last() == Some(&self.steps) {
                    self.preempt.pop();
                    true
                } else {
                    false
                }
            }
            Strategy::Random(k) => self.rnd(k as u64) == 0,
            Strategy::Calls(k) => {
                if self.fine == c { self.rnd(k as u64) == 0 } else { !self.th[c].in_call && self.rnd(2) == 0 }
            }
            Strategy::Pct => {
                if self.preempt.last() == Some(&self.steps) {
                    let n = self.preempt.len() as i64;
                    self.preempt.pop();
                    self.th[c].prio = -100 + n;
                    true
                } else {
                    false
                }
            }
            Strategy::Fair => {
                if self.quantum <= 1 {
                    self.quantum = 1 + self.rnd(60) as u32;
                    true
                } else {
                    self.quantum -= 1;
                    false
                }
            }
        };
        if want || forced {
            if forced && self.strategy == Strategy::Pct {
                let m = (1..=self.nthreads).map(|i| self.th[i].prio).min().unwrap();
                self.th[c].prio = m - 1;
            }
            if forced {
                self.th[c].spin_n = 0;
                self.th[c].run = 0;
                self.patience = 6;
            }
            let t = self.pick_other();
            if !forced && self.strategy == Strategy::Pct {
                // only if somebody else now has the highest priority
                if let Some(t) = t {
                    if self.th[t].prio < self.th[c].prio {
                        return None;
                    }
                }
            }
            return t;
        }
        None
    }

    // ------------------------------------------------------------ memory model
    fn loc(&mut self, id: &AtomicU32, cur: u64) -> usize {
        let e = EPOCH.load(Ordering::Relaxed) << 16;
        let v = id.load(Ordering::Relaxed);
        if v & 0xFFFF_0000 == e && v & 0xFFFF != 0 {
            return (v & 0xFFFF) as usize;
        }
        if self.locs.is_empty() {
            self.locs.push(Loc::default());
        }
        let n = self.locs.len();
        assert!(n < 0xFFFF);
        self.locs.push(Loc { base: 0, msgs: vec![Msg { val: cur, rel: Clock::default() }], sview: 0 });
        id.store(e | n as u32, Ordering::Relaxed);
        n
    }

    fn view_of(v: &[u32], l: usize) -> u32 {
        v.get(l).copied().unwrap_or(0)
    }

    fn set_view(v: &mut Vec<u32>, l: usize, i: u32) {
        if v.len() <= l {
            v.resize(l + 1, 0);
        }
        if v[l] < i {
            v[l] = i;
        }
    }

    fn acquire(&mut self, m: &Clock, ord: Ordering) {
        let c = self.cur;
        match ord {
            Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst => self.th[c].cur.join(m),
            _ => self.th[c].acq.join(m),
        }
    }

    fn read(&mut self, l: usize, ord: Ordering, back: u32) -> u64 {
        let c = self.cur;
        let n = self.locs[l].msgs.len();
        let k = n - 1 - (back as usize).min(n - 1);
        let idx = self.locs[l].base + k as u32;
        let m = self.locs[l].msgs[k].clone();
        if self.stale {
            Self::set_view(&mut self.th[c].cur.view, l, idx);
        }
        self.acquire(&m.rel, ord);
        m.val
    }

    fn append(&mut self, l: usize, val: u64, ord: Ordering, rmw: bool) {
        let c = self.cur;
        self.tick();
        let idx = self.locs[l].base + self.locs[l].msgs.len() as u32;
        let mut rel = match ord {
            Ordering::Release | Ordering::AcqRel | Ordering::SeqCst => {
                if self.stale {
                    Self::set_view(&mut self.th[c].cur.view, l, idx);
                }
                self.th[c].cur.clone()
            }
            _ => self.th[c].relf.clone().unwrap_or_default(),
        };
        if rmw {
            let p = self.locs[l].msgs.last().unwrap().rel.clone();
            rel.join(&p);
        }
        if self.stale {
            Self::set_view(&mut self.th[c].cur.view, l, idx);
            Self::set_view(&mut rel.view, l, idx);
            if ord == Ordering::SeqCst {
                self.locs[l].sview = idx;
                Self::set_view(&mut self.sview, l, idx);
            }
            if self.locs[l].msgs.len() >= 8 {
                self.locs[l].msgs.remove(0);
                self.locs[l].base += 1;
            }
        } else {
            self.locs[l].base += self.locs[l].msgs.len() as u32;
            self.locs[l].msgs.clear();
        }
        self.locs[l].msgs.push(Msg { val, rel });
    }

    fn choice(&mut self, max: u32, num: u64, den: u64) -> u32 {
        // how far back a load reads, or whether a weak exchange fails spuriously
        self.loads += 1;
        if max == 0 {
            return 0;
        }
        let k = if self.strategy == Strategy::Explicit {
            while self.xc < self.xchoices.len() && self.xchoices[self.xc].0 < self.loads {
                self.xc += 1;
            }
            if self.xc < self.xchoices.len() && self.xchoices[self.xc].0 == self.loads { self.xchoices[self.xc].1 } else { 0 }
        } else if self.rnd(den) < num {
            1 + self.rnd(max as u64) as u32
        } else {
            0
        };
        let k = k.min(max);
        if k > 0 {
            let l = self.loads;
            self.choices.push((l, k));
        }
        k
    }

    fn sc_fence(&mut self) {
        let c = self.cur;
        if self.stale {
            join_view(&mut self.th[c].cur.view, &self.sview);
            let v = std::mem::take(&mut self.th[c].cur.view);
            join_view(&mut self.sview, &v);
            self.th[c].cur.view = v;
        }
    }
}

// ---------------------------------------------------------------- steps
/// A scheduling point. `loc` is nonzero for an atomic location.
fn point(loc: u32, load: bool) {
    let Some(r) = rt() else { return };
    if r.fail.is_some() {
        park();
    }
    if !r.parallel || r.cur == 0 {
        return;
    }
    r.tick();
    let c = r.cur;
    if let Some(t) = r.decide(loc, load) {
        r.next = t;
        r.nswitch += 1;
        r.preemptions += 1;
        let s = r.steps;
        r.switches.push((s, t as u32));
        r.th[t].run = 0;
        let y = r.yielders[c];
        unsafe { (*y).suspend(Y::Step) };
    } else if r.fail.is_some() {
        park();
    }
}

/// Gives the case up: the coroutine is never resumed.
pub fn park() -> ! {
    loop {
        let Some(r) = rt() else { std::process::abort() };
        let y = r.yielders[r.cur];
        unsafe { (*y).suspend(Y::Fail) };
    }
}

pub fn step() {
    point(0, false);
}

pub fn spin_hint() {
    let Some(r) = rt() else { return };
    if !r.parallel || r.cur == 0 {
        return;
    }
    let c = r.cur;
    if r.patience > 6 {
        r.patience -= 1;
    } else {
        r.th[c].run = 100_000;
    }
    point(0, false);
}

pub fn fail(class: Class, msg: String) -> ! {
    if let Some(r) = rt() {
        r.set_fail(class, msg);
        park();
    }
    panic!("{}", msg)
}

// ---------------------------------------------------------------- atomics
pub fn a_load(id: &AtomicU32, cur: impl Fn() -> u64, ord: Ordering) -> u64 {
    let Some(r) = rt() else { return cur() };
    let l = r.loc(id, cur());
    point(l as u32, true);
    let r = rt().unwrap();
    let l = r.loc(id, cur());
    let mut back = 0;
    if r.stale && r.parallel && r.cur != 0 && ord != Ordering::SeqCst {
        let n = r.locs[l].msgs.len() as u32;
        let top = r.locs[l].base + n - 1;
        let min = Rt::view_of(&r.th[r.cur].cur.view, l).max(r.locs[l].base);
        let max = top - min.min(top);
        back = r.choice(max, 1, 3);
        if back > 0 {
            r.stale_used = true;
        }
    }
    r.read(l, ord, back)
}

pub fn a_store(id: &AtomicU32, cur: impl Fn() -> u64, val: u64, ord: Ordering, put: impl FnOnce(u64)) {
    let Some(r) = rt() else { return put(val) };
    let l = r.loc(id, cur());
    point(l as u32, false);
    let r = rt().unwrap();
    let l = r.loc(id, cur());
    r.append(l, val, ord, false);
    put(val);
}

/// `f` gives the new value, or None for a failed exchange.
pub fn a_rmw(id: &AtomicU32, cur: impl Fn() -> u64, ok: Ordering, no: Ordering, weak: bool, f: impl FnOnce(u64) -> Option<u64>, put: impl FnOnce(u64)) -> Result<u64, u64> {
    let Some(r) = rt() else {
        let c = cur();
        return match f(c) {
            Some(v) => {
                put(v);
                Ok(c)
            }
            None => Err(c),
        };
    };
    let l = r.loc(id, cur());
    point(l as u32, false);
    let r = rt().unwrap();
    let c = cur();
    let l = r.loc(id, c);
    if weak && r.parallel && r.cur != 0 && r.choice(1, 1, 40) == 1 {
        r.read(l, no, 0);
        return Err(c);
    }
    match f(c) {
        Some(v) => {
            r.read(l, ok, 0);
            r.append(l, v, ok, true);
            put(v);
            Ok(c)
        }
        None => {
            r.read(l, no, 0);
            if no == Ordering::SeqCst && r.stale {
                let top = r.locs[l].base + r.locs[l].msgs.len() as u32 - 1;
                Rt::set_view(&mut r.sview, l, top);
            }
            Err(c)
        }
    }
}

pub fn a_fence(ord: Ordering) {
    point(0, false);
    let Some(r) = rt() else { return };
    let c = r.cur;
    match ord {
        Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst => {
            let a = std::mem::take(&mut r.th[c].acq);
            r.th[c].cur.join(&a);
        }
        _ => {}
    }
    if ord == Ordering::SeqCst {
        r.sc_fence();
    }
    match ord {
        Ordering::Release | Ordering::AcqRel | Ordering::SeqCst => {
            r.tick();
            let k = r.th[c].cur.clone();
            r.th[c].relf = Some(k);
        }
        _ => {}
    }
}

// ---------------------------------------------------------------- plain objects
/// When an object was made and by whom it was last looked at.
pub struct Meta {
    epoch: u32,
    by: u8,
    at: u32,
    reads: [std::cell::Cell<u32>; MAXT],
}

impl Meta {
    pub fn new() -> Self {
        let (by, at, epoch) = match rt() {
            Some(r) => {
                let (b, a) = r.now();
                (b, a, EPOCH.load(Ordering::Relaxed))
            }
            None => (0, 0, 0),
        };
        Meta { epoch, by, at, reads: Default::default() }
    }

    pub fn seen(&self, what: &str) {
        let Some(r) = rt() else { return };
        if self.epoch == EPOCH.load(Ordering::Relaxed) && !r.seen(self.by, self.at) {
            fail(Class::Race, format!("{} used by thread {} without being ordered after its creation by thread {}", what, r.cur, self.by));
        }
    }

    pub fn read(&self, what: &str) {
        let Some(r) = rt() else { return };
        if self.epoch != EPOCH.load(Ordering::Relaxed) {
            return;
        }
        if !r.seen(self.by, self.at) {
            fail(Class::Race, format!("{} read by thread {} without being ordered after its creation by thread {}", what, r.cur, self.by));
        }
        let (c, t) = r.now();
        self.reads[c as usize].set(t);
    }

    pub fn write(&self, what: &str) {
        let Some(r) = rt() else { return };
        if self.epoch != EPOCH.load(Ordering::Relaxed) {
            return;
        }
        if !r.seen(self.by, self.at) {
            fail(Class::Race, format!("{} destroyed by thread {} without being ordered after its creation by thread {}", what, r.cur, self.by));
        }
        for i in 0..MAXT {
            if !r.seen(i as u8, self.reads[i].get()) {
                fail(Class::Race, format!("{} destroyed by thread {} without being ordered after a read by thread {}", what, r.cur, i));
            }
        }
    }
}

impl Default for Meta {
    fn default() -> Self {
        Self::new()
    }
}

/// Memory of a bookkeeping object is kept until the end of the case, so that later uses are seen.
pub unsafe fn quarantine(p: *mut u8, l: std::alloc::Layout) {
    match rt() {
        Some(r) => r.quarantine.push((p, l)),
        None => std::alloc::dealloc(p, l),
    }
}

// ---------------------------------------------------------------- running a case
pub struct Outcome {
    pub fail: Option<Fail>,
    pub steps: u32,
    pub preemptions: u32,
    pub switches: Vec<(u32, u32)>,
    pub choices: Vec<(u32, u32)>,
    pub log: Vec<String>,
}

const STACK: usize = 256 * 1024;
static STACKS: StackPool = StackPool(UnsafeCell::new(Vec::new()));
struct StackPool(UnsafeCell<Vec<DefaultStack>>);
unsafe impl Sync for StackPool {}

fn stack() -> DefaultStack {
    unsafe { (*STACKS.0.get()).pop() }.unwrap_or_else(|| DefaultStack::new(STACK).unwrap())
}

pub fn log(f: impl FnOnce() -> String) {
    if let Some(r) = rt() {
        if r.log.is_some() {
            let s = format!("[{} step {}] {}", r.cur, r.steps, f());
            r.log.as_mut().unwrap().push(s);
        }
    }
}

/// Runs `setup`, then the threads under the scheduler, then `after`, which all get `ctx`.
pub fn run<C: 'static>(plan: Plan, ctx: Box<C>, logging: bool, setup: fn(&mut C), thread: fn(*mut C, usize), after: fn(&mut C)) -> (Outcome, Option<Box<C>>) {
    let e = EPOCH.load(Ordering::Relaxed);
    EPOCH.store(if e >= 0xFFFE { 1 } else { e + 1 }, Ordering::Relaxed);
    let mut seed = plan.seed;
    let n = plan.nthreads;
    let mut preempt = Vec::new();
    let mut prios: Vec<i64> = (0..=n as i64).collect();
    match plan.strategy {
        Strategy::Sparse | Strategy::Pct => {
            let k = 1 + mix(&mut seed) % 4;
            for _ in 0..k {
                preempt.push(1 + (mix(&mut seed) % plan.est_len.max(1) as u64) as u32);
            }
            preempt.sort_by(|a, b| b.cmp(a));
            preempt.dedup();
            for i in (1..=n).rev() {
                let j = 1 + (mix(&mut seed) as usize) % i;
                prios.swap(i, j);
            }
        }
        _ => {}
    }
    let fine = if let Strategy::Calls(_) = plan.strategy { 1 + (mix(&mut seed) as usize) % n.max(1) } else { 0 };
    // loops that give up waiting after some rounds need somebody who really waits
    let patience = match (plan.strategy, mix(&mut seed) % 32) { (Strategy::Explicit, _) | (_, 0) => 2500, (_, 1) => 300, (_, 2 | 3) => 40, _ => 6 };
    let mut th: Vec<Th> = (0..=n).map(|_| Th::default()).collect();
    for i in 0..=n {
        th[i].prio = prios[i];
        th[i].cur.vc[i] = 1;
    }
    let r = Rt {
        cur: 0,
        nthreads: n,
        th,
        locs: vec![],
        sview: vec![],
        steps: 0,
        loads: 0,
        fail: None,
        strategy: plan.strategy,
        stale: plan.stale,
        stale_used: false,
        seed,
        preempt,
        quantum: 1,
        patience,
        fine,
        next: 0,
        switches: vec![],
        choices: vec![],
        xswitches: plan.switches,
        xchoices: plan.choices,
        xs: 0,
        xc: 0,
        nswitch: 0,
        preemptions: 0,
        yielders: vec![std::ptr::null(); n + 1],
        arcs_live: 0,
        quarantine: vec![],
        log: if logging { Some(vec![]) } else { None },
        parallel: false,
    };
    unsafe { *RT.0.get() = Some(Box::new(r)) };
    let cp = Box::into_raw(ctx);
    let mut cos: Vec<Option<Coroutine<(), Y, (), DefaultStack>>> = Vec::new();
    for i in 0..=n {
        cos.push(Some(Coroutine::with_stack(stack(), move |y: &Yielder<(), Y>, _| {
            rt().unwrap().yielders[i] = y as *const _;
            if i == 0 {
                setup(unsafe { &mut *cp });
                y.suspend(Y::Join);
                after(unsafe { &mut *cp });
            } else {
                thread(cp, i);
                // the end of the thread's function is a scheduling point of its own
            }
        })));
    }
    let ok = drive(&mut cos, n);
    let r = unsafe { (*RT.0.get()).take().unwrap() };
    let out = Outcome { fail: r.fail.clone(), steps: r.steps, preemptions: r.preemptions, switches: r.switches.clone(), choices: r.choices.clone(), log: r.log.clone().unwrap_or_default() };
    let ctx = if ok {
        for c in cos.into_iter().flatten() {
            unsafe { (*STACKS.0.get()).push(c.into_stack()) };
        }
        for (p, l) in &r.quarantine {
            unsafe { std::alloc::dealloc(*p, *l) };
        }
        Some(unsafe { Box::from_raw(cp) })
    } else {
        // left as it is: suspended for good
        std::mem::forget(cos);
        std::mem::forget(r);
        None
    };
    (out, ctx)
}

fn drive(cos: &mut [Option<Coroutine<(), Y, (), DefaultStack>>], n: usize) -> bool {
    let go = |cos: &mut [Option<Coroutine<(), Y, (), DefaultStack>>], i: usize| -> Option<CoroutineResult<Y, ()>> {
        rt().unwrap().cur = i;
        let r = cos[i].as_mut().unwrap().resume(());
        if rt().unwrap().fail.is_some() { None } else { Some(r) }
    };
    match go(cos, 0) {
        Some(CoroutineResult::Yield(Y::Join)) => {}
        _ => return false,
    }
    {
        let r = rt().unwrap();
        r.tick();
        let k = r.th[0].cur.clone();
        for i in 1..=n {
            r.th[i].cur.join(&k);
        }
        r.parallel = n > 0;
        r.cur = 0;
        if n > 0 {
            r.next = r.pick_other().unwrap();
            let t = r.next as u32;
            r.switches.push((0, t));
        }
    }
    let mut left = n;
    while left > 0 {
        let i = rt().unwrap().next;
        match go(cos, i) {
            None => return false,
            Some(CoroutineResult::Yield(_)) => {}
            Some(CoroutineResult::Return(())) => {
                left -= 1;
                let r = rt().unwrap();
                r.th[i].done = true;
                r.cur = i;
                if left > 0 {
                    r.next = r.pick_other().unwrap();
                    let (s, t) = (r.steps, r.next as u32);
                    r.th[t as usize].run = 0;
                    r.switches.push((s, t));
                }
            }
        }
    }
    {
        let r = rt().unwrap();
        r.parallel = false;
        for i in 1..=n {
            let k = r.th[i].cur.clone();
            r.th[0].cur.join(&k);
        }
    }
    matches!(go(cos, 0), Some(CoroutineResult::Return(())))
}
