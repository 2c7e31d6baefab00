//! Reference model and oracles; interprets a list of `[opcode, a, b, c]` against a `Machine`.
use crate::kinds::KindInfo;
use crate::machine::{Low, Machine, Out, View, Write, HK};
use crate::{ledger, track};

pub const fn p(n: u32) -> u32 { 1 << n }
pub const ALL: u32 = !0;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Case { pub arc: bool, pub kind: u8, pub profile: u8, pub ops: Vec<[u8; 4]> }
impl Case {
    pub fn encode(&self) -> String {
        let mut s = format!("v1 {} {} {} ", if self.arc { "arc" } else { "rc" }, self.kind, self.profile);
        for o in &self.ops { for b in o { s.push_str(&format!("{b:02x}")) } }
        s
    }
    pub fn decode(s: &str) -> Option<Case> {
        let mut it = s.split_whitespace();
        if it.next()? != "v1" { return None }
        let arc = it.next()? == "arc";
        let kind = it.next()?.parse().ok()?;
        let profile = it.next()?.parse().ok()?;
        let hex = it.next().unwrap_or("");
        let b: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
        Some(Case { arc, kind, profile, ops: b.chunks_exact(4).map(|c| [c[0], c[1], c[2], c[3]]).collect() })
    }
}

macro_rules! stats { ($($n:ident),*) => {
    #[allow(non_camel_case_types)] #[derive(Clone, Copy)] pub enum St { $($n),* }
    pub const STATS: &[&str] = &[$(stringify!($n)),*];
} }
stats!(new_slice, derive, partial_destroy, drop_with_overlap, getmut_ok, getmut_ok_with_relatives, getmut_refused_strong, getmut_refused_weak, getmut_either,
    intomut_ok, intomut_ok_with_weak, intomut_ok_after_derive, intomut_refused, intomut_either, to_shared, reconverted, upgrade_ok, upgrade_none, upgrade_killed, upgrade_either,
    downgrade, weak_clone, excl_split, excl_write, excl_clone, parts_made, parts_front, parts_back, parts_both_ends, parts_clone, parts_surplus, parts_early_drop,
    iter_front, iter_back, iter_split, iter_early_drop, iter_bulk, armed_fired, bad_call, repeat, crowd, buffer_freed, assign, foreign, ops, inner_calls, inner_upgrade_ok, inner_upgrade_none, inner_getmut_ok, inner_getmut_refused, inner_intomut_ok, inner_intomut_refused, inner_drop, inner_derive);
pub const NST: usize = STATS.len();

#[derive(Debug, Clone)]
pub struct Fail { pub tag: String, pub msg: String, pub at: usize }
pub struct Report { pub clean: bool, pub nontrivial: Option<bool>, pub fail: Option<Fail>, pub stats: [u32; NST], pub trace: Vec<String> }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Node { tree: u32, start: u32, len: u32, depth: u8, path: u64 }
impl Node {
    fn left(self) -> Node { if self.len == 0 { self } else { Node { len: self.len / 2, depth: self.depth + 1, path: self.path << 1, ..self } } }
    fn right(self) -> Node {
        if self.len <= 1 { self } else { Node { start: self.start + self.len / 2, len: self.len - self.len / 2, depth: self.depth + 1, path: self.path << 1 | 1, ..self } }
    }
    fn encloses(self, o: Node) -> bool { self.tree == o.tree && self.depth <= o.depth && o.path >> (o.depth - self.depth) == self.path }
    fn related(self, o: Node) -> bool { self.encloses(o) || o.encloses(self) }
    fn overlaps(self, o: Node) -> bool { self.tree == o.tree && self.start < o.start + o.len && o.start < self.start + self.len && self.len > 0 && o.len > 0 }
    fn leaves(self, k: usize) -> Vec<Node> {
        if k == 1 { return vec![self] }
        let mut v = self.left().leaves(k / 2);
        v.extend(self.right().leaves(k / 2));
        v
    }
}
#[derive(Clone, Debug)]
enum MH {
    Sh(Node, u32),
    Weak(Option<(Node, bool)>),
    Parts { root: Node, leaves: Vec<Node>, f: usize, b: usize },
    Mut { buf: usize, s: usize, e: usize, may: bool },
    Iter { buf: usize, s: usize, e: usize, may: bool },
    MutParts { buf: usize, leaves: Vec<(usize, usize)>, f: usize, b: usize, may: bool },
}
struct Buf { cells: Vec<u32>, held: Vec<u32>, addr: usize, serial: Option<u64>, freed: bool }
struct Tree { buf: usize, may: bool, converted: bool, base: usize, derived: bool }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Exp { Must, MustNot, Either }

pub struct Cfg { pub props: u32, pub trace: bool, pub quick_views: bool, pub record: bool }

pub struct Runner<'a> {
    m: &'a mut dyn Machine,
    info: KindInfo,
    cfg: &'a Cfg,
    slots: Vec<Option<MH>>,
    bufs: Vec<Buf>,
    trees: Vec<Tree>,
    pocket: Vec<u32>,
    leaked: Vec<u32>,
    armed: bool,
    fired: bool,
    quiet: bool,
    hint: usize,
    stop: bool,
    at: usize,
    out: Out,
    view: View,
    table: &'static [u8; 256],
    pub fail: Option<Fail>,
    pub stats: [u32; NST],
    trace: Vec<String>,
}

const MAXH: usize = 16;
fn parts(b: u8) -> usize { 1 << if b >= 248 { 7 + b % 4 } else { b % 7 } }
const SIZES: [u8; 32] = [0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 8, 9, 10, 11, 12, 13, 15, 16, 16, 17, 20, 23, 31, 32, 33, 5, 7, 6, 4];

// high-level operations
macro_rules! ops { ($($n:ident),*) => {
    #[allow(non_camel_case_types, dead_code)] #[derive(Clone, Copy, PartialEq, Debug)] #[repr(u8)] enum Op { $($n),* }
    const OPS: &[Op] = &[$(Op::$n),*];
} }
ops!(Nop, NewSh, NewMut, WeakNew, CloneSh, CloneWeak, CloneParts, CloneMut, Left, Right, SplitL, SplitR, MSplitL, MSplitR, ShParts, MutParts,
    PNext, PBack, PNth, PCount, PLast, PCollect, Downgrade, Upgrade, GetMut, IntoMut, Immut, Write, IntoIter, INext, IBack, INth, IBulk, ISplit,
    DropSh, DropWeak, DropAny, DropExcl, Assign, DropPocket, Repeat, Isolate, Arm, BadParts, BadSplit, ArmClone, PanicIter, Deep, Crowd);

type W = &'static [(Op, u8)];
use Op::*;
const BASE: W = &[(NewSh, 4), (NewMut, 2), (WeakNew, 1), (CloneSh, 4), (CloneWeak, 2), (CloneParts, 2), (CloneMut, 1), (Left, 8), (Right, 8), (SplitL, 3), (SplitR, 3),
    (MSplitL, 3), (MSplitR, 3), (ShParts, 3), (MutParts, 2), (PNext, 5), (PBack, 5), (PNth, 1), (PCount, 1), (PLast, 1), (PCollect, 1), (Downgrade, 6), (Upgrade, 6),
    (GetMut, 6), (IntoMut, 6), (Immut, 4), (Write, 4), (IntoIter, 2), (INext, 3), (IBack, 3), (INth, 1), (IBulk, 1), (ISplit, 2), (DropSh, 12), (DropWeak, 3), (DropAny, 4),
    (DropExcl, 2), (Assign, 2), (DropPocket, 1), (Repeat, 1), (Isolate, 3), (BadParts, 1), (BadSplit, 1), (Deep, 4), (Crowd, 1)];
const SHARED: W = &[(NewSh, 3), (CloneSh, 5), (CloneWeak, 2), (Left, 10), (Right, 10), (SplitL, 3), (SplitR, 3), (ShParts, 3), (PNext, 4), (PBack, 4), (PCount, 1), (CloneParts, 1), (PCollect, 1),
    (Downgrade, 8), (Upgrade, 8), (GetMut, 10), (IntoMut, 8), (Immut, 4), (DropSh, 18), (DropWeak, 5), (DropAny, 3), (Isolate, 6), (Deep, 6), (Assign, 2), (Write, 1), (DropExcl, 1), (WeakNew, 1), (Crowd, 1)];
const LIFE: W = &[(NewSh, 4), (NewMut, 1), (CloneSh, 4), (Left, 10), (Right, 10), (SplitL, 3), (SplitR, 3), (ShParts, 3), (PNext, 4), (PBack, 4), (PCount, 1), (CloneParts, 2), (PCollect, 1), (PLast, 1), (PNth, 1),
    (Downgrade, 4), (Upgrade, 5), (GetMut, 2), (IntoMut, 5), (Immut, 4), (DropSh, 18), (DropWeak, 3), (DropAny, 5), (Deep, 5), (Assign, 4), (Write, 3), (MSplitL, 3), (MSplitR, 3), (MutParts, 2),
    (IntoIter, 3), (INext, 3), (IBack, 3), (INth, 1), (IBulk, 2), (ISplit, 3), (DropPocket, 2), (CloneMut, 1), (DropExcl, 4), (Repeat, 3), (Isolate, 2), (BadParts, 1), (Crowd, 1)];
const CONV: W = &[(NewSh, 4), (NewMut, 3), (CloneSh, 2), (Left, 6), (Right, 6), (SplitL, 3), (SplitR, 3), (Deep, 4), (ShParts, 1), (PNext, 2), (PBack, 2), (Downgrade, 5), (Upgrade, 4), (GetMut, 3), (IntoMut, 16), (Immut, 12),
    (Isolate, 6), (Write, 6), (MSplitL, 4), (MSplitR, 4), (DropSh, 12), (DropWeak, 2), (DropAny, 2), (DropExcl, 2), (CloneMut, 1), (Assign, 2)];
const EXCL: W = &[(NewSh, 1), (NewMut, 4), (MSplitL, 10), (MSplitR, 10), (Write, 18), (CloneMut, 4), (MutParts, 4), (PNext, 6), (PBack, 6), (PNth, 1), (PCount, 1), (PCollect, 1), (IntoIter, 4), (INext, 4), (IBack, 4), (ISplit, 4),
    (IBulk, 1), (DropExcl, 8), (Assign, 4), (Immut, 3), (IntoMut, 6), (Left, 2), (Right, 2), (DropSh, 2), (DropPocket, 2), (GetMut, 2)];
const PARTS: W = &[(NewSh, 4), (NewMut, 3), (Left, 2), (Right, 2), (MSplitL, 1), (MSplitR, 1), (ShParts, 8), (MutParts, 6), (PNext, 24), (PBack, 24), (PNth, 4), (PCount, 2), (PLast, 2), (PCollect, 4), (CloneParts, 8), (GetMut, 4), (IntoMut, 4),
    (Immut, 2), (Write, 3), (DropSh, 8), (DropAny, 4), (DropExcl, 4), (Downgrade, 2), (Upgrade, 2), (BadParts, 3), (Assign, 2), (CloneSh, 1)];
const ITER: W = &[(NewMut, 5), (NewSh, 1), (IntoMut, 3), (MSplitL, 2), (MSplitR, 2), (IntoIter, 8), (INext, 16), (IBack, 16), (INth, 4), (IBulk, 4), (ISplit, 14), (BadSplit, 3), (Write, 6), (DropExcl, 8), (Assign, 3), (DropPocket, 3), (Immut, 1), (DropSh, 1)];
const PANIC: W = &[(NewSh, 4), (NewMut, 2), (CloneSh, 3), (CloneMut, 4), (Left, 8), (Right, 8), (Deep, 3), (SplitL, 2), (SplitR, 2), (MSplitL, 3), (MSplitR, 3), (ShParts, 2), (MutParts, 2), (PNext, 4), (PBack, 4), (PCount, 1), (CloneParts, 1), (Downgrade, 3), (Upgrade, 3),
    (GetMut, 2), (IntoMut, 4), (Immut, 2), (Write, 2), (IntoIter, 3), (INext, 3), (IBack, 2), (ISplit, 2), (IBulk, 1), (DropSh, 16), (DropAny, 4), (DropExcl, 6), (Assign, 4), (DropPocket, 2), (Arm, 10), (ArmClone, 5), (PanicIter, 3), (BadParts, 3), (BadSplit, 2)];
const WEAK: W = &[(NewSh, 3), (CloneSh, 3), (Left, 8), (Right, 8), (Deep, 5), (SplitL, 2), (SplitR, 2), (ShParts, 2), (PNext, 3), (PBack, 3), (Downgrade, 16), (CloneWeak, 3), (Upgrade, 22), (DropWeak, 6), (DropSh, 20), (DropAny, 2), (GetMut, 5),
    (IntoMut, 8), (Immut, 5), (Isolate, 4), (WeakNew, 1), (Assign, 3), (MSplitL, 1), (MSplitR, 1), (DropExcl, 1), (Crowd, 1)];
pub const PROFILES: &[(&str, W)] = &[("base", BASE), ("shared", SHARED), ("life", LIFE), ("conv", CONV), ("excl", EXCL), ("parts", PARTS), ("iter", ITER), ("panic", PANIC), ("weak", WEAK)];
const fn table(w: W) -> [u8; 256] {
    let mut sum = 0usize; let mut i = 0;
    while i < w.len() { sum += w[i].1 as usize; i += 1 }
    let mut t = [0u8; 256];
    // byte 0 stays Nop, so that shrinking towards zero simplifies
    let mut b = 1; let mut acc = 0usize; i = 0;
    while b < 256 {
        while i + 1 < w.len() && (acc + w[i].1 as usize) * 255 <= (b - 1) * sum { acc += w[i].1 as usize; i += 1 }
        t[b] = w[i].0 as u8; b += 1;
    }
    t
}
static TABLES: [[u8; 256]; 9] = [table(BASE), table(SHARED), table(LIFE), table(CONV), table(EXCL), table(PARTS), table(ITER), table(PANIC), table(WEAK)];

pub const VIEWS: u8 = 100;
pub const BIG: u8 = 101;
pub const REENT: u8 = 102;
pub const COST: u8 = 103;
pub fn run_case(m: &mut dyn Machine, case: &Case, cfg: &Cfg) -> Report {
    ledger::reset();
    if case.profile >= 100 {
        let (mut trace, mut stats) = (vec![], [0; NST]);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match case.profile {
            VIEWS => crate::views::run(case.arc, &case.ops),
            BIG => crate::big::run(case.arc, &case.ops),
            COST => crate::cost::run(case.arc, case.kind, &case.ops, if cfg.trace { Some(&mut trace) } else { None }),
            _ => crate::reent::run(case.arc, &case.ops, if cfg.trace { Some(&mut trace) } else { None }).map(|n| {
                for (i, n) in n.iter().enumerate() { stats[St::inner_calls as usize + i] = *n }
                n[0] > 0
            }),
        }));
        let trace2 = std::mem::take(&mut trace);
        let tag = match case.profile { VIEWS => "views", BIG => "counts", COST => "cost", _ => "reentry" };
        let fail = |msg: String| Report { clean: true, nontrivial: Some(false), fail: Some(Fail { tag: tag.into(), msg, at: 0 }), stats: [0; NST], trace: trace2.clone() };
        return match r {
            Ok(Ok(nt)) => Report { clean: true, nontrivial: Some(nt), fail: None, stats, trace: trace2 },
            Ok(Err(e)) => fail(e),
            Err(_) => fail(format!("a legal call panicked: {}", crate::machine::LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut())))),
        };
    }
    if track::on() { track::reset() }
    let info = m.info();
    let mut r = Runner {
        m, info, cfg, slots: vec![], bufs: vec![], trees: vec![], pocket: vec![], leaked: vec![], armed: false, fired: false, quiet: false, hint: 0, stop: false,
        at: 0, out: Out::default(), view: View::default(), table: &TABLES[case.profile as usize % 9], fail: None, stats: [0; NST], trace: vec![],
    };
    for (i, o) in case.ops.iter().enumerate() {
        r.at = i;
        r.step(*o);
        if r.fail.is_some() || r.stop { break }
    }
    if r.fail.is_none() && !r.stop { r.finish(case.ops.last().map_or(0, |o| o[3] as usize)); }
    let clean = r.fail.is_none() && !r.stop;
    let rep = Report { clean, nontrivial: None, fail: r.fail.take(), stats: r.stats, trace: std::mem::take(&mut r.trace) };
    if clean { m.clear() }
    rep
}

impl<'a> Runner<'a> {
    fn st(&mut self, s: St) { self.stats[s as usize] += 1 }
    fn bad(&mut self, tag: &str, mask: u32, msg: String) {
        let mut mask = mask;
        if self.info.zst { mask |= p(13) }
        if self.fired { mask |= p(18) }
        if mask & self.cfg.props != 0 {
            if self.fail.is_none() { self.fail = Some(Fail { tag: tag.into(), msg, at: self.at }); }
        } else { self.st(St::foreign); if self.cfg.trace { self.trace.push(format!("    (foreign) {tag}: {msg}")) } }
    }
    fn slot(&mut self) -> usize {
        if let Some(i) = self.slots[self.hint..].iter().position(|s| s.is_none()) { return self.hint + i }
        self.slots.push(None);
        self.slots.len() - 1
    }
    fn live(&self) -> usize { self.slots.iter().flatten().count() }
    fn pick(&self, a: u8, f: impl Fn(&MH) -> bool) -> Option<usize> {
        let c = self.slots.iter().flatten().filter(|h| f(h)).count();
        if c == 0 { return None }
        let mut k = a as usize % c;
        for (i, h) in self.slots.iter().enumerate() {
            if let Some(h) = h { if f(h) { if k == 0 { return Some(i) } k -= 1 } }
        }
        None
    }
    fn exec(&mut self, low: Low) {
        if self.cfg.trace { self.trace.push(format!("#{} {:?}", self.at, low)) }
        if self.cfg.record { use std::io::Write; let l = format!("L {}\n", low.ser()); std::io::stdout().write_all(l.as_bytes()).unwrap(); }
        self.st(St::ops);
        let mut out = std::mem::take(&mut self.out);
        let before = ledger::with(|l| l.fired);
        self.m.exec(&low, &mut out);
        if self.cfg.trace { self.trace.push(format!("    -> some={} n={} toks={:?} panic={:?}", out.some, out.n, out.toks, out.panic)) }
        let after = ledger::with(|l| l.fired);
        if after && !before { self.fired = true; self.armed = ledger::with(|l| l.armed_drop.is_some()); self.st(St::armed_fired); }
        self.out = out;
    }
    fn mask_of(h: &MH) -> u32 {
        match h { MH::Sh(_, m) => p(1) | m, MH::Weak(_) => p(7), MH::Parts { .. } => p(10) | p(1), MH::Mut { .. } => p(9), MH::Iter { .. } => p(11), MH::MutParts { .. } => p(10) | p(9) }
    }
    fn expect_no_panic(&mut self, mask: u32) -> bool {
        if let Some(m) = self.out.panic.clone() {
            if self.fired && m.starts_with(ledger::ARMED) { return false }
            self.bad("panic", ALL, format!("a legal call panicked: {m}"));
            let _ = mask; self.stop = true;
            return false;
        }
        true
    }
    fn ranges(h: &MH, trees: &[Tree], f: &mut dyn FnMut(usize, usize, usize)) {
        match h {
            MH::Sh(n, _) => { let t = &trees[n.tree as usize]; f(t.buf, t.base + n.start as usize, t.base + (n.start + n.len) as usize) }
            MH::Parts { leaves, f: a, b, .. } => {
                let l = &leaves[*a..leaves.len() - b];
                if let (Some(x), Some(y)) = (l.first(), l.last()) { let t = &trees[x.tree as usize]; f(t.buf, t.base + x.start as usize, t.base + (y.start + y.len) as usize) }
            }
            MH::Mut { buf, s, e, .. } | MH::Iter { buf, s, e, .. } => f(*buf, *s, *e),
            MH::MutParts { buf, leaves, f: a, b, .. } => {
                let l = &leaves[*a..leaves.len() - b];
                if let (Some(x), Some(y)) = (l.first(), l.last()) { f(*buf, x.0, y.1) }
            }
            MH::Weak(_) => {}
        }
    }
    /// All oracles that apply after every operation.
    fn after(&mut self, opmask: u32) {
        if self.fail.is_some() || self.stop { return }
        // memory and item book keeping errors
        let v = ledger::with(|l| std::mem::take(&mut l.viol));
        for (tag, msg) in v { self.bad(tag, ALL, msg); self.stop = true; }
        if track::on() { if let Some(msg) = track::take_viol() { self.bad("alloc", ALL, msg.into()); self.stop = true; } }
        if self.fail.is_some() || self.stop || self.quiet { return }
        if self.cfg.quick_views { self.look(); return }
        // which items are covered
        for b in &mut self.bufs { b.held.iter_mut().for_each(|h| *h = 0) }
        let (trees, bufs) = (&self.trees, &mut self.bufs);
        for h in self.slots.iter().flatten() {
            Self::ranges(h, trees, &mut |b, s, e| for x in &mut bufs[b].held[s..e] { *x += 1 });
        }
        if self.info.tracked {
            let n = ledger::with(|l| l.st.len());
            let mut exp = vec![false; n];
            for b in &self.bufs { for (i, &t) in b.cells.iter().enumerate() { if b.held[i] > 0 { exp[t as usize] = true } } }
            for &t in &self.pocket { exp[t as usize] = true }
            for t in 0..n {
                let alive = ledger::st(t as u32) == ledger::ALIVE;
                if alive == exp[t] || self.leaked.contains(&(t as u32)) { continue }
                if exp[t] {
                    self.bad("destroyed-early", p(1) | p(2) | opmask, format!("item {t} was destroyed although a live handle covers it (or it was moved out)"));
                    self.stop = true;
                } else if self.fired {
                    self.leaked.push(t as u32);
                } else {
                    self.bad("not-destroyed", p(2) | opmask, format!("item {t} is covered by no live handle but was not destroyed"));
                    self.leaked.push(t as u32);
                }
                if self.fail.is_some() { return }
            }
        } else if self.info.counted {
            let want: i64 = self.bufs.iter().map(|b| b.held.iter().filter(|h| **h > 0).count() as i64).sum::<i64>() + self.pocket.len() as i64;
            let have = ledger::with(|l| l.zlive) - self.leaked.len() as i64;
            if have != want {
                if self.fired && have > want { for _ in want..have { self.leaked.push(0) } }
                else {
                    self.bad("zst-count", p(2) | p(13) | opmask, format!("{have} zero sized items are alive, {want} are covered by live handles"));
                    self.stop = true;
                }
            }
        }
        if self.fail.is_some() || self.stop { return }
        // what every handle shows
        let mut view = std::mem::take(&mut self.view);
        for i in 0..self.slots.len() {
            let Some(h) = self.slots[i].clone() else { continue };
            let hk = match h { MH::Sh(..) => HK::Sh, MH::Weak(_) => HK::Weak, MH::Parts { .. } => HK::Parts, MH::Mut { .. } => HK::Mut, MH::Iter { .. } => HK::Iter, MH::MutParts { .. } => HK::MutParts };
            if self.m.kind(i) != Some(hk) { panic!("harness: slot {i} {:?} vs {hk:?}", self.m.kind(i)) }
            if hk == HK::Weak { continue }
            self.m.observe(i, &mut view);
            let mask = Self::mask_of(&h) | opmask;
            let (mut buf, mut s, mut e) = (usize::MAX, 0, 0);
            Self::ranges(&h, &self.trees, &mut |b, x, y| { buf = b; s = x; e = y });
            if view.len != e - s { self.bad("length", mask, format!("{hk:?} in slot {i} shows {} items instead of {}", view.len, e - s)); self.stop = true; break }
            if !view.mut_ok { self.bad("mut-view", mask, format!("{hk:?} in slot {i}: mutable view differs from shared view")); self.stop = true; break }
            if !self.info.zst {
                for (j, &t) in view.toks.iter().enumerate() {
                    let want = self.bufs[buf].cells[s + j] & self.info.mask;
                    if t != want { self.bad("contents", mask, format!("{hk:?} in slot {i} shows item {t} at index {j} instead of {want}")); self.stop = true; break }
                    if self.info.tracked && ledger::st(t) != ledger::ALIVE { self.bad("dead-read", ALL, format!("{hk:?} in slot {i} shows item {t}, which was destroyed")); self.stop = true; break }
                }
                if self.stop { break }
                if e > s {
                    let want = self.bufs[buf].addr + s * self.info.size;
                    if view.ptr != want { self.bad("moved", mask, format!("{hk:?} in slot {i}: items are at {:+} bytes from where they were", view.ptr as i128 - want as i128)); self.stop = true; break }
                }
            }
            let rem = match &h { MH::Parts { leaves, f, b, .. } => leaves.len() - f - b, MH::MutParts { leaves, f, b, .. } => leaves.len() - f - b, MH::Iter { s, e, .. } => e - s, _ => continue };
            if view.rem != rem || view.hint != (rem, Some(rem)) {
                self.bad("iter-len", mask, format!("{hk:?} in slot {i}: len {} size_hint {:?} instead of {rem}", view.rem, view.hint)); self.stop = true; break
            }
        }
        self.view = view;
        let v = ledger::with(|l| std::mem::take(&mut l.viol));
        for (tag, msg) in v { self.bad(tag, ALL, msg); self.stop = true; }
        if self.fail.is_some() || self.stop { return }
        // buffers
        if track::on() && !self.info.zst {
            for bi in 0..self.bufs.len() {
                let b = &self.bufs[bi];
                let Some(ser) = b.serial else { continue };
                if b.freed { continue }
                let live = track::is_live(b.addr, ser);
                let must = b.held.iter().any(|h| *h > 0);
                if must && !live { self.bad("buffer-early", p(3) | opmask, "the buffer was released although a live handle covers items in it".into()); self.stop = true; return }
                if !live { self.bufs[bi].freed = true; self.st(St::buffer_freed); continue }
                if !must && !self.fired {
                    let may = self.slots.iter().flatten().any(|h| match h {
                        MH::Mut { buf, may, .. } | MH::Iter { buf, may, .. } | MH::MutParts { buf, may, .. } => *may && *buf == bi,
                        MH::Sh(n, _) => { let t = &self.trees[n.tree as usize]; t.may && t.buf == bi }
                        MH::Parts { root, .. } => { let t = &self.trees[root.tree as usize]; t.may && t.buf == bi }
                        MH::Weak(_) => false,
                    });
                    if !may { self.bad("buffer-late", p(3) | opmask, "the buffer is still allocated although no handle covers any item of it".into()); self.bufs[bi].freed = true; if self.fail.is_some() { return } }
                }
            }
        }
    }
    /// cheap version for slow execution engines: touch both ends of what every handle shows
    fn look(&mut self) {
        let mut view = std::mem::take(&mut self.view);
        view.quick = true;
        for i in 0..self.slots.len() {
            let Some(h) = &self.slots[i] else { continue };
            if matches!(h, MH::Weak(_)) { continue }
            let (mut buf, mut s, mut e) = (usize::MAX, 0, 0);
            Self::ranges(h, &self.trees, &mut |b, x, y| { buf = b; s = x; e = y });
            self.m.observe(i, &mut view);
            if view.len != e - s { self.bad("length", ALL, format!("a handle in slot {i} shows {} items instead of {}", view.len, e - s)); self.stop = true; break }
            if self.info.zst || e == s { continue }
            let c = &self.bufs[buf].cells;
            if view.toks[0] != c[s] & self.info.mask || view.toks[1] != c[e - 1] & self.info.mask { self.bad("contents", ALL, format!("a handle in slot {i} shows wrong items")); self.stop = true; break }
        }
        self.view = view;
        let v = ledger::with(|l| std::mem::take(&mut l.viol));
        for (tag, msg) in v { self.bad(tag, ALL, msg); self.stop = true; }
    }
    fn finish(&mut self, order: usize) {
        let mut k = order;
        self.at = usize::MAX;
        loop {
            let n = self.live();
            if n == 0 { break }
            let i = self.pick((k % n) as u8, |_| true).unwrap();
            k = k.wrapping_mul(7).wrapping_add(3);
            self.drop_slot(i);
            if self.fail.is_some() || self.stop { return }
        }
        self.exec(Low::DropPocket { keep: 0 });
        self.pocket.clear();
        self.after(0);
        if self.fail.is_some() || self.stop { return }
        if track::on() && !self.info.zst {
            for bi in 0..self.bufs.len() {
                let b = &self.bufs[bi];
                if let (Some(ser), false) = (b.serial, b.freed) {
                    if track::is_live(b.addr, ser) { self.bad("buffer-leak", p(3) | p(2), "all handles are gone but a buffer was not released".into()); return }
                }
            }
        }
        if track::on() && !self.fired && self.leaked.is_empty() {
            self.out = Out::default();
            let (n, bytes) = track::live();
            if n != 0 { self.bad("leak", p(3), format!("all handles are gone but {n} memory blocks ({bytes} bytes) allocated by the library remain")); }
        }
    }
    fn overlap_others(&self, i: usize) -> bool {
        let mut own = vec![];
        Self::ranges(self.slots[i].as_ref().unwrap(), &self.trees, &mut |b, s, e| own.push((b, s, e)));
        self.slots.iter().enumerate().any(|(j, h)| j != i && h.as_ref().map_or(false, |h| {
            let mut r = false;
            Self::ranges(h, &self.trees, &mut |b, s, e| for o in &own { if o.0 == b && o.1 < e && s < o.2 { r = true } });
            r
        }))
    }
    fn drop_stats(&mut self, i: usize) {
        match self.slots[i].as_ref().unwrap() {
            MH::Iter { s, e, .. } if e > s => self.st(St::iter_early_drop),
            MH::Parts { leaves, f, b, .. } if f + b < leaves.len() => self.st(St::parts_early_drop),
            MH::MutParts { leaves, f, b, .. } if f + b < leaves.len() => self.st(St::parts_early_drop),
            MH::Sh(..) => if self.overlap_others(i) { self.st(St::drop_with_overlap) },
            _ => {}
        }
    }
    fn drop_slot(&mut self, i: usize) {
        self.drop_stats(i);
        let h = self.slots[i].clone().unwrap();
        let mask = match h { MH::Weak(_) => p(7), _ => Self::mask_of(&h) & !p(1) };
        let live0 = self.bufs.iter().map(|b| b.held.iter().filter(|h| **h > 0).count()).sum::<usize>();
        self.exec(Low::Drop { src: i });
        self.slots[i] = None;
        self.expect_no_panic(mask);
        self.after(mask);
        if let MH::Sh(n, _) = h {
            let t = &self.trees[n.tree as usize];
            let b = &self.bufs[t.buf];
            let still = b.held[t.base + n.start as usize..t.base + (n.start + n.len) as usize].iter().filter(|h| **h > 0).count();
            let live1 = self.bufs.iter().map(|b| b.held.iter().filter(|h| **h > 0).count()).sum::<usize>();
            if still > 0 && live1 < live0 { self.st(St::partial_destroy) }
        }
    }
    fn new_buf(&mut self, slot: usize, cells: Vec<u32>) -> usize {
        let mut view = std::mem::take(&mut self.view);
        self.m.observe(slot, &mut view);
        let addr = view.ptr;
        self.view = view;
        let n = cells.len();
        let serial = if n > 0 && !self.info.zst { track::serial_of(addr) } else { None };
        if n > 0 && !self.info.zst && addr % self.info.align != 0 { self.bad("misaligned", ALL, "items are stored at a misaligned address".into()); }
        self.bufs.push(Buf { held: vec![0; n], cells, addr, serial, freed: false });
        self.bufs.len() - 1
    }
    fn fresh_toks(&self, n: usize) -> Vec<u32> { (0..n).map(|_| ledger::fresh()).collect() }
    fn writes(&mut self, h: &MH, b: u8, c: u8) -> Vec<Write> {
        let (mut buf, mut s, mut e) = (0, 0, 0);
        Self::ranges(h, &self.trees, &mut |x, y, z| { buf = x; s = y; e = z });
        let n = e - s;
        if n == 0 || (self.armed && matches!(h, MH::Sh(..))) { return vec![] }
        let mut w = vec![];
        let i = b as usize % n;
        match c % 8 {
            0 => {}
            1 | 2 => w.push(Write::Replace(i, ledger::fresh())),
            3 => { w.push(Write::Replace(n - 1, ledger::fresh())); if !self.armed { w.push(Write::Replace(0, ledger::fresh())) } }
            4 => w.push(Write::Swap(i, n - 1 - i)),
            5 => w.push(Write::Swap(0, n - 1)),
            6 => w.push(Write::Reverse),
            _ => { if !self.armed { for j in 0..n { w.push(Write::Replace(j, ledger::fresh())) } } }
        }
        for x in &w {
            match *x {
                Write::Replace(i, t) => self.bufs[buf].cells[s + i] = t,
                Write::Swap(i, j) => self.bufs[buf].cells.swap(s + i, s + j),
                Write::Reverse => self.bufs[buf].cells[s..e].reverse(),
            }
        }
        w
    }
    fn shared_conflict(&self, i: usize, n: Node) -> Exp {
        // Must = alone, MustNot = conflict
        let mut r = Exp::Must;
        for (j, h) in self.slots.iter().enumerate() {
            if j == i { continue }
            match h {
                Some(MH::Sh(o, _)) => {
                    if o.overlaps(n) { return Exp::MustNot }
                    if o.related(n) { r = Exp::Either }
                }
                Some(MH::Parts { root, leaves, f, b }) => {
                    let l = &leaves[*f..leaves.len() - b];
                    if l.iter().any(|o| o.overlaps(n)) { return Exp::MustNot }
                    if root.related(n) && (n.len == 0 || l.iter().any(|o| o.len == 0)) { r = Exp::Either }
                }
                _ => {}
            }
        }
        r
    }
    fn weak_conflict(&self, n: Node) -> Exp {
        let mut r = Exp::Must;
        for h in &self.slots {
            if let Some(MH::Weak(Some((o, killed)))) = h {
                if n.encloses(*o) {
                    if o.len > 0 && !killed { return Exp::MustNot }
                    r = Exp::Either;
                } else if o.related(n) && n.len == 0 { r = Exp::Either }
            }
        }
        r
    }
    fn upgrade_exp(&self, w: Option<(Node, bool)>) -> Exp {
        let Some((n, killed)) = w else { return Exp::MustNot };
        if killed { return if n.len > 0 { Exp::MustNot } else { Exp::Either } }
        let mut cov = vec![false; n.len as usize];
        for h in self.slots.iter().flatten() {
            match h {
                MH::Sh(o, _) => {
                    if o.encloses(n) { return Exp::Must }
                    if o.tree == n.tree { for x in o.start..o.start + o.len { if x >= n.start && x < n.start + n.len { cov[(x - n.start) as usize] = true } } }
                }
                MH::Parts { root, leaves, f, b } if root.tree == n.tree => {
                    for o in &leaves[*f..leaves.len() - b] {
                        if o.encloses(n) { return Exp::Must }
                        for x in o.start..o.start + o.len { if x >= n.start && x < n.start + n.len { cov[(x - n.start) as usize] = true } }
                    }
                }
                _ => {}
            }
        }
        if cov.iter().all(|c| *c) { Exp::Either } else { Exp::MustNot }
    }
    fn tree_mask(&self, n: Node) -> u32 { if self.trees[n.tree as usize].converted { p(8) } else { 0 } }

    fn clone_half(&mut self, i: usize, right: bool) -> Option<usize> {
        let Some(MH::Sh(n, _)) = self.slots[i] else { unreachable!() };
        let d = self.slot();
        self.exec(Low::CloneHalf { src: i, dst: d, right });
        if !self.expect_no_panic(p(1)) { return None }
        let c = if right { n.right() } else { n.left() };
        if c != n { self.st(St::derive); self.trees[n.tree as usize].derived = true }
        let m = self.tree_mask(n);
        self.slots[d] = Some(MH::Sh(c, m));
        self.after(p(1));
        Some(d)
    }
    fn clone_any(&mut self, i: usize) -> Option<usize> {
        let h = self.slots[i].clone().unwrap();
        let d = self.slot();
        ledger::with(|l| l.clones.clear());
        self.exec(Low::Clone { src: i, dst: d });
        let mask = Self::mask_of(&h);
        if !self.expect_no_panic(mask) { self.after(mask | p(18)); return None }
        if let MH::Mut { buf, s, e, .. } = h {
            let cl = ledger::with(|l| std::mem::take(&mut l.clones));
            let src = self.bufs[buf].cells[s..e].to_vec();
            let cells = if self.info.tracked {
                if cl.len() != src.len() { self.bad("clone", p(9), format!("cloning an exclusive slice of {} items cloned {} items", src.len(), cl.len())); self.stop = true; return None }
                let mut v = vec![];
                for t in &src { match cl.iter().find(|c| c.0 == *t) { Some(c) => v.push(c.1), None => { self.bad("clone", p(9), format!("item {t} was not cloned")); self.stop = true; return None } } }
                v
            } else { src };
            let n = cells.len();
            let b = self.new_buf(d, cells);
            self.slots[d] = Some(MH::Mut { buf: b, s: 0, e: n, may: false });
            self.st(St::excl_clone);
        } else {
            match &h { MH::Weak(_) => self.st(St::weak_clone), MH::Parts { .. } => self.st(St::parts_clone), _ => {} }
            self.slots[d] = Some(h);
        }
        self.after(mask);
        Some(d)
    }
    fn downgrade(&mut self, i: usize) -> Option<usize> {
        let Some(MH::Sh(n, _)) = self.slots[i] else { unreachable!() };
        let d = self.slot();
        self.exec(Low::Downgrade { src: i, dst: d });
        if !self.expect_no_panic(p(7)) { return None }
        self.st(St::downgrade);
        self.slots[d] = Some(MH::Weak(Some((n, false))));
        self.after(p(7));
        Some(d)
    }
    fn upgrade(&mut self, i: usize) -> Option<usize> {
        let Some(MH::Weak(w)) = self.slots[i] else { unreachable!() };
        let exp = self.upgrade_exp(w);
        let d = self.slot();
        self.exec(Low::Upgrade { src: i, dst: d });
        if !self.expect_no_panic(p(7)) { return None }
        let some = self.out.some;
        match (exp, some) {
            (Exp::Must, false) => self.bad("upgrade-failed", p(7), "upgrade gave None although a shared handle on the same or an enclosing sub-slice is alive".into()),
            (Exp::MustNot, true) => {
                let killed = matches!(w, Some((_, true)));
                self.bad("upgrade-zombie", p(7) | if killed { p(5) | p(8) } else { 0 }, "upgrade succeeded although the items are no longer held by any shared handle".into());
            }
            _ => {}
        }
        if matches!(w, Some((_, true))) { self.st(St::upgrade_killed) }
        if exp == Exp::Either { self.st(St::upgrade_either) } else if some { self.st(St::upgrade_ok) } else { self.st(St::upgrade_none) }
        if some {
            match w {
                Some((n, _)) => self.slots[d] = Some(MH::Sh(n, p(7) | self.tree_mask(n))),
                None => { self.stop = true; return None }
            }
        }
        self.after(p(7));
        if some { Some(d) } else { None }
    }
    fn get_mut(&mut self, i: usize, b: u8, c: u8) {
        let h = self.slots[i].clone().unwrap();
        let MH::Sh(n, _) = h else { unreachable!() };
        let (sc, wc) = (self.shared_conflict(i, n), self.weak_conflict(n));
        let exp = match (sc, wc) { (Exp::MustNot, _) => Exp::MustNot, (_, Exp::MustNot) => Exp::MustNot, (Exp::Must, Exp::Must) => Exp::Must, _ => Exp::Either };
        let relatives = self.slots.iter().enumerate().any(|(j, h)| j != i && match h { Some(MH::Sh(o, _)) => o.tree == n.tree, Some(MH::Weak(Some((o, _)))) => o.tree == n.tree, _ => false });
        // when the outcome is open, only look
        let w = if exp == Exp::Must { self.writes(&h, b, c) } else { vec![] };
        self.exec(Low::GetMut { src: i, w });
        if !self.expect_no_panic(p(4)) { self.after(p(4)); return }
        let some = self.out.some;
        match (exp, some) {
            (Exp::Must, false) => { self.bad("getmut-refused", p(6) | self.tree_mask(n), "get_mut was refused although no other handle overlaps".into()); self.stop = true }
            (Exp::MustNot, true) => self.bad("getmut-shared", p(4), format!("get_mut was granted although another {} handle reaches the items", if sc == Exp::MustNot { "shared" } else { "weak" })),
            _ => {}
        }
        if exp == Exp::Either { self.st(St::getmut_either) } else if some { self.st(St::getmut_ok); if relatives { self.st(St::getmut_ok_with_relatives) } }
        else if sc == Exp::MustNot { self.st(St::getmut_refused_strong) } else { self.st(St::getmut_refused_weak) }
        self.after(p(4));
    }
    fn into_mut(&mut self, i: usize, via: u8) -> bool {
        let Some(MH::Sh(n, _)) = self.slots[i] else { unreachable!() };
        let exp = self.shared_conflict(i, n);
        let mask = p(5) | p(8);
        self.exec(Low::IntoMut { src: i, via });
        if !self.expect_no_panic(mask) { self.slots[i] = None; self.after(mask); return false }
        let ok = self.out.some;
        let weak = self.slots.iter().flatten().any(|h| matches!(h, MH::Weak(Some((o, _))) if o.tree == n.tree));
        match (exp, ok) {
            (Exp::Must, false) => self.bad("intomut-refused", p(6) | self.tree_mask(n) | if weak { p(5) | p(7) } else { 0 }, "conversion to exclusive was refused although no other shared handle overlaps".into()),
            (Exp::MustNot, true) => self.bad("intomut-shared", p(5), "conversion to exclusive succeeded although another shared handle overlaps".into()),
            _ => {}
        }
        if exp == Exp::Either { self.st(St::intomut_either) } else if !ok { self.st(St::intomut_refused) }
        if ok {
            self.st(St::intomut_ok);
            let t = &self.trees[n.tree as usize];
            let (buf, base, may, conv, der) = (t.buf, t.base, t.may, t.converted, t.derived);
            if conv { self.st(St::reconverted) }
            if der { self.st(St::intomut_ok_after_derive) }
            let mut w = false;
            for h in self.slots.iter_mut().flatten() {
                if let MH::Weak(Some((o, k))) = h { if n.encloses(*o) { *k = true; w = true } }
            }
            if w { self.st(St::intomut_ok_with_weak) }
            self.slots[i] = Some(MH::Mut { buf, s: base + n.start as usize, e: base + (n.start + n.len) as usize, may: may || (n.len == 0 && exp == Exp::Either) });
        }
        self.after(mask);
        ok
    }
    fn step(&mut self, o: [u8; 4]) {
        let [_, a, b, c] = o;
        let mut op = OPS[self.table[o[0] as usize] as usize];
        if self.live() >= MAXH {
            op = match op {
                NewSh | NewMut | WeakNew | CloneSh | CloneWeak | CloneParts | CloneMut | Left | Right | SplitL | SplitR | MSplitL | MSplitR | PNext | PBack | PNth | PLast | PCollect
                | Downgrade | Upgrade | ISplit | Repeat | Deep | Crowd | PanicIter => DropAny,
                x => x,
            }
        }
        let sh = |h: &MH| matches!(h, MH::Sh(..));
        let wk = |h: &MH| matches!(h, MH::Weak(_));
        let mt = |h: &MH| matches!(h, MH::Mut { .. });
        let it = |h: &MH| matches!(h, MH::Iter { .. });
        let pa = |h: &MH| matches!(h, MH::Parts { .. } | MH::MutParts { .. });
        let ex = |h: &MH| matches!(h, MH::Mut { .. } | MH::Iter { .. } | MH::MutParts { .. });
        // nothing to work on: make a slice instead
        let missing = match op {
            CloneSh | Left | Right | SplitL | SplitR | ShParts | Downgrade | GetMut | IntoMut | DropSh | Isolate | Deep | Repeat | Crowd => self.pick(0, sh).is_none(),
            _ => false,
        };
        if missing { op = NewSh }
        match op {
            CloneMut | MSplitL | MSplitR | MutParts | IntoIter | Immut | ArmClone if self.pick(0, mt).is_none() => {
                op = if let Some(_) = self.pick(0, sh) { IntoMut } else { NewMut };
            }
            CloneWeak | Upgrade if self.pick(0, wk).is_none() => op = if self.pick(0, sh).is_some() { Downgrade } else { NewSh },
            PNext | PBack | PNth | PCount | PLast | PCollect if self.pick(0, pa).is_none() => op = if self.pick(0, sh).is_some() { ShParts } else { NewSh },
            CloneParts if self.pick(0, |h| matches!(h, MH::Parts { .. })).is_none() => op = if self.pick(0, sh).is_some() { ShParts } else { NewSh },
            INext | IBack | INth | IBulk | ISplit | BadSplit if self.pick(0, it).is_none() => op = if self.pick(0, mt).is_some() { IntoIter } else { NewMut },
            Write | DropExcl if self.pick(0, ex).is_none() => op = if self.pick(0, sh).is_some() { IntoMut } else { NewMut },
            _ => {}
        }
        match op {
            Nop => {}
            NewSh | NewMut | PanicIter => {
                if self.bufs.len() >= 24 { return }
                let n = if a >= 254 && b >= 216 { [511, 513, 1000, 1025, 2049, 4097, 600, 5000][c as usize % 8] } else if a >= 252 { [65, 100, 129, 257][a as usize - 252] } else { SIZES[a as usize % 32] as usize };
                // recorded for a slow execution engine: keep slices small
                let n = if self.cfg.record && n > 9 { n % 7 + 2 } else { n };
                let d = self.slot();
                let toks = self.fresh_toks(n);
                let panic_at = if op == PanicIter { if n == 0 { return } Some(c as usize % n) } else { None };
                let want_sh = if op == PanicIter { b & 1 == 0 } else { op == NewSh };
                self.exec(Low::New { dst: d, shared: want_sh, via: b % 10, toks: toks.clone(), panic_at });
                if op == PanicIter {
                    if self.out.panic.is_none() { self.bad("no-panic", p(18), "a panic of the source iterator was swallowed".into()); self.stop = true; return }
                    self.expect_no_panic(p(18));
                    self.after(p(18));
                    return;
                }
                if !self.expect_no_panic(p(1)) { return }
                let shared = self.m.kind(d) == Some(HK::Sh);
                if shared != want_sh { self.bad("intomut-refused", p(6) | p(8), "a fresh shared slice was not converted to exclusive".into()); }
                let toks = if self.info.zst { vec![0; n] } else { toks };
                let buf = self.new_buf(d, toks);
                self.st(St::new_slice);
                if shared {
                    self.trees.push(Tree { buf, may: false, converted: b % 10 == 6, base: 0, derived: false });
                    let n = Node { tree: self.trees.len() as u32 - 1, start: 0, len: n as u32, depth: 0, path: 0 };
                    self.slots[d] = Some(MH::Sh(n, 0));
                } else { self.slots[d] = Some(MH::Mut { buf, s: 0, e: n, may: false }); }
                self.after(p(12) | if shared { p(1) } else { p(9) });
            }
            WeakNew => { let d = self.slot(); self.exec(Low::WeakNew { dst: d }); if self.expect_no_panic(p(7)) { self.slots[d] = Some(MH::Weak(None)); self.after(p(7)) } }
            CloneSh => { let i = self.pick(a, sh).unwrap(); self.clone_any(i); }
            CloneWeak => { let i = self.pick(a, wk).unwrap(); self.clone_any(i); }
            CloneParts => { let i = self.pick(a, |h| matches!(h, MH::Parts { .. })).unwrap(); self.clone_any(i); }
            CloneMut => { if self.bufs.len() < 24 { let i = self.pick(a, mt).unwrap(); self.clone_any(i); } }
            ArmClone => {
                if self.bufs.len() >= 24 || !self.info.tracked || self.armed { return }
                let i = self.pick(a, mt).unwrap();
                let Some(MH::Mut { buf, s, e, .. }) = self.slots[i] else { unreachable!() };
                if e == s { return }
                let t = self.bufs[buf].cells[s + b as usize % (e - s)];
                self.exec(Low::Arm { drop: false, tok: t });
                let r = self.clone_any(i);
                if r.is_some() { self.bad("no-panic", p(18), "a panic of an item's clone was swallowed".into()) }
            }
            Left | Right => { let i = self.pick(a, sh).unwrap(); self.clone_half(i, op == Right); }
            Deep => {
                let mut i = self.pick(a, sh).unwrap();
                for bit in 0..3 {
                    if self.live() >= MAXH { break }
                    let Some(d) = self.clone_half(i, b >> bit & 1 == 1) else { return };
                    if self.fail.is_some() || self.stop { return }
                    if bit > 0 && c >> bit & 1 == 1 { self.drop_slot(i) }
                    if self.fail.is_some() || self.stop { return }
                    i = d;
                }
            }
            SplitL | SplitR => {
                let i = self.pick(a, sh).unwrap();
                let Some(MH::Sh(n, m)) = self.slots[i] else { unreachable!() };
                let d = self.slot();
                self.exec(Low::SplitOff { src: i, dst: d, right: op == SplitR });
                if !self.expect_no_panic(p(1)) { self.stop = true; return }
                self.st(St::derive);
                self.trees[n.tree as usize].derived = true;
                let (l, r) = (n.left(), n.right());
                let (keep, off) = if op == SplitR { (l, r) } else { (r, l) };
                self.slots[i] = Some(MH::Sh(keep, m));
                self.slots[d] = Some(MH::Sh(off, m));
                self.after(p(1));
            }
            MSplitL | MSplitR => {
                let i = self.pick(a, mt).unwrap();
                let Some(MH::Mut { buf, s, e, may }) = self.slots[i] else { unreachable!() };
                let d = self.slot();
                self.exec(Low::SplitOff { src: i, dst: d, right: op == MSplitR });
                if !self.expect_no_panic(p(9)) { self.stop = true; return }
                self.st(St::excl_split);
                let mid = s + (e - s) / 2;
                let (l, r) = ((s, mid), (mid, e));
                let (keep, off) = if op == MSplitR { (l, r) } else { (r, l) };
                // a handle that gave away its last item may keep the buffer until it is dropped
                self.slots[i] = Some(MH::Mut { buf, s: keep.0, e: keep.1, may: may || keep.0 == keep.1 });
                self.slots[d] = Some(MH::Mut { buf, s: off.0, e: off.1, may: false });
                self.after(p(9));
            }
            ShParts => {
                let i = self.pick(a, sh).unwrap();
                let Some(MH::Sh(n, _)) = self.slots[i] else { unreachable!() };
                let k = parts(b);
                self.exec(Low::IntoParts { src: i, k });
                if !self.expect_no_panic(p(10)) { self.slots[i] = None; return }
                self.st(St::parts_made);
                if k > n.len as usize { self.st(St::parts_surplus) }
                self.trees[n.tree as usize].derived = true;
                self.slots[i] = Some(MH::Parts { root: n, leaves: n.leaves(k), f: 0, b: 0 });
                self.after(p(10));
            }
            MutParts => {
                let i = self.pick(a, mt).unwrap();
                let Some(MH::Mut { buf, s, e, may }) = self.slots[i] else { unreachable!() };
                let k = parts(b);
                self.exec(Low::IntoParts { src: i, k });
                if !self.expect_no_panic(p(10)) { self.slots[i] = None; return }
                self.st(St::parts_made);
                if k > e - s { self.st(St::parts_surplus) }
                fn lv(s: usize, e: usize, k: usize, v: &mut Vec<(usize, usize)>) { if k == 1 { v.push((s, e)) } else { let m = s + (e - s) / 2; lv(s, m, k / 2, v); lv(m, e, k / 2, v) } }
                let mut leaves = vec![];
                lv(s, e, k, &mut leaves);
                self.slots[i] = Some(MH::MutParts { buf, leaves, f: 0, b: 0, may });
                self.after(p(10));
            }
            BadParts => {
                if self.armed { return }
                let Some(i) = self.pick(a, |h| sh(h) || mt(h)) else { return };
                let k = [0usize, 3, 5, 6, 7, 12, 56, usize::MAX, 3 << 62, (1 << 63) + 1, 24, 1000][b as usize % 12];
                self.exec(Low::IntoParts { src: i, k });
                self.slots[i] = None;
                self.st(St::bad_call);
                if self.out.panic.is_none() { self.bad("no-panic", p(10) | p(18), format!("split_into_parts({k}) did not panic")); self.stop = true; return }
                self.after(p(10) | p(18));
            }
            PNext | PBack | PNth => {
                let i = self.pick(a, pa).unwrap();
                let d = self.slot();
                let back = op == PBack || (op == PNth && b & 1 == 1);
                let rem = match self.slots[i].as_ref().unwrap() { MH::Parts { leaves, f, b, .. } => leaves.len() - f - b, MH::MutParts { leaves, f, b, .. } => leaves.len() - f - b, _ => unreachable!() };
                let nth = if op == PNth { Some(if c >= 250 { [usize::MAX - 1, rem + 70, usize::MAX / 2][c as usize % 3] } else { c as usize % (rem + 2) }) } else { None };
                if nth.is_some() && self.armed { return }
                self.exec(Low::Next { src: i, dst: d, back, nth });
                if !self.expect_no_panic(p(10)) { self.stop = true; return }
                let skip = nth.unwrap_or(0).min(rem);
                let want = rem > skip;
                if self.out.some != want { self.bad("parts-end", p(10), format!("parts iterator with {rem} parts left: {}", if want { "gave none" } else { "gave one too many" })); self.stop = true; return }
                let adv = skip + want as usize;
                if back { self.st(St::parts_back) } else { self.st(St::parts_front) }
                let tm = match self.slots[i].as_ref().unwrap() { MH::Parts { root, .. } => self.tree_mask(*root), _ => 0 };
                let mut both = false;
                let new = match self.slots[i].as_mut().unwrap() {
                    MH::Parts { leaves, f, b, .. } => {
                        let idx = if back { leaves.len().wrapping_sub(1 + *b + skip.min(rem.saturating_sub(1))) } else { *f + skip.min(rem.saturating_sub(1)) }.min(leaves.len() - 1);
                        let h = MH::Sh(leaves[idx], p(10) | tm);
                        if back { *b += adv } else { *f += adv }
                        both = *b > 0 && *f > 0;
                        h
                    }
                    MH::MutParts { buf, leaves, f, b, may } => {
                        let idx = if back { leaves.len().wrapping_sub(1 + *b + skip.min(rem.saturating_sub(1))) } else { *f + skip.min(rem.saturating_sub(1)) }.min(leaves.len() - 1);
                        let (s, e) = leaves[idx];
                        let h = MH::Mut { buf: *buf, s, e, may: *may };
                        if back { *b += adv } else { *f += adv }
                        both |= *b > 0 && *f > 0;
                        h
                    }
                    _ => unreachable!(),
                };
                if both { self.st(St::parts_both_ends) }
                if want { self.slots[d] = Some(new) }
                self.after(p(10));
            }
            PCount | PLast | PCollect => {
                let i = self.pick(a, pa).unwrap();
                if self.armed && op != PCount { return }
                let h = self.slots[i].clone().unwrap();
                let rest: Vec<MH> = match &h {
                    MH::Parts { root, leaves, f, b } => { let tm = self.tree_mask(*root); leaves[*f..leaves.len() - b].iter().map(|n| MH::Sh(*n, p(10) | tm)).collect() }
                    MH::MutParts { buf, leaves, f, b, may } => leaves[*f..leaves.len() - b].iter().map(|x| MH::Mut { buf: *buf, s: x.0, e: x.1, may: *may }).collect(),
                    _ => unreachable!(),
                };
                match op {
                    PCount => {
                        self.exec(Low::Count { src: i, mode: if self.armed { 0 } else { c } });
                        self.slots[i] = None;
                        if self.expect_no_panic(p(10)) && self.out.n != rest.len() { self.bad("parts-count", p(10), format!("count gave {} instead of {}", self.out.n, rest.len())) }
                    }
                    PLast => {
                        let d = self.slot();
                        self.exec(Low::Last { src: i, dst: d, mode: c });
                        self.slots[i] = None;
                        if !self.expect_no_panic(p(10)) { self.stop = true; return }
                        if self.out.some == rest.is_empty() { self.bad("parts-end", p(10), "last gave the wrong answer".into()); self.stop = true; return }
                        self.slots[d] = rest.last().cloned();
                    }
                    _ => {
                        let rev = b & 1 == 1;
                        let room = MAXH.saturating_sub(self.live()).min(1 + c as usize % 6).max(1);
                        let mut dsts = vec![];
                        let mut j = 0;
                        while dsts.len() < room { if self.slots.get(j).map_or(true, |s| s.is_none()) { dsts.push(j) } j += 1 }
                        while self.slots.len() < j { self.slots.push(None) }
                        self.exec(Low::Collect { src: i, dsts: dsts.clone(), rev, mode: b >> 1 });
                        self.slots[i] = None;
                        if !self.expect_no_panic(p(10)) { self.stop = true; return }
                        if self.out.n != rest.len() { self.bad("parts-count", p(10), format!("collect gave {} parts instead of {}", self.out.n, rest.len())); self.stop = true; return }
                        let mut rest = rest;
                        if rev { rest.reverse() }
                        for (d, h) in dsts.into_iter().zip(rest) { self.slots[d] = Some(h) }
                    }
                }
                self.after(p(10));
            }
            Downgrade => { let i = self.pick(a, sh).unwrap(); self.downgrade(i); }
            Upgrade => { let i = self.pick(a, wk).unwrap(); self.upgrade(i); }
            GetMut => { let i = self.pick(a, sh).unwrap(); self.get_mut(i, b, c) }
            IntoMut => { let i = self.pick(a, sh).unwrap(); self.into_mut(i, b & 1); }
            Isolate => {
                // drop whatever overlaps a chosen handle, then it must be granted everything
                let i = self.pick(a, sh).unwrap();
                let Some(MH::Sh(n, _)) = self.slots[i] else { unreachable!() };
                for j in 0..self.slots.len() {
                    if j == i { continue }
                    let hit = match &self.slots[j] {
                        Some(MH::Sh(o, _)) => o.overlaps(n) || (o.related(n) && b & 1 == 0),
                        Some(MH::Parts { root, leaves, f, b: bb }) => leaves[*f..leaves.len() - bb].iter().any(|o| o.overlaps(n)) || (root.related(n) && b & 1 == 0),
                        Some(MH::Weak(Some((o, _)))) => b & 2 == 0 && n.encloses(*o),
                        _ => false,
                    };
                    if hit { self.drop_slot(j); if self.fail.is_some() || self.stop { return } }
                }
                if c & 1 == 0 { self.get_mut(i, b, c >> 1) }
                if self.fail.is_some() || self.stop { return }
                if c & 2 == 0 { self.into_mut(i, c >> 2 & 1); }
            }
            Immut => {
                let i = self.pick(a, mt).unwrap();
                let Some(MH::Mut { buf, s, e, may }) = self.slots[i] else { unreachable!() };
                self.exec(Low::IntoImmut { src: i, via: b & 1 });
                if !self.expect_no_panic(p(8)) { self.slots[i] = None; return }
                self.st(St::to_shared);
                self.trees.push(Tree { buf, may, converted: true, base: s, derived: false });
                self.slots[i] = Some(MH::Sh(Node { tree: self.trees.len() as u32 - 1, start: 0, len: (e - s) as u32, depth: 0, path: 0 }, p(8)));
                self.after(p(8));
            }
            Write => {
                let i = self.pick(a, ex).unwrap();
                let h = self.slots[i].clone().unwrap();
                let w = self.writes(&h, b, c);
                if w.is_empty() { return }
                self.st(St::excl_write);
                self.exec(Low::Write { src: i, via: b ^ c >> 3, w });
                let mask = Self::mask_of(&h);
                self.expect_no_panic(mask);
                self.after(mask | p(9));
            }
            IntoIter => {
                let i = self.pick(a, mt).unwrap();
                let Some(MH::Mut { buf, s, e, may }) = self.slots[i] else { unreachable!() };
                self.exec(Low::IntoIter { src: i });
                if !self.expect_no_panic(p(11)) { self.slots[i] = None; return }
                self.slots[i] = Some(MH::Iter { buf, s, e, may });
                self.after(p(11));
            }
            INext | IBack | INth => {
                let i = self.pick(a, it).unwrap();
                let Some(MH::Iter { buf, s, e, may }) = self.slots[i] else { unreachable!() };
                let back = op == IBack || (op == INth && b & 1 == 1);
                let nth = if op == INth { if self.armed { return } Some(if c >= 250 { [usize::MAX - 1, e - s + 70, usize::MAX / 2][c as usize % 3] } else { c as usize % (e - s + 2) }) } else { None };
                self.exec(Low::Next { src: i, dst: 0, back, nth });
                if !self.expect_no_panic(p(11)) { self.stop = true; return }
                if back { self.st(St::iter_back) } else { self.st(St::iter_front) }
                let skip = nth.unwrap_or(0).min(e - s);
                let want = e - s > skip;
                if self.out.some != want { self.bad("iter-end", p(11), format!("owning iterator with {} items left: {}", e - s, if want { "gave none" } else { "gave one too many" })); self.stop = true; return }
                let (mut s2, mut e2) = (s, e);
                if back { e2 -= skip } else { s2 += skip }
                if want {
                    let pos = if back { e2 -= 1; e2 } else { s2 += 1; s2 - 1 };
                    let t = self.bufs[buf].cells[pos];
                    let got = self.out.toks[0];
                    if !self.info.zst && got != t & self.info.mask { self.bad("iter-item", p(11), format!("owning iterator gave item {got} instead of {t}")); self.stop = true; return }
                    self.pocket.push(t);
                }
                self.slots[i] = Some(MH::Iter { buf, s: s2, e: e2, may: may && s2 < e2 });
                self.after(p(11));
            }
            IBulk => {
                let i = self.pick(a, it).unwrap();
                let Some(MH::Iter { buf, s, e, .. }) = self.slots[i] else { unreachable!() };
                let cells = self.bufs[buf].cells[s..e].to_vec();
                self.st(St::iter_bulk);
                match if self.armed { 0 } else { b % 4 } {
                    0 => {
                        self.exec(Low::Count { src: i, mode: if self.armed { 0 } else { c } });
                        self.slots[i] = None;
                        if self.expect_no_panic(p(11)) && self.out.n != e - s { self.bad("iter-count", p(11), format!("count gave {} instead of {}", self.out.n, e - s)) }
                    }
                    1 => {
                        self.exec(Low::Last { src: i, dst: 0, mode: c });
                        self.slots[i] = None;
                        if !self.expect_no_panic(p(11)) { self.stop = true; return }
                        if self.out.some != (e > s) || (e > s && !self.info.zst && self.out.toks[0] != cells[e - s - 1] & self.info.mask) { self.bad("iter-item", p(11), "last gave the wrong item".into()); self.stop = true; return }
                        if e > s { self.pocket.push(cells[e - s - 1]) }
                    }
                    x => {
                        let rev = x == 3;
                        self.exec(Low::Collect { src: i, dsts: vec![], rev, mode: c });
                        self.slots[i] = None;
                        if !self.expect_no_panic(p(11)) { self.stop = true; return }
                        let mut w = cells;
                        if rev { w.reverse() }
                        if self.out.toks.len() != w.len() || (!self.info.zst && self.out.toks.iter().zip(&w).any(|(x, y)| *x != *y & self.info.mask)) { self.bad("iter-item", p(11), format!("draining gave {:?} instead of {w:?}", self.out.toks)); self.stop = true; return }
                        self.pocket.extend(w);
                    }
                }
                self.after(p(11));
            }
            ISplit => {
                let i = self.pick(a, it).unwrap();
                let Some(MH::Iter { buf, s, e, may }) = self.slots[i] else { unreachable!() };
                let d = self.slot();
                let from = c & 1 == 0;
                let at = match c >> 1 & 3 { 0 => 0, 1 => e - s, _ => b as usize % (e - s + 1) };
                self.exec(Low::IterSplit { src: i, dst: d, from, at });
                if !self.expect_no_panic(p(11)) { self.stop = true; return }
                self.st(St::iter_split);
                let (l, r) = ((s, s + at), (s + at, e));
                let (keep, off) = if from { (l, r) } else { (r, l) };
                self.slots[i] = Some(MH::Iter { buf, s: keep.0, e: keep.1, may });
                self.slots[d] = Some(MH::Iter { buf, s: off.0, e: off.1, may });
                self.after(p(11));
            }
            BadSplit => {
                let i = self.pick(a, it).unwrap();
                let Some(MH::Iter { s, e, .. }) = self.slots[i] else { unreachable!() };
                let d = self.slot();
                let at = [e - s + 1, usize::MAX, e - s + 1 + b as usize, usize::MAX / 2, usize::MAX - (e - s)][b as usize % 5];
                self.exec(Low::IterSplit { src: i, dst: d, from: c & 1 == 0, at });
                self.st(St::bad_call);
                if self.out.panic.is_none() { self.bad("no-panic", p(11) | p(18), format!("splitting an iterator of {} items at {at} did not panic", e - s)); self.stop = true; return }
                self.after(p(11) | p(18));
            }
            DropSh => { let i = self.pick(a, sh).unwrap(); self.drop_slot(i) }
            DropWeak => if let Some(i) = self.pick(a, wk) { self.drop_slot(i) },
            DropAny => if let Some(i) = self.pick(a, |_| true) { self.drop_slot(i) },
            DropExcl => { let i = self.pick(a, ex).unwrap(); self.drop_slot(i) }
            Assign => {
                let Some(i) = self.pick(a, |_| true) else { return };
                let k = std::mem::discriminant(self.slots[i].as_ref().unwrap());
                let Some(d) = self.pick(b, |h| std::mem::discriminant(h) == k) else { return };
                if d == i { return }
                self.drop_stats(d);
                let mask = Self::mask_of(self.slots[d].as_ref().unwrap());
                if c & 3 == 0 && !self.armed && matches!(self.slots[i], Some(MH::Sh(..) | MH::Weak(_) | MH::Parts { .. })) {
                    self.exec(Low::CloneFrom { src: i, dst: d });
                    self.slots[d] = self.slots[i].clone();
                    self.st(St::assign);
                    self.expect_no_panic(mask);
                    self.after(mask);
                    return;
                }
                self.exec(Low::Assign { src: i, dst: d });
                self.slots[d] = self.slots[i].take();
                self.st(St::assign);
                self.expect_no_panic(mask);
                self.after(mask);
            }
            DropPocket => {
                let keep = if self.pocket.is_empty() { 0 } else { a as usize % self.pocket.len() };
                self.exec(Low::DropPocket { keep });
                self.pocket.truncate(keep);
                self.expect_no_panic(0);
                self.after(p(11));
            }
            Arm => {
                if self.armed || self.fired || !self.info.tracked { return }
                let Some(i) = self.pick(a, |h| !wk(h)) else { return };
                let (mut buf, mut s, mut e) = (0, 0, 0);
                Self::ranges(self.slots[i].as_ref().unwrap(), &self.trees, &mut |x, y, z| { buf = x; s = y; e = z });
                if s == e { return }
                let t = self.bufs[buf].cells[s + b as usize % (e - s)];
                if self.cfg.trace { self.trace.push(format!("#{} arm destructor of item {t}", self.at)) }
                self.exec(Low::Arm { drop: true, tok: t });
                self.armed = true;
            }
            Repeat => {
                let i = self.pick(a, sh).unwrap();
                let times = 4 + c as usize % 12;
                self.st(St::repeat);
                let mut mem = (0, 0);
                for t in 0..times {
                    self.quiet = t > 0 && t + 1 < times;
                    self.balanced(i, b);
                    if self.fail.is_some() || self.stop { self.quiet = false; return }
                    self.out = Out::default();
                    if t == 2 { mem = track::live() }
                }
                self.quiet = false;
                if track::on() && track::live().1 > mem.1 {
                    let now = track::live().1;
                    self.bad("growth", p(3), format!("repeating a balanced operation {times} times made memory use grow from {} to {now} bytes", mem.1));
                }
                self.after(p(3));
            }
            Crowd => { let i = self.pick(a, sh).unwrap(); self.crowd(i, b, c) }
        }
    }
    /// Many handles to the same node at the same time, so that counts get far beyond what other operations reach.
    fn crowd(&mut self, i: usize, b: u8, c: u8) {
        let n = if self.cfg.record { 4 + c as usize % 3 } else if c == 255 && b > 240 { 65_530 + b as usize % 16 } else if c < 200 { 17 + c as usize % 40 } else { [127, 128, 129, 255, 256, 257, 300, 515][c as usize % 8] };
        self.st(St::crowd);
        macro_rules! chk { () => { if self.fail.is_some() || self.stop { self.quiet = false; self.hint = 0; return } } }
        self.quiet = true;
        let mut cr: Vec<usize> = vec![];
        for t in 0..n {
            let d = match b % 7 {
                0 => self.clone_any(i),
                1 => self.downgrade(i),
                2 => self.clone_half(i, b & 64 != 0),
                3 => match cr.first() { None => self.downgrade(i), Some(&x) => self.clone_any(x) },
                4 => match cr.last() { None => self.clone_half(i, b & 64 != 0), Some(&x) => self.clone_any(x) },
                5 => match cr.first() { None => self.clone_half(i, b & 64 != 0), Some(&x) if t % 2 == 0 => self.clone_any(x), Some(&x) => self.downgrade(x) },
                _ => match t % 3 { 0 => self.clone_any(i), 1 => self.downgrade(i), _ => self.clone_half(i, b & 64 != 0) },
            };
            chk!();
            match d { Some(d) => { cr.push(d); if n > 1000 { self.hint = d + 1 } } None => { self.quiet = false; self.hint = 0; return } }
        }
        self.quiet = false; self.hint = 0;
        self.after(p(1)); chk!();
        let mut look = |r: &mut Self, i: usize| {
            let Some(MH::Sh(n, _)) = r.slots[i] else { return };
            r.get_mut(i, b, c);
            if r.fail.is_none() && !r.stop && r.shared_conflict(i, n) == Exp::MustNot { r.into_mut(i, c); }
        };
        look(self, i); chk!();
        self.quiet = true;
        let mut x = c as usize;
        while cr.len() > 1 {
            x = x.wrapping_mul(141) + 7;
            let k = match c % 3 { 0 => 0, 1 => cr.len() - 1, _ => x % cr.len() };
            let d = cr.swap_remove(k);
            self.drop_slot(d); chk!();
            if matches!(cr.len(), 1 | 2 | 255 | 256 | 128 | 127) { self.quiet = false; look(self, i); chk!(); self.quiet = true }
        }
        self.quiet = false;
        let last = cr[0];
        if b & 128 != 0 { self.drop_slot(i); chk!(); look(self, last); }
        else { self.drop_slot(last); chk!(); look(self, i); }
        while let Some(None) = self.slots.last() { self.slots.pop(); }
    }
    /// Something that leaves the set of live handles as it was.
    fn balanced(&mut self, i: usize, b: u8) {
        macro_rules! ok { ($e:expr) => { match $e { Some(x) if self.fail.is_none() && !self.stop => x, _ => return } } }
        macro_rules! chk { () => { if self.fail.is_some() || self.stop { return } } }
        match b % 9 {
            0 => { let d = ok!(self.clone_half(i, false)); self.drop_slot(d) }
            1 => { let d = ok!(self.clone_half(i, true)); self.drop_slot(d) }
            2 => { let d = ok!(self.clone_any(i)); self.drop_slot(d) }
            3 => { let d = ok!(self.downgrade(i)); self.drop_slot(d) }
            4 => { let w = ok!(self.downgrade(i)); let d = ok!(self.upgrade(w)); self.drop_slot(w); chk!(); self.drop_slot(d) }
            5 => {
                let d = ok!(self.clone_half(i, b & 16 != 0)); let w = ok!(self.downgrade(d)); self.drop_slot(d); chk!();
                if let Some(u) = self.upgrade(w) { chk!(); self.drop_slot(u) } chk!(); self.drop_slot(w)
            }
            6 => self.get_mut(i, 0, 0),
            7 => { let d = ok!(self.clone_half(i, false)); let e = ok!(self.clone_half(d, true)); self.drop_slot(d); chk!(); self.drop_slot(e) }
            _ => {
                let w = ok!(self.downgrade(i)); let d = ok!(self.clone_half(i, true)); let x = ok!(self.downgrade(d)); self.drop_slot(d); chk!();
                self.get_mut(i, 0, 0); chk!(); self.drop_slot(x); chk!(); self.drop_slot(w)
            }
        }
    }
}
