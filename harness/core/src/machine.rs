//! Object-safe adapter: low-level operations on slots of real handles, for one family and item type.
use crate::kinds::{Kind, KindInfo};
use crate::{ledger, track};
use std::borrow::{Borrow, BorrowMut};
use std::cell::RefCell;
use std::convert::TryFrom;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum HK { Sh, Weak, Parts, Mut, Iter, MutParts }

#[derive(Clone, Copy, Debug)]
pub enum Write { Replace(usize, u32), Swap(usize, usize), Reverse }

#[derive(Clone, Debug)]
pub enum Low {
    New { dst: usize, shared: bool, via: u8, toks: Vec<u32>, panic_at: Option<usize> },
    WeakNew { dst: usize },
    Clone { src: usize, dst: usize },
    /// `dst.clone_from(&src)`
    CloneFrom { src: usize, dst: usize },
    CloneHalf { src: usize, dst: usize, right: bool },
    SplitOff { src: usize, dst: usize, right: bool },
    IntoParts { src: usize, k: usize },
    /// yields one element of a parts iterator to `dst`, or one item of an owning iterator to the pocket
    Next { src: usize, dst: usize, back: bool, nth: Option<usize> },
    Count { src: usize, mode: u8 },
    Last { src: usize, dst: usize, mode: u8 },
    /// drain; parts go to the slots in `dsts` in yield order (the rest is dropped), items to the pocket
    Collect { src: usize, dsts: Vec<usize>, rev: bool, mode: u8 },
    Downgrade { src: usize, dst: usize },
    Upgrade { src: usize, dst: usize },
    GetMut { src: usize, w: Vec<Write> },
    IntoMut { src: usize, via: u8 },
    IntoImmut { src: usize, via: u8 },
    Write { src: usize, via: u8, w: Vec<Write> },
    IntoIter { src: usize },
    IterSplit { src: usize, dst: usize, from: bool, at: usize },
    Drop { src: usize },
    Assign { src: usize, dst: usize },
    DropPocket { keep: usize },
    Debug { src: usize },
    Arm { drop: bool, tok: u32 },
}

impl Low {
    pub fn ser(&self) -> String {
        let mut v: Vec<u64> = vec![];
        let opt = |x: &Option<usize>| x.map_or(u64::MAX, |x| x as u64);
        fn ws(v: &mut Vec<u64>, w: &[Write]) {
            v.push(w.len() as u64);
            for w in w { match *w { Write::Replace(i, t) => v.extend([0, i as u64, t as u64]), Write::Swap(i, j) => v.extend([1, i as u64, j as u64]), Write::Reverse => v.extend([2, 0, 0]) } }
        }
        macro_rules! e { ($c:expr $(, $x:expr)*) => { { v.push($c); $( v.push($x as u64); )* } } }
        match self {
            Low::New { dst, shared, via, toks, panic_at } => { e!(0, *dst, *shared, *via, opt(panic_at), toks.len()); v.extend(toks.iter().map(|t| *t as u64)) }
            Low::WeakNew { dst } => e!(1, *dst),
            Low::Clone { src, dst } => e!(2, *src, *dst),
            Low::CloneHalf { src, dst, right } => e!(3, *src, *dst, *right),
            Low::SplitOff { src, dst, right } => e!(4, *src, *dst, *right),
            Low::IntoParts { src, k } => e!(5, *src, *k),
            Low::Next { src, dst, back, nth } => e!(6, *src, *dst, *back, opt(nth)),
            Low::Count { src, mode } => e!(7, *src, *mode),
            Low::Last { src, dst, mode } => e!(8, *src, *dst, *mode),
            Low::Collect { src, dsts, rev, mode } => { e!(9, *src, *rev as u8 | *mode << 1, dsts.len()); v.extend(dsts.iter().map(|t| *t as u64)) }
            Low::Downgrade { src, dst } => e!(10, *src, *dst),
            Low::Upgrade { src, dst } => e!(11, *src, *dst),
            Low::GetMut { src, w } => { e!(12, *src); ws(&mut v, w) }
            Low::IntoMut { src, via } => e!(13, *src, *via),
            Low::IntoImmut { src, via } => e!(14, *src, *via),
            Low::Write { src, via, w } => { e!(15, *src, *via); ws(&mut v, w) }
            Low::IntoIter { src } => e!(16, *src),
            Low::IterSplit { src, dst, from, at } => e!(17, *src, *dst, *from, *at),
            Low::Drop { src } => e!(18, *src),
            Low::Assign { src, dst } => e!(19, *src, *dst),
            Low::DropPocket { keep } => e!(20, *keep),
            Low::Debug { src } => e!(21, *src),
            Low::Arm { drop, tok } => e!(22, *drop, *tok),
            Low::CloneFrom { src, dst } => e!(23, *src, *dst),
        }
        v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
    }
    pub fn de(v: &[u64]) -> Option<Low> {
        let g = |i: usize| v[i] as usize;
        let b = |i: usize| v[i] != 0;
        let opt = |i: usize| if v[i] == u64::MAX { None } else { Some(v[i] as usize) };
        let ws = |i: usize| (0..g(i)).map(|k| { let o = i + 1 + 3 * k; match v[o] { 0 => Write::Replace(g(o + 1), g(o + 2) as u32), 1 => Write::Swap(g(o + 1), g(o + 2)), _ => Write::Reverse } }).collect::<Vec<_>>();
        Some(match *v.first()? {
            0 => Low::New { dst: g(1), shared: b(2), via: g(3) as u8, panic_at: opt(4), toks: v[6..6 + g(5)].iter().map(|t| *t as u32).collect() },
            1 => Low::WeakNew { dst: g(1) },
            2 => Low::Clone { src: g(1), dst: g(2) },
            3 => Low::CloneHalf { src: g(1), dst: g(2), right: b(3) },
            4 => Low::SplitOff { src: g(1), dst: g(2), right: b(3) },
            5 => Low::IntoParts { src: g(1), k: g(2) },
            6 => Low::Next { src: g(1), dst: g(2), back: b(3), nth: opt(4) },
            7 => Low::Count { src: g(1), mode: g(2) as u8 },
            8 => Low::Last { src: g(1), dst: g(2), mode: g(3) as u8 },
            9 => Low::Collect { src: g(1), rev: g(2) & 1 == 1, mode: g(2) as u8 >> 1, dsts: v[4..4 + g(3)].iter().map(|t| *t as usize).collect() },
            10 => Low::Downgrade { src: g(1), dst: g(2) },
            11 => Low::Upgrade { src: g(1), dst: g(2) },
            12 => Low::GetMut { src: g(1), w: ws(2) },
            13 => Low::IntoMut { src: g(1), via: g(2) as u8 },
            14 => Low::IntoImmut { src: g(1), via: g(2) as u8 },
            15 => Low::Write { src: g(1), via: g(2) as u8, w: ws(3) },
            16 => Low::IntoIter { src: g(1) },
            17 => Low::IterSplit { src: g(1), dst: g(2), from: b(3), at: g(4) },
            18 => Low::Drop { src: g(1) },
            19 => Low::Assign { src: g(1), dst: g(2) },
            20 => Low::DropPocket { keep: g(1) },
            21 => Low::Debug { src: g(1) },
            23 => Low::CloneFrom { src: g(1), dst: g(2) },
            _ => Low::Arm { drop: b(1), tok: g(2) as u32 },
        })
    }
    /// the largest token this operation makes
    pub fn max_tok(&self) -> Option<u32> {
        let w = |w: &Vec<Write>| w.iter().filter_map(|w| if let Write::Replace(_, t) = w { Some(*t) } else { None }).max();
        match self { Low::New { toks, .. } => toks.iter().copied().max(), Low::GetMut { w: x, .. } | Low::Write { w: x, .. } => w(x), _ => None }
    }
}
#[derive(Default, Debug)]
pub struct Out {
    pub panic: Option<String>,
    pub some: bool,
    pub n: usize,
    pub toks: Vec<u32>,
    pub text: String,
}
#[derive(Default, Debug, Clone)]
pub struct View {
    pub len: usize,
    pub toks: Vec<u32>,
    pub ptr: usize,
    pub rem: usize,
    pub hint: (usize, Option<usize>),
    /// the mutable view (where there is one) has the same address and length
    pub mut_ok: bool,
    /// look at the first and last item only
    pub quick: bool,
}
pub trait Machine {
    fn info(&self) -> KindInfo;
    fn arc(&self) -> bool;
    fn exec(&mut self, op: &Low, out: &mut Out);
    fn observe(&mut self, slot: usize, v: &mut View);
    fn kind(&self, slot: usize) -> Option<HK>;
    fn clear(&mut self);
    fn slots(&self) -> usize;
}

thread_local! { pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        track::pause(|| {
            let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
            let loc = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg}{loc}"));
        })
    }));
}
/// Runs library code.
fn call<R>(out: &mut Out, f: impl FnOnce() -> R) -> Option<R> {
    match catch_unwind(AssertUnwindSafe(|| track::tagged(f))) {
        Ok(r) => Some(r),
        Err(p) => { drop(p); out.panic = Some(LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut()))); None }
    }
}
fn apply<K: Kind>(s: &mut [K], w: &[Write]) {
    for w in w {
        match *w {
            Write::Replace(i, t) => s[i] = K::make(t),
            Write::Swap(i, j) => s.swap(i, j),
            Write::Reverse => s.reverse(),
        }
    }
}
/// Whose hint about its length is true but vague, or wrong.
struct Hint<I> { i: I, hint: (usize, Option<usize>) }
impl<I: Iterator> Iterator for Hint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.i.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { self.hint }
}
/// The ways to drain an iterator through the provided methods.
fn drain<I: DoubleEndedIterator + ExactSizeIterator>(mut it: I, rev: bool, mode: u8) -> Vec<I::Item> {
    let mut v = vec![];
    match (mode % 7, rev) {
        (0, false) => return it.collect(),
        (0, true) => return it.rev().collect(),
        (1, false) => it.fold((), |_, x| v.push(x)),
        (1, true) => it.rfold((), |_, x| v.push(x)),
        (2, false) => it.for_each(|x| v.push(x)),
        (2, true) => it.rev().for_each(|x| v.push(x)),
        (3, false) => while let Some(x) = it.nth(0) { v.push(x) },
        (3, true) => while let Some(x) = it.nth_back(0) { v.push(x) },
        (4, false) => { let h = it.len() / 2; let _ = it.try_fold(0, |n, x| { v.push(x); if n + 1 >= h { None } else { Some(n + 1) } }); v.extend(it.by_ref()); if it.next().is_some() { v.truncate(0) } }
        (4, true) => { let h = it.len() / 2; let _ = it.try_rfold(0, |n, x| { v.push(x); if n + 1 >= h { None } else { Some(n + 1) } }); v.extend(it.by_ref().rev()); if it.next_back().is_some() { v.truncate(0) } }
        (5, false) => { let mut p = it.peekable(); while p.peek().is_some() { v.extend(p.next()) } }
        (5, true) => { let mut p = it.rev().peekable(); while p.peek().is_some() { v.extend(p.next()) } }
        (_, false) => for (i, x) in it.enumerate() { if i == v.len() { v.push(x) } },
        (_, true) => { let n = it.len(); for (i, x) in it.enumerate().rev() { if i + 1 + v.len() == n { v.push(x) } } }
    }
    v
}
fn last<I: DoubleEndedIterator>(mut it: I, mode: u8) -> Option<I::Item> {
    match mode % 4 { 0 => it.last(), 1 => it.next_back(), 2 => it.fold(None, |_, x| Some(x)), _ => it.rfold(None, |a, x| a.or(Some(x))) }
}
fn count<I: DoubleEndedIterator>(it: I, mode: u8) -> usize {
    match mode % 4 { 0 => it.count(), 1 => it.fold(0, |n, _| n + 1), 2 => it.rev().count(), _ => it.map(drop).count() }
}
struct PanicIter<I> { i: I, left: usize }
impl<I: Iterator> Iterator for PanicIter<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.left == 0 { ledger::with(|l| l.fired = true); std::panic::panic_any(ledger::ARMED.to_string()); }
        self.left -= 1;
        self.i.next()
    }
}

macro_rules! family {
    ($name:ident, $arc:expr, $m:ident, $Sh:ident, $Parts:ident, $Mut:ident, $Iter:ident, $MutParts:ident) => {
        pub mod $name {
            use super::*;
            use rc_slice::$m::{$Iter as Iter_, $Mut as Mut_, $MutParts as MutParts_, $Parts as Parts_, $Sh as Sh_, WeakSlice};
            enum H<K> { Sh(Sh_<K>), Weak(WeakSlice<K>), Parts(Parts_<K>), Mut(Mut_<K>), Iter(Iter_<K>), MutParts(MutParts_<K>) }
            pub struct M<K: Kind> { slots: Vec<Option<H<K>>>, pocket: Vec<K> }
            impl<K: Kind> M<K> {
                pub fn new() -> Self { Self { slots: vec![], pocket: Vec::with_capacity(64) } }
                fn put(&mut self, i: usize, h: H<K>) {
                    while self.slots.len() <= i { self.slots.push(None) }
                    assert!(self.slots[i].is_none());
                    self.slots[i] = Some(h);
                }
                fn take(&mut self, i: usize) -> H<K> { self.slots[i].take().unwrap() }
            }
            fn mk<K: Kind>(out: &mut Out, shared: bool, via: u8, toks: &[u32], panic_at: Option<usize>) -> Option<H<K>> {
                call(out, || {
                    let it = toks.iter().map(|&t| K::make(t));
                    if let Some(p) = panic_at {
                        let it = PanicIter { i: it, left: p };
                        return if shared { H::Sh(it.collect()) } else { H::Mut(it.collect()) };
                    }
                    if let 7..=9 = via {
                        let n = toks.len();
                        let it = Hint { i: it, hint: [(n / 2, Some(2 * n + 1)), (0, Some(usize::MAX)), (n + 3, Some(n + 3))][via as usize - 7] };
                        return if shared { H::Sh(it.collect()) } else { H::Mut(it.collect()) };
                    }
                    if via == 0 { return if shared { H::Sh(it.collect()) } else { H::Mut(it.collect()) } }
                    let mut v: Vec<K> = if via == 1 { Vec::with_capacity(toks.len() + 5) } else { Vec::with_capacity(toks.len()) };
                    v.extend(it);
                    match (via, shared) {
                        (1 | 2, true) => H::Sh(Sh_::from_vec(v)),
                        (1 | 2, false) => H::Mut(Mut_::from_vec(v)),
                        (3, true) => H::Sh(Sh_::from(v)),
                        (3, false) => H::Mut(Mut_::from(v)),
                        (4, true) => H::Sh(Sh_::from_boxed_slice(v.into_boxed_slice())),
                        (4, false) => H::Mut(Mut_::from_boxed_slice(v.into_boxed_slice())),
                        (5, true) => H::Sh(Sh_::from(v.into_boxed_slice())),
                        (5, false) => H::Mut(Mut_::from(v.into_boxed_slice())),
                        (_, true) => H::Sh(Sh_::from(Mut_::from_vec(v))),
                        (_, false) => match Mut_::try_from(Sh_::from_vec(v)) { Ok(m) => H::Mut(m), Err(s) => H::Sh(s) },
                    }
                })
            }
            impl<K: Kind> Machine for M<K> {
                fn info(&self) -> KindInfo { K::INFO }
                fn arc(&self) -> bool { $arc }
                fn slots(&self) -> usize { self.slots.len() }
                fn kind(&self, i: usize) -> Option<HK> {
                    self.slots.get(i)?.as_ref().map(|h| match h { H::Sh(_) => HK::Sh, H::Weak(_) => HK::Weak, H::Parts(_) => HK::Parts, H::Mut(_) => HK::Mut, H::Iter(_) => HK::Iter, H::MutParts(_) => HK::MutParts })
                }
                fn clear(&mut self) { self.slots.clear(); self.pocket.clear(); }
                fn exec(&mut self, op: &Low, out: &mut Out) {
                    *out = Out::default();
                    match *op {
                        Low::New { dst, shared, via, ref toks, panic_at } => {
                            if let Some(h) = mk(out, shared, via, toks, panic_at) { out.some = true; self.put(dst, h) }
                        }
                        Low::WeakNew { dst } => if let Some(w) = call(out, || WeakSlice::new()) { self.put(dst, H::Weak(w)) },
                        Low::Clone { src, dst } => {
                            let r = match self.slots[src].as_ref().unwrap() {
                                H::Sh(s) => call(out, || H::Sh(s.clone())),
                                H::Weak(s) => call(out, || H::Weak(s.clone())),
                                H::Parts(s) => call(out, || H::Parts(s.clone())),
                                H::Mut(s) => call(out, || H::Mut(s.clone())),
                                _ => unreachable!(),
                            };
                            if let Some(h) = r { out.some = true; self.put(dst, h) }
                        }
                        Low::CloneFrom { src, dst } => {
                            let mut old = self.take(dst);
                            match (&mut old, self.slots[src].as_ref().unwrap()) {
                                (H::Sh(d), H::Sh(s)) => { call(out, || d.clone_from(s)); }
                                (H::Weak(d), H::Weak(s)) => { call(out, || d.clone_from(s)); }
                                (H::Parts(d), H::Parts(s)) => { call(out, || d.clone_from(s)); }
                                _ => unreachable!(),
                            }
                            self.put(dst, old);
                        }
                        Low::CloneHalf { src, dst, right } => {
                            let r = match self.slots[src].as_ref().unwrap() {
                                H::Sh(s) => call(out, || if right { Sh_::clone_right(s) } else { Sh_::clone_left(s) }),
                                _ => unreachable!(),
                            };
                            if let Some(h) = r { out.some = true; self.put(dst, H::Sh(h)) }
                        }
                        Low::SplitOff { src, dst, right } => {
                            let r = match self.slots[src].as_mut().unwrap() {
                                H::Sh(s) => call(out, || H::Sh(if right { Sh_::split_off_right(s) } else { Sh_::split_off_left(s) })),
                                H::Mut(s) => call(out, || H::Mut(if right { Mut_::split_off_right(s) } else { Mut_::split_off_left(s) })),
                                _ => unreachable!(),
                            };
                            if let Some(h) = r { out.some = true; self.put(dst, h) }
                        }
                        Low::IntoParts { src, k } => {
                            let r = match self.take(src) {
                                H::Sh(s) => call(out, || H::Parts(Sh_::split_into_parts(s, k))),
                                H::Mut(s) => call(out, || H::MutParts(Mut_::split_into_parts(s, k))),
                                _ => unreachable!(),
                            };
                            if let Some(h) = r { out.some = true; self.put(src, h) }
                        }
                        Low::Next { src, dst, back, nth } => {
                            macro_rules! nx { ($s:expr) => { call(out, || match (back, nth) {
                                (false, None) => $s.next(), (true, None) => $s.next_back(), (false, Some(n)) => $s.nth(n), (true, Some(n)) => $s.nth_back(n) }) } }
                            match self.slots[src].as_mut().unwrap() {
                                H::Parts(s) => if let Some(Some(h)) = nx!(s) { out.some = true; self.put(dst, H::Sh(h)) },
                                H::MutParts(s) => if let Some(Some(h)) = nx!(s) { out.some = true; self.put(dst, H::Mut(h)) },
                                H::Iter(s) => if let Some(Some(h)) = nx!(s) { out.some = true; out.toks.push(h.tok()); self.pocket.push(h) },
                                _ => unreachable!(),
                            }
                        }
                        Low::Count { src, mode } => {
                            let r = match self.take(src) {
                                H::Parts(s) => call(out, || count(s, mode)),
                                H::MutParts(s) => call(out, || count(s, mode)),
                                H::Iter(s) => call(out, || count(s, mode)),
                                _ => unreachable!(),
                            };
                            if let Some(n) = r { out.some = true; out.n = n }
                        }
                        Low::Last { src, dst, mode } => match self.take(src) {
                            H::Parts(s) => if let Some(Some(h)) = call(out, || last(s, mode)) { out.some = true; self.put(dst, H::Sh(h)) },
                            H::MutParts(s) => if let Some(Some(h)) = call(out, || last(s, mode)) { out.some = true; self.put(dst, H::Mut(h)) },
                            H::Iter(s) => if let Some(Some(h)) = call(out, || last(s, mode)) { out.some = true; out.toks.push(h.tok()); self.pocket.push(h) },
                            _ => unreachable!(),
                        },
                        Low::Collect { src, ref dsts, rev, mode } => {
                            macro_rules! col { ($s:expr, $v:path) => {{
                                let v = call(out, || drain($s, rev, mode));
                                if let Some(v) = v {
                                    out.some = true; out.n = v.len();
                                    let mut d = dsts.iter();
                                    let mut rest = vec![];
                                    for h in v { match d.next() { Some(&i) => self.put(i, $v(h)), None => rest.push(h) } }
                                    call(out, move || drop(rest));
                                }
                            }} }
                            match self.take(src) {
                                H::Parts(s) => col!(s, H::Sh),
                                H::MutParts(s) => col!(s, H::Mut),
                                H::Iter(s) => {
                                    let v = call(out, || drain(s, rev, mode));
                                    if let Some(v) = v { out.some = true; out.n = v.len(); for h in v { out.toks.push(h.tok()); self.pocket.push(h) } }
                                }
                                _ => unreachable!(),
                            }
                        }
                        Low::Downgrade { src, dst } => {
                            let r = match self.slots[src].as_ref().unwrap() { H::Sh(s) => call(out, || Sh_::downgrade(s)), _ => unreachable!() };
                            if let Some(h) = r { out.some = true; self.put(dst, H::Weak(h)) }
                        }
                        Low::Upgrade { src, dst } => {
                            let r = match self.slots[src].as_ref().unwrap() { H::Weak(s) => call(out, || s.upgrade()), _ => unreachable!() };
                            if let Some(Some(h)) = r { out.some = true; self.put(dst, H::Sh(h)) }
                        }
                        Low::GetMut { src, ref w } => match self.slots[src].as_mut().unwrap() {
                            H::Sh(s) => if let Some(Some(())) = call(out, || Sh_::get_mut(s).map(|s| apply(s, w))) { out.some = true },
                            _ => unreachable!(),
                        },
                        Low::IntoMut { src, via } => match self.take(src) {
                            H::Sh(s) => match call(out, || match via { 0 => Sh_::into_mut(s), _ => Mut_::try_from(s) }) {
                                Some(Ok(m)) => { out.some = true; self.put(src, H::Mut(m)) }
                                Some(Err(s)) => self.put(src, H::Sh(s)),
                                None => {}
                            },
                            _ => unreachable!(),
                        },
                        Low::IntoImmut { src, via } => match self.take(src) {
                            H::Mut(s) => if let Some(h) = call(out, || match via { 0 => Mut_::into_immut(s), _ => Sh_::from(s) }) { out.some = true; self.put(src, H::Sh(h)) },
                            _ => unreachable!(),
                        },
                        Low::Write { src, via, ref w } => {
                            let h = self.slots[src].as_mut().unwrap();
                            call(out, || {
                                let s: &mut [K] = match h {
                                    H::Mut(m) => match via % 3 { 0 => &mut **m, 1 => m.as_mut(), _ => m.borrow_mut() },
                                    H::Iter(m) => m.as_mut_slice(),
                                    H::MutParts(m) => m.as_mut_slice(),
                                    _ => unreachable!(),
                                };
                                apply(s, w)
                            });
                        }
                        Low::IntoIter { src } => match self.take(src) {
                            H::Mut(s) => if let Some(h) = call(out, || s.into_iter()) { out.some = true; self.put(src, H::Iter(h)) },
                            _ => unreachable!(),
                        },
                        Low::IterSplit { src, dst, from, at } => match self.slots[src].as_mut().unwrap() {
                            H::Iter(s) => if let Some(h) = call(out, || if from { s.split_off_from(at) } else { s.split_off_to(at) }) { out.some = true; self.put(dst, H::Iter(h)) },
                            _ => unreachable!(),
                        },
                        Low::Drop { src } => { let h = self.take(src); call(out, move || drop(h)); }
                        Low::Assign { src, dst } => {
                            // overwrite dst (same type) with src
                            let h = self.take(src);
                            match (self.slots[dst].as_mut().unwrap(), h) {
                                (H::Sh(d), H::Sh(h)) => { call(out, move || *d = h); }
                                (H::Weak(d), H::Weak(h)) => { call(out, move || *d = h); }
                                (H::Mut(d), H::Mut(h)) => { call(out, move || *d = h); }
                                (H::Parts(d), H::Parts(h)) => { call(out, move || *d = h); }
                                (H::Iter(d), H::Iter(h)) => { call(out, move || *d = h); }
                                (H::MutParts(d), H::MutParts(h)) => { call(out, move || *d = h); }
                                _ => unreachable!(),
                            }
                        }
                        Low::DropPocket { keep } => { let rest = self.pocket.split_off(keep.min(self.pocket.len())); call(out, move || drop(rest)); }
                        Low::Debug { .. } => {}
                        Low::Arm { drop, tok } => ledger::with(|l| if drop { l.armed_drop = Some(tok) } else { l.armed_clone = Some(tok) }),
                    }
                }
                fn observe(&mut self, i: usize, v: &mut View) {
                    v.toks.clear(); v.mut_ok = true; v.rem = 0; v.hint = (0, None);
                    let (p, n);
                    let s: &[K] = match self.slots[i].as_mut().unwrap() {
                        H::Sh(s) => &**s,
                        H::Parts(s) => { v.rem = s.len(); v.hint = s.size_hint(); s.as_slice() }
                        H::Mut(s) => { let b: &[K] = Borrow::borrow(&*s); p = b.as_ptr(); n = b.len(); let m = &mut **s; v.mut_ok = n == m.len() && (n == 0 || p == m.as_ptr()); &**s }
                        H::Iter(s) => { v.rem = s.len(); v.hint = s.size_hint(); p = s.as_slice().as_ptr(); n = s.as_slice().len(); let m = s.as_mut_slice(); v.mut_ok = n == m.len() && (n == 0 || p == m.as_ptr()); s.as_slice() }
                        H::MutParts(s) => { v.rem = s.len(); v.hint = s.size_hint(); p = s.as_slice().as_ptr(); n = s.as_slice().len(); let m = s.as_mut_slice(); v.mut_ok = n == m.len() && (n == 0 || p == m.as_ptr()); s.as_slice() }
                        H::Weak(_) => { v.len = 0; v.ptr = 0; return }
                    };
                    v.len = s.len(); v.ptr = s.as_ptr() as usize;
                    // a wildly wrong length must not make the harness read wild memory
                    if v.quick { if let (Some(a), Some(b)) = (s.first(), s.last()) { v.toks.push(a.tok()); v.toks.push(b.tok()) } }
                    else if s.len() <= 4096 { for x in s { v.toks.push(x.tok()) } }
                }
            }
        }
    };
}
family!(rcm, false, rc, RcSlice, RcSliceParts, RcSliceMut, RcSliceMutIter, RcSliceMutParts);
family!(arcm, true, arc, ArcSlice, ArcSliceParts, ArcSliceMut, ArcSliceMutIter, ArcSliceMutParts);

pub fn build(arc: bool, kind: usize) -> Box<dyn Machine> {
    use crate::kinds::*;
    macro_rules! k { ($($i:expr => $t:ty),*) => { match (arc, kind) {
        $( (false, $i) => Box::new(rcm::M::<$t>::new()) as Box<dyn Machine>, (true, $i) => Box::new(arcm::M::<$t>::new()), )*
        _ => unreachable!() } } }
    k!(0 => Tok8, 1 => Tok24, 2 => Boxed, 3 => Al32, 4 => Byte, 5 => Nz, 6 => Zd, 7 => Zal, 8 => Unit, 9 => Odd3, 10 => Big264)
}
