//! C13: zero sized items, extreme lengths and extreme part counts. Input: a byte program.
use crate::kinds::{Kind, Zal, Zd};
use crate::ledger;
use crate::views::In;
use std::panic::{catch_unwind, AssertUnwindSafe};

type R = Result<(), String>;
macro_rules! ck { ($c:expr, $($m:tt)*) => { if !$c { return Err(format!($($m)*)) } } }

pub trait Item: Clone + 'static { const HUGE: bool; const NAME: &'static str; fn vec(n: usize) -> Vec<Self>; fn check(s: &[Self], start: usize) -> bool; }
#[derive(Clone, Copy)] pub struct Z1;
#[derive(Clone, Copy)] #[repr(align(4096))] pub struct Zbig;
macro_rules! huge { ($t:ty, $n:expr) => { impl Item for $t {
    const HUGE: bool = true; const NAME: &'static str = $n;
    // SAFETY: a zero sized type that is Copy: any number of them fit anywhere, without being written
    fn vec(n: usize) -> Vec<Self> { assert_eq!(std::mem::size_of::<$t>(), 0); let mut v = Vec::new(); unsafe { v.set_len(n) } v }
    fn check(s: &[Self], _: usize) -> bool { s.as_ptr() as usize % std::mem::align_of::<$t>() == 0 }
} } }
huge!((), "()");
huge!(Z1, "unit struct");
huge!(Zbig, "unit struct, align 4096");
huge!([u64; 0], "[u64; 0]");
macro_rules! counted { ($t:ty, $n:expr) => { impl Item for $t {
    const HUGE: bool = false; const NAME: &'static str = $n;
    fn vec(n: usize) -> Vec<Self> { (0..n).map(|_| <$t as Kind>::make(0)).collect() }
    fn check(s: &[Self], _: usize) -> bool { s.as_ptr() as usize % std::mem::align_of::<$t>() == 0 }
} } }
counted!(Zd, "unit struct with destructor");
counted!(Zal, "unit struct with destructor, align 64");
impl Item for u16 {
    const HUGE: bool = false; const NAME: &'static str = "u16";
    fn vec(n: usize) -> Vec<u16> { (0..n).map(|i| i as u16).collect() }
    fn check(s: &[u16], start: usize) -> bool { s.iter().enumerate().all(|(i, x)| *x == (start + i) as u16) }
}

fn length(i: &mut In, huge: bool, sized: bool) -> usize {
    if sized { return match i.u64() % 512 { 0 => 65530 + i.below(12), 1..=8 => i.u64() as usize % 6000, _ => i.below(48) } }
    if !huge { return match i.byte() % 4 { 0 => i.below(10), 1 => i.below(100), _ => (i.u64() % 2000) as usize } }
    match i.byte() % 8 {
        0 => i.below(10),
        1 => usize::MAX - i.below(3),
        2 => usize::MAX / 2 - 1 + i.below(4),
        3 => 1usize << i.below(64),
        4 => (1usize << i.below(64)).wrapping_sub(1),
        5 => (1usize << i.below(63)) + 1,
        6 => i.u64() as usize,
        _ => (i.u64() >> i.below(60)) as usize,
    }
}
fn cut(i: &mut In, n: usize) -> usize {
    let c = match i.byte() % 8 { 0 => 0, 1 => n, 2 => n / 2, 3 => 1, 4 => n.wrapping_sub(1), 5 => 1 << i.below(64), 6 => i.u64() as usize, _ => n - n / 3 };
    if c > n { n / 2 } else { c }
}
/// the range of part `idx` of `1 << lg` parts of `s..s + n`
fn leaf(mut s: usize, mut n: usize, lg: u32, idx: u64) -> (usize, usize) {
    for bit in (0..lg).rev() { let m = n / 2; if idx >> bit & 1 == 0 { n = m } else { s = s.wrapping_add(m); n -= m } }
    (s, n)
}
macro_rules! fam {
    ($mo:ident, $m:ident, $Sh:ident, $Mut:ident) => {
        mod $mo {
            use super::*;
            use rc_slice::{$Sh as Sh, $Mut as Mt};
            #[derive(Clone, Copy)]
            struct P { s: usize, n: usize, lg: u32, f: u64, b: u64, used_f: usize, used_b: usize }
            impl P {
                fn rem(&self) -> u64 { (1u64 << self.lg) - self.f - self.b }
                fn items(&self) -> usize { self.n - self.used_f - self.used_b }
                fn take(&mut self, back: bool) -> (usize, usize) {
                    let idx = if back { (1u64 << self.lg) - 1 - self.b } else { self.f };
                    let r = leaf(self.s, self.n, self.lg, idx);
                    if back { self.b += 1; self.used_b += r.1 } else { self.f += 1; self.used_f += r.1 }
                    r
                }
            }
            enum H<T> { Sh(Sh<T>, usize, usize), Mt(Mt<T>, usize, usize), SP(rc_slice::$m::Parts<T>, P), MP(rc_slice::$m::MutParts<T>, P), It(rc_slice::$m::MutIter<T>, usize, usize) }
            mod rc_slice {
                #[allow(unused_imports)] pub mod rc { pub use ::rc_slice::rc::{RcSliceParts as Parts, RcSliceMutParts as MutParts, RcSliceMutIter as MutIter}; }
                #[allow(unused_imports)] pub mod arc { pub use ::rc_slice::arc::{ArcSliceParts as Parts, ArcSliceMutParts as MutParts, ArcSliceMutIter as MutIter}; }
                pub use ::rc_slice::*;
            }
            fn look<T: Item>(what: &str, s: &[T], start: usize, n: usize) -> R {
                ck!(s.len() == n, "{what} over {}: shows {} items instead of {n}", T::NAME, s.len());
                ck!(T::check(s, start), "{what} over {}: wrong items or misaligned", T::NAME);
                Ok(())
            }
            fn see<T: Item>(h: &mut H<T>) -> R {
                match h {
                    H::Sh(h, s, n) => look("shared handle", h, *s, *n),
                    H::Mt(h, s, n) => { ck!(h[..].as_mut().len() == *n, "mutable view of an exclusive handle over {}: {} items instead of {n}", T::NAME, h.len()); look("exclusive handle", h, *s, *n) }
                    H::SP(h, p) => {
                        ck!(h.len() as u64 == p.rem() && h.size_hint() == (p.rem() as usize, Some(p.rem() as usize)), "parts iterator over {}: len {} size_hint {:?} instead of {}", T::NAME, h.len(), h.size_hint(), p.rem());
                        look("remaining items of a parts iterator", h.as_slice(), p.s.wrapping_add(p.used_f), p.items())
                    }
                    H::MP(h, p) => {
                        ck!(h.len() as u64 == p.rem() && h.size_hint() == (p.rem() as usize, Some(p.rem() as usize)), "exclusive parts iterator over {}: len {} size_hint {:?} instead of {}", T::NAME, h.len(), h.size_hint(), p.rem());
                        ck!(h.as_mut_slice().len() == p.items(), "exclusive parts iterator over {}: mutable view of {} items instead of {}", T::NAME, h.as_mut_slice().len(), p.items());
                        look("remaining items of an exclusive parts iterator", h.as_slice(), p.s.wrapping_add(p.used_f), p.items())
                    }
                    H::It(h, s, n) => {
                        ck!(h.len() == *n && h.size_hint() == (*n, Some(*n)), "owning iterator over {}: len {} size_hint {:?} instead of {n}", T::NAME, h.len(), h.size_hint());
                        ck!(h.as_mut_slice().len() == *n, "owning iterator over {}: mutable view of {} items instead of {n}", T::NAME, h.as_mut_slice().len());
                        look("remaining items of an owning iterator", h.as_slice(), *s, *n)
                    }
                }
            }
            pub fn run<T: Item>(i: &mut In, sized: bool) -> Result<bool, String> {
                let n = length(i, T::HUGE, sized);
                let v = T::vec(n);
                let mut hs: Vec<H<T>> = vec![if i.byte() & 1 == 0 { H::Sh(Sh::from_vec(v), 0, n) } else { H::Mt(if i.byte() & 1 == 0 { Mt::from_vec(v) } else { Mt::from_boxed_slice(v.into_boxed_slice()) }, 0, n) }];
                let mut nt = false;
                let steps = 4 + i.byte() % 28;
                let mut out: Vec<T> = vec![];
                for _ in 0..steps {
                    if hs.is_empty() { break }
                    let k = i.below(hs.len());
                    let op = i.byte();
                    let h = hs.swap_remove(k);
                    let mut new = vec![];
                    match h {
                        H::Sh(h, s, n) => {
                            let (m, r) = (n / 2, n - n / 2);
                            match op % 8 {
                                0 => { let c = Sh::clone_left(&h); new.push(H::Sh(c, s, m)); new.push(H::Sh(h, s, n)) }
                                1 => { let c = Sh::clone_right(&h); new.push(H::Sh(c, s.wrapping_add(m), r)); new.push(H::Sh(h, s, n)) }
                                2 => { let mut h = h; let c = Sh::split_off_left(&mut h); new.push(H::Sh(c, s, m)); new.push(H::Sh(h, s.wrapping_add(m), r)) }
                                3 => { let mut h = h; let c = Sh::split_off_right(&mut h); new.push(H::Sh(c, s.wrapping_add(m), r)); new.push(H::Sh(h, s, m)) }
                                4 | 5 => { let lg = parts(i); nt = true; new.push(H::SP(Sh::split_into_parts(h, 1 << lg), P { s, n, lg, f: 0, b: 0, used_f: 0, used_b: 0 })) }
                                6 => match Sh::into_mut(h) { Ok(h) => new.push(H::Mt(h, s, n)), Err(h) => new.push(H::Sh(h, s, n)) },
                                _ => { let w = Sh::downgrade(&h); let c = if i.byte() & 1 == 0 { Some(h.clone()) } else { None }; drop(h); if let Some(u) = w.upgrade() { new.push(H::Sh(u, s, n)) } drop(c); }
                            }
                        }
                        H::Mt(mut h, s, n) => {
                            let (m, r) = (n / 2, n - n / 2);
                            match op % 8 {
                                0 | 1 => { let c = Mt::split_off_left(&mut h); new.push(H::Mt(c, s, m)); new.push(H::Mt(h, s.wrapping_add(m), r)) }
                                2 => { let c = Mt::split_off_right(&mut h); new.push(H::Mt(c, s.wrapping_add(m), r)); new.push(H::Mt(h, s, m)) }
                                3 | 4 => { let lg = parts(i); nt = true; new.push(H::MP(Mt::split_into_parts(h, 1 << lg), P { s, n, lg, f: 0, b: 0, used_f: 0, used_b: 0 })) }
                                5 => new.push(H::Sh(Mt::into_immut(h), s, n)),
                                6 => new.push(H::It(h.into_iter(), s, n)),
                                _ => if n < 3000 { let c = h.clone(); new.push(H::Mt(c, s, n)); new.push(H::Mt(h, s, n)) } else { new.push(H::It(h.into_iter(), s, n)) },
                            }
                        }
                        H::SP(mut h, mut p) => {
                            nt = true;
                            if op % 8 == 0 { new.push(H::SP(h.clone(), p)) }
                            if op % 8 == 7 { drop(h) } else if op % 8 == 6 {
                                let c = h.count();
                                ck!(c as u64 == p.rem(), "count of the parts left of an iterator over {} gave {c} instead of {}", T::NAME, p.rem())
                            } else {
                                for _ in 0..1 + i.byte() % 12 {
                                    let back = i.byte() & 1 == 1;
                                    let got = if back { h.next_back() } else { h.next() };
                                    let want = p.rem() > 0;
                                    ck!(got.is_some() == want, "parts iterator over {}: {} parts left but {}", T::NAME, p.rem(), if want { "gave none" } else { "gave one" });
                                    if let Some(g) = got {
                                        let (s, n) = p.take(back);
                                        look("part", &g, s, n)?;
                                        if i.byte() % 4 == 0 && hs.len() < 12 { new.push(H::Sh(g, s, n)) }
                                    }
                                }
                                new.push(H::SP(h, p))
                            }
                        }
                        H::MP(mut h, mut p) => {
                            nt = true;
                            if op % 8 == 7 { drop(h) } else if op % 8 == 6 {
                                let c = h.count();
                                ck!(c as u64 == p.rem(), "count of the parts left of an iterator over {} gave {c} instead of {}", T::NAME, p.rem())
                            } else {
                                for _ in 0..1 + i.byte() % 12 {
                                    let back = i.byte() & 1 == 1;
                                    let got = if back { h.next_back() } else { h.next() };
                                    let want = p.rem() > 0;
                                    ck!(got.is_some() == want, "exclusive parts iterator over {}: {} parts left but {}", T::NAME, p.rem(), if want { "gave none" } else { "gave one" });
                                    if let Some(g) = got {
                                        let (s, n) = p.take(back);
                                        look("exclusive part", &g, s, n)?;
                                        if i.byte() % 4 == 0 && hs.len() < 12 { new.push(H::Mt(g, s, n)) }
                                    }
                                }
                                new.push(H::MP(h, p))
                            }
                        }
                        H::It(mut h, mut s, mut n) => match op % 8 {
                            0 | 1 => for_next(&mut h, i, &mut s, &mut n, &mut out).map(|()| new.push(H::It(h, s, n)))?,
                            2 | 3 => { let at = cut(i, n); let c = h.split_off_from(at); new.push(H::It(c, s.wrapping_add(at), n - at)); new.push(H::It(h, s, at)); nt = true }
                            4 | 5 => { let at = cut(i, n); let c = h.split_off_to(at); new.push(H::It(c, s, at)); new.push(H::It(h, s.wrapping_add(at), n - at)); nt = true }
                            6 => {
                                if n < usize::MAX {
                                    let at = (n + 1).saturating_add(if i.byte() & 1 == 0 { 0 } else { i.u64() as usize });
                                    let from = i.byte() & 1 == 0;
                                    let r = catch_unwind(AssertUnwindSafe(|| { if from { h.split_off_from(at) } else { h.split_off_to(at) } }));
                                    ck!(r.is_err(), "splitting an owning iterator over {n} items of {} at {at} did not panic", T::NAME);
                                }
                                new.push(H::It(h, s, n))
                            }
                            _ => if n < 3000 || T::HUGE { let c = h.count(); ck!(c == n, "count over {} gave {c} instead of {n}", T::NAME) } else { new.push(H::It(h, s, n)) },
                        },
                    }
                    for mut h in new { if hs.len() < 14 { see(&mut h)?; hs.push(h) } }
                    for h in &mut hs { see(h)? }
                }
                Ok(nt && n > 0)
            }
            fn for_next<T: Item>(h: &mut rc_slice::$m::MutIter<T>, i: &mut In, s: &mut usize, n: &mut usize, out: &mut Vec<T>) -> R {
                for _ in 0..1 + i.byte() % 12 {
                    let back = i.byte() & 1 == 1;
                    let got = if back { h.next_back() } else { h.next() };
                    ck!(got.is_some() == (*n > 0), "owning iterator over {} with {n} items left: {}", T::NAME, if *n > 0 { "gave none" } else { "gave one" });
                    if let Some(g) = got {
                        let at = if back { s.wrapping_add(*n - 1) } else { *s };
                        let one = [g];
                        ck!(T::check(&one, at) || T::NAME != "u16", "owning iterator gave the wrong item for position {at}");
                        let [g] = one;
                        out.push(g);
                        if !back { *s = s.wrapping_add(1) }
                        *n -= 1;
                    }
                }
                Ok(())
            }
        }
    };
}
fn parts(i: &mut In) -> u32 { match i.byte() % 5 { 0 => 63, 1 => 62 - i.below(3) as u32, 2 => i.below(7) as u32, 3 => 30 + i.below(6) as u32, _ => i.below(64) as u32 } }
fam!(r, rc, RcSlice, RcSliceMut);
fam!(a, arc, ArcSlice, ArcSliceMut);

pub fn run(arc: bool, b: &[[u8; 4]]) -> Result<bool, String> {
    let mut i = In::new(b);
    let i = &mut i;
    let what = i.byte() % 8;
    macro_rules! f { ($t:ty, $s:expr) => { if arc { a::run::<$t>(i, $s) } else { r::run::<$t>(i, $s) } } }
    let r = match what {
        0 => f!((), false), 1 => f!(Z1, false), 2 => f!(Zbig, false), 3 => f!([u64; 0], false),
        4 => f!(Zd, false), 5 => f!(Zal, false),
        _ => f!(u16, true),
    }?;
    let left = ledger::with(|l| l.zlive);
    if left != 0 { return Err(format!("after everything is gone, {} zero sized items were {}", left.abs(), if left > 0 { "never destroyed" } else { "destroyed more than once" })) }
    Ok(r)
}
