//! C24: what calls allocate does not depend on the number of items. Input: a byte program. The same calls are
//! made on a short and on a long slice; each must allocate the same in both, and within a fixed bound.
use crate::machine::{build, Low, Machine, Out, View, HK};
use crate::{ledger, track};
use crate::views::In;

type R<T> = Result<T, String>;
macro_rules! ck { ($c:expr, $($m:tt)*) => { if !$c { return Err(format!($($m)*)) } } }
/// bytes a call may allocate, whatever the slice; calls on parts iterators go down up to log2(parts) levels
fn bound(lg: u32) -> i64 { 4096 + 2048 * lg as i64 }

macro_rules! fam { ($mo:ident, $m:ident, $Sh:ident, $Mut:ident, $Parts:ident, $MutParts:ident) => { mod $mo {
    use super::*;
    use rc_slice::{$Sh as Sh, $Mut as Mt};
    fn spent<T>(f: impl FnOnce() -> T) -> ((i64, i64), T) { let a = track::spent(); let r = track::tagged(f); let b = track::spent(); ((b.0 - a.0, b.1 - a.1), r) }
    /// wrapping what is already there
    pub fn wrap(how: u8, n: usize) -> ((i64, i64), usize, usize) {
        let v = track::tagged(|| { let mut v = Vec::with_capacity(n); v.resize(n, 7u16); v });
        let p = v.as_ptr() as usize;
        macro_rules! go { ($e:expr) => {{ let (s, h) = spent($e); (s, p, h.as_ptr() as usize) }} }
        match how % 8 {
            0 => go!(|| Sh::from_vec(v)),
            1 => go!(|| Sh::from(v)),
            2 => go!(|| Mt::from_vec(v)),
            3 => go!(|| Mt::from(v)),
            4 => { let b = v.into_boxed_slice(); go!(|| Sh::from_boxed_slice(b)) }
            5 => { let b = v.into_boxed_slice(); go!(|| Sh::from(b)) }
            6 => { let b = v.into_boxed_slice(); go!(|| Mt::from_boxed_slice(b)) }
            _ => { let b = v.into_boxed_slice(); go!(|| Mt::from(b)) }
        }
    }
    /// part counts far beyond the number of items
    pub fn many_parts(i: &mut In, lg: u32, n: usize) -> Result<(), String> {
        let k = 1usize << lg;
        let shared = i.byte() & 1 == 0;
        let v = vec![7u16; n];
        macro_rules! go { ($h:expr) => {{
            let h = track::tagged(|| $h);
            let (c, mut p) = spent(|| h.split_parts(k));
            ck!(c.1 <= bound(lg), "splitting into 2^{lg} parts allocates {} bytes", c.1);
            let mut kept = vec![];
            for _ in 0..i.byte() % 24 {
                let b = i.byte();
                let (c, x) = spent(|| if b & 1 == 0 { p.next() } else { p.next_back() });
                ck!(c.1 <= bound(lg), "taking one of 2^{lg} parts of {n} items allocates {} bytes", c.1);
                if b & 2 == 0 { kept.push(x) } else { track::tagged(move || drop(x)) }
            }
            track::tagged(move || { drop(p); drop(kept) });
        }} }
        trait S { type P; fn split_parts(self, k: usize) -> Self::P; }
        impl S for Sh<u16> { type P = rc_slice::$m::$Parts<u16>; fn split_parts(self, k: usize) -> Self::P { Sh::split_into_parts(self, k) } }
        impl S for Mt<u16> { type P = rc_slice::$m::$MutParts<u16>; fn split_parts(self, k: usize) -> Self::P { Mt::split_into_parts(self, k) } }
        if shared { go!(Sh::from_vec(v)) } else { go!(Mt::from_vec(v)) }
        Ok(())
    }
} } }
fam!(r, rc, RcSlice, RcSliceMut, RcSliceParts, RcSliceMutParts);
fam!(a, arc, ArcSlice, ArcSliceMut, ArcSliceParts, ArcSliceMutParts);

struct Two { m: [Box<dyn Machine>; 2], lg: Vec<u32>, out: Out, view: View, trace: Option<Vec<String>> }
impl Two {
    fn free(&mut self) -> usize {
        let d = (0..).find(|&i| self.m[0].kind(i).is_none()).unwrap();
        while self.lg.len() <= d { self.lg.push(0) }
        d
    }
    /// length of what slot `s` shows in the short slice and in the long one
    fn len(&mut self, s: usize) -> (usize, usize) {
        let mut l = [0; 2];
        for x in 0..2 { self.view.quick = true; self.m[x].observe(s, &mut self.view); l[x] = self.view.len }
        (l[0], l[1])
    }
    fn both(&mut self, small: Low, big: Low, lg: u32) -> R<bool> {
        let mut c = [(0, 0); 2];
        let mut some = [false; 2];
        for (x, low) in [&small, &big].into_iter().enumerate() {
            let a = track::spent();
            let k = ledger::with(|l| l.clones.len());
            self.m[x].exec(low, &mut self.out);
            let b = track::spent();
            if let Some(p) = &self.out.panic { return Err(format!("{low:?} panicked: {p}")) }
            ck!(ledger::with(|l| l.clones.len()) == k, "{low:?} cloned items");
            c[x] = (b.0 - a.0, b.1 - a.1);
            some[x] = self.out.some;
        }
        if let Some(t) = &mut self.trace { t.push(format!("{small:?} -> {} ({} allocations, {} bytes)", some[0], c[0].0, c[0].1)) }
        ck!(c[0] == c[1], "{small:?} makes {} allocations of {} bytes on the short slice, but {big:?} makes {} of {} on the long one", c[0].0, c[0].1, c[1].0, c[1].1);
        ck!(c[0].1 <= bound(lg), "{small:?} allocates {} bytes", c[0].1);
        ck!(some[0] == some[1], "{small:?} was granted on one slice and refused on the other, in the same history");
        Ok(some[0])
    }
    fn same(&mut self, low: Low, lg: u32) -> R<bool> { let b = low.clone(); self.both(low, b, lg) }
}
pub fn run(arc: bool, kind: u8, b: &[[u8; 4]], trace: Option<&mut Vec<String>>) -> R<bool> {
    if !track::on() { return Ok(false) }
    track::reset();
    let mut i = In::new(b);
    let i = &mut i;
    let (how, n, f) = (i.byte(), i.below(256), 2 + i.below(7));
    let w = |n| if arc { a::wrap(how, n) } else { r::wrap(how, n) };
    let (s, l) = (w(n + 1), w((n + 1) * f * 8));
    ck!(s.0 == l.0, "wrapping {} items makes {} allocations of {} bytes, wrapping {} makes {} of {}", n + 1, s.0 .0, s.0 .1, (n + 1) * f * 8, l.0 .0, l.0 .1);
    ck!(s.0 .1 <= bound(0), "wrapping a buffer allocates {} bytes", s.0 .1);
    ck!(s.1 == s.2 && l.1 == l.2, "wrapping a buffer moves its items");
    let lg = i.below(64) as u32;
    if arc { a::many_parts(i, lg, n)? } else { r::many_parts(i, lg, n)? }
    // the same history on two slices
    let kind = [4, 4, 0, 8, 3, 9][kind as usize % 6];
    let tracked = kind == 0 || kind == 3;
    let (short, f) = (if tracked { 64 + n } else { 512 + 8 * n }, if tracked { 2 + f % 3 } else { f });
    let mut t = Two { m: [build(arc, kind), build(arc, kind)], lg: vec![], out: Out::default(), view: View::default(), trace: trace.as_ref().map(|_| vec![]) };
    let r = history(i, b.len(), short, f, &mut t);
    let v = ledger::with(|l| std::mem::take(&mut l.viol));
    t.m.iter_mut().for_each(|m| m.clear());
    if let (Some(to), Some(from)) = (trace, t.trace.take()) { *to = from }
    let r = r?;
    if let Some((tag, msg)) = v.first() { return Err(format!("{tag}: {msg}")) }
    Ok(r >= 4)
}
fn history(i: &mut In, n: usize, short: usize, f: usize, t: &mut Two) -> R<u32> {
    let mut next_tok = 0u32;
    let mut worth = 0;
    let mut making = 1 + i.byte() % 2;
    for step in 0..4 * n {
        if making > 0 || (0..t.lg.len()).all(|s| t.m[0].kind(s).is_none()) {
            making = making.saturating_sub(1);
            let (d, shared) = (t.free(), i.byte() & 3 != 0);
            for x in 0..2 {
                let len = if x == 0 { short } else { short * f };
                ledger::reserve(next_tok + len as u32);
                let toks = (next_tok..next_tok + len as u32).collect();
                next_tok += len as u32;
                t.m[x].exec(&Low::New { dst: d, shared, via: 2, toks, panic_at: None }, &mut t.out);
                ck!(t.out.panic.is_none(), "construction panicked");
            }
            t.lg[d] = 0;
            if step > n { break }
            continue;
        }
        if step >= n { break }
        let live: Vec<usize> = (0..t.lg.len()).filter(|&s| t.m[0].kind(s).is_some()).collect();
        let s = live[i.below(live.len())];
        let (what, c) = (i.byte(), i.byte());
        let lg = t.lg[s];
        let room = live.len() < 14;
        let d = t.free();
        t.lg[d] = 0;
        let right = c & 1 == 1;
        let (l, big) = if t.m[0].kind(s) == Some(HK::Weak) { (0, 0) } else { t.len(s) };
        let deep = l >= 16;
        let k = 1u32 << (c >> 1) % 6;
        let w = t.m[0].kind(s).unwrap();
        let low = match (w, what % 16) {
            (_, 0) => Low::Drop { src: s },
            (HK::Sh, 1) if room => Low::Clone { src: s, dst: d },
            (HK::Sh, 2..=4) if room && deep => Low::CloneHalf { src: s, dst: d, right },
            (HK::Sh, 5 | 6) | (HK::Mut, 1..=6) if room && deep => Low::SplitOff { src: s, dst: d, right },
            (HK::Sh, 7 | 8) if room => Low::Downgrade { src: s, dst: d },
            (HK::Sh, 9 | 10) => Low::GetMut { src: s, w: vec![] },
            (HK::Sh, 11..=13) => Low::IntoMut { src: s, via: c },
            (HK::Sh, 14 | 15) | (HK::Mut, 7 | 8) if l >= 8 * k as usize => { t.lg[s] = k.trailing_zeros(); Low::IntoParts { src: s, k: k as usize } }
            (HK::Mut, 9..=12) => Low::IntoImmut { src: s, via: c },
            (HK::Mut, 13..=15) => Low::IntoIter { src: s },
            (HK::Weak, 1..=9) if room => Low::Upgrade { src: s, dst: d },
            (HK::Weak, 10..=12) if room => Low::Clone { src: s, dst: d },
            (HK::Parts | HK::MutParts, 1..=11) if room => Low::Next { src: s, dst: d, back: right, nth: None },
            (HK::Parts | HK::MutParts, 12) if room => Low::Last { src: s, dst: d, mode: 0 },
            (HK::Parts, 13 | 14) if room => { t.lg[d] = lg; Low::Clone { src: s, dst: d } }
            (HK::Parts | HK::MutParts, 15) => Low::Count { src: s, mode: 0 },
            (HK::Iter, 1..=6) if l >= 2 => Low::Next { src: s, dst: d, back: right, nth: None },
            (HK::Iter, 7..=12) if room => {
                let at = |l: usize| match c >> 1 & 3 { 0 => 0, 1 => l, _ => l * (c >> 3) as usize / 32 };
                worth += 1;
                t.both(Low::IterSplit { src: s, dst: d, from: right, at: at(l) }, Low::IterSplit { src: s, dst: d, from: right, at: at(big) }, 0)?;
                continue;
            }
            (HK::Iter, 13) => Low::Count { src: s, mode: 0 },
            _ => continue,
        };
        // every part of an iterator may be handed out at once by these two
        let lg2 = match low { Low::Last { .. } | Low::Count { .. } => 64, Low::IntoParts { .. } => t.lg[s], _ => lg };
        worth += !matches!(low, Low::Drop { .. } | Low::Clone { .. }) as u32;
        t.same(low, lg2)?;
    }
    Ok(worth)
}
