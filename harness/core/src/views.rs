//! C12: handles against the plain slices they must behave like. Input: a byte program.
use std::borrow::{Borrow, BorrowMut};
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

pub struct In<'a> { b: &'a [[u8; 4]], i: usize }
impl<'a> In<'a> {
    pub fn new(b: &'a [[u8; 4]]) -> Self { In { b, i: 0 } }
    pub fn byte(&mut self) -> u8 { let r = self.b.get(self.i / 4).map_or(0, |x| x[self.i % 4]); self.i += 1; r }
    pub fn below(&mut self, n: usize) -> usize { if n <= 1 { 0 } else { self.byte() as usize % n } }
    pub fn u64(&mut self) -> u64 { let mut r = 0; for _ in 0..8 { r = r << 8 | self.byte() as u64 } r }
}

/// Records exactly what is fed to it.
#[derive(Default, PartialEq, Debug)]
pub struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 { self.0.iter().fold(7, |a, b| a * 31 ^ *b as u64) }
    fn write(&mut self, b: &[u8]) { self.0.push(b.len() as u8); self.0.extend_from_slice(b) }
    fn write_usize(&mut self, n: usize) { self.0.push(200); self.0.extend_from_slice(&n.to_le_bytes()) }
    fn write_u8(&mut self, n: u8) { self.0.push(201); self.0.push(n) }
}
/// Equality neither reflexive nor consistent with its negation, order not total: handles must not assume otherwise.
#[derive(Clone, Debug)]
pub struct Odd(u8);
impl PartialEq for Odd {
    fn eq(&self, o: &Odd) -> bool { self.0 != 3 && o.0 != 3 && self.0 % 4 == o.0 % 4 }
}
impl PartialOrd for Odd {
    fn partial_cmp(&self, o: &Odd) -> Option<Ordering> { if self.0 == 3 || o.0 == 3 { None } else if self.0 == 2 { Some(Ordering::Greater) } else { self.0.partial_cmp(&o.0) } }
}
/// Ord disagrees with PartialOrd on purpose (reverse).
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Rev(u8);
impl PartialOrd for Rev { fn partial_cmp(&self, o: &Rev) -> Option<Ordering> { self.0.partial_cmp(&o.0) } }
impl Ord for Rev { fn cmp(&self, o: &Rev) -> Ordering { o.0.cmp(&self.0) } }
/// Comparable with another type only.
#[derive(Clone, Debug)]
pub struct Left(u8);
#[derive(Clone, Debug)]
pub struct Right(u16);
impl PartialEq<Right> for Left { fn eq(&self, o: &Right) -> bool { self.0 as u16 == o.0 % 5 } fn ne(&self, o: &Right) -> bool { self.0 as u16 != o.0 % 5 } }

pub trait Val: Sized + Debug + Clone { fn val(b: u8) -> Self; }
impl Val for i32 { fn val(b: u8) -> i32 { (b % 5) as i32 - 2 } }
impl Val for u8 { fn val(b: u8) -> u8 { b } }
impl Val for f64 { fn val(b: u8) -> f64 { [0.0, 1.0, -0.0, f64::NAN, f64::INFINITY, -1.5][b as usize % 6] } }
impl Val for String { fn val(b: u8) -> String { ["", "a", "b", "ab", "\"\n", "é"][b as usize % 6].to_string() } }
impl Val for () { fn val(_: u8) {} }
impl Val for Odd { fn val(b: u8) -> Odd { Odd(b % 6) } }
impl Val for Rev { fn val(b: u8) -> Rev { Rev(b % 4) } }
impl Val for Left { fn val(b: u8) -> Left { Left(b % 5) } }
impl Val for Right { fn val(b: u8) -> Right { Right(b as u16) } }
impl Val for Option<Box<u8>> { fn val(b: u8) -> Self { if b % 3 == 0 { None } else { Some(Box::new(b % 4)) } } }
impl Val for Vec<i8> { fn val(b: u8) -> Self { (0..b % 3).map(|i| (i + b / 3 % 2) as i8).collect() } }

type R = Result<(), String>;
macro_rules! ck { ($c:expr, $($m:tt)*) => { if !$c { return Err(format!($($m)*)) } } }

fn same_place<T>(what: &str, a: &[T], b: &[T]) -> R {
    ck!(a.len() == b.len() && (a.is_empty() || a.as_ptr() == b.as_ptr()), "{what} shows another slice than the handle does ({} items at {:p}, not {} at {:p})", a.len(), a.as_ptr(), b.len(), b.as_ptr());
    Ok(())
}
fn content<T: Debug>(what: &str, got: &[T], want: &[T]) -> R {
    // compared by Debug text: items need not be equal to themselves
    ck!(got.len() == want.len() && format!("{got:?}") == format!("{want:?}"), "{what}: shows {got:?} instead of {want:?}");
    Ok(())
}
/// An iterator with an unhelpful size hint.
struct Vague<I>(I, u8);
impl<I: Iterator> Iterator for Vague<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.0.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { match self.1 { 0 => (0, None), 1 => (0, Some(usize::MAX)), _ => self.0.size_hint() } }
}
pub fn halves(len: usize, right: bool) -> (usize, usize) { let m = len / 2; if right { (m, len) } else { (0, m) } }

macro_rules! fam {
    ($mo:ident, $m:ident, $Sh:ident, $Mut:ident, $Parts:ident, $MutParts:ident, $MutIter:ident, $arc:expr) => {
        mod $mo {
            use super::*;
            use rc_slice::{$Sh as Sh, $Mut as Mt};
            pub fn build_sh<T: Val>(i: &mut In, v: &[T]) -> Sh<T> {
                let it = v.iter().cloned();
                match i.byte() % 8 {
                    0 => Vague(it, i.byte() % 3).collect(),
                    1 => { let mut w = Vec::with_capacity(v.len() + 1 + i.byte() as usize % 9); w.extend(it); Sh::from_vec(w) }
                    2 => { let mut w = Vec::with_capacity(v.len() + 1 + i.byte() as usize % 9); w.extend(it); Sh::from(w) }
                    3 => Sh::from_boxed_slice(it.collect::<Vec<_>>().into_boxed_slice()),
                    4 => Sh::from(it.collect::<Vec<_>>().into_boxed_slice()),
                    5 => Mt::into_immut(build_mt(i, v)),
                    6 => Sh::from(build_mt(i, v)),
                    _ => it.collect(),
                }
            }
            pub fn build_mt<T: Val>(i: &mut In, v: &[T]) -> Mt<T> {
                let it = v.iter().cloned();
                match i.byte() % 7 {
                    0 => Vague(it, i.byte() % 3).collect(),
                    1 => { let mut w = Vec::with_capacity(v.len() + 1 + i.byte() as usize % 9); w.extend(it); Mt::from_vec(w) }
                    2 => { let mut w = Vec::with_capacity(v.len() + 1 + i.byte() as usize % 9); w.extend(it); Mt::from(w) }
                    3 => Mt::from_boxed_slice(it.collect::<Vec<_>>().into_boxed_slice()),
                    4 => Mt::from(it.collect::<Vec<_>>().into_boxed_slice()),
                    5 => build_mt(&mut In::new(&[]), v).clone(),
                    _ => it.collect(),
                }
            }
            /// a handle reached through some derivation, the expected range, and what is kept alive meanwhile
            pub fn derive_sh<T: Val>(i: &mut In, v: &[T], keep: &mut Vec<Sh<T>>) -> (Sh<T>, Vec<T>) {
                let mut h = build_sh(i, v);
                let (mut s, mut e) = (0, v.len());
                for _ in 0..i.byte() % 5 {
                    let right = i.byte() & 1 == 1;
                    let (a, b) = if e - s == 1 && right { (0, 1) } else { halves(e - s, right) };
                    match i.byte() % 5 {
                        0 => { let d = if right { Sh::clone_right(&h) } else { Sh::clone_left(&h) }; keep.push(std::mem::replace(&mut h, d)) }
                        1 => h = if right { Sh::clone_right(&h) } else { Sh::clone_left(&h) },
                        2 => { let o = if right { Sh::split_off_right(&mut h) } else { Sh::split_off_left(&mut h) }; keep.push(std::mem::replace(&mut h, o)) }
                        3 => { let mut p = Sh::split_into_parts(h, 2); let l = p.next().unwrap(); let r = p.next().unwrap(); if right { h = r; keep.push(l) } else { h = l; keep.push(r) } }
                        _ => { let d = if right { Sh::clone_right(&h) } else { Sh::clone_left(&h) }; let w = Sh::downgrade(&d); let u = w.upgrade(); if let Some(u) = u { h = u } else { h = d } }
                    }
                    e = s + b; s += a;
                }
                (h, v[s..e].to_vec())
            }
            pub fn derive_mt<T: Val>(i: &mut In, v: &[T], keep: &mut Vec<Mt<T>>) -> (Mt<T>, Vec<T>) {
                let mut h = build_mt(i, v);
                let (mut s, mut e) = (0, v.len());
                for _ in 0..i.byte() % 5 {
                    let right = i.byte() & 1 == 1;
                    let (a, b) = halves(e - s, right);
                    match i.byte() % 3 {
                        0 => { let o = if right { Mt::split_off_right(&mut h) } else { Mt::split_off_left(&mut h) }; keep.push(std::mem::replace(&mut h, o)) }
                        1 => { let o = if right { Mt::split_off_left(&mut h) } else { Mt::split_off_right(&mut h) }; keep.push(o) }
                        _ => { let mut p = Mt::split_into_parts(h, 2); let l = p.next().unwrap(); let r = p.next().unwrap(); if right { h = r; keep.push(l) } else { h = l; keep.push(r) } }
                    }
                    e = s + b; s += a;
                }
                (h, v[s..e].to_vec())
            }
            pub fn basic<T: Val>(i: &mut In, v: &[T]) -> R {
                let mut keep = vec![];
                let (h, want) = derive_sh(i, v, &mut keep);
                content("shared handle", &h, &want)?;
                same_place("AsRef", AsRef::<[T]>::as_ref(&h), &h)?;
                same_place("Borrow", Borrow::<[T]>::borrow(&h), &h)?;
                ck!(format!("{h:?}|{h:#?}|{h:3?}|{h:02x?}|{h:+.1?}|{h:#X?}") == format!("{want:?}|{want:#?}|{want:3?}|{want:02x?}|{want:+.1?}|{want:#X?}"), "Debug of a shared handle on {want:?} gives {h:?} / {h:#?}");
                let mut keepm = vec![];
                let (mut m, want) = derive_mt(i, v, &mut keepm);
                content("exclusive handle", &m, &want)?;
                same_place("AsRef", AsRef::<[T]>::as_ref(&m), &m)?;
                same_place("Borrow", Borrow::<[T]>::borrow(&m), &m)?;
                let (p, n) = (m.as_ptr(), m.len());
                for what in 0..3 {
                    let (q, k) = { let s: &mut [T] = match what { 0 => AsMut::as_mut(&mut m), 1 => BorrowMut::borrow_mut(&mut m), _ => &mut m }; (s.as_ptr(), s.len()) };
                    ck!(k == n && (n == 0 || p == q), "mutable view {what} differs from the shared one");
                }
                ck!(format!("{m:?}|{m:#?}|{m:3?}|{m:02x?}") == format!("{want:?}|{want:#?}|{want:3?}|{want:02x?}"), "Debug of an exclusive handle on {want:?} gives {m:?} / {m:#?}");
                // clone_from, to something longer, shorter or as long
                let mut t = build_mt(i, v);
                t.clone_from(&m);
                content("a target of clone_from", &t, &want)?;
                if !want.is_empty() { t.reverse(); t[0] = T::val(i.byte()); }
                content("the source of clone_from, after writing to the target", &m, &want)?;
                // iterators print their name, remaining length and items
                let items = |x: &[T]| format!("{x:?}");
                let k = 1usize << (i.byte() % 4);
                let (nf, nb) = (i.below(k + 1), i.byte() as usize);
                let nb = if k > nf { nb % (k - nf + 1) } else { 0 };
                let mut p = Sh::split_into_parts(h, k);
                let mut got = vec![];
                for _ in 0..nf { got.push(p.next()) }
                for _ in 0..nb { got.push(p.next_back()) }
                let t = format!("{p:?}");
                let its = items(p.as_slice());
                ck!(t.contains(stringify!($Parts)) && t.contains(&its) && t.replacen(&its, "", 1).contains(&(k - nf - nb).to_string()), "Debug of a parts iterator with {} parts and items {its} left gives {t}", k - nf - nb);
                let mut p = Mt::split_into_parts(m, k);
                let mut got = vec![];
                for _ in 0..nf { got.push(p.next()) }
                for _ in 0..nb { got.push(p.next_back()) }
                let t = format!("{p:?}");
                let its = items(p.as_slice());
                ck!(t.contains(stringify!($MutParts)) && t.contains(&its) && t.replacen(&its, "", 1).contains(&(k - nf - nb).to_string()), "Debug of an exclusive parts iterator with {} parts and items {its} left gives {t}", k - nf - nb);
                let m = build_mt(i, v);
                let mut it = m.into_iter();
                for _ in 0..i.below(v.len() + 2) { if i.byte() & 1 == 0 { it.next(); } else { it.next_back(); } }
                let t = format!("{it:?}");
                let its = items(it.as_slice());
                ck!(t.contains(stringify!($MutIter)) && t.contains(&its), "Debug of an owning iterator with items {its} left gives {t}");
                Ok(())
            }
            pub fn eq<A: Val + PartialEq<B>, B: Val>(i: &mut In, v: &[A], w: &[B]) -> R {
                let (mut k1, mut k2, mut k3, mut k4) = (vec![], vec![], vec![], vec![]);
                let (h, hv) = derive_sh(i, v, &mut k1);
                let (g, gv) = derive_sh(i, w, &mut k2);
                ck!((h == g) == (hv[..] == gv[..]) && (h != g) == (hv[..] != gv[..]), "comparing shared handles on {hv:?} and {gv:?}: == gives {}, != gives {}", h == g, h != g);
                let (h, hv) = derive_mt(i, v, &mut k3);
                let (g, gv) = derive_mt(i, w, &mut k4);
                ck!((h == g) == (hv[..] == gv[..]) && (h != g) == (hv[..] != gv[..]), "comparing exclusive handles on {hv:?} and {gv:?}: == gives {}, != gives {}", h == g, h != g);
                Ok(())
            }
            pub fn same_eq<A: Val + PartialEq>(i: &mut In, v: &[A]) -> R {
                let (mut k1, mut k3) = (vec![], vec![]);
                // two handles on the very same memory, or a handle with itself
                let (h, hv) = derive_sh(i, v, &mut k1);
                let g = h.clone();
                ck!((h == g) == (hv[..] == hv[..]) && (h != g) == (hv[..] != hv[..]), "comparing two shared handles on the same items {hv:?}: == gives {}, != gives {}", h == g, h != g);
                for o in &k1 { ck!((h == *o) == (h[..] == o[..]) && (*o != h) == (o[..] != h[..]), "comparing shared handles {h:?} and {o:?} of one slice"); }
                let (h, hv) = derive_mt(i, v, &mut k3);
                #[allow(clippy::eq_op)]
                { ck!((h == h) == (hv[..] == hv[..]) && (h != h) == (hv[..] != hv[..]), "comparing an exclusive handle on {hv:?} with itself: == gives {}", h == h); }
                Ok(())
            }
            pub fn pord<A: Val + PartialOrd>(i: &mut In, v: &[A], w: &[A]) -> R {
                let (mut k1, mut k2, mut k3, mut k4) = (vec![], vec![], vec![], vec![]);
                macro_rules! t { ($d:ident, $a:expr, $b:expr) => {{
                    let (h, hv) = $d(i, v, &mut $a);
                    let (g, gv) = $d(i, w, &mut $b);
                    let (x, y) = (&hv[..], &gv[..]);
                    ck!(h.partial_cmp(&g) == x.partial_cmp(y), "partial order of handles on {hv:?} and {gv:?} is {:?} instead of {:?}", h.partial_cmp(&g), x.partial_cmp(y));
                    ck!((h < g, h <= g, h > g, h >= g) == (x < y, x <= y, x > y, x >= y), "order operators on handles on {hv:?} and {gv:?} give {:?} instead of {:?}", (h < g, h <= g, h > g, h >= g), (x < y, x <= y, x > y, x >= y));
                    #[allow(clippy::eq_op)]
                    { ck!(h.partial_cmp(&h) == x.partial_cmp(x) && (h <= h) == (x <= x), "partial order of a handle on {hv:?} with itself"); }
                }} }
                t!(derive_sh, k1, k2);
                t!(derive_mt, k3, k4);
                Ok(())
            }
            pub fn ord<A: Val + Ord>(i: &mut In, v: &[A], w: &[A]) -> R {
                let (mut k1, mut k2, mut k3, mut k4) = (vec![], vec![], vec![], vec![]);
                macro_rules! t { ($d:ident, $a:expr, $b:expr) => {{
                    let (h, hv) = $d(i, v, &mut $a);
                    let (g, gv) = $d(i, w, &mut $b);
                    ck!(h.cmp(&g) == hv[..].cmp(&gv[..]) && g.cmp(&h) == gv[..].cmp(&hv[..]), "total order of handles on {hv:?} and {gv:?} is {:?} instead of {:?}", h.cmp(&g), hv[..].cmp(&gv[..]));
                }} }
                t!(derive_sh, k1, k2);
                t!(derive_mt, k3, k4);
                Ok(())
            }
            pub fn hash<A: Val + Hash>(i: &mut In, v: &[A]) -> R {
                let (mut k1, mut k3) = (vec![], vec![]);
                fn rec<X: Hash + ?Sized>(x: &X) -> Rec { let mut r = Rec::default(); x.hash(&mut r); r }
                let (h, hv) = derive_sh(i, v, &mut k1);
                ck!(rec(&h) == rec(&hv[..]), "hash of a shared handle on {hv:?} differs from that of the slice");
                let (h, hv) = derive_mt(i, v, &mut k3);
                ck!(rec(&h) == rec(&hv[..]), "hash of an exclusive handle on {hv:?} differs from that of the slice");
                Ok(())
            }
        }
    };
}
fam!(r, rc, RcSlice, RcSliceMut, RcSliceParts, RcSliceMutParts, RcSliceMutIter, false);
fam!(a, arc, ArcSlice, ArcSliceMut, ArcSliceParts, ArcSliceMutParts, ArcSliceMutIter, true);

fn vals<T: Val>(i: &mut In) -> Vec<T> {
    let x = i.byte();
    // now and then long ones, repeating a few bytes
    if x >= 248 {
        let (n, p) = ([33, 64, 65, 100, 127, 129, 200, 300][x as usize - 248], [i.byte(), i.byte(), i.byte()]);
        return (0..n).map(|k| T::val(p[k % 3])).collect();
    }
    let n = [0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 13, 16][x as usize % 12];
    let narrow = i.byte() & 1 == 0;
    (0..n).map(|_| { let b = i.byte(); T::val(if narrow { b % 2 } else { b }) }).collect()
}
/// second operand: often a small variation of the first
fn other<T: Val>(i: &mut In, v: &[T]) -> Vec<T> {
    let mut w = v.to_vec();
    match i.byte() % 6 {
        0 => {}
        1 => { w.pop(); }
        2 => w.push(T::val(i.byte())),
        3 => if !w.is_empty() { let k = i.below(w.len()); w[k] = T::val(i.byte()) },
        4 => w.reverse(),
        _ => return vals(i),
    }
    w
}
/// Returns whether the case is non-trivial.
pub fn run(arc: bool, b: &[[u8; 4]]) -> Result<bool, String> {
    let mut i = In::new(b);
    let i = &mut i;
    let what = i.byte() % 11;
    let mut nt = true;
    macro_rules! f { ($fun:ident ( $($x:expr),* )) => { if arc { a::$fun(i, $($x),*) } else { r::$fun(i, $($x),*) } } }
    macro_rules! total { ($t:ty) => {{
        let v: Vec<$t> = vals(i); let w = other(i, &v); nt = v.len() > 1 && w.len() > 1;
        f!(basic(&v))?; f!(eq(&v, &w))?; f!(same_eq(&v))?; f!(pord(&v, &w))?; f!(ord(&v, &w))?; f!(hash(&v))?;
    }} }
    macro_rules! partial { ($t:ty) => {{
        let v: Vec<$t> = vals(i); let w = other(i, &v); nt = v.len() > 1 && w.len() > 1;
        f!(basic(&v))?; f!(eq(&v, &w))?; f!(same_eq(&v))?; f!(pord(&v, &w))?;
    }} }
    match what {
        0 => total!(i32), 1 => total!(u8), 2 => total!(String), 3 => total!(()), 4 => total!(Rev), 5 => total!(Option<Box<u8>>), 6 => total!(Vec<i8>),
        7 => partial!(f64), 8 | 9 => partial!(Odd),
        _ => {
            let v: Vec<Left> = vals(i);
            let w: Vec<Right> = match i.byte() % 3 { 0 => vals(i), x => { let mut w: Vec<Right> = v.iter().map(|l| Right(l.0 as u16 + 5 * (i.byte() as u16 % 3))).collect(); if x == 1 && !w.is_empty() { let k = i.below(w.len()); w[k] = Right::val(i.byte()) } w } };
            nt = v.len() > 1 && w.len() > 1;
            f!(basic(&v))?; f!(basic(&w))?; f!(eq(&v, &w))?;
        }
    }
    Ok(nt)
}
