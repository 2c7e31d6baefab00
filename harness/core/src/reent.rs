//! C23: calls made from within user code that the library runs (destructors, clones, comparisons, Debug, source
//! iterators). Input: a byte program. Entries with the top bit of their first byte set are executed from within such
//! user code, in order; the others are the history proper.
use crate::machine::{HK, LAST_PANIC};
use crate::{ledger, track};
use std::cell::RefCell;
use std::convert::TryFrom;
use std::panic::{catch_unwind, AssertUnwindSafe};

const SALT: u32 = 0x9e37_79b1;
const MAXH: usize = 12;
const DEPTH: u32 = 4;

/// the sub-slices at the ends of `k` binary divisions of `s..e`
pub fn leaves(s: usize, e: usize, k: usize) -> Vec<(usize, usize)> {
    if k == 1 { return vec![(s, e)] }
    let m = s + (e - s) / 2;
    let mut v = leaves(s, m, k / 2);
    v.extend(leaves(m, e, k / 2));
    v
}
fn hit(a: (usize, usize), b: (usize, usize)) -> bool { a.0 < a.1 && b.0 < b.1 && a.0 < b.1 && b.0 < a.1 }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op { Nop, New, Clone, Half, Split, Down, Up, GetMut, IntoMut, Immut, Write, IntoIter, Next, Parts, Drop, DropMany, Assign, Eq, Show }
const TOP: &[(Op, u8)] = &[(Op::New, 8), (Op::Clone, 6), (Op::Half, 22), (Op::Split, 6), (Op::Down, 18), (Op::Up, 6), (Op::GetMut, 6), (Op::IntoMut, 7), (Op::Immut, 4), (Op::Write, 4),
    (Op::IntoIter, 3), (Op::Next, 4), (Op::Parts, 5), (Op::Drop, 20), (Op::DropMany, 4), (Op::Assign, 3), (Op::Eq, 1), (Op::Show, 1)];
const IN: &[(Op, u8)] = &[(Op::New, 2), (Op::Clone, 4), (Op::Half, 8), (Op::Split, 4), (Op::Down, 6), (Op::Up, 34), (Op::GetMut, 12), (Op::IntoMut, 10), (Op::Immut, 4), (Op::Write, 3),
    (Op::IntoIter, 2), (Op::Next, 3), (Op::Parts, 4), (Op::Drop, 18), (Op::DropMany, 2), (Op::Assign, 4), (Op::Eq, 1), (Op::Show, 1)];
fn op(k: u8) -> Op {
    let t = if k & 0x80 != 0 { IN } else { TOP };
    let k = k as usize & 0x7f;
    // 0 stays Nop, so that shrinking towards zero simplifies
    if k == 0 { return Op::Nop }
    let sum: usize = t.iter().map(|x| x.1 as usize).sum();
    let mut x = (k - 1) * sum / 127;
    for &(o, w) in t { if x < w as usize { return o } x -= w as usize }
    Op::Nop
}

macro_rules! fam { ($mo:ident, $m:ident, $Sh:ident, $Mut:ident, $Iter:ident, $Parts:ident, $MutParts:ident) => { pub mod $mo {
    use super::*;
    use rc_slice::$m::{$Iter as Iter_, $Mut as Mut_, $MutParts as MutParts_, $Parts as Parts_, $Sh as Sh_, WeakSlice};
    pub struct Re { tok: u32, c: u32 }
    enum H { Sh(Sh_<Re>), Weak(WeakSlice<Re>), Mut(Mut_<Re>), Iter(Iter_<Re>) }
    enum P { Sh(Parts_<Re>), Mut(MutParts_<Re>) }
    struct Ent { h: Option<H>, k: HK, buf: usize, r: (usize, usize), tree: u32, excl: bool, killed: bool }
    #[derive(Default)]
    struct S { ents: Vec<Option<Ent>>, cells: Vec<Vec<u32>>, inner: Vec<[u8; 4]>, at: usize, depth: u32, trees: u32, stop: bool, n: [u32; 9], first: Option<String>, log: Option<Vec<String>> }
    thread_local! { static ST: RefCell<S> = RefCell::new(S::default()); }
    fn st<R>(f: impl FnOnce(&mut S) -> R) -> R { ST.with(|s| f(&mut s.borrow_mut())) }
    fn bad(msg: String) { st(|s| { s.stop = true; let d = s.depth; if s.first.is_none() { s.first = Some(if d > 0 { format!("{msg} (within user code)") } else { msg }) } }) }
    /// counts an outcome within user code: 1 upgrade, 3 get_mut, 5 into_mut; the next number counts refusals
    fn tally(k: usize, ok: bool) { st(|s| if s.depth > 0 { s.n[k + !ok as usize] += 1 }); if !ok { log(|| "  no".into()) } else { log(|| "  yes".into()) } }
    fn log(f: impl FnOnce() -> String) { st(|s| { let d = s.depth as usize; if let Some(l) = &mut s.log { l.push(format!("{}{}", "  ".repeat(d), f())) } }) }

    fn chk(t: u32) -> u32 { t.wrapping_mul(SALT) ^ 0x3c3c_0f0f }
    impl Re {
        fn make(t: u32) -> Re { ledger::born(t); Re { tok: t, c: chk(t) } }
        fn sane(&self) -> bool { (self.c ^ chk(self.tok)) & !1 == 0 }
    }
    impl Drop for Re { fn drop(&mut self) {
        let ok = self.sane();
        let t = self.tok;
        self.c ^= 1;
        ledger::dropped(t, ok);
        track::pause(|| {
            if !ok { bad("a destructor runs on something that is not an item".into()); return }
            let by = st(|s| s.ents.iter().flatten().find(|e| e.k != HK::Weak && s.cells[e.buf][e.r.0..e.r.1].contains(&t)).map(|e| (e.k, e.r)));
            if let Some((k, r)) = by { bad(format!("item {t} is destroyed although a {k:?} handle on {}..{} shows it", r.0, r.1)) }
            log(|| format!("item {t} is destroyed"));
            user(t);
        })
    } }
    impl Clone for Re { fn clone(&self) -> Re { let t = ledger::cloned(self.tok); track::pause(|| user(self.tok)); Re { tok: t, c: chk(t) } } }
    impl PartialEq for Re { fn eq(&self, o: &Re) -> bool { track::pause(|| user(self.tok)); self.tok == o.tok } }
    impl std::fmt::Debug for Re { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { track::pause(|| user(self.tok)); write!(f, "{}", self.tok) } }

    /// user code of item `t`: may call the library
    fn user(t: u32) {
        if t % 3 == 2 || std::thread::panicking() || st(|s| { if s.stop || s.depth >= DEPTH { true } else { s.depth += 1; false } }) { return }
        loop {
            let Some(o) = st(|s| if s.stop || s.at >= s.inner.len() { None } else { s.at += 1; Some(s.inner[s.at - 1]) }) else { break };
            step(o);
            if o[3] & 0x60 != 0 { break }
        }
        st(|s| s.depth -= 1);
    }
    fn lib<R>(f: impl FnOnce() -> R) -> Option<R> {
        match catch_unwind(AssertUnwindSafe(|| track::tagged(f))) {
            Ok(r) => Some(r),
            Err(p) => { std::mem::forget(p); bad(format!("a legal call panicked: {}", LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut())))); None }
        }
    }
    fn pick(a: u8, f: impl Fn(&Ent) -> bool) -> Option<usize> {
        st(|s| {
            let c: Vec<usize> = (0..s.ents.len()).filter(|&i| s.ents[i].as_ref().map_or(false, |e| e.h.is_some() && f(e))).collect();
            if c.is_empty() { None } else { Some(c[a as usize % c.len()]) }
        })
    }
    fn is(i: usize) -> (HK, usize, (usize, usize), u32) { st(|s| { let e = s.ents[i].as_ref().unwrap(); (e.k, e.buf, e.r, e.tree) }) }
    /// the handle leaves the table for a call; what it holds stays recorded
    fn busy(i: usize) -> H { st(|s| s.ents[i].as_mut().unwrap().h.take().unwrap()) }
    fn back(i: usize, h: H) { st(|s| s.ents[i].as_mut().unwrap().h = Some(h)) }
    /// the handle is about to be given up
    fn gone(i: usize) -> Option<H> { st(|s| s.ents[i].take()).unwrap().h }
    fn add(h: Option<H>, k: HK, buf: usize, r: (usize, usize), tree: u32) -> usize {
        st(|s| {
            let e = Some(Ent { h, k, buf, r, tree, excl: k == HK::Mut || k == HK::Iter, killed: false });
            match s.ents.iter().position(|x| x.is_none()) { Some(i) => { s.ents[i] = e; i } None => { s.ents.push(e); s.ents.len() - 1 } }
        })
    }
    fn full() -> bool { st(|s| s.ents.iter().flatten().count() >= MAXH) }
    fn toks(x: &[Re]) -> Vec<u32> {
        if x.len() > 4096 { return vec![u32::MAX; x.len().min(5000)] }
        x.iter().map(|i| if i.sane() { i.tok } else { u32::MAX }).collect()
    }
    fn shows(h: &H) -> Vec<u32> { match h { H::Sh(s) => toks(s), H::Mut(s) => toks(s), H::Iter(s) => toks(s.as_slice()), H::Weak(_) => vec![] } }
    /// every item a handle shows must be the right one, and alive
    fn look(what: &str, h: &H, buf: usize, r: (usize, usize)) -> bool {
        if let H::Weak(_) = h { return true }
        let got = shows(h);
        let want = st(|s| s.cells[buf][r.0..r.1].to_vec());
        if got != want { bad(format!("{what} shows {got:?} instead of {want:?}")); return false }
        for t in want { if ledger::st(t) != ledger::ALIVE { bad(format!("{what} shows item {t}, which was destroyed")); return false } }
        true
    }
    /// other strong handles: (one shares an item, one is empty and may be related)
    fn others(i: usize) -> (bool, bool) {
        st(|s| {
            let (b, r) = { let e = s.ents[i].as_ref().unwrap(); (e.buf, e.r) };
            let mut x = (false, r.0 == r.1);
            for (j, e) in s.ents.iter().enumerate() {
                let Some(e) = e else { continue };
                if j == i || e.buf != b || e.k == HK::Weak { continue }
                if hit(e.r, r) { x.0 = true } else if e.r.0 == e.r.1 { x.1 = true }
            }
            x
        })
    }
    fn weak_inside(i: usize) -> (bool, bool) {
        st(|s| {
            let (b, r, t) = { let e = s.ents[i].as_ref().unwrap(); (e.buf, e.r, e.tree) };
            let mut x = (false, false);
            for e in s.ents.iter().flatten() {
                if e.k != HK::Weak || e.buf != b { continue }
                if e.killed || e.r.0 == e.r.1 || e.tree != t { x.1 = true } else if r.0 <= e.r.0 && e.r.1 <= r.1 { x.0 = true }
            }
            x
        })
    }
    /// while the items of entry `i` are exclusively held no weak handle may be upgraded to them
    fn probe(i: usize) {
        let n = st(|s| s.ents.len());
        for j in 0..n {
            let o = st(|s| { let (b, r) = { let e = s.ents[i].as_ref().unwrap(); (e.buf, e.r) }; s.ents[j].as_ref().map_or(false, |e| e.k == HK::Weak && e.h.is_some() && e.buf == b && hit(e.r, r)) });
            if !o { continue }
            let h = busy(j);
            let H::Weak(w) = &h else { unreachable!() };
            match lib(|| w.upgrade()) {
                Some(Some(u)) => { std::mem::forget(u); bad("a weak handle was upgraded to items that are exclusively borrowed".into()) }
                _ => {}
            }
            back(j, h);
        }
    }
    fn writes(m: &mut [Re], i: usize, b: u8, c: u8) {
        let (_, buf, r, _) = is(i);
        let n = m.len();
        if n != r.1 - r.0 { bad(format!("exclusive access to {} items instead of {}", n, r.1 - r.0)); return }
        for k in 0..if n == 0 { 0 } else { c as usize % 3 } {
            let x = (b as usize + k * 3) % n;
            let t = ledger::fresh();
            st(|s| s.cells[buf][r.0 + x] = t);
            let old = std::mem::replace(&mut m[x], Re::make(t));
            // its destructor runs while the exclusive borrow is in use
            drop(old);
            if st(|s| s.stop) { return }
            if toks(m) != st(|s| s.cells[buf][r.0..r.1].to_vec()) { bad("exclusively borrowed items changed under the borrow".into()); return }
        }
    }
    fn upgrade(i: usize) {
        let (_, buf, r, tree) = is(i);
        let (must, killed) = st(|s| {
            let k = s.ents[i].as_ref().unwrap().killed;
            (!k && r.0 < r.1 && s.ents.iter().flatten().any(|e| e.k == HK::Sh && !e.excl && e.h.is_some() && e.tree == tree && e.r.0 <= r.0 && r.1 <= e.r.1), k)
        });
        let h = busy(i);
        let H::Weak(w) = &h else { unreachable!() };
        let u = lib(|| w.upgrade());
        back(i, h);
        match u {
            None => {}
            Some(None) => { tally(1, false); if must { bad("upgrade gave None although a shared handle on the same or an enclosing sub-slice is alive".into()) } }
            Some(Some(u)) => {
                tally(1, true);
                let u = H::Sh(u);
                if killed && r.0 < r.1 { std::mem::forget(u); bad("upgrade succeeded although the items had been made exclusive".into()); return }
                let clash = st(|s| s.ents.iter().flatten().any(|e| e.k != HK::Weak && e.buf == buf && hit(e.r, r) && (e.excl || e.tree != tree)));
                if clash { std::mem::forget(u); bad("upgrade succeeded although an exclusive handle holds some of the items".into()); return }
                if !look("an upgraded handle", &u, buf, r) { std::mem::forget(u); return }
                add(Some(u), HK::Sh, buf, r, tree);
            }
        }
    }
    fn step(o: [u8; 4]) {
        if st(|s| s.stop) { return }
        let [k, a, b, c] = o;
        let mut op = op(k);
        let sh = |e: &Ent| e.k == HK::Sh;
        let wk = |e: &Ent| e.k == HK::Weak;
        let mt = |e: &Ent| e.k == HK::Mut;
        let it = |e: &Ent| e.k == HK::Iter;
        let any = |_: &Ent| true;
        let top = st(|s| s.depth) == 0;
        if top {
            if full() && matches!(op, Op::New | Op::Clone | Op::Half | Op::Split | Op::Down | Op::Up | Op::Parts) { op = Op::Drop }
            if pick(0, sh).is_none() && matches!(op, Op::Half | Op::Down | Op::GetMut | Op::IntoMut | Op::Drop | Op::Clone | Op::Split | Op::Eq) { op = Op::New }
            if matches!(op, Op::Up) && pick(0, wk).is_none() { op = Op::Half }
        } else if full() && matches!(op, Op::New | Op::Clone | Op::Half | Op::Split | Op::Down | Op::Up | Op::Parts) { return }
        if op == Op::Nop { return }
        log(|| format!("{op:?} {a} {b} {c}"));
        match op {
            Op::Nop => {}
            Op::New => {
                if st(|s| s.cells.len()) >= 12 { return }
                let n = [0, 1, 2, 2, 3, 4, 4, 5, 6, 7, 8, 4][b as usize % 12];
                let ts: Vec<u32> = (0..n).map(|_| ledger::fresh()).collect();
                let h = if c & 4 != 0 {
                    // the source iterator is user code
                    let src = ts.clone().into_iter().map(|t| { track::pause(|| user(t)); Re::make(t) });
                    lib(|| if c & 1 == 0 { H::Sh(src.collect()) } else { H::Mut(src.collect()) })
                } else {
                    let v: Vec<Re> = track::tagged(|| ts.iter().map(|&t| Re::make(t)).collect());
                    lib(|| if c & 1 == 0 { H::Sh(Sh_::from_vec(v)) } else { H::Mut(Mut_::from_vec(v)) })
                };
                let Some(h) = h else { return };
                let (buf, tree) = st(|s| { s.cells.push(ts); s.trees += 1; (s.cells.len() - 1, s.trees) });
                add(Some(h), if c & 1 == 0 { HK::Sh } else { HK::Mut }, buf, (0, n), tree);
            }
            Op::Clone => {
                let Some(i) = pick(a, |e| e.k != HK::Iter) else { return };
                let (k, buf, r, tree) = is(i);
                let h = busy(i);
                let n = lib(|| match &h { H::Sh(s) => H::Sh(s.clone()), H::Weak(s) => H::Weak(s.clone()), H::Mut(s) => H::Mut(s.clone()), _ => unreachable!() });
                let from = shows(&h);
                back(i, h);
                let Some(n) = n else { return };
                if k == HK::Mut {
                    let ts = shows(&n);
                    let ok = ts.len() == from.len() && ledger::with(|l| from.iter().zip(&ts).all(|(f, t)| l.clones.contains(&(*f, *t))));
                    if !ok { bad(format!("cloning an exclusive slice of items {from:?} gave {ts:?}")); std::mem::forget(n); return }
                    let len = ts.len();
                    let (buf, tree) = st(|s| { s.cells.push(ts); s.trees += 1; (s.cells.len() - 1, s.trees) });
                    add(Some(n), HK::Mut, buf, (0, len), tree);
                } else {
                    let j = add(Some(n), k, buf, r, tree);
                    st(|s| { let d = s.ents[i].as_ref().unwrap().killed; s.ents[j].as_mut().unwrap().killed = d });
                }
            }
            Op::Half => {
                let Some(i) = pick(a, sh) else { return };
                let (_, buf, r, tree) = is(i);
                let h = busy(i);
                let H::Sh(s) = &h else { unreachable!() };
                let n = lib(|| H::Sh(if b & 1 == 0 { Sh_::clone_left(s) } else { Sh_::clone_right(s) }));
                back(i, h);
                let m = r.0 + (r.1 - r.0) / 2;
                let q = if b & 1 == 0 { (r.0, m) } else { (m, r.1) };
                let Some(n) = n else { return };
                if look("a derived handle", &n, buf, q) { let j = add(Some(n), HK::Sh, buf, q, tree); if b & 2 != 0 && !full() { let h = busy(j); let H::Sh(s) = &h else { unreachable!() }; let w = lib(|| Sh_::downgrade(s)); back(j, h); if let Some(w) = w { add(Some(H::Weak(w)), HK::Weak, buf, q, tree); } if b & 4 != 0 { if let Some(h) = gone(j) { lib(|| drop(h)); } } } } else { std::mem::forget(n) }
            }
            Op::Split => {
                let Some(i) = pick(a, |e| sh(e) || mt(e)) else { return };
                let (k, buf, r, tree) = is(i);
                let mut h = busy(i);
                let right = b & 1 != 0;
                let n = lib(|| match &mut h {
                    H::Sh(s) => H::Sh(if right { Sh_::split_off_right(s) } else { Sh_::split_off_left(s) }),
                    H::Mut(s) => H::Mut(if right { Mut_::split_off_right(s) } else { Mut_::split_off_left(s) }),
                    _ => unreachable!() });
                let m = r.0 + (r.1 - r.0) / 2;
                let (kept, off) = if right { ((r.0, m), (m, r.1)) } else { ((m, r.1), (r.0, m)) };
                let Some(n) = n else { std::mem::forget(h); return };
                st(|s| s.ents[i].as_mut().unwrap().r = kept);
                let ok = look("the rest after a split", &h, buf, kept) && look("the part split off", &n, buf, off);
                back(i, h);
                if ok { add(Some(n), k, buf, off, tree); } else { std::mem::forget(n) }
            }
            Op::Down => {
                let Some(i) = pick(a, sh) else { return };
                let (_, buf, r, tree) = is(i);
                let h = busy(i);
                let H::Sh(s) = &h else { unreachable!() };
                let w = lib(|| Sh_::downgrade(s));
                back(i, h);
                if let Some(w) = w { add(Some(H::Weak(w)), HK::Weak, buf, r, tree); }
            }
            Op::Up => { let Some(i) = pick(a, wk) else { return }; upgrade(i) }
            Op::GetMut => {
                let Some(i) = pick(a, sh) else { return };
                let (clash, open) = others(i);
                let (wk, wopen) = weak_inside(i);
                let mut h = busy(i);
                let H::Sh(s) = &mut h else { unreachable!() };
                match lib(move || Sh_::get_mut(s)) {
                    None => {}
                    Some(None) => { tally(3, false); if top && !clash && !open && !wk && !wopen { bad("get_mut was refused although no other handle overlaps".into()) } }
                    Some(Some(m)) => {
                        tally(3, true);
                        if clash { bad("get_mut was granted although another strong handle reaches the items".into()); std::mem::forget(h); return }
                        st(|s| s.ents[i].as_mut().unwrap().excl = true);
                        probe(i);
                        if !st(|s| s.stop) { writes(m, i, b, c) }
                        st(|s| s.ents[i].as_mut().unwrap().excl = false);
                    }
                }
                back(i, h);
            }
            Op::IntoMut => {
                let Some(i) = pick(a, sh) else { return };
                let (clash, open) = others(i);
                let H::Sh(s) = busy(i) else { unreachable!() };
                match lib(|| if b & 1 == 0 { Sh_::into_mut(s) } else { Mut_::try_from(s) }) {
                    None => {}
                    Some(Err(s)) => { tally(5, false); back(i, H::Sh(s)); if top && !clash && !open { bad("conversion to exclusive was refused although no other strong handle overlaps".into()) } }
                    Some(Ok(m)) => {
                        tally(5, true);
                        let m = H::Mut(m);
                        if clash { bad("conversion to exclusive succeeded although another strong handle reaches the items".into()); std::mem::forget(m); return }
                        let (_, buf, r, tree) = is(i);
                        let ok = look("a handle made exclusive", &m, buf, r);
                        st(|s| {
                            for e in s.ents.iter_mut().flatten() { if e.k == HK::Weak && e.tree == tree && r.0 <= e.r.0 && e.r.1 <= r.1 { e.killed = true } }
                            s.trees += 1;
                            let t = s.trees;
                            let e = s.ents[i].as_mut().unwrap(); e.k = HK::Mut; e.excl = true; e.tree = t; });
                        back(i, m);
                        if ok { probe(i) }
                    }
                }
            }
            Op::Immut => {
                let Some(i) = pick(a, mt) else { return };
                let H::Mut(m) = busy(i) else { unreachable!() };
                let Some(s) = lib(|| if b & 1 == 0 { Mut_::into_immut(m) } else { Sh_::from(m) }) else { return };
                st(|s| { s.trees += 1; let t = s.trees; let e = s.ents[i].as_mut().unwrap(); e.k = HK::Sh; e.excl = false; e.tree = t; });
                back(i, H::Sh(s));
            }
            Op::Write => {
                let Some(i) = pick(a, |e| mt(e) || it(e)) else { return };
                let mut h = busy(i);
                match &mut h { H::Mut(m) => writes(m, i, b, c), H::Iter(m) => writes(m.as_mut_slice(), i, b, c), _ => unreachable!() }
                back(i, h);
            }
            Op::IntoIter => {
                let Some(i) = pick(a, mt) else { return };
                let H::Mut(m) = busy(i) else { unreachable!() };
                let Some(x) = lib(|| m.into_iter()) else { return };
                st(|s| s.ents[i].as_mut().unwrap().k = HK::Iter);
                back(i, H::Iter(x));
            }
            Op::Next => {
                let Some(i) = pick(a, it) else { return };
                let (_, buf, r, _) = is(i);
                let H::Iter(mut x) = busy(i) else { unreachable!() };
                let (skip, rear) = (if b & 1 == 0 { None } else { Some(c as usize % 4) }, b & 2 != 0);
                let (n, len) = (skip.unwrap_or(0), r.1 - r.0);
                let used = (n + 1).min(len);
                let want = if n < len { st(|s| Some(s.cells[buf][if rear { r.1 - 1 - n } else { r.0 + n }])) } else { None };
                // items that are skipped are destroyed within the call
                st(|s| { let e = s.ents[i].as_mut().unwrap(); if rear { e.r.1 -= used } else { e.r.0 += used } });
                let got = lib(|| match (skip, rear) { (None, false) => x.next(), (None, true) => x.next_back(), (Some(n), false) => x.nth(n), (Some(n), true) => x.nth_back(n) });
                let Some(got) = got else { std::mem::forget(x); return };
                back(i, H::Iter(x));
                if got.as_ref().map(|g| if g.sane() { g.tok } else { u32::MAX }) != want { bad(format!("an owning iterator gave another item than {want:?}")); std::mem::forget(got); return }
                lib(|| drop(got));
            }
            Op::Parts => {
                let Some(i) = pick(a, |e| sh(e) || mt(e)) else { return };
                let (k, buf, r, tree) = is(i);
                let np = 1usize << (b % 4);
                let Some(mut p) = lib(|| match busy(i) { H::Sh(s) => P::Sh(Sh_::split_into_parts(s, np)), H::Mut(s) => P::Mut(Mut_::split_into_parts(s, np)), _ => unreachable!() }) else { return };
                let lv = leaves(r.0, r.1, np);
                let (mut f, mut e) = (0, np);
                for _ in 0..(c as usize % (np + 1)) {
                    if full() { break }
                    let rear = (b as usize + c as usize + f) % 3 == 0;
                    let q = if rear { e -= 1; lv[e] } else { f += 1; lv[f - 1] };
                    let n = lib(|| match &mut p { P::Sh(p) => if rear { p.next_back() } else { p.next() }.map(H::Sh), P::Mut(p) => if rear { p.next_back() } else { p.next() }.map(H::Mut) });
                    let Some(n) = n else { std::mem::forget(p); return };
                    let Some(n) = n else { bad("a parts iterator ended early".into()); std::mem::forget(p); return };
                    st(|s| s.ents[i].as_mut().unwrap().r = if f < e { (lv[f].0, lv[e - 1].1) } else { (q.0, q.0) });
                    if !look("a part", &n, buf, q) { std::mem::forget(n); std::mem::forget(p); return }
                    add(Some(n), k, buf, q, tree);
                }
                drop(gone(i));
                lib(|| drop(p));
            }
            Op::Drop => {
                let i = match b % 8 { 0 => pick(a, any), 1 => pick(a, wk), 2 | 3 => pick(a, mt).or_else(|| pick(a, sh)), _ => pick(a, sh) };
                let Some(i) = i else { return };
                let Some(h) = gone(i) else { return };
                lib(|| drop(h));
            }
            Op::DropMany => {
                let mut v = vec![];
                for k in 0..2 + b % 2 { if let Some(i) = pick(a.wrapping_add(k * 5), sh) { v.extend(gone(i)) } }
                lib(|| drop(v));
            }
            Op::Assign => {
                let Some(i) = pick(a, sh) else { return };
                let H::Sh(mut x) = gone(i).unwrap() else { unreachable!() };
                let Some(j) = pick(b, sh) else { lib(|| drop(x)); return };
                let (_, buf, r, tree) = is(j);
                let h = busy(j);
                let H::Sh(y) = &h else { unreachable!() };
                let y = lib(|| y.clone());
                back(j, h);
                let Some(y) = y else { std::mem::forget(x); return };
                // the old handle goes away while the new one is on its way in
                let n = add(None, HK::Sh, buf, r, tree);
                if lib(|| x = y).is_none() { return }
                let x = H::Sh(x);
                if look("an assigned handle", &x, buf, r) { back(n, x) } else { std::mem::forget(x) }
            }
            Op::Eq | Op::Show => {
                let Some(i) = pick(a, |e| sh(e) || mt(e)) else { return };
                let h = busy(i);
                let k = is(i).0;
                match pick(b, |e| e.k == k) {
                    Some(j) if op == Op::Eq => {
                        let g = busy(j);
                        let want = shows(&h) == shows(&g);
                        let got = lib(|| match (&h, &g) { (H::Sh(x), H::Sh(y)) => x == y, (H::Mut(x), H::Mut(y)) => x == y, _ => want });
                        back(j, g);
                        if got.map_or(false, |g| g != want) { bad(format!("== gives {} instead of {want}", !want)) }
                    }
                    _ => {
                        let got = lib(|| track::pause(|| match &h { H::Sh(x) => format!("{x:?}"), H::Mut(x) => format!("{x:?}"), _ => String::new() }));
                        if got.map_or(false, |g| g != format!("{:?}", shows(&h))) { bad("Debug output changed".into()) }
                    }
                }
                back(i, h);
            }
        }
        st(|s| if s.depth > 0 && !matches!(op, Op::New | Op::Show | Op::Eq) { s.n[0] += 1; match op { Op::Drop | Op::DropMany => s.n[7] += 1, Op::Half | Op::Split => s.n[8] += 1, _ => {} } });
    }
    /// between the calls of the history proper: everything must be as after ordinary calls
    fn settled() {
        let v = ledger::with(|l| std::mem::take(&mut l.viol));
        if let Some((_, m)) = v.into_iter().next() { bad(m) }
        if track::on() { if let Some(m) = track::take_viol() { bad(m.into()) } }
        if st(|s| s.stop) { return }
        let n = st(|s| s.ents.len());
        let mut held = vec![false; ledger::with(|l| l.st.len())];
        for i in 0..n {
            if st(|s| s.ents[i].is_none()) { continue }
            let (k, buf, r, _) = is(i);
            let h = busy(i);
            let ok = look(&format!("a {k:?} handle"), &h, buf, r);
            back(i, h);
            if !ok { return }
            if k != HK::Weak { st(|s| for t in &s.cells[buf][r.0..r.1] { held[*t as usize] = true }) }
        }
        for (t, held) in held.iter().enumerate() {
            if ledger::st(t as u32) == ledger::ALIVE && !held { bad(format!("item {t} is covered by no handle but was not destroyed")); return }
        }
    }
    pub fn run(ops: &[[u8; 4]], trace: Option<&mut Vec<String>>) -> Result<[u32; 9], String> {
        if track::on() { track::reset() }
        st(|s| { *s = S { inner: ops.iter().filter(|o| o[0] & 0x80 != 0).copied().collect(), log: if trace.is_some() { Some(vec![]) } else { None }, ..S::default() } });
        for o in ops.iter().filter(|o| o[0] & 0x80 == 0) {
            step(*o);
            if st(|s| s.stop) { break }
            settled();
            if st(|s| s.stop) { break }
        }
        let mut k = ops.last().map_or(0, |o| o[1]);
        while !st(|s| s.stop) {
            let Some(i) = pick(k, |_| true) else { break };
            k = k.wrapping_mul(7).wrapping_add(3);
            log(|| format!("clean-up: drop {i}"));
            if let Some(h) = gone(i) { lib(|| drop(h)); }
            if !st(|s| s.stop) { settled() }
        }
        let mut s = st(|s| std::mem::take(s));
        if let (Some(t), Some(l)) = (trace, s.log.take()) { *t = l }
        if let Some(m) = s.first.take() { std::mem::forget(s); return Err(m) }
        if track::on() {
            let (n, bytes) = track::live();
            if n != 0 { return Err(format!("all handles are gone but {n} memory blocks ({bytes} bytes) allocated by the library remain")) }
        }
        Ok(s.n)
    }
} } }
fam!(rcm, rc, RcSlice, RcSliceMut, RcSliceMutIter, RcSliceParts, RcSliceMutParts);
fam!(arcm, arc, ArcSlice, ArcSliceMut, ArcSliceMutIter, ArcSliceParts, ArcSliceMutParts);

pub fn run(arc: bool, ops: &[[u8; 4]], trace: Option<&mut Vec<String>>) -> Result<[u32; 9], String> {
    if arc { arcm::run(ops, trace) } else { rcm::run(ops, trace) }
}
