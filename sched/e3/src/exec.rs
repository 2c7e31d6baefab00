//! Executes a program against ArcSlice under the scheduler, with the oracles.
use crate::prog::{Prog, AFTER, NAMES, NEST};
use rc_slice::arc::{ArcSliceMutIter, ArcSliceMutParts, ArcSliceParts, WeakSlice};
use rc_slice::{ArcSlice, ArcSliceMut};
use std::alloc::{GlobalAlloc, Layout, System};
use std::panic::{catch_unwind, AssertUnwindSafe};
use vrt::{fail, log, rt, step, Class, Clock, MAXT};

pub struct Tracking;
unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ARMED && on_dealloc(p, l) {
            return;
        }
        System.dealloc(p, l)
    }
}

static mut ARMED: bool = false;
static mut CX: *mut Cx = std::ptr::null_mut();
fn cx() -> &'static mut Cx {
    unsafe { &mut *CX }
}

const MAGIC: u32 = 0x17E3_17E3;
pub struct It {
    magic: u32,
    id: u32,
    stamp: u32,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Alive,
    Out,
    Dead,
}

struct Item {
    st: St,
    tree: u32,
    stamp: u32,
    wr: (u8, u32),
    rd: [u32; MAXT],
}

struct Buf {
    ptr: *mut u8,
    size: usize,
    lo: u32,
    n: u32,
    freed: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Sh,
    Wk,
    Mu,
    Pa,
    It,
    Mp,
}

#[derive(Clone, Copy, Debug)]
struct Reg {
    kind: K,
    tree: u32,
    lo: u32,
    len: u32,
    live: bool,
    borrow: bool,
    /// how often a conversion of it was tried, and whether one is going on
    tried: u32,
    conv: bool,
    /// an iterator with parts that hold no items
    surplus: bool,
}

enum Hd {
    Sh(ArcSlice<It>),
    Wk(WeakSlice<It>),
    Mu(ArcSliceMut<It>),
    Pa(ArcSliceParts<It>, Vec<(u32, u32)>),
    It(ArcSliceMutIter<It>),
    Mp(ArcSliceMutParts<It>, Vec<(u32, u32)>),
}

impl Hd {
    fn kind(&self) -> K {
        match self {
            Hd::Sh(_) => K::Sh,
            Hd::Wk(_) => K::Wk,
            Hd::Mu(_) => K::Mu,
            Hd::Pa(..) => K::Pa,
            Hd::It(_) => K::It,
            Hd::Mp(..) => K::Mp,
        }
    }
}

pub struct Cx {
    prog: Prog,
    items: Vec<Item>,
    bufs: Vec<Buf>,
    regs: Vec<Reg>,
    local: Vec<Vec<(usize, Hd)>>,
    pool: Vec<(usize, Hd)>,
    inbox: Vec<Vec<(usize, Hd, Clock)>>,
    trees: u32,
    stamps: u32,
    pub par_calls: [u32; 4],
    pub granted: u32,
    pub upgraded: u32,
    pub into: u32,
    pub touched: [u8; 4],
    phase: u8,
    /// how many destructors that make calls are under way on a thread, and the calls still to come
    depth: [u8; MAXT],
    nest: Vec<[u8; 4]>,
    pub nested: u32,
}

impl Cx {
    pub fn new(prog: Prog) -> Box<Cx> {
        let t = prog.threads as usize;
        let nest = prog.ops.iter().rev().filter(|o| o[0] == NEST).copied().collect();
        Box::new(Cx { depth: [0; MAXT], nest, nested: 0, prog, items: vec![], bufs: vec![], regs: vec![], local: (0..=t).map(|_| vec![]).collect(), pool: vec![], inbox: (0..=t).map(|_| vec![]).collect(), trees: 0, stamps: 0, par_calls: [0; 4], granted: 0, upgraded: 0, into: 0, touched: [0; 4], phase: 0 })
    }
}

fn overlap(a: &Reg, b: &Reg) -> bool {
    a.len > 0 && b.len > 0 && a.lo < b.lo + b.len && b.lo < a.lo + a.len
}
fn within(inner: &Reg, outer: &Reg) -> bool {
    inner.len > 0 && inner.lo >= outer.lo && inner.lo + inner.len <= outer.lo + outer.len
}
fn holds(k: K) -> bool {
    k != K::Wk
}

fn desc(s: usize) -> String {
    let r = &cx().regs[s];
    format!("h{} ({:?} on items {}..{})", s, r.kind, r.lo, r.lo + r.len)
}

impl Drop for It {
    fn drop(&mut self) {
        if self.magic != MAGIC {
            fail(Class::Safety, format!("a destructor runs on memory that holds no item (magic {:x})", self.magic));
        }
        step();
        self.magic = MAGIC;
        let id = self.id as usize;
        let c = cx();
        if id >= c.items.len() {
            fail(Class::Safety, "a destructor runs on an item that never existed".into());
        }
        match c.items[id].st {
            St::Dead => fail(Class::Safety, format!("item {} is destroyed twice", id)),
            St::Out => {}
            St::Alive => {
                for (s, r) in c.regs.iter().enumerate() {
                    if r.live && holds(r.kind) && r.lo <= id as u32 && (id as u32) < r.lo + r.len {
                        fail(Class::Safety, format!("item {} is destroyed while {} is alive", id, desc(s)));
                    }
                }
            }
        }
        wrote(id, "destroyed");
        c.items[id].st = St::Dead;
        log(|| format!("item {} destroyed", id));
        step();
        nested();
    }
}

/// A destructor's own calls on handles of its thread.
fn nested() {
    let Some(r) = rt() else { return };
    let (t, c) = (r.cur, cx());
    if c.phase > 2 || c.depth[t] >= 3 {
        return;
    }
    let Some(op) = c.nest.pop() else { return };
    if op[1] as usize >= NAMES.len() {
        return;
    }
    c.depth[t] += 1;
    c.nested += 1;
    log(|| "its destructor goes on:".into());
    exec(t, op);
    cx().depth[t] -= 1;
    log(|| "(end of the destructor)".into());
}

/// An exclusive access to an item by the current thread: everything before must be ordered.
fn wrote(id: usize, what: &str) {
    let it = &mut cx().items[id];
    let Some(r) = rt() else { return };
    if !r.seen(it.wr.0, it.wr.1) {
        fail(Class::Race, format!("item {} {} by thread {} without being ordered after a write by thread {}", id, what, r.cur, it.wr.0));
    }
    for t in 0..MAXT {
        if !r.seen(t as u8, it.rd[t]) {
            fail(Class::Race, format!("item {} {} by thread {} without being ordered after a read by thread {}", id, what, r.cur, t));
        }
    }
    it.wr = r.now();
}

fn read(id: usize, by: usize) {
    let it = &mut cx().items[id];
    let Some(r) = rt() else { return };
    if !r.seen(it.wr.0, it.wr.1) {
        fail(Class::Race, format!("item {} read by thread {} through {} without being ordered after a write by thread {}", id, r.cur, desc(by), it.wr.0));
    }
    let (c, t) = r.now();
    it.rd[c as usize] = t;
}

unsafe fn on_dealloc(p: *mut u8, l: Layout) -> bool {
    let c = cx();
    let Some(i) = c.bufs.iter().position(|b| b.ptr == p) else { return false };
    let (size, lo, n, freed) = { let b = &c.bufs[i]; (b.size, b.lo, b.n, b.freed) };
    if freed {
        fail(Class::Safety, "the buffer is freed twice".into());
    }
    if l.size() != size || l.align() != std::mem::align_of::<It>() {
        fail(Class::Safety, format!("the buffer of {} bytes is freed with layout {:?}", size, l));
    }
    for (s, r) in c.regs.iter().enumerate() {
        if r.live && holds(r.kind) && r.len > 0 && r.lo < lo + n && lo < r.lo + r.len {
            fail(Class::Safety, format!("the buffer is freed while {} is alive", desc(s)));
        }
    }
    for id in lo..lo + n {
        // freeing is an access like any other, but it does not end the item
        wrote(id as usize, "freed");
    }
    c.bufs[i].freed = true;
    true
}

// ------------------------------------------------------------------ registry
fn register(kind: K, tree: u32, lo: u32, len: u32) -> usize {
    let c = cx();
    let r = Reg { kind, tree, lo, len, live: true, borrow: false, tried: 0, conv: false, surplus: false };
    let s = c.regs.len();
    c.regs.push(r);
    check_access(s);
    s
}

/// The current thread has just obtained (or been given back) access through `s`.
fn check_access(s: usize) {
    let c = cx();
    let r = c.regs[s];
    if !holds(r.kind) {
        return;
    }
    for (i, o) in c.regs.iter().enumerate() {
        if i == s || !o.live || !overlap(&r, o) || !holds(o.kind) {
            continue;
        }
        let excl = |k: K| matches!(k, K::Mu | K::It | K::Mp);
        if o.borrow || excl(o.kind) || excl(r.kind) || r.borrow {
            fail(Class::Excl, format!("{} is obtained while {} {}", desc(s), desc(i), if o.borrow { "is mutably borrowed" } else { "is alive" }));
        }
    }
}

fn unregister(s: usize) {
    cx().regs[s].live = false;
}

fn peek(s: usize, items: &[It], yields: bool) {
    let r = cx().regs[s];
    if items.len() != r.len as usize {
        fail(Class::Safety, format!("{} shows {} items", desc(s), items.len()));
    }
    for k in 0..items.len() {
        if yields {
            step();
        }
        let it = &items[k];
        let id = r.lo as usize + k;
        if it.magic != MAGIC || it.id as usize != id {
            fail(Class::Safety, format!("{} shows item {} (magic {:x}) in place of {}", desc(s), it.id, it.magic, id));
        }
        if cx().items[id].st != St::Alive {
            fail(Class::Safety, format!("{} shows item {} which was destroyed", desc(s), id));
        }
        for b in &cx().bufs {
            if (id as u32) >= b.lo && (id as u32) < b.lo + b.n && b.freed {
                fail(Class::Safety, format!("{} shows item {} in a freed buffer", desc(s), id));
            }
            if (id as u32) >= b.lo && (id as u32) < b.lo + b.n && (it as *const It) != (b.ptr as *const It).wrapping_add(id - b.lo as usize) {
                fail(Class::Safety, format!("{} shows item {} at another address", desc(s), id));
            }
        }
        read(id, s);
        if cx().items[id].stamp != it.stamp {
            fail(Class::Safety, format!("{} shows item {} with an outdated value", desc(s), id));
        }
    }
}

fn halves(lo: u32, len: u32) -> ((u32, u32), (u32, u32)) {
    let m = len / 2;
    ((lo, m), (lo + m, len - m))
}

fn part_ranges(lo: u32, len: u32, k: usize) -> Vec<(u32, u32)> {
    if k == 1 {
        return vec![(lo, len)];
    }
    let (a, b) = halves(lo, len);
    let mut v = part_ranges(a.0, a.1, k / 2);
    v.extend(part_ranges(b.0, b.1, k / 2));
    v
}

fn cover(v: &[(u32, u32)]) -> (u32, u32) {
    match (v.first(), v.last()) {
        (Some(a), Some(b)) => (a.0, b.0 + b.1 - a.0),
        _ => (0, 0),
    }
}

// ------------------------------------------------------------------ calls
struct Call {
    quiet: bool,
    n: u32,
    /// of the call around it, if a destructor makes this one
    outer: bool,
}

fn begin(what: &str) -> Call {
    let r = rt().unwrap();
    let t = r.cur;
    let q = !r.others_in_call() && cx().depth[t] == 0;
    let n = r.nswitch;
    let outer = r.in_call();
    r.set_in_call(true);
    if cx().phase == 1 && t < 4 {
        cx().par_calls[t] += 1;
    }
    log(|| format!("{} ...", what));
    Call { quiet: q, n, outer }
}

impl Call {
    /// Whether no other thread took a step or was inside a call.
    fn end(&self) -> bool {
        let r = rt().unwrap();
        r.set_in_call(self.outer);
        // with stale reads a thread may lawfully not know yet what others have finished
        self.quiet && r.nswitch == self.n && !(r.is_stale() && cx().phase == 1)
    }
}

fn call<T>(what: &str, f: impl FnOnce() -> T) -> (T, bool) {
    let c = begin(what);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => (v, c.end()),
        Err(_) => fail(Class::Panic, format!("{} panics", what)),
    }
}

/// When nobody is inside a call, exactly the items some handle covers are alive.
fn settled() {
    let c = cx();
    for id in 0..c.items.len() as u32 {
        if c.items[id as usize].st == St::Alive && !c.regs.iter().any(|r| r.live && holds(r.kind) && r.lo <= id && id < r.lo + r.len) {
            fail(Class::Must, format!("item {} is covered by no handle and was not destroyed", id));
        }
    }
}

fn any_empty(tree: u32) -> bool {
    cx().regs.iter().any(|r| r.live && r.tree == tree && (r.len == 0 || r.surplus))
}

fn others_overlap(s: usize) -> bool {
    let c = cx();
    let me = c.regs[s];
    c.regs.iter().enumerate().any(|(i, o)| i != s && o.live && holds(o.kind) && overlap(&me, o))
}

fn weak_below(s: usize) -> bool {
    let c = cx();
    let me = c.regs[s];
    c.regs.iter().enumerate().any(|(i, o)| i != s && o.live && o.kind == K::Wk && o.tree == me.tree && within(o, &me))
}

fn start_stamp() -> u32 {
    let c = cx();
    c.stamps += 1;
    c.stamps
}

fn write_all(s: usize, items: &mut [It]) {
    let r = cx().regs[s];
    if items.len() != r.len as usize {
        fail(Class::Safety, format!("{} gives {} items to write", desc(s), items.len()));
    }
    for k in 0..items.len() {
        step();
        let id = r.lo as usize + k;
        if items[k].magic != MAGIC || items[k].id as usize != id || cx().items[id].st != St::Alive {
            fail(Class::Safety, format!("{} gives item {} to write in place of live item {}", desc(s), items[k].id, id));
        }
        wrote(id, "written");
        let st = start_stamp();
        items[k].stamp = st;
        cx().items[id].stamp = st;
        step();
    }
}

fn put(t: usize, s: usize, h: Hd) {
    cx().local[t].push((s, h));
}

/// Takes the a-th local handle that fits.
fn take(t: usize, a: u8, f: impl Fn(&Hd) -> bool) -> Option<(usize, Hd)> {
    let l = &mut cx().local[t];
    let v: Vec<usize> = (0..l.len()).filter(|&i| f(&l[i].1)).collect();
    if v.is_empty() {
        return None;
    }
    Some(l.remove(v[a as usize % v.len()]))
}

enum Ref {
    Own(usize, Hd),
    Pool(usize, &'static Hd),
}
impl Ref {
    fn s(&self) -> usize {
        match self {
            Ref::Own(s, _) | Ref::Pool(s, _) => *s,
        }
    }
    fn h(&self) -> &Hd {
        match self {
            Ref::Own(_, h) => h,
            Ref::Pool(_, h) => h,
        }
    }
    fn back(self, t: usize) {
        if let Ref::Own(s, h) = self {
            put(t, s, h)
        }
    }
}

fn borrow(t: usize, a: u8, f: impl Fn(&Hd) -> bool) -> Option<Ref> {
    let c = cx();
    if c.phase == 1 {
        let nl = c.local[t].iter().filter(|x| f(&x.1)).count();
        let p: Vec<usize> = (0..c.pool.len()).filter(|&i| f(&c.pool[i].1)).collect();
        if nl + p.len() == 0 {
            return None;
        }
        let k = a as usize % (nl + p.len());
        if k >= nl {
            let x = &c.pool[p[k - nl]];
            return Some(Ref::Pool(x.0, &x.1));
        }
        return take(t, k as u8, f).map(|(s, h)| Ref::Own(s, h));
    }
    take(t, a, f).map(|(s, h)| Ref::Own(s, h))
}

fn got(t: usize, kind: K, tree: u32, lo: u32, len: u32, h: Hd) -> usize {
    let s = register(kind, tree, lo, len);
    log(|| format!("  -> {}", desc(s)));
    if let Hd::Pa(_, v) = &h {
        cx().regs[s].surplus = v.iter().any(|x| x.1 == 0);
    }
    view(s, &h, false);
    put(t, s, h);
    s
}

fn view(s: usize, h: &Hd, yields: bool) {
    match h {
        Hd::Sh(x) => peek(s, x, yields),
        Hd::Mu(x) => peek(s, x, yields),
        Hd::Pa(x, _) => peek(s, x.as_slice(), yields),
        Hd::It(x) => peek(s, x.as_slice(), yields),
        Hd::Mp(x, _) => peek(s, x.as_slice(), yields),
        Hd::Wk(_) => {}
    }
}

fn sh(h: &Hd) -> &ArcSlice<It> {
    if let Hd::Sh(x) = h { x } else { unreachable!() }
}

fn is(k: K) -> impl Fn(&Hd) -> bool {
    move |h| h.kind() == k
}

fn drop_handle(s: usize, h: Hd) {
    let d = desc(s);
    unregister(s);
    let (_, quiet) = call(&format!("drop {}", d), move || drop(h));
    if quiet {
        settled();
    }
}

fn exec(t: usize, op: [u8; 4]) {
    let (code, a, b) = (op[1] as usize % NAMES.len(), op[2], op[3]);
    let c = cx();
    if c.local[t].len() > 10 && matches!(code, 0..=4 | 5 | 6 | 13 | 16 | 17) {
        return;
    }
    match code {
        0 => {
            if let Some(r) = borrow(t, a, is(K::Sh)) {
                let g = cx().regs[r.s()];
                let (x, _) = call(&format!("clone {}", desc(r.s())), || sh(r.h()).clone());
                got(t, K::Sh, g.tree, g.lo, g.len, Hd::Sh(x));
                r.back(t);
            }
        }
        1 | 2 => {
            if let Some(r) = borrow(t, a, is(K::Sh)) {
                let g = cx().regs[r.s()];
                let (x, q) = call(&format!("{} {}", NAMES[code], desc(r.s())), || if code == 1 { ArcSlice::clone_left(sh(r.h())) } else { ArcSlice::clone_right(sh(r.h())) });
                let (l, rr) = halves(g.lo, g.len);
                let (lo, len) = if code == 1 { l } else { rr };
                got(t, K::Sh, g.tree, lo, len, Hd::Sh(x));
                r.back(t);
                if q {
                    settled();
                }
            }
        }
        3 | 4 => {
            if let Some((s, h)) = take(t, a, is(K::Sh)) {
                let g = cx().regs[s];
                let Hd::Sh(mut x) = h else { unreachable!() };
                cx().regs[s].conv = true;
                let (y, q) = call(&format!("{} {}", NAMES[code], desc(s)), || if code == 3 { ArcSlice::split_off_left(&mut x) } else { ArcSlice::split_off_right(&mut x) });
                let (l, r) = halves(g.lo, g.len);
                unregister(s);
                let (m, o) = if code == 3 { (r, l) } else { (l, r) };
                got(t, K::Sh, g.tree, m.0, m.1, Hd::Sh(x));
                got(t, K::Sh, g.tree, o.0, o.1, Hd::Sh(y));
                if q {
                    settled();
                }
            }
        }
        5 => {
            if let Some(r) = borrow(t, a, is(K::Sh)) {
                let g = cx().regs[r.s()];
                let (w, _) = call(&format!("downgrade {}", desc(r.s())), || ArcSlice::downgrade(sh(r.h())));
                got(t, K::Wk, g.tree, g.lo, g.len, Hd::Wk(w));
                r.back(t);
            }
        }
        6 => {
            if let Some(r) = borrow(t, a, is(K::Wk)) {
                let g = cx().regs[r.s()];
                let c = cx();
                let hold: Vec<(usize, u32)> = (0..c.regs.len()).filter(|&i| { let o = &c.regs[i]; o.live && !o.conv && o.kind == K::Sh && o.tree == g.tree && within(&g, o) }).map(|i| (i, c.regs[i].tried)).collect();
                let gone = g.len > 0 && (g.lo..g.lo + g.len).any(|i| c.items[i as usize].st != St::Alive || c.items[i as usize].tree != g.tree);
                let Hd::Wk(w) = r.h() else { unreachable!() };
                let (x, q) = call(&format!("upgrade {}", desc(r.s())), || w.upgrade());
                match x {
                    Some(x) => {
                        cx().upgraded += 1;
                        let s = register(K::Sh, g.tree, g.lo, g.len);
                        log(|| format!("  -> {}", desc(s)));
                        view(s, &Hd::Sh(unsafe { std::ptr::read(&x) }).keep(), false);
                        if gone {
                            fail(Class::Excl, format!("{} upgrades although its items had moved on", desc(r.s())));
                        }
                        put(t, s, Hd::Sh(x));
                    }
                    None => {
                        log(|| "  -> None".into());
                        if let Some(h) = hold.iter().find(|h| cx().regs[h.0].live && cx().regs[h.0].tried == h.1 && !cx().regs[h.0].conv) {
                            fail(Class::Must, format!("{} does not upgrade although {} was alive throughout", desc(r.s()), desc(h.0)));
                        }
                    }
                }
                r.back(t);
                if q {
                    settled();
                }
            }
        }
        7 => {
            if let Some((s, h)) = take(t, a, |_| true) {
                if b % 3 == 0 {
                    view(s, &h, true);
                }
                drop_handle(s, h);
            }
        }
        8 => {
            if let Some((s, h)) = take(t, a, is(K::Sh)) {
                let Hd::Sh(mut x) = h else { unreachable!() };
                let g = cx().regs[s];
                let must = g.len > 0 && !others_overlap(s) && !weak_below(s) && !any_empty(g.tree);
                let (m, q) = call(&format!("get_mut {}", desc(s)), || ArcSlice::get_mut(&mut x));
                match m {
                    Some(items) => {
                        log(|| "  -> granted".into());
                        cx().granted += 1;
                        let c = cx();
                        c.regs[s].borrow = true;
                        check_access(s);
                        if g.len > 0 && weak_below(s) {
                            let c = cx();
                            let w = (0..c.regs.len()).find(|&i| { let o = &c.regs[i]; o.live && o.kind == K::Wk && o.tree == g.tree && within(o, &g) }).unwrap();
                            fail(Class::Excl, format!("get_mut on {} is granted while {} is alive", desc(s), desc(w)));
                        }
                        write_all(s, items);
                        cx().regs[s].borrow = false;
                    }
                    None => {
                        log(|| "  -> refused".into());
                        if must && q {
                            fail(Class::Must, format!("get_mut on {} is refused although it is alone", desc(s)));
                        }
                    }
                }
                put(t, s, Hd::Sh(x));
            }
        }
        9 => {
            if let Some((s, h)) = take(t, a, is(K::Sh)) {
                let Hd::Sh(x) = h else { unreachable!() };
                let g = cx().regs[s];
                let must = g.len > 0 && !others_overlap(s) && !any_empty(g.tree);
                cx().regs[s].tried += 1;
                cx().regs[s].conv = true;
                let (r, q) = call(&format!("into_mut {}", desc(s)), || ArcSlice::into_mut(x));
                cx().regs[s].conv = false;
                match r {
                    Ok(m) => {
                        log(|| "  -> granted".into());
                        cx().into += 1;
                        let c = cx();
                        unregister(s);
                        c.trees += 1;
                        let tr = c.trees;
                        for i in g.lo..g.lo + g.len {
                            c.items[i as usize].tree = tr;
                        }
                        got(t, K::Mu, tr, g.lo, g.len, Hd::Mu(m));
                    }
                    Err(x) => {
                        log(|| "  -> refused".into());
                        if must && q {
                            fail(Class::Must, format!("into_mut on {} is refused although it is alone", desc(s)));
                        }
                        view(s, &Hd::Sh(unsafe { std::ptr::read(&x) }).keep(), false);
                        put(t, s, Hd::Sh(x));
                    }
                }
                if q {
                    settled();
                }
            }
        }
        10 => {
            if let Some((s, h)) = take(t, a, is(K::Mu)) {
                let Hd::Mu(x) = h else { unreachable!() };
                let g = cx().regs[s];
                let (y, _) = call(&format!("into_immut {}", desc(s)), || ArcSliceMut::into_immut(x));
                unregister(s);
                got(t, K::Sh, g.tree, g.lo, g.len, Hd::Sh(y));
            }
        }
        11 => {
            if let Some((s, h)) = take(t, a, is(K::Mu)) {
                let Hd::Mu(mut x) = h else { unreachable!() };
                let g = cx().regs[s];
                let (y, _) = call(&format!("split {}", desc(s)), || if b & 1 == 0 { ArcSliceMut::split_off_left(&mut x) } else { ArcSliceMut::split_off_right(&mut x) });
                let (l, r) = halves(g.lo, g.len);
                unregister(s);
                let (m, o) = if b & 1 == 0 { (r, l) } else { (l, r) };
                got(t, K::Mu, g.tree, m.0, m.1, Hd::Mu(x));
                got(t, K::Mu, g.tree, o.0, o.1, Hd::Mu(y));
            }
        }
        12 => {
            if let Some((s, h)) = take(t, a, is(K::Mu)) {
                let Hd::Mu(mut x) = h else { unreachable!() };
                log(|| format!("write {}", desc(s)));
                write_all(s, &mut x);
                put(t, s, Hd::Mu(x));
            }
        }
        13 => {
            if let Some((s, h)) = take(t, a, is(K::Sh)) {
                let Hd::Sh(x) = h else { unreachable!() };
                let g = cx().regs[s];
                let k = 1usize << (b % 3);
                cx().regs[s].conv = true;
                let (p, q) = call(&format!("split_into_parts {} {}", desc(s), k), || ArcSlice::split_into_parts(x, k));
                unregister(s);
                got(t, K::Pa, g.tree, g.lo, g.len, Hd::Pa(p, part_ranges(g.lo, g.len, k)));
                if q {
                    settled();
                }
            }
        }
        14 => {
            if let Some((s, h)) = take(t, a, is(K::Pa)) {
                let Hd::Pa(mut p, mut v) = h else { unreachable!() };
                let g = cx().regs[s];
                let want = if v.is_empty() { None } else if b & 1 == 0 { Some(v.remove(0)) } else { v.pop() };
                let (x, q) = call(&format!("next of {}", desc(s)), || if b & 1 == 0 { p.next() } else { p.next_back() });
                let (lo, len) = cover(&v);
                unregister(s);
                got(t, K::Pa, g.tree, lo, len, Hd::Pa(p, v));
                match (x, want) {
                    (Some(x), Some(w)) => {
                        got(t, K::Sh, g.tree, w.0, w.1, Hd::Sh(x));
                    }
                    (None, None) => {}
                    _ => fail(Class::Safety, "a parts iterator yields a wrong number of parts".into()),
                }
                if q {
                    settled();
                }
            }
        }
        15 => {
            if let Some(r) = borrow(t, a, |h| h.kind() != K::Wk) {
                log(|| format!("read {}", desc(r.s())));
                view(r.s(), r.h(), true);
                r.back(t);
            }
        }
        16 => {
            if let Some(r) = borrow(t, a, is(K::Wk)) {
                let g = cx().regs[r.s()];
                let Hd::Wk(w) = r.h() else { unreachable!() };
                let (x, _) = call(&format!("clone {}", desc(r.s())), || w.clone());
                got(t, K::Wk, g.tree, g.lo, g.len, Hd::Wk(x));
                r.back(t);
            }
        }
        17 => {
            if let Some(r) = borrow(t, a, is(K::Pa)) {
                let g = cx().regs[r.s()];
                let Hd::Pa(p, v) = r.h() else { unreachable!() };
                let (x, _) = call(&format!("clone {}", desc(r.s())), || p.clone());
                got(t, K::Pa, g.tree, g.lo, g.len, Hd::Pa(x, v.clone()));
                r.back(t);
            }
        }
        18 => {
            if let Some((s, h)) = take(t, a, is(K::Mu)) {
                let Hd::Mu(x) = h else { unreachable!() };
                let g = cx().regs[s];
                let (y, _) = call(&format!("into_iter {}", desc(s)), || x.into_iter());
                unregister(s);
                got(t, K::It, g.tree, g.lo, g.len, Hd::It(y));
            }
        }
        19 => {
            if let Some((s, h)) = take(t, a, is(K::It)) {
                let Hd::It(mut x) = h else { unreachable!() };
                let g = cx().regs[s];
                let what = format!("next of {}", desc(s));
                let id = if b & 1 == 0 { g.lo } else { (g.lo + g.len).wrapping_sub(1) };
                if g.len > 0 {
                    // the item handed out is the caller's, even while the call is under way
                    let m = &mut cx().regs[s];
                    m.len -= 1;
                    m.lo += (b & 1 == 0) as u32;
                }
                let (y, _) = call(&what, || if b & 1 == 0 { x.next() } else { x.next_back() });
                match y {
                    Some(y) if g.len > 0 && y.magic == MAGIC && y.id == id && cx().items[id as usize].st == St::Alive => {
                        cx().items[id as usize].st = St::Out;
                        view(s, &Hd::It(unsafe { std::ptr::read(&x) }).keep(), false);
                        put(t, s, Hd::It(x));
                        drop(y);
                    }
                    None if g.len == 0 => put(t, s, Hd::It(x)),
                    _ => fail(Class::Safety, "an iterator yields a wrong item, or a wrong number of items".into()),
                }
            }
        }
        20 => {
            let c = cx();
            if c.phase != 1 {
                return;
            }
            if let Some((s, h)) = take(t, a, |_| true) {
                let n = c.prog.threads as usize;
                let to = 1 + (t - 1 + 1 + b as usize % (n - 1)) % n;
                log(|| format!("send {} to {}", desc(s), to));
                let k = rt().unwrap().clock();
                c.inbox[to].push((s, h, k));
                step();
            }
        }
        21 => {
            let c = cx();
            step();
            if !c.inbox[t].is_empty() {
                let (s, h, k) = c.inbox[t].remove(0);
                rt().unwrap().join_clock(&k);
                log(|| format!("receive {}", desc(s)));
                view(s, &h, false);
                put(t, s, h);
            }
        }
        22 => {
            if let Some((s, h)) = take(t, a, is(K::Mu)) {
                let Hd::Mu(x) = h else { unreachable!() };
                let g = cx().regs[s];
                let k = 1usize << (b % 3);
                let (p, _) = call(&format!("split_into_parts {} {}", desc(s), k), || ArcSliceMut::split_into_parts(x, k));
                unregister(s);
                got(t, K::Mp, g.tree, g.lo, g.len, Hd::Mp(p, part_ranges(g.lo, g.len, k)));
            }
        }
        _ => {
            if let Some((s, h)) = take(t, a, is(K::Mp)) {
                let Hd::Mp(mut p, mut v) = h else { unreachable!() };
                let g = cx().regs[s];
                let want = if v.is_empty() { None } else if b & 1 == 0 { Some(v.remove(0)) } else { v.pop() };
                let (x, _) = call(&format!("next of {}", desc(s)), || if b & 1 == 0 { p.next() } else { p.next_back() });
                let (lo, len) = cover(&v);
                unregister(s);
                got(t, K::Mp, g.tree, lo, len, Hd::Mp(p, v));
                match (x, want) {
                    (Some(x), Some(w)) => {
                        got(t, K::Mu, g.tree, w.0, w.1, Hd::Mu(x));
                    }
                    (None, None) => {}
                    _ => fail(Class::Safety, "a parts iterator yields a wrong number of parts".into()),
                }
            }
        }
    }
}

struct Keep(std::mem::ManuallyDrop<Hd>);
impl Hd {
    fn keep(self) -> Keep {
        Keep(std::mem::ManuallyDrop::new(self))
    }
}
impl std::ops::Deref for Keep {
    type Target = Hd;
    fn deref(&self) -> &Hd {
        &self.0
    }
}

fn base(n: u8) {
    let c = cx();
    let lo = c.items.len() as u32;
    c.trees += 1;
    let tree = c.trees;
    let now = rt().unwrap().now();
    let mut v = Vec::with_capacity(n as usize);
    for i in 0..n as u32 {
        c.items.push(Item { st: St::Alive, tree, stamp: 0, wr: now, rd: [0; MAXT] });
        v.push(It { magic: MAGIC, id: lo + i, stamp: 0 });
    }
    let (x, _) = call("from_vec", || ArcSlice::from_vec(v));
    let p = x.as_ptr() as *mut u8;
    if n > 0 {
        c.bufs.push(Buf { ptr: p, size: n as usize * std::mem::size_of::<It>(), lo, n: n as u32, freed: false });
        unsafe { ARMED = true };
    }
    got(0, K::Sh, tree, lo, n as u32, Hd::Sh(x));
}

pub fn setup(c: &mut Cx) {
    unsafe { CX = c };
    let c = cx();
    c.phase = 0;
    base(c.prog.n);
    if c.prog.n2 > 0 {
        base(c.prog.n2);
    }
    for op in c.prog.ops.clone() {
        if op[0] == 0 {
            exec(0, op);
        }
    }
    settled();
    let l = std::mem::take(&mut c.local[0]);
    let n = c.prog.threads as usize;
    for (i, x) in l.into_iter().enumerate() {
        let d = c.prog.dist[i % 8] as usize;
        if d == n + 1 {
            log(|| format!("{} is shared by all threads", desc(x.0)));
            c.pool.push(x);
        } else {
            let d = d.min(n);
            log(|| format!("{} goes to thread {}", desc(x.0), d));
            c.local[d].push(x);
        }
    }
    c.phase = 1;
}

pub fn thread(c: *mut Cx, t: usize) {
    let c = unsafe { &mut *c };
    for op in c.prog.ops.clone() {
        if op[0] as usize == t {
            // between calls
            step();
            exec(t, op);
        }
    }
    log(|| "done".into());
}

pub fn after(c: &mut Cx) {
    c.phase = 2;
    log(|| "all threads are done".into());
    let n = c.prog.threads as usize;
    for t in 1..=n {
        let l = std::mem::take(&mut c.local[t]);
        c.local[0].extend(l);
        for (s, h, _) in std::mem::take(&mut c.inbox[t]) {
            c.local[0].push((s, h));
        }
    }
    let p = std::mem::take(&mut c.pool);
    c.local[0].extend(p);
    settled();
    for i in 0..c.local[0].len() {
        let (s, h) = &c.local[0][i];
        view(*s, h, false);
    }
    for op in c.prog.ops.clone() {
        if op[0] == AFTER {
            exec(0, op);
        }
    }
    // a last round of questions, then everything goes
    let mut k = 0;
    while !c.local[0].is_empty() {
        exec(0, [AFTER, 8, k, 0]);
        exec(0, [AFTER, 6, k, 0]);
        let n = c.local[0].len();
        let (s, h) = c.local[0].remove(k as usize % n);
        drop_handle(s, h);
        k = k.wrapping_add(1);
        if k > 60 {
            break;
        }
    }
    c.phase = 3;
    for (s, h) in std::mem::take(&mut c.local[0]) {
        drop_handle(s, h);
    }
    for (i, it) in c.items.iter().enumerate() {
        if it.st == St::Alive {
            fail(Class::Safety, format!("item {} is never destroyed", i));
        }
    }
    for b in &c.bufs {
        if !b.freed {
            fail(Class::Safety, "the buffer is never freed".into());
        }
    }
    let left = rt().unwrap().arcs_live;
    if left != 0 {
        fail(Class::Safety, format!("{} bookkeeping allocations are never freed", left));
    }
}

/// Called when the case ended, before anything else runs.
pub fn finish(c: Option<&Cx>) {
    unsafe { ARMED = false };
    if let Some(c) = c {
        for b in &c.bufs {
            unsafe { System.dealloc(b.ptr, Layout::from_size_align_unchecked(b.size, std::mem::align_of::<It>())) };
        }
    }
    unsafe { CX = std::ptr::null_mut() };
}

/// (at least two threads made calls, whether it ended after the threads, counters)
pub fn stats() -> (bool, bool, [u32; 4]) {
    if unsafe { CX.is_null() } {
        return (false, false, [0; 4]);
    }
    let c = cx();
    (c.par_calls.iter().filter(|x| **x > 0).count() >= 2, c.phase == 2, [c.granted, c.into, c.upgraded, c.nested])
}
