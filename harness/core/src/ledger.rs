//! Per-case book of items: every tracked item carries a token; the ledger knows which are alive.
use std::cell::RefCell;

#[derive(Default)]
pub struct Ledger {
    /// 0 = never made, 1 = alive, 2 = destroyed
    pub st: Vec<u8>,
    /// live zero sized items with destructor
    pub zlive: i64,
    pub zdrops: u64,
    pub viol: Vec<(&'static str, String)>,
    pub armed_drop: Option<u32>,
    pub armed_clone: Option<u32>,
    pub fired: bool,
    /// (original, clone) pairs since last cleared
    pub clones: Vec<(u32, u32)>,
    pub zclones: u64,
    pub next: u32,
}

thread_local! { static L: RefCell<Ledger> = RefCell::new(Ledger::default()); }

pub const ALIVE: u8 = 1;
pub const DEAD: u8 = 2;
pub const ARMED: &str = "armed panic";

pub fn with<R>(f: impl FnOnce(&mut Ledger) -> R) -> R { crate::track::pause(|| L.with(|l| f(&mut l.borrow_mut()))) }
pub fn reset() {
    with(|l| { *l = Ledger::default(); })
}
pub fn fresh() -> u32 { with(|l| { let t = l.next; l.next += 1; l.st.push(0); t }) }
pub fn born(tok: u32) { with(|l| l.st[tok as usize] = ALIVE) }
pub fn viol(tag: &'static str, msg: String) { with(|l| l.viol.push((tag, msg))) }
pub fn st(tok: u32) -> u8 { with(|l| l.st.get(tok as usize).copied().unwrap_or(0)) }

/// An item with this token is being destroyed. May panic if armed.
pub fn dropped(tok: u32, sane: bool) {
    let boom = with(|l| {
        if !sane || tok as usize >= l.st.len() {
            l.viol.push(("garbage-drop", format!("destructor ran on something that is not a valid item (token bits {tok:#x})")));
            return false;
        }
        match l.st[tok as usize] {
            ALIVE => l.st[tok as usize] = DEAD,
            DEAD => l.viol.push(("double-drop", format!("item {tok} destroyed twice"))),
            _ => l.viol.push(("garbage-drop", format!("item {tok} destroyed but never made"))),
        }
        if l.armed_drop == Some(tok) { l.armed_drop = None; l.fired = true; true } else { false }
    });
    if boom && !std::thread::panicking() { std::panic::panic_any(ARMED.to_string()); }
}
/// An item is being cloned; returns the clone's token. May panic if armed.
pub fn cloned(tok: u32) -> u32 {
    let r = with(|l| {
        if l.armed_clone == Some(tok) { l.armed_clone = None; l.fired = true; return None; }
        let t = l.next; l.next += 1; l.st.push(ALIVE); l.clones.push((tok, t)); Some(t)
    });
    match r { Some(t) => t, None => std::panic::panic_any(ARMED.to_string()) }
}
pub fn zdropped() { with(|l| { l.zlive -= 1; l.zdrops += 1; }) }
pub fn zborn() { with(|l| l.zlive += 1) }
pub fn zcloned() { with(|l| { l.zlive += 1; l.zclones += 1; }) }
/// for replays: tokens up to `tok` exist
pub fn reserve(tok: u32) { with(|l| { while l.st.len() <= tok as usize { l.st.push(0) } l.next = l.st.len() as u32; }) }
