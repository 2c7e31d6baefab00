//! Item types the harness instantiates the crate with.
use crate::ledger;
use std::num::NonZeroU32;

#[derive(Clone, Copy, Debug)]
pub struct KindInfo {
    pub name: &'static str,
    pub zst: bool,
    /// identity and destruction tracked by token
    pub tracked: bool,
    /// zero sized with destructor: destruction tracked by count
    pub counted: bool,
    pub mask: u32,
    pub size: usize,
    pub align: usize,
}
pub trait Kind: Sized + Clone + 'static {
    const INFO: KindInfo;
    fn make(tok: u32) -> Self;
    /// the token, with sanity of the bytes checked (and reported)
    fn tok(&self) -> u32;
}
const SALT: u32 = 0x5bd1_e995;
fn chk(tok: u32) -> u32 { tok.wrapping_mul(SALT) ^ 0xa5a5_5a5a }
// Destructors flip the lowest bit; who looks at destroyed items is told by the ledger.
fn sane(tok: u32, c: u32) -> bool { (c ^ chk(tok)) & !1 == 0 }
fn look(tok: u32, c: u32) -> u32 {
    if !sane(tok, c) { ledger::viol("garbage-read", format!("a handle shows bytes that are not a valid item (token bits {tok:#x})")); u32::MAX } else { tok }
}

pub struct Tok8 { tok: u32, c: u32 }
impl Kind for Tok8 {
    const INFO: KindInfo = KindInfo { name: "tok8", zst: false, tracked: true, counted: false, mask: !0, size: 8, align: 4 };
    fn make(tok: u32) -> Self { ledger::born(tok); Self { tok, c: chk(tok) } }
    fn tok(&self) -> u32 { look(self.tok, self.c) }
}
impl Clone for Tok8 { fn clone(&self) -> Self { let t = ledger::cloned(self.tok); Self { tok: t, c: chk(t) } } }
// Destructors write to the item, as a destructor may: that takes exclusive access.
impl Drop for Tok8 { fn drop(&mut self) { let ok = sane(self.tok, self.c); self.c ^= 1; ledger::dropped(self.tok, ok); } }

pub struct Tok24 { c: u32, pad: [u32; 4], tok: u32 }
impl Kind for Tok24 {
    const INFO: KindInfo = KindInfo { name: "tok24", zst: false, tracked: true, counted: false, mask: !0, size: 24, align: 4 };
    fn make(tok: u32) -> Self { ledger::born(tok); Self { tok, c: chk(tok), pad: [tok; 4] } }
    fn tok(&self) -> u32 { if self.pad != [self.tok; 4] { return look(self.tok, !self.c) } look(self.tok, self.c) }
}
impl Clone for Tok24 { fn clone(&self) -> Self { let t = ledger::cloned(self.tok); Self { tok: t, c: chk(t), pad: [t; 4] } } }
impl Drop for Tok24 { fn drop(&mut self) { let ok = sane(self.tok, self.c) && self.pad == [self.tok; 4]; self.c ^= 1; ledger::dropped(self.tok, ok); } }

pub struct Boxed(Box<(u32, u32)>);
impl Kind for Boxed {
    const INFO: KindInfo = KindInfo { name: "boxed", zst: false, tracked: true, counted: false, mask: !0, size: 8, align: 8 };
    fn make(tok: u32) -> Self { ledger::born(tok); Self(Box::new((tok, chk(tok)))) }
    fn tok(&self) -> u32 { look(self.0 .0, self.0 .1) }
}
impl Clone for Boxed { fn clone(&self) -> Self { let t = ledger::cloned(self.0 .0); Self(Box::new((t, chk(t)))) } }
impl Drop for Boxed { fn drop(&mut self) { ledger::dropped(self.0 .0, sane(self.0 .0, self.0 .1)); } }

#[repr(align(32))]
pub struct Al32 { tok: u32, c: u32 }
impl Kind for Al32 {
    const INFO: KindInfo = KindInfo { name: "align32", zst: false, tracked: true, counted: false, mask: !0, size: 32, align: 32 };
    fn make(tok: u32) -> Self { ledger::born(tok); Self { tok, c: chk(tok) } }
    fn tok(&self) -> u32 { look(self.tok, self.c) }
}
impl Clone for Al32 { fn clone(&self) -> Self { let t = ledger::cloned(self.tok); Self { tok: t, c: chk(t) } } }
impl Drop for Al32 { fn drop(&mut self) {
    if (self as *const _ as usize) % 32 != 0 { ledger::viol("misaligned", "item destroyed at a misaligned address".into()); }
    let ok = sane(self.tok, self.c);
    self.c ^= 1;
    ledger::dropped(self.tok, ok);
} }

#[derive(Clone)]
pub struct Byte(u8);
impl Kind for Byte {
    const INFO: KindInfo = KindInfo { name: "u8", zst: false, tracked: false, counted: false, mask: 0xff, size: 1, align: 1 };
    fn make(tok: u32) -> Self { Self(tok as u8) }
    fn tok(&self) -> u32 { self.0 as u32 }
}
#[derive(Clone)]
pub struct Nz(NonZeroU32);
impl Kind for Nz {
    const INFO: KindInfo = KindInfo { name: "nonzero", zst: false, tracked: false, counted: false, mask: !0, size: 4, align: 4 };
    fn make(tok: u32) -> Self { Self(NonZeroU32::new(tok + 1).unwrap()) }
    fn tok(&self) -> u32 { self.0.get().wrapping_sub(1) }
}
pub struct Zd(());
impl Kind for Zd {
    const INFO: KindInfo = KindInfo { name: "zst-drop", zst: true, tracked: false, counted: true, mask: 0, size: 0, align: 1 };
    fn make(_: u32) -> Self { ledger::zborn(); Self(()) }
    fn tok(&self) -> u32 { 0 }
}
impl Clone for Zd { fn clone(&self) -> Self { ledger::zcloned(); Self(()) } }
impl Drop for Zd { fn drop(&mut self) { ledger::zdropped() } }

#[repr(align(64))]
pub struct Zal(());
impl Kind for Zal {
    const INFO: KindInfo = KindInfo { name: "zst-drop-align64", zst: true, tracked: false, counted: true, mask: 0, size: 0, align: 64 };
    fn make(_: u32) -> Self { ledger::zborn(); Self(()) }
    fn tok(&self) -> u32 { if (self as *const _ as usize) % 64 != 0 { ledger::viol("misaligned", "a handle shows an item at a misaligned address".into()); } 0 }
}
impl Clone for Zal { fn clone(&self) -> Self { ledger::zcloned(); Self(()) } }
impl Drop for Zal { fn drop(&mut self) {
    if (self as *const _ as usize) % 64 != 0 { ledger::viol("misaligned", "item destroyed at a misaligned address".into()); }
    ledger::zdropped()
} }
#[derive(Clone)]
pub struct Unit;
impl Kind for Unit {
    const INFO: KindInfo = KindInfo { name: "unit", zst: true, tracked: false, counted: false, mask: 0, size: 0, align: 1 };
    fn make(_: u32) -> Self { Unit }
    fn tok(&self) -> u32 { 0 }
}
/// odd size, no destructor
#[derive(Clone)]
pub struct Odd3([u8; 3]);
impl Kind for Odd3 {
    const INFO: KindInfo = KindInfo { name: "odd3", zst: false, tracked: false, counted: false, mask: 0xff_ffff, size: 3, align: 1 };
    fn make(tok: u32) -> Self { let b = tok.to_le_bytes(); Self([b[0], b[1], b[2]]) }
    fn tok(&self) -> u32 { u32::from_le_bytes([self.0[0], self.0[1], self.0[2], 0]) }
}
/// larger than a cache line or any inline buffer
pub struct Big264 { c: u32, pad: [u32; 64], tok: u32 }
impl Kind for Big264 {
    const INFO: KindInfo = KindInfo { name: "big264", zst: false, tracked: true, counted: false, mask: !0, size: 264, align: 4 };
    fn make(tok: u32) -> Self { ledger::born(tok); Self { tok, c: chk(tok), pad: [tok; 64] } }
    fn tok(&self) -> u32 { if self.pad[0] != self.tok || self.pad[63] != self.tok { return look(self.tok, !self.c) } look(self.tok, self.c) }
}
impl Clone for Big264 { fn clone(&self) -> Self { let t = ledger::cloned(self.tok); Self { tok: t, c: chk(t), pad: [t; 64] } } }
impl Drop for Big264 { fn drop(&mut self) { let ok = sane(self.tok, self.c) && self.pad == [self.tok; 64]; self.c ^= 1; ledger::dropped(self.tok, ok); } }
pub const NKINDS: usize = 11;
