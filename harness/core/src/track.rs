//! A global allocator that knows which blocks belong to the case under test: detects leaks, double and
//! invalid frees and frees with the wrong layout; poisons and quarantines freed blocks.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

pub struct Tracking;
pub static ENABLED: AtomicBool = AtomicBool::new(false);

const LIVE: u64 = 0x11fe_b10c_11fe_b10c;
const FREED: u64 = 0xdead_b10c_dead_b10c;
const HDR: usize = 48;
#[repr(C)]
struct Hdr { magic: u64, size: u64, align: u64, serial: u64, tagged: u64, _p: u64 }

const MAX_LIVE: usize = 2 << 30;
const QMAX: usize = 1 << 15;
struct St {
    tag: bool,
    serial: u64,
    live: i64,
    bytes: i64,
    spent: (i64, i64),
    viol: Option<&'static str>,
    q: [*mut u8; QMAX],
    qn: usize,
}
// The tracked engine is single threaded (see run.rs); other threads never set `tag`.
static mut S: St = St { tag: false, serial: 0, live: 0, bytes: 0, spent: (0, 0), viol: None, q: [core::ptr::null_mut(); QMAX], qn: 0 };

fn s() -> &'static mut St { unsafe { &mut *core::ptr::addr_of_mut!(S) } }
fn off(align: usize) -> usize { (HDR + align - 1) / align * align }

unsafe fn really_free(p: *mut u8) {
    let h = &*(p.sub(HDR) as *const Hdr);
    let o = off(h.align as usize);
    System.dealloc(p.sub(o), Layout::from_size_align_unchecked(o + h.size as usize, (h.align as usize).max(16)));
}
unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        // a library gone wild must not take the machine with it
        if s().tag && s().bytes as usize > MAX_LIVE { return core::ptr::null_mut() }
        let o = off(l.align());
        let base = System.alloc(Layout::from_size_align_unchecked(o + l.size(), l.align().max(16)));
        if base.is_null() { return base; }
        let p = base.add(o);
        let st = s();
        st.serial += 1;
        let tagged = st.tag as u64;
        if st.tag { st.spent.0 += 1; st.spent.1 += l.size() as i64; st.live += 1; st.bytes += l.size() as i64; core::ptr::write_bytes(p, 0xCD, l.size()); }
        *(p.sub(HDR) as *mut Hdr) = Hdr { magic: LIVE, size: l.size() as u64, align: l.align() as u64, serial: st.serial, tagged, _p: 0 };
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let st = s();
        if p as usize % 8 != 0 { st.viol = Some("free of an address that was never allocated"); return; }
        let h = &mut *(p.sub(HDR) as *mut Hdr);
        match h.magic {
            LIVE => {}
            FREED => { st.viol = Some("memory block freed twice"); return; }
            _ => { st.viol = Some("free of an address that was never allocated"); return; }
        }
        if h.size != l.size() as u64 || h.align != l.align() as u64 { st.viol = Some("memory block freed with a layout other than it was allocated with"); }
        h.magic = FREED;
        if h.tagged != 0 {
            st.live -= 1; st.bytes -= h.size as i64;
            core::ptr::write_bytes(p, 0xDD, h.size as usize);
            if st.qn < QMAX { st.q[st.qn] = p; st.qn += 1; return; }
        }
        really_free(p);
    }
}
pub fn on() -> bool { ENABLED.load(Relaxed) }
/// Run `f` as library code: its allocations belong to the case.
pub fn tagged<R>(f: impl FnOnce() -> R) -> R {
    if !on() { return f() }
    let old = std::mem::replace(&mut s().tag, true);
    struct G(bool);
    impl Drop for G { fn drop(&mut self) { s().tag = self.0 } }
    let _g = G(old);
    f()
}
/// Run `f` as harness code inside a tagged region.
pub fn pause<R>(f: impl FnOnce() -> R) -> R {
    if !on() { return f() }
    let old = std::mem::replace(&mut s().tag, false);
    struct G(bool);
    impl Drop for G { fn drop(&mut self) { s().tag = self.0 } }
    let _g = G(old);
    f()
}
pub fn live() -> (i64, i64) { (s().live, s().bytes) }
/// how many blocks and bytes were ever allocated by library code
pub fn spent() -> (i64, i64) { s().spent }
pub fn serial_of(p: usize) -> Option<u64> {
    if !on() || p % 8 != 0 { return None }
    let h = unsafe { &*((p - HDR) as *const Hdr) };
    if h.magic == LIVE { Some(h.serial) } else { None }
}
pub fn is_live(p: usize, serial: u64) -> bool {
    let h = unsafe { &*((p - HDR) as *const Hdr) };
    h.magic == LIVE && h.serial == serial
}
pub fn take_viol() -> Option<&'static str> { s().viol.take() }
pub fn reset() {
    let st = s();
    for i in 0..st.qn { unsafe { really_free(st.q[i]) } }
    st.qn = 0; st.live = 0; st.bytes = 0; st.viol = None; st.tag = false;
}
