//! Stand-in for `core`: everything is the real thing, except that atomics report to vrt.
#![no_std]
pub use ::core::*;

pub mod hint {
    pub use ::core::hint::*;
    pub fn spin_loop() {
        vrt::spin_hint()
    }
}

pub mod sync {
    pub use ::core::sync::*;
    pub mod atomic {
        pub use ::core::sync::atomic::*;
        use ::core::sync::atomic as real;

        pub fn fence(o: Ordering) {
            vrt::a_fence(o)
        }

        pub fn spin_loop_hint() {
            vrt::spin_hint()
        }

        fn no_of(o: Ordering) -> Ordering {
            match o {
                Ordering::Release => Ordering::Relaxed,
                Ordering::AcqRel => Ordering::Acquire,
                o => o,
            }
        }

        macro_rules! common {
            ([$($g:tt)*] $name:ty, $real:expr, $v:ty, $to:expr, $from:expr, $zero:expr) => {
                impl $($g)* $name {
                    #[inline]
                    pub const fn new(v: $v) -> Self { Self { v: $real(v), id: real::AtomicU32::new(0) } }
                    pub fn get_mut(&mut self) -> &mut $v { *self.id.get_mut() = 0; self.v.get_mut() }
                    pub fn into_inner(self) -> $v { self.v.into_inner() }
                    pub fn as_ptr(&self) -> *mut $v { self.v.as_ptr() }
                    fn raw(&self) -> u64 { ($to)(self.v.load(Ordering::Relaxed)) }
                    fn put(&self, x: u64) { self.v.store(($from)(x), Ordering::Relaxed) }
                    pub fn load(&self, o: Ordering) -> $v { ($from)(vrt::a_load(&self.id, || self.raw(), o)) }
                    pub fn store(&self, v: $v, o: Ordering) { vrt::a_store(&self.id, || self.raw(), ($to)(v), o, |x| self.put(x)) }
                    fn rmw(&self, o: Ordering, f: impl FnOnce($v) -> $v) -> $v {
                        match vrt::a_rmw(&self.id, || self.raw(), o, Ordering::Relaxed, false, |c| Some(($to)(f(($from)(c)))), |x| self.put(x)) { Ok(c) | Err(c) => ($from)(c) }
                    }
                    fn cas(&self, cur: $v, new: $v, ok: Ordering, no: Ordering, weak: bool) -> Result<$v, $v> {
                        let want = ($to)(cur);
                        vrt::a_rmw(&self.id, || self.raw(), ok, no, weak, |c| if c == want { Some(($to)(new)) } else { None }, |x| self.put(x)).map(|x| ($from)(x)).map_err(|x| ($from)(x))
                    }
                    pub fn swap(&self, v: $v, o: Ordering) -> $v { self.rmw(o, |_| v) }
                    pub fn compare_and_swap(&self, cur: $v, new: $v, o: Ordering) -> $v { match self.cas(cur, new, o, no_of(o), false) { Ok(x) | Err(x) => x } }
                    pub fn compare_exchange(&self, cur: $v, new: $v, ok: Ordering, no: Ordering) -> Result<$v, $v> { self.cas(cur, new, ok, no, false) }
                    pub fn compare_exchange_weak(&self, cur: $v, new: $v, ok: Ordering, no: Ordering) -> Result<$v, $v> { self.cas(cur, new, ok, no, true) }
                    pub fn fetch_update(&self, ok: Ordering, no: Ordering, mut f: impl FnMut($v) -> Option<$v>) -> Result<$v, $v> {
                        let mut prev = self.load(no);
                        while let Some(next) = f(prev) {
                            match self.compare_exchange_weak(prev, next, ok, no) { x @ Ok(_) => return x, Err(n) => prev = n }
                        }
                        Err(prev)
                    }
                    pub fn try_update(&self, ok: Ordering, no: Ordering, f: impl FnMut($v) -> Option<$v>) -> Result<$v, $v> { self.fetch_update(ok, no, f) }
                    pub fn update(&self, ok: Ordering, no: Ordering, mut f: impl FnMut($v) -> $v) -> $v {
                        match self.fetch_update(ok, no, |x| Some(f(x))) { Ok(x) | Err(x) => x }
                    }
                }
                impl $($g)* Default for $name { fn default() -> Self { Self::new($zero) } }
                impl $($g)* From<$v> for $name { fn from(v: $v) -> Self { Self::new(v) } }
                impl $($g)* fmt::Debug for $name { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&self.v, f) } }
            };
        }
        use ::core::fmt;

        macro_rules! int {
            ($name:ident, $t:ty) => {
                #[repr(C)]
                pub struct $name { v: real::$name, id: real::AtomicU32 }
                common!([] $name, real::$name::new, $t, |x: $t| x as u64, |x: u64| x as $t, 0);
                impl $name {
                    pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { self.rmw(o, |x| x.wrapping_add(v)) }
                    pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { self.rmw(o, |x| x.wrapping_sub(v)) }
                    pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { self.rmw(o, |x| x & v) }
                    pub fn fetch_nand(&self, v: $t, o: Ordering) -> $t { self.rmw(o, |x| !(x & v)) }
                    pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { self.rmw(o, |x| x | v) }
                    pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { self.rmw(o, |x| x ^ v) }
                    pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { self.rmw(o, |x| x.max(v)) }
                    pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { self.rmw(o, |x| x.min(v)) }
                }
            };
        }
        int!(AtomicUsize, usize);
        int!(AtomicIsize, isize);
        int!(AtomicU64, u64);
        int!(AtomicI64, i64);
        int!(AtomicU32, u32);
        int!(AtomicI32, i32);
        int!(AtomicU16, u16);
        int!(AtomicI16, i16);
        int!(AtomicU8, u8);
        int!(AtomicI8, i8);

        #[repr(C)]
        pub struct AtomicBool { v: real::AtomicBool, id: real::AtomicU32 }
        common!([] AtomicBool, real::AtomicBool::new, bool, |x: bool| x as u64, |x: u64| x != 0, false);
        impl AtomicBool {
            pub fn fetch_and(&self, v: bool, o: Ordering) -> bool { self.rmw(o, |x| x & v) }
            pub fn fetch_nand(&self, v: bool, o: Ordering) -> bool { self.rmw(o, |x| !(x & v)) }
            pub fn fetch_or(&self, v: bool, o: Ordering) -> bool { self.rmw(o, |x| x | v) }
            pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool { self.rmw(o, |x| x ^ v) }
            pub fn fetch_not(&self, o: Ordering) -> bool { self.rmw(o, |x| !x) }
        }

        #[repr(C)]
        pub struct AtomicPtr<T> { v: real::AtomicPtr<T>, id: real::AtomicU32 }
        common!([<T>] AtomicPtr<T>, real::AtomicPtr::new, *mut T, |x: *mut T| x as usize as u64, |x: u64| x as usize as *mut T, ::core::ptr::null_mut());
    }
}
