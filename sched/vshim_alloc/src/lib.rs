//! Stand-in for `alloc`: everything is the real thing, except `sync::{Arc, Weak}`, which follow
//! the standard algorithms and orderings on top of the instrumented atomics.
#![no_std]
extern crate alloc as real;
pub use real::*;

pub mod sync {
    pub use real::sync::*;
    use core::{borrow, fmt, hash, marker::PhantomData, mem::{self, ManuallyDrop}, ops::Deref, panic, ptr::{self, NonNull}};
    use core::sync::atomic::Ordering::{Acquire, Relaxed, Release};
    use core::cell::Cell;
    use real::alloc::Layout;
    use vrt::{Class, Meta};
    use vshim_core::sync::atomic::{fence, AtomicUsize};

    const LIVE: u64 = 0x4C49_5645_4172_6321;
    const FREED: u64 = 0xDEAD_F1EE_DEAD_F1EE;

    #[repr(C)]
    pub struct Inner<T> {
        magic: Cell<u64>,
        strong: AtomicUsize,
        weak: AtomicUsize,
        dropped: Cell<bool>,
        data_meta: Meta,
        data: ManuallyDrop<T>,
    }

    pub struct Arc<T> {
        ptr: NonNull<Inner<T>>,
        meta: Meta,
        phantom: PhantomData<Inner<T>>,
        own: PhantomData<T>,
    }

    pub struct Weak<T> {
        ptr: NonNull<Inner<T>>,
        meta: Meta,
    }

    unsafe impl<T: Send + Sync> Send for Arc<T> {}
    unsafe impl<T: Send + Sync> Sync for Arc<T> {}
    unsafe impl<T: Send + Sync> Send for Weak<T> {}
    unsafe impl<T: Send + Sync> Sync for Weak<T> {}
    impl<T: panic::RefUnwindSafe> panic::UnwindSafe for Arc<T> {}
    impl<T: panic::RefUnwindSafe> panic::RefUnwindSafe for Arc<T> {}
    impl<T> Unpin for Arc<T> {}
    impl<T> Unpin for Weak<T> {}

    fn live<T>(p: NonNull<Inner<T>>) -> *mut Inner<T> {
        let p = p.as_ptr();
        if unsafe { (*p).magic.get() } != LIVE {
            let w = if unsafe { (*p).magic.get() } == FREED { "used after it was freed" } else { "does not exist" };
            vrt::fail(Class::Safety, real::format!("a reference count that {} is accessed", w));
        }
        p
    }

    fn dangling<T>(p: NonNull<Inner<T>>) -> bool {
        p.as_ptr() as usize == usize::MAX
    }

    fn offset<T>() -> usize {
        mem::offset_of!(Inner<T>, data)
    }

    unsafe fn release<T>(p: *mut Inner<T>) {
        (*p).magic.set(FREED);
        if let Some(r) = vrt::rt() {
            r.arcs_live -= 1;
        }
        vrt::quarantine(p as *mut u8, Layout::new::<Inner<T>>());
    }

    impl<T> Arc<T> {
        pub fn new(data: T) -> Self {
            if let Some(r) = vrt::rt() {
                r.arcs_live += 1;
            }
            let b = real::boxed::Box::new(Inner { magic: Cell::new(LIVE), strong: AtomicUsize::new(1), weak: AtomicUsize::new(1), dropped: Cell::new(false), data_meta: Meta::new(), data: ManuallyDrop::new(data) });
            Self::of(unsafe { NonNull::new_unchecked(real::boxed::Box::into_raw(b)) })
        }

        pub fn new_cyclic(f: impl FnOnce(&Weak<T>) -> T) -> Self {
            if let Some(r) = vrt::rt() {
                r.arcs_live += 1;
            }
            unsafe {
                let p = real::alloc::alloc(Layout::new::<Inner<T>>()) as *mut Inner<T>;
                ptr::write(&raw mut (*p).magic, Cell::new(LIVE));
                ptr::write(&raw mut (*p).strong, AtomicUsize::new(0));
                ptr::write(&raw mut (*p).weak, AtomicUsize::new(1));
                ptr::write(&raw mut (*p).dropped, Cell::new(true));
                ptr::write(&raw mut (*p).data_meta, Meta::new());
                let w = Weak { ptr: NonNull::new_unchecked(p), meta: Meta::new() };
                let d = f(&w);
                ptr::write(&raw mut (*p).data, ManuallyDrop::new(d));
                (*p).dropped.set(false);
                (*p).strong.fetch_add(1, Release);
                let a = Self::of(w.ptr);
                mem::forget(w);
                a
            }
        }

        fn of(ptr: NonNull<Inner<T>>) -> Self {
            Arc { ptr, meta: Meta::new(), phantom: PhantomData, own: PhantomData }
        }

        fn inner(&self) -> &Inner<T> {
            self.meta.read("an Arc");
            unsafe { &*live(self.ptr) }
        }

        pub fn pin(data: T) -> core::pin::Pin<Self> {
            unsafe { core::pin::Pin::new_unchecked(Self::new(data)) }
        }

        pub fn as_ptr(this: &Self) -> *const T {
            (this.ptr.as_ptr() as *const u8).wrapping_add(offset::<T>()) as *const T
        }

        pub fn into_raw(this: Self) -> *const T {
            let p = Self::as_ptr(&this);
            mem::forget(this);
            p
        }

        pub unsafe fn from_raw(p: *const T) -> Self {
            let i = (p as *mut u8).wrapping_sub(offset::<T>()) as *mut Inner<T>;
            let p = NonNull::new(i).expect("a null Arc");
            // the counts live in memory that another thread may have set up
            (*live(p)).data_meta_seen();
            Self::of(p)
        }

        pub unsafe fn increment_strong_count(p: *const T) {
            let a = ManuallyDrop::new(Self::from_raw(p));
            mem::forget((*a).clone());
        }

        pub unsafe fn decrement_strong_count(p: *const T) {
            drop(Self::from_raw(p));
        }

        pub fn downgrade(this: &Self) -> Weak<T> {
            let i = this.inner();
            let mut cur = i.weak.load(Relaxed);
            loop {
                if cur == usize::MAX {
                    vrt::spin_hint();
                    cur = i.weak.load(Relaxed);
                    continue;
                }
                match i.weak.compare_exchange_weak(cur, cur + 1, Acquire, Relaxed) {
                    Ok(_) => return Weak { ptr: this.ptr, meta: Meta::new() },
                    Err(c) => cur = c,
                }
            }
        }

        pub fn weak_count(this: &Self) -> usize {
            let c = this.inner().weak.load(Relaxed);
            if c == usize::MAX { 0 } else { c - 1 }
        }

        pub fn strong_count(this: &Self) -> usize {
            this.inner().strong.load(Relaxed)
        }

        pub fn ptr_eq(a: &Self, b: &Self) -> bool {
            a.ptr == b.ptr
        }

        pub fn try_unwrap(this: Self) -> Result<T, Self> {
            let i = this.inner();
            if i.strong.compare_exchange(1, 0, Relaxed, Relaxed).is_err() {
                return Err(this);
            }
            i.strong.load(Acquire);
            Ok(Self::take(this))
        }

        fn take(this: Self) -> T {
            unsafe {
                let p = live(this.ptr);
                (*p).data_meta.write("a bookkeeping object");
                let d = ptr::read(&raw const (*p).data);
                (*p).dropped.set(true);
                let _weak = Weak { ptr: this.ptr, meta: Meta::new() };
                mem::forget(this);
                ManuallyDrop::into_inner(d)
            }
        }

        pub fn into_inner(this: Self) -> Option<T> {
            let this = ManuallyDrop::new(this);
            this.meta.write("an Arc");
            let i = this.inner();
            if i.strong.fetch_sub(1, Release) != 1 {
                return None;
            }
            i.strong.load(Acquire);
            Some(Self::take(ManuallyDrop::into_inner(this)))
        }

        pub fn unwrap_or_clone(this: Self) -> T where T: Clone {
            Self::try_unwrap(this).unwrap_or_else(|a| (*a).clone())
        }

        fn is_unique(&mut self) -> bool {
            let i = self.inner();
            if i.weak.compare_exchange(1, usize::MAX, Acquire, Relaxed).is_ok() {
                let u = i.strong.load(Acquire) == 1;
                i.weak.store(1, Release);
                u
            } else {
                false
            }
        }

        pub fn get_mut(this: &mut Self) -> Option<&mut T> {
            if this.is_unique() { Some(unsafe { &mut (*live(this.ptr)).data }) } else { None }
        }

        pub fn make_mut(this: &mut Self) -> &mut T where T: Clone {
            if !this.is_unique() {
                *this = Arc::new((**this).clone());
            }
            unsafe { &mut (*live(this.ptr)).data }
        }

        unsafe fn drop_slow(p: NonNull<Inner<T>>) {
            let i = live(p);
            (*i).data_meta.write("a bookkeeping object");
            (*i).dropped.set(true);
            let _weak = Weak { ptr: p, meta: Meta::new() };
            ManuallyDrop::drop(&mut (*i).data);
        }
    }

    impl<T> Inner<T> {
        /// Touching the counts needs the object's creation to be ordered before, but is atomic.
        fn data_meta_seen(&self) {
            self.data_meta.seen("a bookkeeping object");
        }
    }

    impl<T> Deref for Arc<T> {
        type Target = T;
        fn deref(&self) -> &T {
            let i = self.inner();
            if i.dropped.get() {
                vrt::fail(Class::Safety, real::format!("bookkeeping is read after it was destroyed"));
            }
            i.data_meta.read("a bookkeeping object");
            &i.data
        }
    }

    impl<T> Clone for Arc<T> {
        fn clone(&self) -> Self {
            let i = self.inner();
            i.data_meta_seen();
            if i.strong.fetch_add(1, Relaxed) == 0 {
                vrt::fail(Class::Safety, real::format!("a reference is made from a destroyed object"));
            }
            Self::of(self.ptr)
        }
    }

    impl<T> Drop for Arc<T> {
        fn drop(&mut self) {
            self.meta.write("an Arc");
            unsafe {
                let i = live(self.ptr);
                let old = (*i).strong.fetch_sub(1, Release);
                if old == 0 {
                    vrt::fail(Class::Safety, real::format!("a reference count is decremented below zero"));
                }
                if old != 1 {
                    return;
                }
                (*i).strong.load(Acquire);
                Self::drop_slow(self.ptr);
            }
        }
    }

    impl<T> Weak<T> {
        const fn dangling() -> NonNull<Inner<T>> {
            unsafe { NonNull::new_unchecked(ptr::without_provenance_mut(usize::MAX)) }
        }

        pub fn new() -> Self {
            Weak { ptr: Self::dangling(), meta: Meta::new() }
        }

        pub fn as_ptr(&self) -> *const T {
            (self.ptr.as_ptr() as *const u8).wrapping_add(offset::<T>()) as *const T
        }

        pub fn into_raw(self) -> *const T {
            let p = self.as_ptr();
            mem::forget(self);
            p
        }

        pub unsafe fn from_raw(p: *const T) -> Self {
            let i = (p as *mut u8).wrapping_sub(offset::<T>()) as *mut Inner<T>;
            Weak { ptr: NonNull::new_unchecked(i), meta: Meta::new() }
        }

        fn inner(&self) -> Option<&Inner<T>> {
            self.meta.read("a Weak");
            if dangling(self.ptr) { None } else { Some(unsafe { &*live(self.ptr) }) }
        }

        pub fn upgrade(&self) -> Option<Arc<T>> {
            let i = self.inner()?;
            let mut n = i.strong.load(Relaxed);
            loop {
                if n == 0 {
                    return None;
                }
                match i.strong.compare_exchange_weak(n, n + 1, Acquire, Relaxed) {
                    Ok(_) => return Some(Arc::of(self.ptr)),
                    Err(x) => n = x,
                }
            }
        }

        pub fn strong_count(&self) -> usize {
            self.inner().map_or(0, |i| i.strong.load(Relaxed))
        }

        pub fn weak_count(&self) -> usize {
            match self.inner() {
                None => 0,
                Some(i) => {
                    let w = i.weak.load(Acquire);
                    let s = i.strong.load(Relaxed);
                    if s == 0 { 0 } else { w - 1 }
                }
            }
        }

        pub fn ptr_eq(&self, o: &Self) -> bool {
            self.ptr == o.ptr
        }
    }

    impl<T> Clone for Weak<T> {
        fn clone(&self) -> Self {
            if let Some(i) = self.inner() {
                i.weak.fetch_add(1, Relaxed);
            }
            Weak { ptr: self.ptr, meta: Meta::new() }
        }
    }

    impl<T> Drop for Weak<T> {
        fn drop(&mut self) {
            self.meta.write("a Weak");
            if dangling(self.ptr) {
                return;
            }
            unsafe {
                let i = live(self.ptr);
                let old = (*i).weak.fetch_sub(1, Release);
                if old == 0 {
                    vrt::fail(Class::Safety, real::format!("a weak count is decremented below zero"));
                }
                if old == 1 {
                    fence(Acquire);
                    if !(*i).dropped.get() {
                        vrt::fail(Class::Safety, real::format!("bookkeeping is freed before it is destroyed"));
                    }
                    release(i);
                }
            }
        }
    }

    impl<T> Default for Weak<T> { fn default() -> Self { Self::new() } }
    impl<T: Default> Default for Arc<T> { fn default() -> Self { Self::new(T::default()) } }
    impl<T> From<T> for Arc<T> { fn from(t: T) -> Self { Self::new(t) } }
    impl<T: fmt::Debug> fmt::Debug for Arc<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }
    impl<T> fmt::Debug for Weak<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("(Weak)") } }
    impl<T: PartialEq> PartialEq for Arc<T> { fn eq(&self, o: &Self) -> bool { **self == **o } }
    impl<T: Eq> Eq for Arc<T> {}
    impl<T: hash::Hash> hash::Hash for Arc<T> { fn hash<H: hash::Hasher>(&self, h: &mut H) { (**self).hash(h) } }
    impl<T> AsRef<T> for Arc<T> { fn as_ref(&self) -> &T { self } }
    impl<T> borrow::Borrow<T> for Arc<T> { fn borrow(&self) -> &T { self } }
}
