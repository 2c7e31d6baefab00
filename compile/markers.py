"""C19: Send and Sync of every handle over generated item types, against the standard counterparts."""
import random

HANDLES = [  # handle, counterpart
    ("rc_slice::ArcSlice<{0}>", "std::sync::Arc<[{0}]>"),
    ("rc_slice::arc::WeakSlice<{0}>", "std::sync::Weak<[{0}]>"),
    ("rc_slice::arc::ArcSliceParts<{0}>", "std::vec::IntoIter<std::sync::Arc<[{0}]>>"),
    ("rc_slice::ArcSliceMut<{0}>", "Vec<{0}>"),
    ("rc_slice::arc::ArcSliceMutIter<{0}>", "std::vec::IntoIter<{0}>"),
    ("rc_slice::arc::ArcSliceMutParts<{0}>", "std::vec::IntoIter<Vec<{0}>>"),
    ("rc_slice::RcSlice<{0}>", "std::rc::Rc<[{0}]>"),
    ("rc_slice::rc::WeakSlice<{0}>", "std::rc::Weak<[{0}]>"),
    ("rc_slice::rc::RcSliceParts<{0}>", "std::vec::IntoIter<std::rc::Rc<[{0}]>>"),
    ("rc_slice::RcSliceMut<{0}>", "std::rc::Rc<[{0}]>"),
    ("rc_slice::rc::RcSliceMutIter<{0}>", "std::vec::IntoIter<std::rc::Rc<[{0}]>>"),
    ("rc_slice::rc::RcSliceMutParts<{0}>", "std::vec::IntoIter<std::rc::Rc<[{0}]>>"),
]

LEAVES = ["u8", "()", "String", "Yes", "OnlySend", "OnlySync", "Neither", "std::cell::Cell<u8>", "std::rc::Rc<u8>", "*const u8", "*mut u8", "&'static str",
          "std::sync::MutexGuard<'static, u8>", "std::sync::mpsc::Receiver<u8>", "std::convert::Infallible", "Box<dyn Fn()>", "Box<dyn Fn() + Send>",
          "Box<dyn Fn() + Sync>", "Box<dyn Fn() + Send + Sync>", "std::thread::Thread", "std::cell::UnsafeCell<u8>", "std::ptr::NonNull<u8>", "std::rc::Weak<u8>",
          "[u8; 0]", "u64", "bool", "std::cell::OnceCell<u8>", "std::sync::OnceLock<u8>", "std::num::NonZeroU8", "std::marker::PhantomData<*mut u8>"]
COMP = ["Vec<{0}>", "Box<{0}>", "Option<{0}>", "({0}, {1})", "[{0}; 2]", "&'static {0}", "&'static mut {0}", "std::sync::Arc<{0}>", "std::rc::Rc<{0}>", "std::cell::Cell<{0}>",
        "std::cell::RefCell<{0}>", "std::sync::Mutex<{0}>", "std::sync::RwLock<{0}>", "std::marker::PhantomData<{0}>", "fn({0}) -> {1}", "Wrap<{0}>", "Dropping<{0}>",
        "std::sync::Weak<{0}>", "std::mem::ManuallyDrop<{0}>", "Result<{0}, {1}>", "std::sync::mpsc::Sender<{0}>", "*const {0}", "[{0}; 0]", "std::mem::MaybeUninit<{0}>"]
SELF = [h for h, _ in HANDLES]

PRE = """#![allow(dead_code, unused)]
use std::marker::PhantomData;
pub struct Yes;
pub struct OnlySend(PhantomData<*mut u8>);
unsafe impl Send for OnlySend {}
pub struct OnlySync(PhantomData<*mut u8>);
unsafe impl Sync for OnlySync {}
pub struct Neither(PhantomData<*mut u8>);
pub struct Wrap<T>(T);
pub struct Dropping<T>(T);
impl<T> Drop for Dropping<T> { fn drop(&mut self) {} }
"""


def size(t):
    return t.count("<") + t.count("(") + t.count("[") + t.count("&") + t.count(",") * 2 + len(t) / 1000


def term(r, depth, leaves):
    if depth == 0 or r.random() < 0.25:
        return r.choice(leaves)
    c = r.choice(COMP) if r.random() < 0.8 else r.choice(SELF)
    return c.format(term(r, depth - 1, leaves), term(r, r.randrange(depth), leaves))


def concrete(seed, n):
    r = random.Random(seed * 7919 + 19)
    ts = list(LEAVES)
    for c in COMP + SELF:
        for l in ["Yes", "OnlySend", "OnlySync", "Neither"]:
            ts.append(c.format(l, "Yes"))
    seen = set(ts)
    while len(ts) < n:
        t = term(r, r.choice([1, 2, 2, 3, 4]), LEAVES)
        if t not in seen and len(t) < 400:
            seen.add(t)
            ts.append(t)
    return ts


def probe_source(ts):
    """A program that prints "index handle trait got expected item-send item-sync" for every difference."""
    s = PRE + """
struct P<T: ?Sized>(PhantomData<T>);
trait No { const S: bool = false; const Y: bool = false; }
impl<T: ?Sized> No for P<T> {}
impl<T: ?Sized + Send> P<T> { const S: bool = true; }
impl<T: ?Sized + Sync> P<T> { const Y: bool = true; }
fn see(i: usize, h: usize, got: (bool, bool), want: (bool, bool)) {
    if got.0 != want.0 { println!("DIFF {} {} Send {} {}", i, h, got.0, want.0); }
    if got.1 != want.1 { println!("DIFF {} {} Sync {} {}", i, h, got.1, want.1); }
}
"""
    for i, t in enumerate(ts):
        s += "fn t%d() {\n println!(\"ITEM %d {} {}\", <P<%s>>::S, <P<%s>>::Y);\n" % (i, i, t, t)
        for h, (a, b) in enumerate(HANDLES):
            x, y = a.format(t), b.format(t)
            s += " see(%d, %d, (<P<%s>>::S, <P<%s>>::Y), (<P<%s>>::S, <P<%s>>::Y));\n" % (i, h, x, x, y, y)
        s += "}\n"
    return s + "fn main() { " + " ".join("t%d();" % i for i in range(len(ts))) + " }\n"


CTX = ["<T>", "<T: Send>", "<T: Sync>", "<T: Send + Sync>", "<'a, T: Send + Sync + 'a>", "<'a, T: Send + 'a>", "<'a, T: Sync + 'a>", "<'a, T>", "<'a>", "<'a, T: Copy + Send + Sync>", "<T: 'static + Send + Sync>", "<T: Clone + Send>"]


def generic(seed, n):
    """[(context, item type, handle index, trait)]"""
    r = random.Random(seed * 7919 + 20)
    out = []
    for c in CTX:
        t0 = ["&'a u8"] if c == "<'a>" else ["T"]
        if "'a" in c and "T" in c:
            t0 += ["&'a T", "&'a mut T"]
        for t in t0:
            for h in range(len(HANDLES)):
                for tr in ("Send", "Sync"):
                    out.append((c, t, h, tr))
    while len(out) < n:
        c = r.choice(CTX)
        l = ["&'a u8", "std::cell::Cell<&'a u8>", "&'a std::cell::Cell<u8>", "&'a mut u8", "Box<dyn Fn() + Send + 'a>"] if "'a" in c else []
        if "T" in c:
            l = l + ["T"] * 4 + (["&'a T", "&'a mut T"] if "'a" in c else [])
        l += ["u8"]
        t = term(r, r.choice([0, 1, 1, 2, 3]), l)
        if "&'static" in t or "<'static" in t:
            continue
        if len(t) < 300:
            out.append((c, t, r.randrange(len(HANDLES)), r.choice(["Send", "Sync"])))
    return out


def generic_source(cs, which):
    """One function per line after the preamble. which: 0 handle, 1 counterpart"""
    s = PRE + "fn need_send<X: Send>() {}\nfn need_sync<X: Sync>() {}\n"
    first = s.count("\n") + 1
    for i, (c, t, h, tr) in enumerate(cs):
        s += "fn g%d%s() { need_%s::<%s>() }\n" % (i, c, tr.lower(), HANDLES[h][which].format(t))
    return s, first
