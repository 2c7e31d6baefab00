"""C20: generated programs and what the borrow checker says about them."""
import random

PRE = """#![allow(warnings)]
use std::borrow::{Borrow, BorrowMut};
use std::cell::Cell;
use std::convert::TryFrom;
use %s::{arc, rc, ArcSlice, ArcSliceMut, RcSlice, RcSliceMut};
#[derive(Clone)] pub struct D(u8);
impl Drop for D { fn drop(&mut self) {} }
#[derive(Clone)] pub struct Dr<'x>(&'x D);
impl<'x> Drop for Dr<'x> { fn drop(&mut self) {} }
fn use_<T: ?Sized>(_: &T) {}
pub trait Tr {}
impl<T> Tr for T {}
fn pick<'a, T: ?Sized>(a: &'a T, b: &'a T) -> &'a T { a }
"""

# item types: (type with 'x, expression from a datum)
ITEMS = {
    "ref": ("&'x D", "&{d}"),
    "dr": ("Dr<'x>", "Dr(&{d})"),
    "cell": ("Cell<&'x D>", "Cell::new(&{d})"),
    "own": ("D", "{d}.clone()"),
    "vec": ("Vec<&'x D>", "vec![&{d}]"),
    "opt": ("Option<Box<Dr<'x>>>", "Some(Box::new(Dr(&{d})))"),
    "contra": ("fn(&'x D)", "(|_: &D| ()) as fn(&D)"),
    "tup": ("(&'x D, String)", "(&{d}, String::new())"),
    "mutref": ("&'x mut D", "&mut {d}"),
}
CLONE = {"ref", "dr", "cell", "own", "vec", "opt", "contra", "tup"}
FAM = {"rc": "Rc", "arc": "Arc"}
HANDLES = ["Sh", "Wk", "Pa", "Mu", "MI", "MP"]


def ty(fam, k, t):
    F = FAM[fam]
    return {"Sh": F + "Slice<%s>", "Wk": fam + "::WeakSlice<%s>", "Pa": fam + "::" + F + "SliceParts<%s>", "Mu": F + "SliceMut<%s>",
            "MI": fam + "::" + F + "SliceMutIter<%s>", "MP": fam + "::" + F + "SliceMutParts<%s>",
            "S": "&'a [%s]", "M": "&'a mut [%s]"}[k] % t


# derivations: (from kind, to kind, expression, what it does to the source: r shared borrow, m exclusive borrow, v move)
def derivations(fam, item):
    F = FAM[fam]
    S, M = F + "Slice", F + "SliceMut"
    d = [
        ("Sh", "Sh", S + "::clone_left(&{0})", "r"), ("Sh", "Sh", S + "::clone_right(&{0})", "r"), ("Sh", "Sh", "{0}.clone()", "r"),
        ("Sh", "Sh", S + "::split_off_left(&mut {0})", "m"), ("Sh", "Sh", S + "::split_off_right(&mut {0})", "m"),
        ("Sh", "Wk", S + "::downgrade(&{0})", "r"), ("Wk", "Sh", "{0}.upgrade().unwrap()", "r"), ("Wk", "Wk", "{0}.clone()", "r"),
        ("Sh", "Pa", S + "::split_into_parts({0}, 4)", "v"), ("Pa", "Sh", "{0}.next().unwrap()", "m"), ("Pa", "Sh", "{0}.next_back().unwrap()", "m"), ("Pa", "Pa", "{0}.clone()", "r"),
        ("Pa", "S", "{0}.as_slice()", "r"),
        ("Sh", "Mu", S + "::into_mut({0}).ok().unwrap()", "v"), ("Sh", "Sh", S + "::into_mut({0}).err().unwrap()", "v"), ("Sh", "Mu", M + "::try_from({0}).ok().unwrap()", "v"),
        ("Sh", "Sh", M + "::try_from({0}).err().unwrap()", "v"),
        ("Sh", "S", "&{0}[..]", "r"), ("Sh", "S", "&*{0}", "r"), ("Sh", "S", "AsRef::<[_]>::as_ref(&{0})", "r"), ("Sh", "S", "Borrow::<[_]>::borrow(&{0})", "r"),
        ("Sh", "M", S + "::get_mut(&mut {0}).unwrap()", "m"),
        ("Mu", "Sh", M + "::into_immut({0})", "v"), ("Mu", "Sh", S + "::from({0})", "v"),
        ("Mu", "Mu", M + "::split_off_left(&mut {0})", "m"), ("Mu", "Mu", M + "::split_off_right(&mut {0})", "m"),
        ("Mu", "MP", M + "::split_into_parts({0}, 4)", "v"), ("MP", "Mu", "{0}.next().unwrap()", "m"), ("MP", "Mu", "{0}.next_back().unwrap()", "m"),
        ("MP", "S", "{0}.as_slice()", "r"), ("MP", "M", "{0}.as_mut_slice()", "m"),
        ("Mu", "MI", "{0}.into_iter()", "v"), ("MI", "MI", "{0}.split_off_from(1)", "m"), ("MI", "MI", "{0}.split_off_to(1)", "m"),
        ("MI", "S", "{0}.as_slice()", "r"), ("MI", "M", "{0}.as_mut_slice()", "m"), ("MI", "I", "{0}.next().unwrap()", "m"), ("MI", "I", "{0}.next_back().unwrap()", "m"),
        ("Mu", "S", "&{0}[..]", "r"), ("Mu", "S", "AsRef::<[_]>::as_ref(&{0})", "r"), ("Mu", "S", "Borrow::<[_]>::borrow(&{0})", "r"),
        ("Mu", "M", "&mut {0}[..]", "m"), ("Mu", "M", "AsMut::<[_]>::as_mut(&mut {0})", "m"), ("Mu", "M", "BorrowMut::<[_]>::borrow_mut(&mut {0})", "m"),
        ("S", "R", "&{0}[0]", "v"), ("Sh", "R", "&{0}[0]", "r"), ("Mu", "R", "&{0}[0]", "r"), ("Mu", "RM", "&mut {0}[0]", "m"), ("Sh", "R", "{0}.first().unwrap()", "r"),
        ("M", "RM", "&mut {0}[0]", "m"), ("M", "R", "&{0}[0]", "r"), ("M", "S", "&{0}[..]", "r"), ("M", "M", "&mut {0}[..]", "m"), ("S", "S", "&{0}[1..]", "v"),
        ("I", "Sh", S + "::from_vec(vec![{0}])", "v"), ("I", "Mu", M + "::from(vec![{0}])", "v"),
        ("Sh", "S", "&Box::leak(Box::new({0}))[..]", "v"), ("Mu", "M", "&mut Box::leak(Box::new({0}))[..]", "v"),
    ]
    if item in CLONE:
        d += [("R", "I", "Clone::clone({0})", "r"), ("Mu", "Mu", "{0}.clone()", "r"), ("Sh", "I", "Clone::clone(&{0}[0])", "r"), ("S", "I", "Clone::clone(&{0}[0])", "r"), ("MI", "I", "Clone::clone(&{0}.as_slice()[0])", "r"),
              ("Sh", "Sh", "{0}.iter().cloned().collect::<%s<_>>()" % S, "r")]
    if item in ("ref", "tup"):
        d += [("Sh", "DR", "{0}[0]%s" % ("" if item == "ref" else ".0"), "r"), ("R", "DR", "{0}%s" % ("" if item == "ref" else ".0"), "r"), ("MI", "DR", "{0}.next().unwrap()%s" % ("" if item == "ref" else ".0"), "m")]
    return d


def history(r):
    fam = r.choice(["rc", "arc"])
    item = r.choice(list(ITEMS))
    F = FAM[fam]
    S, M = F + "Slice", F + "SliceMut"
    ds = derivations(fam, item)
    lines, vs, cnt = [], [], [0]
    # v: dict name, kind, moved, deps (names it borrows from), lvl
    def new(kind, lvl, deps=()):
        cnt[0] += 1
        v = {"n": "%s%d" % (kind.lower(), cnt[0]), "k": kind, "moved": False, "deps": set(deps), "lvl": lvl, "dead": False, "pre": False}
        vs.append(v)
        return v
    lvl = 0
    tidy = r.random() < 0.75
    def visible(kind, wild):
        c = [v for v in vs if v["k"] == kind and v["lvl"] <= lvl and not v["dead"] and not v["pre"]]
        good = [v for v in c if not v["moved"]]
        if tidy or not wild:
            return good
        return c
    def closing(name):
        """every borrow that derives from name is no longer usable"""
        for v in vs:
            if name in v["deps"]:
                v["moved"] = True
    def datum():
        c = [v for v in vs if v["k"] == "D" and v["lvl"] <= lvl and not v["dead"] and not v["moved"]]
        if c and r.random() < 0.8:
            return r.choice(c)
        v = new("D", lvl)
        lines.append("let mut %s = D(1);" % v["n"])
        return v
    def make():
        d = datum()
        e = ITEMS[item][1].format(d=d["n"])
        e2 = ITEMS[item][1].format(d=datum()["n"]) if item != "mutref" else None
        vec = "vec![%s]" % ", ".join(x for x in (e, e2) if x)
        k = r.choice(["Sh", "Sh", "Mu"])
        T = S if k == "Sh" else M
        x = r.choice([T + "::from_vec({0})", T + "::from({0})", T + "::from_boxed_slice({0}.into_boxed_slice())", "{0}.into_iter().collect::<%s<_>>()" % T, T + "::from({0}.into_boxed_slice())"])
        own = item in ("own", "contra")
        return k, x.format(vec), (set() if own else {d["n"]} | d["deps"])
    def bind(kind, expr, deps):
        pre = [v for v in vs if v["pre"] and not v["dead"] and v["k"] == kind and v["lvl"] <= lvl]
        if pre and r.random() < 0.7:
            v = r.choice(pre)
            v["pre"] = False
            v["deps"] |= deps
            lines.append("%s = %s;" % (v["n"], expr))
            return
        old = [v for v in vs if v["k"] == kind and not v["pre"] and not v["dead"] and v["lvl"] <= lvl]
        if old and r.random() < 0.12:
            v = r.choice(old)
            closing(v["n"])
            v["deps"] |= deps
            v["moved"] = False
            lines.append("%s = %s;" % (v["n"], expr))
            return
        v = new(kind, lvl, deps)
        lines.append("let mut %s = %s;" % (v["n"], expr))
    n = r.randrange(3, 16)
    k, e, deps = make()
    bind(k, e, deps)
    for _ in range(n):
        w = r.random()
        if w < 0.05:
            v = new(r.choice(["Sh", "Mu", "S", "Wk", "M", "R", "MI", "Pa"]), lvl)
            v["pre"] = True
            lines.append("let mut %s;" % v["n"])
        elif w < 0.12 and lvl < 2:
            lines.append("{")
            lvl += 1
        elif w < 0.20 and lvl > 0:
            lines.append("}")
            for v in vs:
                if v["lvl"] == lvl:
                    v["dead"] = True
                    if tidy:
                        closing(v["n"])
            lvl -= 1
        elif w < 0.25:
            k, e, deps = make()
            bind(k, e, deps)
        elif w < 0.35:
            c = [v for v in vs if v["lvl"] <= lvl and not v["dead"] and not v["pre"] and not v["moved"] and v["k"] != "R"]
            if c:
                v = r.choice(c)
                lines.append("drop(%s);" % v["n"])
                if v["k"] not in ("S", "DR"):
                    v["moved"] = True
                if tidy:
                    closing(v["n"])
        elif w < 0.47:
            c = [v for v in vs if v["lvl"] <= lvl and not v["dead"] and not v["pre"] and (not v["moved"] or r.random() < 0.15)]
            if c:
                v = r.choice(c)
                lines.append("use_(&%s);" % v["n"])
        elif w < 0.52:
            a = visible("Mu", True) + visible("M", True)
            b = visible("I", True)
            if a and b:
                v, x = r.choice(a), r.choice(b)
                if tidy:
                    closing(v["n"])
                v["deps"] |= x["deps"]
                lines.append("%s[0] = %s;" % (v["n"], x["n"]))
                x["moved"] = True
            elif a and len(a) > 1:
                v, x = r.sample(a, 2)
                if tidy:
                    closing(v["n"]); closing(x["n"])
                v["deps"] |= x["deps"]
                x["deps"] |= v["deps"]
                lines.append("std::mem::swap(&mut %s[0], &mut %s[0]);" % (v["n"], x["n"]))
        elif w < 0.55:
            a = [v for k in ("Sh", "Mu", "MI", "Pa", "Wk") for v in visible(k, True)]
            if a:
                v = r.choice(a)
                c = r.randrange(4) if fam == "arc" and item != "cell" else r.randrange(2, 4)
                if c == 0:
                    lines.append("std::thread::scope(|s| { s.spawn(|| use_(&%s)); });" % v["n"])
                elif c == 1:
                    lines.append("std::thread::spawn(move || drop(%s));" % v["n"])
                    v["moved"] = True
                elif c == 2:
                    lines.append("let f = || use_(&%s); f();" % v["n"])
                else:
                    lines.append("let b: Box<dyn FnOnce()> = Box::new(move || drop(%s)); b();" % v["n"])
                    v["moved"] = True
                if tidy and c in (1, 3):
                    closing(v["n"])
        else:
            cands = [(d, v) for d in ds for v in visible(d[0], True) if v["k"] == d[0]]
            if not cands:
                continue
            # even over kinds
            to = r.choice(sorted({d[1] for d, v in cands}))
            d, v = r.choice([c for c in cands if c[0][1] == to])
            src, kind, expr, how = d
            deps = set(v["deps"])
            if kind in ("S", "M", "R", "RM") and how in ("r", "m"):
                deps = deps | {v["n"]}
            if tidy and how in ("m", "v") and src not in ("S",):
                for o in vs:
                    if v["n"] in o["deps"]:
                        o["moved"] = True
            bind(kind, expr.format(v["n"]), deps)
            if how == "v" and src not in ("S",):
                v["moved"] = True
    while lvl > 0 and r.random() < 0.95:
        lines.append("}")
        for v in vs:
            if v["lvl"] == lvl:
                v["dead"] = True
                if tidy:
                    closing(v["n"])
        lvl -= 1
    lines += ["}"] * lvl
    # uses at the end keep some borrows alive
    for v in vs:
        if not v["dead"] and v["lvl"] == 0 and not v["pre"] and (not v["moved"] or (not tidy and r.random() < 0.1)) and r.random() < 0.25:
            lines.append("use_(&%s);" % v["n"])
    never = {"let mut %s;" % v["n"] for v in vs if v["pre"]}
    return [l for l in lines if l not in never]


def templates():
    """Signatures, exhaustively: lines of one function each, with {f} for its name."""
    out = []
    for fam in FAM:
        F = FAM[fam]
        for item in ITEMS:
            tx = ITEMS[item][0]
            for k in HANDLES:
                # variance, both ways
                l, s = ty(fam, k, tx.replace("'x", "'l")), ty(fam, k, tx.replace("'x", "'s"))
                out.append("fn {f}<'s, 'l: 's>(x: %s) -> %s { x }" % (l, s))
                out.append("fn {f}<'s, 'l: 's>(x: %s) -> %s { x }" % (s, l))
                out.append("fn {f}<'s, 'l: 's>(x: &'s %s) -> &'s %s { x }" % (l, s))
                out.append("fn {f}<'s, 'l: 's>(x: &'s mut %s) -> &'s mut %s { x }" % (l, s))
                out.append("fn {f}<'x>(x: %s) -> Box<dyn std::any::Any> { Box::new(x) }" % ty(fam, k, tx))
                out.append("fn {f}<'x>(x: %s) -> Box<dyn Tr + 'x> { Box::new(x) }" % ty(fam, k, tx))
            for frm, to, e, how in derivations(fam, item):
                if frm not in HANDLES:
                    continue
                h = ty(fam, frm, tx)
                if to in ("S", "M", "R", "RM"):
                    if "leak" in e:
                        continue
                    res = {"S": "&'%s [%s]", "M": "&'%s mut [%s]", "R": "&'%s %s", "RM": "&'%s mut %s"}[to]
                    ex = e.format("h").replace("&mut h)", "h)").replace("(&h)", "(h)") if e.endswith(")") or ")." in e else e.format("h")
                    # lives as long as the borrow of the handle, not longer, and not by value
                    out.append("fn {f}<'a, 'x>(h: &'a mut %s) -> %s { %s }" % (h, res % ("a", tx), ex))
                    out.append("fn {f}<'a, 'b, 'x>(h: &'a mut %s) -> %s where %s { %s }" % (h, res % ("b", tx), "'x: 'b", ex))
                    out.append("fn {f}<'x>(mut h: %s) -> %s where { %s }" % (h, res % ("static", tx), e.format("h")))
                    if to in ("S", "R"):
                        out.append("fn {f}<'a, 'x>(h: &'a %s) -> %s { %s }" % (h, res % ("a", tx), ex))
                        out.append("fn {f}<'a, 'b, 'x>(h: &'a %s) -> %s where 'x: 'b { %s }" % (h, res % ("b", tx), ex))
                        out.append("fn {f}<'x>(mut h: %s) { let a = %s; let b = %s; use_(&a); use_(&b); }" % (h, e.format("h"), e.format("h")))
                    else:
                        out.append("fn {f}<'a, 'x>(h: &'a %s) -> %s { %s }" % (h, res % ("a", tx), ex))
                    for e2 in [x[2] for x in derivations(fam, item) if x[0] == frm and x[1] in HANDLES + ["S", "M", "R", "RM", "I"] and "leak" not in x[2]]:
                        out.append("fn {f}<'x>(mut h: %s) { let a = %s; let b = %s; use_(&b); use_(&a); }" % (h, e.format("h"), e2.format("h")))
                    out.append("fn {f}<'x>(mut h: %s) { let a = %s; drop(h); use_(&a); }" % (h, e.format("h")))
                elif to in HANDLES:
                    out.append("fn {f}<'x>(mut h: %s) -> %s { %s }" % (h, ty(fam, to, tx), e.format("h")))
                    out.append("fn {f}<'x, 'y>(mut h: %s) -> %s { %s }" % (h, ty(fam, to, tx.replace("'x", "'y")), e.format("h")))
                    out.append("fn {f}<'x>(mut h: %s) { let a = %s; use_(&h); use_(&a); }" % (h, e.format("h")))
                elif to == "I":
                    out.append("fn {f}<'x>(mut h: %s) -> %s { %s }" % (h, tx, e.format("h")))
                    out.append("fn {f}<'x>(mut h: %s) -> %s { %s }" % (h, tx.replace("'x", "'static"), e.format("h")))
    return out


BORROWCK = {"E0381", "E0382", "E0384", "E0499", "E0502", "E0503", "E0505", "E0506", "E0507", "E0508", "E0509", "E0515", "E0521", "E0594", "E0596", "E0597", "E0621", "E0626", "E0700", "E0712",
            "E0713", "E0716", "E0309", "E0310", "E0311", "E0373", "E0478", "E0491", "E0495", "E0623", "E0759", "E0767", None}
