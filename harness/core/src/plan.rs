//! What is generated for which property, and which generated cases count as non-trivial.
use crate::run::{p, St, NST};
use St::*;

pub struct Plan {
    pub prop: &'static str,
    pub mask: u32,
    /// (profile, weight)
    pub profiles: &'static [(u8, u32)],
    pub kinds: &'static [u8],
    pub quick: u32,
    pub rule: &'static str,
    pub nontrivial: fn(&[u32; NST]) -> bool,
}
fn g(s: &[u32; NST], x: St) -> bool { s[x as usize] > 0 }
const BASE: u8 = 0; const SHARED: u8 = 1; const LIFE: u8 = 2; const CONV: u8 = 3; const EXCL: u8 = 4; const PARTS: u8 = 5; const ITER: u8 = 6; const PANIC: u8 = 7; const WEAK: u8 = 8;
const ANY: &[u8] = &[0, 0, 1, 2, 3, 4, 5, 0, 1, 6, 7, 8, 9, 10];
const SIZED: &[u8] = &[0, 0, 1, 2, 3, 4, 5, 9, 10];
const DROPS: &[u8] = &[0, 0, 1, 2, 3, 6, 10];

pub const PLANS: &[Plan] = &[
    Plan { prop: "C01", mask: p(1), profiles: &[(BASE, 3), (SHARED, 2), (LIFE, 3), (CONV, 2), (PARTS, 2)], kinds: ANY, quick: 1_200_000,
        rule: "the history derives a sub-slice and drops or converts a handle while another one overlaps it",
        nontrivial: |s| g(s, derive) && (g(s, drop_with_overlap) || g(s, intomut_ok_after_derive)) },
    Plan { prop: "C02", mask: p(2), profiles: &[(LIFE, 5), (BASE, 2), (SHARED, 2), (CONV, 2), (ITER, 1), (PARTS, 1)], kinds: DROPS, quick: 1_200_000,
        rule: "dropping a shared handle destroys some items of its range while others survive through another handle, or an owning iterator is dropped early",
        nontrivial: |s| g(s, partial_destroy) || g(s, iter_early_drop) },
    Plan { prop: "C03", mask: p(3), profiles: &[(LIFE, 5), (BASE, 3), (CONV, 2), (SHARED, 2), (EXCL, 1), (ITER, 1)], kinds: SIZED, quick: 1_200_000,
        rule: "a buffer with several overlapping handles is released during the history, before the final clean-up, or a balanced operation is repeated",
        nontrivial: |s| (g(s, buffer_freed) && (g(s, drop_with_overlap) || g(s, excl_split))) || g(s, repeat) },
    Plan { prop: "C04", mask: p(4), profiles: &[(SHARED, 6), (WEAK, 2), (BASE, 2), (CONV, 1), (PARTS, 1)], kinds: ANY, quick: 1_200_000,
        rule: "get_mut is called where it must be refused (a strong or an upgradable weak handle reaches the items), or is granted while the tree has other handles",
        nontrivial: |s| g(s, getmut_refused_strong) || g(s, getmut_refused_weak) || g(s, getmut_ok_with_relatives) },
    Plan { prop: "C05", mask: p(5), profiles: &[(CONV, 4), (SHARED, 4), (WEAK, 2), (BASE, 2), (PARTS, 1)], kinds: ANY, quick: 1_200_000,
        rule: "into_mut is called where it must be refused, or succeeds on a slice with weak handles",
        nontrivial: |s| g(s, intomut_refused) || g(s, intomut_ok_with_weak) },
    Plan { prop: "C06", mask: p(6), profiles: &[(SHARED, 5), (CONV, 3), (BASE, 2), (PARTS, 2)], kinds: ANY, quick: 1_200_000,
        rule: "get_mut is granted while the tree has other handles, or into_mut succeeds on a slice that had been derived from",
        nontrivial: |s| g(s, getmut_ok_with_relatives) || g(s, intomut_ok_after_derive) },
    Plan { prop: "C07", mask: p(7), profiles: &[(WEAK, 8), (SHARED, 3), (BASE, 1), (CONV, 2), (LIFE, 1)], kinds: ANY, quick: 1_200_000,
        rule: "the history has both upgrades that must succeed and upgrades that must fail, or an upgrade after conversion to exclusive",
        nontrivial: |s| (g(s, upgrade_ok) && g(s, upgrade_none)) || g(s, upgrade_killed) },
    Plan { prop: "C08", mask: p(8), profiles: &[(CONV, 8), (BASE, 1)], kinds: ANY, quick: 1_200_000,
        rule: "a sub-slice is converted back and forth (converted again after it had been made shared), or converted after derivation",
        nontrivial: |s| g(s, reconverted) || (g(s, to_shared) && g(s, intomut_ok_after_derive)) },
    Plan { prop: "C09", mask: p(9), profiles: &[(EXCL, 8), (CONV, 2), (ITER, 1), (PARTS, 1)], kinds: ANY, quick: 1_200_000,
        rule: "an exclusive handle is split and at least one write goes through a part, or it is cloned",
        nontrivial: |s| (g(s, excl_split) && g(s, excl_write)) || g(s, excl_clone) },
    Plan { prop: "C10", mask: p(10), profiles: &[(PARTS, 1)], kinds: ANY, quick: 1_200_000,
        rule: "a parts iterator is consumed from both ends, cloned, dropped early, or asked for more parts than there are items",
        nontrivial: |s| g(s, parts_both_ends) || g(s, parts_clone) || g(s, parts_surplus) || g(s, parts_early_drop) },
    Plan { prop: "C11", mask: p(11), profiles: &[(ITER, 8), (EXCL, 1)], kinds: ANY, quick: 1_200_000,
        rule: "an owning iterator is split, consumed from both ends, or dropped with items left",
        nontrivial: |s| g(s, iter_split) || (g(s, iter_front) && g(s, iter_back)) || g(s, iter_early_drop) },
    Plan { prop: "C12", mask: p(12), profiles: &[(100, 10), (BASE, 1), (EXCL, 1)], kinds: ANY, quick: 1_200_000,
        rule: "two handles on sub-slices of generated contents of more than one item are compared (or a history constructs a slice)", nontrivial: |s| g(s, new_slice) },
    Plan { prop: "C13", mask: p(13), profiles: &[(BASE, 3), (SHARED, 2), (LIFE, 3), (CONV, 3), (EXCL, 2), (PARTS, 4), (ITER, 2), (101, 18)], kinds: &[6, 6, 7, 8], quick: 1_200_000,
        rule: "a non-empty slice is split into parts or an iterator is split, with boundary lengths or part counts, or zero sized items are split, derived or iterated",
        nontrivial: |s| g(s, derive) || g(s, excl_split) || g(s, parts_made) || g(s, iter_split) },
    Plan { prop: "C17", mask: p(17), profiles: &[(BASE, 2), (SHARED, 4), (WEAK, 4), (CONV, 3), (LIFE, 2), (PARTS, 2), (ITER, 1), (PANIC, 2)], kinds: ANY, quick: 1_000_000,
        rule: "the history has failed or granted get_mut or into_mut calls or downgrades before further calls on the same tree",
        nontrivial: |s| g(s, getmut_refused_strong) || g(s, getmut_refused_weak) || g(s, intomut_refused) || g(s, getmut_ok_with_relatives) },
    Plan { prop: "C18", mask: p(18), profiles: &[(PANIC, 1)], kinds: &[0, 0, 1, 2, 3], quick: 1_200_000,
        rule: "an armed panic fired in a destructor, a clone or a source iterator, or a documented panic was provoked",
        nontrivial: |s| g(s, armed_fired) || g(s, bad_call) },
    Plan { prop: "C21", mask: p(21), profiles: &[(BASE, 4), (SHARED, 2), (WEAK, 2), (LIFE, 3), (CONV, 3), (EXCL, 2), (PARTS, 2), (ITER, 2), (PANIC, 2), (100, 1), (101, 1), (102, 3)], kinds: ANY, quick: 1_000_000,
        rule: "the history derives, splits, converts or iterates at least once",
        nontrivial: |s| g(s, derive) || g(s, excl_split) || g(s, intomut_ok) || g(s, parts_made) || g(s, iter_split) },
    Plan { prop: "C23", mask: p(23), profiles: &[(102, 1)], kinds: &[0], quick: 1_200_000,
        rule: "user code run by the library (a destructor, clone, comparison, Debug or source iterator) made at least one call on a handle", nontrivial: |_| false },
    Plan { prop: "C24", mask: p(24), profiles: &[(103, 1)], kinds: &[0, 1, 2, 3, 4, 5], quick: 1_000_000,
        rule: "at least four calls that derive, split, convert, upgrade or iterate were made on both slices and compared", nontrivial: |_| false },
];
pub fn plan(prop: &str) -> Option<&'static Plan> { PLANS.iter().find(|x| x.prop == prop) }
