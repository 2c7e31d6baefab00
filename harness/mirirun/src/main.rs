//! E2: replays recorded calls ("C <idx> <case>" then "L <call>" lines) under Miri, touching both ends of every handle after each.
use rcv_core::ledger;
use rcv_core::machine::{build, install_hook, Low, Machine, Out, View, LAST_PANIC};
use rcv_core::run::{run_case, Case, Cfg};
use std::io::Read;
use std::panic::{catch_unwind, AssertUnwindSafe};
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut f = std::fs::File::open(&a[1]).unwrap();
    install_hook();
    let mut m: Option<Box<dyn Machine>> = None;
    let (mut out, mut view) = (Out::default(), View { quick: true, ..View::default() });
    let (mut idx, mut cases, mut abandoned) = (0, 0, 0);
    loop {
        let mut h = [0u8; 16];
        if f.read_exact(&mut h).is_err() { break }
        let (k, n) = (h[0], u64::from_le_bytes([h[8], h[9], h[10], h[11], h[12], h[13], h[14], h[15]]) as usize);
        let mut b = vec![0u8; n * 8];
        f.read_exact(&mut b).unwrap();
        let mut v = Vec::with_capacity(n);
        for c in b.chunks_exact(8) { v.push(u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]])) }
        if k == 0 {
            // a case: idx, family, item kind, profile, then (profile >= 100 only) the program
            if let Some(m) = m.take() { std::mem::forget(m) }
            idx = v[0];
            println!("CASE {idx}");
            cases += 1;
            ledger::reset();
            if v[3] >= 100 {
                let ops = v[4..].iter().map(|x| (*x as u32).to_le_bytes()).collect();
                let case = Case { arc: v[1] != 0, kind: v[2] as u8, profile: v[3] as u8, ops };
                let mut m = build(case.arc, 8);
                let r = run_case(&mut *m, &case, &Cfg { props: 0, trace: false, quick_views: true, record: false });
                if let Some(f) = r.fail { println!("FAIL {idx} {} {}", f.tag, f.msg); std::process::exit(3) }
            } else { m = Some(build(v[1] != 0, v[2] as usize)) }
        } else {
            let Some(mm) = &mut m else { continue };
            let low = Low::de(&v).unwrap();
            if let Some(t) = low.max_tok() { ledger::reserve(t) }
            let r = catch_unwind(AssertUnwindSafe(|| {
                mm.exec(&low, &mut out);
                for i in 0..mm.slots() { if mm.kind(i).is_some() { mm.observe(i, &mut view) } }
            }));
            // the history went another way than natively (a call was granted or refused differently): not judged here
            if r.is_err() { abandoned += 1; println!("ABANDON {idx} {}", LAST_PANIC.with(|p| p.borrow().clone())); std::mem::forget(m.take()); continue }
            let v = ledger::with(|l| std::mem::take(&mut l.viol));
            if let Some((tag, msg)) = v.first() { println!("FAIL {idx} {tag} {msg}"); std::process::exit(3) }
        }
    }
    println!("DONE {cases} {abandoned}");
}
