mod exec;
mod prog;

use prog::{Prog, Rng};
use std::collections::{BTreeMap, HashSet};
use vrt::{Class, Outcome, Plan, Strategy};

#[global_allocator]
static A: exec::Tracking = exec::Tracking;

/// Which failures count against which property. `after`: all threads were done; `tried`: some
/// thread asked for exclusive access; `nested`: a destructor made calls.
fn wants(prop: &str, f: &vrt::Fail, after: bool, tried: bool, nested: bool) -> bool {
    if prop == "C23" {
        return nested && f.class != Class::Race;
    }
    match f.class {
        Class::Panic => true,
        Class::Safety => prop == "C14" || prop == "C16" || (prop == "C15" && tried) || (prop == "C22" && f.stale),
        Class::Excl => prop == "C15" || (prop == "C16" && after) || (prop == "C22" && f.stale),
        Class::Must => prop == "C16" || (prop == "C14" && f.msg.contains("is covered by no handle")),
        Class::Hang => prop == "C17",
        Class::Race => prop == "C22" || (prop == "C14" && f.msg.contains("destroyed")),
    }
}

fn profiles(prop: &str) -> &'static [usize] {
    match prop {
        "C14" => &[0, 1, 1, 3],
        "C15" => &[2, 2, 0, 3],
        "C16" => &[1, 1, 0, 2, 3],
        "C17" => &[2, 0, 1, 3],
        "C23" => &[0, 0, 2, 3, 3],
        _ => &[2, 2, 0, 1, 3],
    }
}

struct Run {
    out: Outcome,
    nontrivial: bool,
    after: bool,
    stats: [u32; 4],
    tried: bool,
}

#[derive(Clone)]
struct Sched {
    seed: u64,
    strategy: Strategy,
    stale: bool,
    est: u32,
    switches: Vec<(u32, u32)>,
    choices: Vec<(u32, u32)>,
}

fn run(p: &Prog, s: &Sched, logging: bool) -> Run {
    let cx = exec::Cx::new(p.clone());
    let plan = Plan { seed: s.seed, strategy: s.strategy, nthreads: p.threads as usize, stale: s.stale, est_len: s.est, switches: s.switches.clone(), choices: s.choices.clone() };
    let (out, c) = vrt::run(plan, cx, logging, exec::setup, exec::thread, exec::after);
    let st = exec::stats();
    exec::finish(c.as_deref());
    Run { nontrivial: st.0 && out.preemptions > 0, after: st.1, stats: st.2, tried: p.ops.iter().any(|o| o[1] == 8 || o[1] == 9), out }
}

fn list(v: &[(u32, u32)]) -> String {
    if v.is_empty() { "-".into() } else { v.iter().map(|x| format!("{}:{}", x.0, x.1)).collect::<Vec<_>>().join(",") }
}
fn unlist(s: &str) -> Vec<(u32, u32)> {
    s.split(',').filter_map(|x| x.split_once(':').and_then(|(a, b)| Some((a.parse().ok()?, b.parse().ok()?)))).collect()
}

fn case(prop: &str, seed: u64, i: u64) -> (Prog, Vec<Sched>) {
    let mut r = Rng(seed);
    for x in [i, prop.bytes().fold(7u64, |a, b| a.wrapping_mul(131) + b as u64)] {
        r = Rng(r.next() ^ x.wrapping_mul(0xA24B_AED4_963E_E407));
        r = Rng(r.next());
    }
    let ps = profiles(prop);
    let pf = ps[r.n(ps.len() as u64) as usize];
    let p = if prop == "C23" { prog::generate_nested(&mut r, pf) } else { prog::generate(&mut r, pf) };
    let mut v = vec![];
    for _ in 0..4 {
        let strategy = match r.n(12) {
            0..=4 => Strategy::Sparse,
            5 | 6 => Strategy::Random([2, 4, 8, 16, 40][r.n(5) as usize]),
            7 | 8 => Strategy::Calls(2 + r.n(3) as u32),
            9 => Strategy::Fair,
            _ => Strategy::Pct,
        };
        let stale = r.n(if prop == "C22" { 2 } else { 4 }) == 0 && prop != "C17" && prop != "C23";
        v.push(Sched { seed: r.next(), strategy, stale, est: 0, switches: vec![], choices: vec![] });
    }
    (p, v)
}

fn bad(prop: &str, r: &Run) -> bool {
    r.out.fail.as_ref().map_or(false, |f| wants(prop, f, r.after, r.tried, r.stats[3] > 0))
}

/// Tries to make the same property fail with a program; gives the explicit schedule.
fn hunt(prop: &str, p: &Prog, stale: bool, tries: u32, seed: u64) -> Option<(Sched, Run)> {
    let mut r = Rng(seed);
    let mut est = 60;
    for k in 0..tries {
        let strategy = match k % 6 {
            0..=2 => Strategy::Sparse,
            3 => Strategy::Calls(2 + r.n(3) as u32),
            4 => Strategy::Random([2, 4, 8, 16][r.n(4) as usize]),
            _ => Strategy::Pct,
        };
        let s = Sched { seed: r.next(), strategy, stale, est, switches: vec![], choices: vec![] };
        let x = run(p, &s, false);
        if bad(prop, &x) {
            let e = Sched { strategy: Strategy::Explicit, switches: x.out.switches.clone(), choices: x.out.choices.clone(), ..s };
            let y = run(p, &e, false);
            if bad(prop, &y) {
                return Some((e, y));
            }
        } else if x.out.fail.is_none() {
            est = x.out.steps.max(4);
        }
    }
    None
}

fn shrink(prop: &str, p: Prog, s: Sched, first: Run) -> (Prog, Sched, Run) {
    let t0 = std::time::Instant::now();
    let late = || t0.elapsed().as_secs() > 40;
    let stale = s.stale && first.out.fail.as_ref().unwrap().stale;
    let (mut p, mut s, mut best) = (p, s, first);
    let mut size = (p.ops.len() / 2).max(1);
    'o: loop {
        let mut i = 0;
        let mut any = false;
        while i < p.ops.len() {
            if late() {
                break 'o;
            }
            let mut q = p.clone();
            let e = (i + size).min(q.ops.len());
            q.ops.drain(i..e);
            if let Some((e, r)) = hunt(prop, &q, stale, 120, 1 + i as u64) {
                p = q;
                s = e;
                best = r;
                any = true;
            } else {
                i += size;
            }
        }
        if size > 1 {
            size /= 2;
        } else if !any {
            break;
        }
    }
    for (n, n2, th) in [(1, 0, 2), (2, 0, 2), (3, 0, 2), (4, 0, 2), (p.n, 0, 2), (p.n, p.n2, 2), (p.n, 0, p.threads)] {
        let q = Prog { n, n2, threads: th, ..p.clone() };
        if q == p || late() {
            continue;
        }
        if let Some((e, r)) = hunt(prop, &q, stale, 300, 5) {
            p = q;
            s = e;
            best = r;
            break;
        }
    }
    // fewer switches and stale reads
    if s.strategy == Strategy::Explicit {
        loop {
            let mut any = false;
            for which in 0..2 {
                let mut i = 0;
                loop {
                    let l = if which == 0 { s.switches.len() } else { s.choices.len() };
                    if i >= l || t0.elapsed().as_secs() > 55 {
                        break;
                    }
                    let mut e = s.clone();
                    if which == 0 { e.switches.remove(i); } else { e.choices.remove(i); }
                    let r = run(&p, &e, false);
                    if bad(prop, &r) {
                        s = e;
                        best = r;
                        any = true;
                    } else {
                        i += 1;
                    }
                }
            }
            if !any {
                break;
            }
        }
    }
    (p, s, best)
}

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let prop = arg(&a, "--prop").unwrap_or("C14".into());
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => worker(&prop, &a),
        Some("one") => one(&prop, &a),
        Some("density") => density(&prop, &a),
        _ => std::process::exit(2),
    }
}

fn one(prop: &str, a: &[String]) {
    // head ops stale switches choices
    let c = arg(a, "--case").unwrap();
    let w: Vec<&str> = c.split_whitespace().collect();
    let p = Prog::decode(w[0], w[1]).expect("a program");
    let s = if w.len() >= 5 {
        Sched { seed: 0, strategy: Strategy::Explicit, stale: w[2] == "1", est: 0, switches: unlist(w[3]), choices: unlist(w[4]) }
    } else {
        match hunt(prop, &p, w[2] == "1", arg(a, "--tries").and_then(|x| x.parse().ok()).unwrap_or(2000), 3) {
            Some((s, _)) => s,
            None => {
                println!("nothing found");
                std::process::exit(0)
            }
        }
    };
    let r = run(&p, &s, true);
    for l in &r.out.log {
        println!("{}", l);
    }
    println!("switches {} stale reads {}", list(&r.out.switches), list(&r.out.choices));
    match &r.out.fail {
        Some(f) => println!("{:?}: {}", f.class, f.msg),
        None => println!("no failure"),
    }
    std::process::exit(bad(prop, &r) as i32)
}

/// For tuning the generator on a planted defect: how many programs can fail at all, and how soon they do.
fn density(prop: &str, a: &[String]) {
    let num = |k: &str, d: u64| arg(a, k).and_then(|x| x.parse().ok()).unwrap_or(d);
    let (n, tries, stale) = (num("--to", 1000), num("--tries", 3000), num("--stale", 0) == 1);
    let mut hits = 0;
    for i in 0..n {
        let (p, _) = case(prop, num("--seed", 1), i);
        if let Some((s, r)) = hunt(prop, &p, stale, tries as u32, i) {
            hits += 1;
            println!("{} {} {} {}", p.encode(), s.stale as u8, list(&s.switches), r.out.fail.as_ref().unwrap().msg);
        }
    }
    println!("{} of {}", hits, n);
}

fn worker(prop: &str, a: &[String]) {
    let num = |k: &str, d: u64| arg(a, k).and_then(|x| x.parse().ok()).unwrap_or(d);
    let (seed, from, to, by) = (num("--seed", 1), num("--from", 0), num("--to", 1000), num("--by", 1));
    let at = arg(a, "--at");
    let fine = a.iter().any(|x| x == "--fine");
    let (mut evals, mut steps, mut pre, mut dropped) = (0u64, 0u64, 0u64, 0u64);
    let mut seen: HashSet<u64> = HashSet::new();
    let mut stats: BTreeMap<&str, (u64, u64)> = BTreeMap::new();
    let mut samples = vec![];
    let mut i = from;
    while i < to {
        if let Some(f) = &at {
            if fine || (i / by) % 1024 == 0 {
                let _ = std::fs::write(f, format!("{}", i));
            }
        }
        let (p, ss) = case(prop, seed, i);
        let mut est = p.ops.iter().filter(|o| o[0] >= 1 && o[0] <= p.threads).count() as u32 * 16;
        for mut s in ss {
            s.est = est;
            let r = run(&p, &s, false);
            evals += 1;
            steps += r.out.steps as u64;
            pre += r.out.preemptions as u64;
            if r.out.fail.is_none() {
                est = r.out.steps.max(4);
            }
            for (k, v) in ["get_mut granted", "into_mut granted", "upgraded", "calls by destructors", "stale reads"].iter().zip(r.stats.iter().copied().chain([r.out.choices.len() as u32])) {
                let e = stats.entry(k).or_default();
                e.0 += v as u64;
                e.1 += (v > 0) as u64;
            }
            if r.nontrivial && (prop != "C23" || r.stats[3] > 0) {
                use std::hash::{Hash, Hasher};
                let mut h = std::collections::hash_map::DefaultHasher::new();
                (p.encode(), &r.out.switches, &r.out.choices).hash(&mut h);
                if seen.insert(h.finish()) && samples.len() < 2 {
                    samples.push(format!("{} {} {} {}", p.encode(), s.stale as u8, list(&r.out.switches), list(&r.out.choices)));
                }
            }
            if r.out.fail.is_some() {
                if bad(prop, &r) {
                    let e = Sched { strategy: Strategy::Explicit, switches: r.out.switches.clone(), choices: r.out.choices.clone(), ..s.clone() };
                    let y = run(&p, &e, false);
                    let (p2, s2, r2) = if bad(prop, &y) { shrink(prop, p.clone(), e, y) } else { (p.clone(), e, r) };
                    println!("VIOLATED {}", r2.out.fail.as_ref().unwrap().msg);
                    println!("CASE {} {} {} {}", p2.encode(), s2.stale as u8, list(&s2.switches), list(&s2.choices));
                    report(evals, steps, pre, dropped, seen.len(), &stats, &samples);
                    std::process::exit(1);
                }
                dropped += 1;
                if dropped % 3000 == 0 {
                    // abandoned cases keep their memory; a fresh process goes on
                    report(evals, steps, pre, dropped, seen.len(), &stats, &samples);
                    println!("NEXT {}", i + by);
                    std::process::exit(3);
                }
            }
        }
        i += by;
    }
    report(evals, steps, pre, dropped, seen.len(), &stats, &samples);
}

fn report(evals: u64, steps: u64, pre: u64, dropped: u64, non: usize, stats: &BTreeMap<&str, (u64, u64)>, samples: &[String]) {
    println!("EVALS {}\nSTEPS {}\nPREEMPTIONS {}\nOTHER {}\nNONTRIVIAL {}", evals, steps, pre, dropped, non);
    for (k, v) in stats {
        println!("STAT {}|{}|{}", k, v.0, v.1);
    }
    for s in samples {
        println!("SAMPLE {}", s);
    }
}
