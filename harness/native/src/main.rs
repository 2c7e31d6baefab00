//! E1: generated histories against the reference model, natively, with a tracking allocator.
mod e1;

#[global_allocator]
static A: rcv_core::track::Tracking = rcv_core::track::Tracking;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let s: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    let code = match s.as_slice() {
        ["e1", rest @ ..] => e1::drive(rest),
        ["e1-worker", rest @ ..] => e1::worker(rest),
        ["e1-one", rest @ ..] => e1::one(rest),
        ["e1-emit", rest @ ..] => e1::emit(rest),
        _ => { eprintln!("usage"); 2 }
    };
    std::process::exit(code);
}
