//! Runs small concurrent programs against the real sync cache and records their histories.
//!
//! qcconc OUT SEED NPROGRAMS ITERATIONS FOCUS MAXHISTORIES [PROGRAM]
//!
//! With feature `shut` every program runs ITERATIONS times under shuttle's schedulers (each
//! lock, park and atomic operation of the crate is a scheduling point); without it, on real
//! threads.  One line per history.  Of the executions in which every call returned the same,
//! the least concurrent one (it admits the fewest explanations) and some others are written;
//! executions that did not finish are always written.
mod cap;
mod exec;
#[cfg(not(feature = "shut"))]
mod probe;
mod prog;
mod types;
use std::collections::{HashMap, HashSet};
use std::io::Write;

/// histories written of one program
const PER_PROGRAM: usize = 80;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, nprog, iters, focus, maxh) = (num(2), num(3), num(4) as usize, a[5].clone(), num(6));
    let only: Option<u64> = a.get(7).map(|x| x.parse().unwrap());
    #[cfg(not(feature = "shut"))]
    std::panic::set_hook(Box::new(|_| ()));
    #[cfg(not(feature = "shut"))]
    if focus == "timed" {
        return timed(&a[1], seed, nprog, iters, only);
    }
    #[cfg(not(feature = "shut"))]
    if focus == "probe" {
        return probe::run(&a[1], nprog);
    }
    let mut out = std::io::BufWriter::new(std::fs::File::create(&a[1]).unwrap());
    let (mut runs, mut outcomes, mut hist, mut progs, mut dead) = (0u64, 0u64, 0u64, 0u64, 0u64);
    for p in 0..nprog {
        if only.is_some_and(|o| o != p) {
            continue;
        }
        let pseed = prog::mix(seed.wrapping_mul(1_000_003).wrapping_add(p));
        let pr = match focus.as_str() {
            "cap" => exec::Any::Cap(cap::generate(pseed, false)),
            "pol" => exec::Any::Cap(cap::generate(pseed, true)),
            f => exec::Any::Load(prog::generate(pseed, f)),
        };
        progs += 1;
        let mut seen: HashSet<u64> = HashSet::new();
        let mut best: HashMap<u64, (u64, String)> = HashMap::new();
        let mut write = Vec::new();
        let mut sink = |h: exec::History| {
            runs += 1;
            if h.bad {
                dead += 1
            }
            if seen.insert(prog::hash(&h.text)) {
                let n = seen.len() as u64;
                match best.get_mut(&h.sig) {
                    _ if h.bad => write.insert(0, h.text),
                    None => drop(best.insert(h.sig, (h.overlap, h.text))),
                    Some(b) if b.0 > h.overlap => *b = (h.overlap, h.text),
                    Some(_) if n.is_power_of_two() => write.push(h.text),
                    _ => (),
                }
            }
        };
        exec::run(&pr, pseed, iters, &mut sink);
        outcomes += best.len() as u64;
        let mut b: Vec<_> = best.into_iter().collect();
        b.sort();
        write.extend(b.into_iter().map(|x| x.1 .1));
        write.truncate(PER_PROGRAM);
        for t in write {
            hist += 1;
            writeln!(out, "{{{},\"p\":{},\"t\":[{}]}}", pr.head(), p, t).unwrap();
        }
        let enough = if cfg!(feature = "shut") { 3 } else { 0 };
        if hist >= maxh || dead > enough {
            break;
        }
    }
    out.flush().unwrap();
    println!("GEN programs={progs} executions={runs} outcomes={outcomes} histories={hist} unfinished={dead}");
}

/// Programs in real time, many at once.  Those that were late are tried again one by one.
/// A control thread sleeps all the time; `j` is by how much it overslept during an execution.
#[cfg(not(feature = "shut"))]
fn timed(path: &str, seed: u64, nprog: u64, attempts: usize, only: Option<u64>) {
    use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
    use std::time::{Duration, Instant};
    const SOON: u64 = 100_000;
    let out = std::sync::Mutex::new(std::io::BufWriter::new(std::fs::File::create(path).unwrap()));
    let (next, runs) = (AtomicU64::new(0), AtomicU64::new(0));
    let late = std::sync::Mutex::new(Vec::new());
    let slept = std::sync::Mutex::new(Vec::<(Instant, u64)>::new());
    let stop = AtomicBool::new(false);
    let run = |p: u64, again: u8| -> bool {
        let pseed = prog::mix(seed.wrapping_mul(1_000_003).wrapping_add(p));
        let pr = exec::Any::Load(prog::generate(pseed, "timed"));
        let from = Instant::now();
        let mut soon = true;
        exec::run(&pr, pseed, 1, &mut |h| {
            runs.fetch_add(1, SeqCst);
            std::thread::sleep(Duration::from_millis(12)); // let the control thread report
            let j = slept.lock().unwrap().iter().rev().take_while(|x| x.0 >= from).map(|x| x.1).max().unwrap_or(0);
            soon = h.late <= SOON || h.bad;
            let mut o = out.lock().unwrap();
            writeln!(o, "{{{},\"p\":{p},\"j\":{j},\"again\":{again},\"t\":[{}]}}", pr.head(), h.text).unwrap();
        });
        soon
    };
    std::thread::scope(|s| {
        s.spawn(|| {
            while !stop.load(SeqCst) {
                let t = Instant::now();
                std::thread::park_timeout(Duration::from_millis(5));
                let over = t.elapsed().saturating_sub(Duration::from_millis(5)).as_micros() as u64;
                slept.lock().unwrap().push((Instant::now(), over));
            }
        });
        std::thread::scope(|s| {
            for _ in 0..24 {
                s.spawn(|| loop {
                    let p = next.fetch_add(1, SeqCst);
                    if p >= nprog {
                        break;
                    }
                    if only.is_none_or(|o| o == p) && !run(p, 0) {
                        late.lock().unwrap().push(p);
                    }
                });
            }
        });
        let late = std::mem::take(&mut *late.lock().unwrap());
        for p in late.into_iter().take(8) {
            for _ in 0..attempts {
                if run(p, 1) {
                    break;
                }
            }
        }
        stop.store(true, SeqCst);
    });
    out.lock().unwrap().flush().unwrap();
    println!("GEN programs={nprog} executions={}", runs.load(SeqCst));
}
