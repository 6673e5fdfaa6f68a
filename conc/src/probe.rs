//! Timed waits for a load that stays pending, one after the other, in different situations.
//! One line per situation and timeout: by how many microseconds the calls of all attempts
//! returned after their timeout (negative: before), how many did not report a timeout, and by
//! how much a plain sleep of the same thread and length overslept each time.
use crate::types::Hb;
use quick_cache::sync::{Cache, DefaultLifecycle, GuardResult};
use quick_cache::{OptionsBuilder, UnitWeighter};
use std::future::Future;
use std::io::Write;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Wake, Waker};
use std::time::{Duration, Instant};

type C = Cache<i64, i64, UnitWeighter, Hb, DefaultLifecycle<i64, i64>>;
struct Nop;
impl Wake for Nop {
    fn wake(self: Arc<Self>) {}
}

pub fn run(path: &str, rounds: u64) {
    let mut out = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    let mut n = 0;
    for _ in 0..rounds {
        for situation in 0..6 {
            for us in [0u64, 900, 7_000, 40_000] {
                let attempts = if us < 10_000 { 25 } else { 12 };
                probe(&mut out, situation, us, attempts);
                n += attempts;
            }
        }
    }
    out.flush().unwrap();
    println!("GEN programs={n} executions={n}");
}

fn probe(out: &mut impl Write, situation: u64, us: u64, attempts: u64) {
    let o = OptionsBuilder::new().shards(1).estimated_items_capacity(100).weight_capacity(100).build().unwrap();
    let cache: C = C::with_options(o, UnitWeighter, Hb { collide: situation == 5 }, Default::default());
    let cache = &cache;
    if situation == 4 {
        // a load that was given up before
        drop(cache.get_value_or_guard(&1, None));
    }
    let GuardResult::Guard(guard) = cache.get_value_or_guard(&1, None) else { panic!("no guard") };
    let other = (situation == 5).then(|| cache.get_value_or_guard(&2, None));
    let me = std::thread::current();
    let stop = AtomicBool::new(false);
    let timeout = Duration::from_micros(us);
    let (mut late, mut over, mut wrong) = (Vec::new(), Vec::new(), 0);
    std::thread::scope(|s| {
        if situation == 2 {
            s.spawn(|| {
                while !stop.load(SeqCst) {
                    std::thread::sleep(Duration::from_micros(300));
                    me.unpark();
                }
            });
        }
        let waker = Waker::from(Arc::new(Nop));
        let mut fut = Box::pin(cache.get_value_or_guard_async(&1));
        if situation == 3 {
            for _ in 0..2 {
                s.spawn(|| drop(cache.get_value_or_guard(&1, None)));
            }
            assert!(Pin::new(&mut fut).poll(&mut Context::from_waker(&waker)).is_pending());
            std::thread::sleep(Duration::from_millis(3));
        }
        for _ in 0..attempts {
            // the control: the same time, asleep
            let t = Instant::now();
            while t.elapsed() < timeout {
                std::thread::park_timeout(timeout.saturating_sub(t.elapsed()));
            }
            over.push((t.elapsed() - timeout).as_micros() as i64);
            if situation == 1 {
                me.unpark();
            }
            let t = Instant::now();
            let r = cache.get_value_or_guard(&1, Some(timeout));
            let e = t.elapsed();
            wrong += !matches!(r, GuardResult::Timeout) as i64;
            late.push(if e >= timeout { (e - timeout).as_micros() as i64 } else { -1 - (timeout - e).as_micros() as i64 });
        }
        stop.store(true, SeqCst);
        drop(fut);
        let _ = guard.insert(7);
    });
    drop(other);
    writeln!(out, "{{\"o\":\"probe\",\"s\":{situation},\"T\":{us},\"late\":{late:?},\"over\":{over:?},\"wrong\":{wrong}}}").unwrap();
}
