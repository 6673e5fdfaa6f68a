//! mem OUT SEED RUNS STEPS
//!
//! Long runs on small caches with few live items but an endless stream of keys; the bytes that
//! are allocated are sampled all the time.  One "mem" line per sample: n calls so far, b bytes
//! held by the cache, p the greatest number of items plus pending loads so far, g remembered keys
//! allowed, s shards; an "end" line with what is left after the cache was dropped.
use qcv::rng::{mix, Rng};
use quick_cache::sync::GuardResult;
use quick_cache::{sync, unsync, Lifecycle, OptionsBuilder, Weighter};
use std::alloc::{GlobalAlloc, Layout, System};
use std::future::Future;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

struct Count;
static BYTES: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        BYTES.fetch_add(l.size() as i64, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        BYTES.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        BYTES.fetch_add(n as i64 - l.size() as i64, Relaxed);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Count = Count;

/// a value of some weight which owns memory
type V = (u64, Box<[u8; 16]>);
fn v(w: u64) -> V {
    (w, Box::new([1; 16]))
}
#[derive(Clone)]
struct We;
impl Weighter<u64, V> for We {
    fn weight(&self, _: &u64, v: &V) -> u64 {
        v.0
    }
}
/// collects what is evicted, as the default lifecycle of the sync cache does
#[derive(Clone)]
struct Lc;
impl Lifecycle<u64, V> for Lc {
    type RequestState = Vec<(u64, V)>;
    fn begin_request(&self) -> Self::RequestState {
        Vec::new()
    }
    fn on_evict(&self, s: &mut Self::RequestState, k: u64, v: V) {
        s.push((k, v))
    }
}
type S = sync::Cache<u64, V, We, quick_cache::DefaultHashBuilder, Lc>;
type U = unsync::Cache<u64, V, We, quick_cache::DefaultHashBuilder, Lc>;
type Guard = sync::PlaceholderGuard<'static, u64, V, We, quick_cache::DefaultHashBuilder, Lc>;
type Fut = Pin<Box<dyn Future<Output = Result<V, Guard>>>>;

struct Run {
    r: Rng,
    cap: u64,
    next: u64,
    /// weights of the operations
    w: Vec<u64>,
}
impl Run {
    fn key(&mut self) -> u64 {
        if self.r.chance(60) {
            self.next += 1;
            self.next
        } else if self.r.chance(50) {
            self.next.saturating_sub(self.r.below(3 * self.cap + 8))
        } else {
            1 << 40 | self.r.below(self.cap + 4)
        }
    }
    fn weight(&mut self) -> u64 {
        match self.r.below(20) {
            0 => self.cap + 1 + self.r.below(5), // refused
            1 => self.cap,
            2 | 3 => 1 + self.r.below(self.cap.max(1)),
            _ => 1,
        }
    }
    fn pick(&mut self) -> usize {
        let mut t = self.r.below(self.w.iter().sum());
        self.w.iter().position(|&w| if t < w { true } else { t -= w; false }).unwrap()
    }
}
fn usync(c: &mut U, x: &mut Run) {
    let k = x.key();
    let w = x.weight();
    match x.pick() {
        0 => c.insert(k, v(w)),
        1 => drop(c.get(&k).cloned()),
        2 => drop(c.remove(&k)),
        3 => drop(c.replace(k, v(w), x.r.chance(50))),
        4 => drop(c.get_or_insert_with(&k, || Err::<V, ()>(())).map(|v| v.cloned())),
        5 => drop(catch_unwind(AssertUnwindSafe(|| c.get_or_insert_with(&k, || -> Result<V, ()> { panic!() }).map(|v| v.cloned())))),
        6 => drop(c.get_or_insert_with(&k, || Ok::<V, ()>(v(w))).map(|v| v.cloned())),
        7 => drop(c.get_ref_or_guard(&k).map(|v| v.clone()).map_err(drop)),
        8 => {
            if let Err(g) = c.get_ref_or_guard(&k) {
                g.insert(v(w))
            }
        }
        9 => {
            if let Ok(Some(mut m)) = c.get_mut_or_insert_with(&k, || if w % 2 == 0 { Err(()) } else { Ok(v(w)) }) {
                m.0 = w.min(3)
            }
        }
        10 => c.retain(|k, _| k % 5 != 0),
        11 if x.r.chance(5) => c.clear(),
        12 if x.r.chance(5) => drop(c.drain().next()),
        13 => {
            if let Err(g) = c.get_mut_or_guard(&k) {
                drop(g)
            }
        }
        _ => (),
    }
}
struct Pend {
    guards: Vec<Guard>,
    futs: Vec<Fut>,
}
fn ssync(c: &'static S, x: &mut Run, p: &mut Pend) {
    let k = x.key();
    let w = x.weight();
    match x.pick() {
        0 => c.insert(k, v(w)),
        1 => drop(c.get(&k)),
        2 => drop(c.remove(&k)),
        3 => drop(c.replace(k, v(w), x.r.chance(50))),
        // guards are held for a while, so that a loader of another key is used where it would wait
        4 => match c.get_value_or_guard(&k, Some(Duration::ZERO)) {
            GuardResult::Guard(g) if p.guards.len() < 6 => p.guards.push(g),
            GuardResult::Guard(g) => drop(g.insert(v(w))),
            _ => (),
        },
        5 | 6 if p.guards.is_empty() && p.futs.is_empty() => {
            let f = x.r.below(3);
            let run = || c.get_or_insert_with(&k, || match f {
                0 => Err(()),
                1 => panic!(),
                _ => Ok(v(w)),
            });
            drop(catch_unwind(AssertUnwindSafe(run)));
        }
        7 | 8 if !p.guards.is_empty() => {
            let i = x.r.below(p.guards.len() as u64) as usize;
            drop(p.guards.swap_remove(i));
        }
        9 if !p.guards.is_empty() => {
            let i = x.r.below(p.guards.len() as u64) as usize;
            drop(p.guards.swap_remove(i).insert(v(w)));
        }
        10 => c.retain(|k, _| k % 5 != 0),
        11 if x.r.chance(5) => c.clear(),
        12 if p.futs.len() < 6 => {
            let k: &'static u64 = Box::leak(Box::new(k));
            BYTES.fetch_sub(8, Relaxed);
            let mut f: Fut = Box::pin(c.get_value_or_guard_async(k));
            match f.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
                Poll::Pending => p.futs.push(f),
                Poll::Ready(Err(g)) if p.guards.len() < 6 => p.guards.push(g),
                Poll::Ready(_) => (),
            }
        }
        13 | 14 if !p.futs.is_empty() => {
            let i = x.r.below(p.futs.len() as u64) as usize;
            let mut f = p.futs.swap_remove(i);
            if x.r.chance(50) {
                match f.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
                    Poll::Pending => p.futs.push(f),
                    Poll::Ready(Err(g)) => p.guards.push(g),
                    Poll::Ready(_) => (),
                }
            }
        }
        _ => (),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| ()));
    let (seed, runs, steps): (u64, u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
    let mut file = std::io::BufWriter::with_capacity(1 << 16, std::fs::File::create(&a[1]).unwrap());
    // whatever the runtime allocates once
    let _ = catch_unwind(|| panic!());
    let _ = std::hint::black_box(std::thread::current());
    let _ = std::hint::black_box(quick_cache::DefaultHashBuilder::default());
    let mut calls = 0;
    // two short runs first, for what is allocated once and for all
    for t in 0..runs + 2 {
        let (warm, steps) = if t < 2 { (true, 5000) } else { (false, steps) };
        let mut sink = std::io::sink();
        let out: &mut dyn Write = if warm { &mut sink } else { &mut file };
        let mut r = Rng::new(mix(seed.wrapping_mul(1_000_003).wrapping_add(t)));
        let cap = *r.pick(&[1, 2, 4, 8, 20, 60]);
        let est = *r.pick(&[0usize, 2, 10, 40]);
        let ghost = *r.pick(&[0.0, 0.5, 1.0]);
        let shards = *r.pick(&[1usize, 1, 1, 2]);
        let o = OptionsBuilder::new()
            .shards(shards)
            .estimated_items_capacity(if shards > 1 { 80 } else { est })
            .weight_capacity(cap)
            .ghost_allocation(ghost)
            .hot_allocation(*r.pick(&[0.3, 0.6, 0.97, 1.0]))
            .build()
            .unwrap();
        let est = if shards > 1 { 80 } else { est };
        let w: Vec<u64> = (0..15).map(|i| r.below(4) + (i == 0) as u64).collect();
        let mut x = Run { r, cap, next: 100, w };
        let api = if warm { t } else { x.r.below(3).min(1) };
        let mut peak = 0;
        writeln!(out, "{{\"o\":\"new\",\"api\":{api},\"sh\":{shards},\"est\":{est},\"cap\":{cap},\"seed\":{seed},\"run\":{t}}}").unwrap();
        let base = BYTES.load(Relaxed);
        let mut line = |n: u64, peak: u64, outside: i64| {
            let b = BYTES.load(Relaxed) - base - outside;
            writeln!(out, "{{\"o\":\"mem\",\"n\":{n},\"b\":{b},\"p\":{peak},\"g\":{est},\"s\":{shards}}}").unwrap();
        };
        if api == 0 {
            let mut c: U = unsync::Cache::with_options(o, We, Default::default(), Lc);
            for n in 0..steps {
                usync(&mut c, &mut x);
                // a load may have added one entry for a moment
                peak = peak.max(c.len() as u64 + 1);
                if n % (steps / 20).max(1) == 0 {
                    line(n, peak, 0)
                }
            }
            drop(c);
        } else {
            let c: &'static S = Box::leak(Box::new(sync::Cache::with_options(o, We, Default::default(), Lc)));
            let mut p = Pend { guards: vec![], futs: vec![] };
            for n in 0..steps {
                ssync(c, &mut x, &mut p);
                peak = peak.max((c.len() + 1 + p.guards.len() + 2 * p.futs.len()) as u64);
                if n % (steps / 20).max(1) == 0 {
                    line(n, peak, 0)
                }
            }
            p.futs.clear();
            p.guards.clear();
            drop(p);
            drop(unsafe { Box::from_raw(c as *const S as *mut S) });
        }
        calls += steps;
        let left = BYTES.load(Relaxed) - base;
        writeln!(out, "{{\"o\":\"end\",\"b\":{left}}}").unwrap();
    }
    file.flush().unwrap();
    println!("GEN runs={runs} calls={calls}");
}
