//! nest OUT SEED EVENTS
//!
//! Calls into the sync cache from inside the user code that it runs: loaders (closures and
//! futures), begin_request, end_request and the disposal of the request state.  The events are properly nested:
//!   c  a call starts (p operation, k key, v value id, f flags, g guard)
//!   u  user code starts inside the call on top (p which), s what it sees of every key; with the
//!      default lifecycle the drop of a value that an insert displaces counts as user code
//!   x  it ends (v: outcome of a loader: value, 0 failed, -1 panicked)
//!   e  on_evict was given key k with value v
//!   r  the call on top returned r
//!   s  all keys after an outermost call
use qcv::rng::{mix, Rng};
use qcv::watch;
use quick_cache::sync::{Cache, DefaultLifecycle, GuardResult, PlaceholderGuard};
use quick_cache::{Lifecycle, OptionsBuilder, UnitWeighter};
use std::cell::{Cell, RefCell};
use std::fmt::Write as _;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

const NK: i64 = 5;
type Hb = quick_cache::DefaultHashBuilder;

#[derive(Clone)]
struct V {
    id: i64,
}
fn val(id: i64) -> V {
    V { id }
}

/// the default lifecycle drops what a request displaces after the request
impl Drop for V {
    fn drop(&mut self) {
        let own = ARMED.with(|a| a.get());
        if own != 0 && own != self.id {
            user("drop", self.id, || 0);
        }
    }
}

#[derive(Clone)]
struct Lc;
struct Req(bool);
impl Drop for Req {
    fn drop(&mut self) {
        if self.0 {
            user("disp", 0, || 0);
        }
    }
}
impl Lifecycle<i64, V> for Lc {
    type RequestState = Req;
    fn begin_request(&self) -> Req {
        user("begin", 0, || 0);
        Req(true)
    }
    fn on_evict(&self, _: &mut Req, k: i64, v: V) {
        ev("e", "", k, v.id, 0, 0, "", false);
    }
    fn end_request(&self, mut r: Req) {
        r.0 = false;
        user("end", 0, || 0);
    }
}
type C<L> = Cache<i64, V, UnitWeighter, Hb, L>;
type DL = DefaultLifecycle<i64, V>;
#[derive(Clone, Copy)]
enum Any {
    L(&'static C<Lc>),
    D(&'static C<DL>),
}
enum Guard {
    L(PlaceholderGuard<'static, i64, V, UnitWeighter, Hb, Lc>),
    D(PlaceholderGuard<'static, i64, V, UnitWeighter, Hb, DL>),
}
macro_rules! on {
    ($c: expr, $x: ident => $e: expr) => {
        match $c {
            Any::L($x) => $e,
            Any::D($x) => $e,
        }
    };
}
thread_local! {
    static CACHE: Cell<Option<Any>> = const { Cell::new(None) };
    static DEPTH: Cell<i64> = const { Cell::new(0) };
    static RNG: RefCell<Rng> = RefCell::new(Rng::new(0));
    static NEXT: Cell<i64> = const { Cell::new(1) };
    static EVENTS: Cell<u64> = const { Cell::new(0) };
    static GUARDS: RefCell<Vec<(i64, i64, Guard)>> = const { RefCell::new(Vec::new()) };
    /// an insert of this value is at work: other values dropped now are displaced by it
    static ARMED: Cell<i64> = const { Cell::new(0) };
    /// the cache has the default lifecycle and displaces at most one value per request
    static DROPS: Cell<bool> = const { Cell::new(false) };
    /// keys that are being loaded by calls in progress
    static LOADING: RefCell<Vec<i64>> = const { RefCell::new(Vec::new()) };
}
fn rnd(n: u64) -> i64 {
    RNG.with(|r| r.borrow_mut().below(n) as i64)
}
fn fresh() -> i64 {
    NEXT.with(|n| {
        n.set(n.get() + 1);
        n.get()
    })
}
fn cache() -> Any {
    CACHE.with(|c| c.get().unwrap())
}
fn peeks() -> String {
    let mut s = String::from("[");
    for k in 1..=NK {
        let id = on!(cache(), c => c.peek(&k)).map_or(0, |v| v.id);
        let _ = write!(s, "{}{id}", if k > 1 { "," } else { "" });
    }
    s + "]"
}
#[allow(clippy::too_many_arguments)]
fn ev(o: &str, p: &str, k: i64, v: i64, f: i64, g: i64, r: &str, see: bool) {
    watch::beat();
    let head = format!(
        "{{\"o\":\"{o}\",\"p\":\"{p}\",\"k\":{k},\"v\":{v},\"f\":{f},\"g\":{g},\"r\":[{r}],\"d\":{},\"s\":",
        DEPTH.with(|d| d.get())
    );
    // if looking at the keys never ends, this line says so
    watch::cur(|c| c.pending = format!("{{\"o\":\"hang\",\"at\":{head}[]}}}}"));
    let s = if see { peeks() } else { "[]".into() };
    watch::cur(|c| {
        let _ = writeln!(c.lines, "{head}{s}}}");
        c.pending = "{\"o\":\"hang\"}".into();
    });
    EVENTS.with(|e| e.set(e.get() + 1));
}
/// user code run by the cache: sees all keys and makes some calls
fn user(p: &str, v: i64, out: impl FnOnce() -> i64) -> i64 {
    let armed = ARMED.with(|a| a.replace(0));
    ev("u", p, 0, v, 0, 0, "", true);
    let d = DEPTH.with(|d| d.get());
    if d < 3 {
        for _ in 0..[0, 0, 0, 1, 1, 2][rnd(6) as usize] {
            call();
        }
    }
    let r = out();
    ev("x", p, 0, r, 0, 0, "", false);
    ARMED.with(|a| a.set(armed));
    r
}
/// an insert-like call of the cache with the value id
fn insert<R>(id: i64, f: impl FnOnce() -> R) -> R {
    let armed = ARMED.with(|a| a.replace(if DROPS.with(|d| d.get()) { id } else { 0 }));
    let r = f();
    ARMED.with(|a| a.set(armed));
    r
}
fn loading<R>(k: i64, f: impl FnOnce() -> R) -> R {
    struct Out;
    impl Drop for Out {
        fn drop(&mut self) {
            LOADING.with(|l| l.borrow_mut().pop());
        }
    }
    LOADING.with(|l| l.borrow_mut().push(k));
    let _o = Out;
    f()
}
fn load(k: i64, f: i64, id: i64) -> Result<V, ()> {
    loading(k, || {
        user("load", 0, || [id, 0, -1][f as usize]);
        match f {
            0 => Ok(val(id)),
            1 => Err(()),
            _ => std::panic::resume_unwind(Box::new(())),
        }
    })
}
fn poll<F: Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    match f.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
        Poll::Ready(r) => r,
        Poll::Pending => panic!("pending"),
    }
}
fn busy(k: i64) -> bool {
    GUARDS.with(|g| g.borrow().iter().any(|x| x.1 == k)) || LOADING.with(|l| l.borrow().contains(&k))
}
/// one random call, with whatever happens inside
fn call() {
    let c = cache();
    let k = 1 + rnd(NK as u64);
    let op = ["get", "has", "ins", "ins", "rep", "rem", "clr", "ret", "goi", "goi", "ga", "jn", "jn", "gin", "gdr", "len"]
        [rnd(16) as usize];
    let id = fresh();
    let start = |p: &str, f: i64, g: i64| {
        ev("c", p, k, id, f, g, "", false);
        DEPTH.with(|d| d.set(d.get() + 1));
    };
    let ret = |r: String| {
        DEPTH.with(|d| d.set(d.get() - 1));
        ev("r", op, k, 0, 0, 0, &r, false);
    };
    let outcome = |r: Result<(), (i64, V)>| match r {
        Ok(()) => "1".to_string(),
        Err((k, v)) => format!("0,{k},{}", v.id),
    };
    match op {
        "get" => {
            start(op, 0, 0);
            let r = on!(c, c => c.get(&k)).map_or(0, |v| v.id);
            ret(r.to_string())
        }
        "has" => {
            start(op, 0, 0);
            ret((on!(c, c => c.contains_key(&k)) as i64).to_string())
        }
        "len" => {
            start(op, 0, 0);
            ret(on!(c, c => c.len()).to_string())
        }
        "ins" => {
            // flag 1: with lifecycle, the caller disposes of the request state
            let f = rnd(2);
            start(op, f, 0);
            match (c, f) {
                (Any::L(c), 1) => {
                    drop(c.insert_with_lifecycle(k, val(id)));
                    ret(String::new())
                }
                (Any::D(c), 1) => {
                    insert(id, || drop(c.insert_with_lifecycle(k, val(id))));
                    ret(String::new())
                }
                _ => {
                    insert(id, || on!(c, c => c.insert(k, val(id))));
                    ret(String::new())
                }
            }
        }
        "rep" => {
            let soft = rnd(2) == 1;
            start(op, soft as i64, 0);
            let r = insert(id, || on!(c, c => c.replace(k, val(id), soft)));
            ret(outcome(r))
        }
        "rem" => {
            start(op, 0, 0);
            let r = on!(c, c => c.remove(&k));
            ret(r.map_or("0".into(), |x| x.1.id.to_string()))
        }
        "clr" if rnd(4) == 0 => {
            start(op, 0, 0);
            on!(c, c => c.clear());
            ret(String::new())
        }
        "ret" if rnd(2) == 0 => {
            let m = rnd(2);
            start(op, m, 0);
            on!(c, c => c.retain(|k, _| k % 2 == m));
            ret(String::new())
        }
        // waiting for a load that this thread has in progress would be a deadlock of its own making
        "goi" if !busy(k) => {
            let f = [0, 0, 0, 1, 2][rnd(5) as usize];
            start(op, f, 0);
            let d = DEPTH.with(|d| d.get());
            let r = insert(id, || catch_unwind(AssertUnwindSafe(|| on!(c, c => c.get_or_insert_with(&k, || load(k, f, id))))));
            DEPTH.with(|x| x.set(d));
            ret(match r {
                Ok(Ok(v)) => format!("1,{}", v.id),
                Ok(Err(())) => "3".into(),
                Err(_) => "4".into(),
            })
        }
        "ga" if !busy(k) => {
            let f = [0, 0, 0, 1, 2][rnd(5) as usize];
            start(op, f, 0);
            let d = DEPTH.with(|d| d.get());
            let r = insert(id, || {
                catch_unwind(AssertUnwindSafe(|| on!(c, c => poll(c.get_or_insert_async(&k, async { load(k, f, id) })))))
            });
            DEPTH.with(|x| x.set(d));
            ret(match r {
                Ok(Ok(v)) => format!("1,{}", v.id),
                Ok(Err(())) => "3".into(),
                Err(_) => "4".into(),
            })
        }
        "jn" if GUARDS.with(|g| g.borrow().len()) < 3 => {
            start(op, 0, id);
            let (r, g) = match c {
                Any::L(c) => match c.get_value_or_guard(&k, Some(Duration::ZERO)) {
                    GuardResult::Value(v) => (format!("1,{}", v.id), None),
                    GuardResult::Guard(g) => ("2".to_string(), Some(Guard::L(g))),
                    GuardResult::Timeout => ("3".to_string(), None),
                },
                Any::D(c) => match c.get_value_or_guard(&k, Some(Duration::ZERO)) {
                    GuardResult::Value(v) => (format!("1,{}", v.id), None),
                    GuardResult::Guard(g) => ("2".to_string(), Some(Guard::D(g))),
                    GuardResult::Timeout => ("3".to_string(), None),
                },
            };
            if let Some(g) = g {
                GUARDS.with(|x| x.borrow_mut().push((id, k, g)));
            }
            ret(r)
        }
        "gin" | "gdr" if GUARDS.with(|g| !g.borrow().is_empty()) => {
            let n = GUARDS.with(|g| g.borrow().len());
            let (name, gk, g) = GUARDS.with(|g| g.borrow_mut().swap_remove(rnd(n as u64) as usize));
            ev("c", op, gk, id, 0, name, "", false);
            DEPTH.with(|d| d.set(d.get() + 1));
            if op == "gdr" {
                drop(g);
                return ret(String::new());
            }
            // while the insert runs, its begin_request must not wait for the key
            let r = insert(id, || {
                loading(gk, || match g {
                    Guard::L(g) => g.insert(val(id)),
                    Guard::D(g) => g.insert(val(id)),
                })
            });
            ret(match r {
                Ok(()) => "1".into(),
                Err(v) => format!("0,{}", v.id),
            })
        }
        _ => (),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (seed, events): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
    std::panic::set_hook(Box::new(|_| ()));
    std::fs::write(&a[1], "").unwrap();
    watch::cur(|c| c.path = a[1].clone());
    watch::start(15_000);
    let mut traces = 0;
    let flush = || {
        use std::io::Write;
        let mut f = std::fs::OpenOptions::new().append(true).open(&a[1]).unwrap();
        watch::cur(|c| {
            f.write_all(c.lines.as_bytes()).unwrap();
            c.lines.clear()
        });
    };
    for t in 0.. {
        if EVENTS.with(|e| e.get()) >= events {
            break;
        }
        RNG.with(|r| *r.borrow_mut() = Rng::new(mix(seed.wrapping_mul(1_000_003).wrapping_add(t))));
        NEXT.with(|n| n.set(0));
        let cap = [1, 2, 3, 4, 50][rnd(5) as usize];
        let hot = [0.5, 0.97, 1.0][rnd(3) as usize];
        let dl = rnd(3) == 0;
        let drops = dl && rnd(3) > 0;
        DROPS.with(|d| d.set(drops));
        let o = OptionsBuilder::new()
            .shards(1)
            .estimated_items_capacity(cap)
            .weight_capacity(cap as u64)
            .hot_allocation(if cap == 1 || drops { 1.0 } else { hot }) // every value fits the hot share
            .ghost_allocation(0.5)
            .build()
            .unwrap();
        if dl {
            let b = Box::leak(Box::new(C::<DL>::with_options(o, UnitWeighter, Hb::default(), DL::default())));
            CACHE.with(|c| c.set(Some(Any::D(b))));
        } else {
            let b = Box::leak(Box::new(C::<Lc>::with_options(o, UnitWeighter, Hb::default(), Lc)));
            CACHE.with(|c| c.set(Some(Any::L(b))));
        }
        let start = EVENTS.with(|e| e.get());
        ev("new", "", 0, 0, dl as i64, 0, "", false);
        while EVENTS.with(|e| e.get()) < start + 150 {
            call();
            ev("s", "", 0, 0, 0, 0, "", true);
        }
        {
            let g = GUARDS.with(|g| std::mem::take(&mut *g.borrow_mut()));
            drop(g);
            match cache() {
                Any::L(c) => drop(unsafe { Box::from_raw(c as *const _ as *mut C<Lc>) }),
                Any::D(c) => drop(unsafe { Box::from_raw(c as *const _ as *mut C<DL>) }),
            }
        }
        traces += 1;
        flush();
    }
    println!("GEN traces={traces} events={}", EVENTS.with(|e| e.get()));
}
