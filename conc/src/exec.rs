//! Executes a program against the real cache and records its history.
use crate::prog::{End, Op, Prog, Rng};
use crate::types::*;
use quick_cache::sync::{Cache, DefaultLifecycle, GuardResult, PlaceholderGuard};
use quick_cache::{OptionsBuilder, UnitWeighter};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

#[cfg(feature = "shut")]
use shuttle::{
    sync::{Condvar, Mutex},
    thread,
};
#[cfg(not(feature = "shut"))]
use std::{
    sync::{Condvar, Mutex},
    thread,
};

type C = Cache<K, V, UnitWeighter, Hb, DefaultLifecycle<K, V>>;
type Guard = PlaceholderGuard<'static, K, V, UnitWeighter, Hb, DefaultLifecycle<K, V>>;
type JoinFut = Pin<Box<dyn Future<Output = Result<V, Guard>> + Send>>;
static KEYS: [Q; 5] = [Q(0), Q(1), Q(2), Q(3), Q(4)];
fn q(k: i64) -> &'static Q {
    &KEYS[k as usize]
}

pub struct History {
    pub text: String,
    /// what each thread's calls returned
    pub sig: u64,
    /// how much the calls overlap in time
    pub overlap: u64,
    /// it did not finish
    pub bad: bool,
    #[cfg_attr(feature = "shut", allow(dead_code))]
    pub late: u64,
}
#[derive(Default)]
pub struct Log {
    text: String,
    calls: usize,
    wakers: usize,
    sigs: Vec<u64>,
    pub active: u64,
    overlap: u64,
    /// numbers starts and returns, where the driver wants them
    pub clock: u64,
    /// events carry the microseconds since then
    since: Option<Instant>,
    /// microseconds by which the latest timed call exceeded its timeout
    late: u64,
}
impl Log {
    pub fn note(&mut self, t: usize, x: u64) {
        if self.sigs.len() <= t {
            self.sigs.resize(t + 1, 0);
        }
        self.sigs[t] = crate::prog::mix(self.sigs[t] ^ x);
    }
    fn finish(&mut self, bad: bool) -> History {
        let sig = self.sigs.iter().fold(bad as u64, |a, b| crate::prog::mix(a ^ b));
        History { text: std::mem::take(&mut self.text), sig, overlap: self.overlap, bad, late: self.late }
    }
    pub fn push(&mut self, s: String) {
        if !self.text.is_empty() {
            self.text.push(',');
        }
        match self.since {
            None => self.text.push_str(&s),
            Some(t) => {
                let at = t.elapsed().as_micros();
                self.text.push_str(&format!("{},\"at\":{at}}}", &s[..s.len() - 1]))
            }
        }
        self.overlap += self.active * self.active;
    }
}
pub type SharedLog = Arc<std::sync::Mutex<Log>>;

/// a future between two threads: (call, future, waker cell), or None if it finished early
type Moving = Option<(usize, JoinFut, Arc<Cell>)>;
#[derive(Default)]
struct Slot {
    m: Mutex<Option<Moving>>,
    cv: Condvar,
}
#[derive(Default)]
struct Cell {
    m: Mutex<bool>,
    cv: Condvar,
}
impl Cell {
    fn wait(&self) {
        let mut g = self.m.lock().unwrap();
        while !*g {
            g = self.cv.wait(g).unwrap();
        }
    }
}
struct Wk {
    log: SharedLog,
    c: usize,
    w: usize,
    cell: Arc<Cell>,
}
impl Wake for Wk {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.log.lock().unwrap().push(format!("{{\"e\":\"wk\",\"c\":{},\"w\":{}}}", self.c, self.w));
        *self.cell.m.lock().unwrap() = true;
        self.cell.cv.notify_one();
    }
}

#[derive(Clone)]
struct Ctx {
    tid: usize,
    cache: &'static C,
    log: SharedLog,
    slots: Arc<Vec<Slot>>,
    threads: Arc<std::sync::Mutex<Vec<Option<thread::Thread>>>>,
    rng: Arc<AtomicI64>,
}
fn b(x: bool) -> u8 {
    x as u8
}

impl Ctx {
    fn ev(&self, s: String) {
        self.log.lock().unwrap().push(s)
    }
    #[allow(clippy::too_many_arguments)]
    fn call(&self, o: &str, k: i64, v: i64, g: usize, tm: u64, ks: &[i64]) -> usize {
        let mut l = self.log.lock().unwrap();
        l.calls += 1;
        let c = l.calls;
        l.active += 1;
        l.note(self.tid, 1);
        l.push(format!(
            "{{\"e\":\"c\",\"c\":{c},\"t\":{},\"o\":\"{o}\",\"k\":{k},\"v\":{v},\"g\":{g},\"tm\":{},\"ks\":{ks:?},\"T\":{}}}",
            self.tid,
            (tm != 0) as u8,
            tm.saturating_sub(1)
        ));
        c
    }
    fn ret(&self, c: usize, r: &[i64]) {
        let mut l = self.log.lock().unwrap();
        l.active -= 1;
        l.note(self.tid, crate::prog::hash(&format!("{r:?}")));
        l.push(format!("{{\"e\":\"r\",\"c\":{c},\"r\":{r:?}}}"));
    }
    fn jitter(&self) {
        #[cfg(not(feature = "shut"))]
        {
            let x = crate::prog::mix(self.rng.fetch_add(1, SeqCst) as u64);
            match x % 8 {
                0 => thread::yield_now(),
                1 | 2 => (0..x >> 8 & 255).for_each(|_| std::hint::spin_loop()),
                3 => (0..x >> 8 & 2047).for_each(|_| std::hint::spin_loop()),
                _ => (),
            }
        }
        #[cfg(feature = "shut")]
        let _ = self.rng;
    }

    fn ops(&self, ops: &[Op]) {
        for o in ops {
            self.jitter();
            self.op(o);
        }
    }
    fn end_guard(&self, g: Guard, of: usize, k: i64, hold: &[Op], end: &End) {
        self.ops(hold);
        self.jitter();
        match end {
            End::Insert(id) => {
                let c = self.call("gin", k, *id, of, 0, &[]);
                match g.insert(V::new(*id)) {
                    Ok(()) => self.ret(c, &[0]),
                    Err(v) => self.ret(c, &[1, v.id]),
                }
            }
            End::Drop => {
                let c = self.call("gdr", k, 0, of, 0, &[]);
                drop(g);
                self.ret(c, &[]);
            }
        }
    }
    fn loader(&self, c: usize, out: i64, hold: &[Op]) -> Result<V, ()> {
        self.ev(format!("{{\"e\":\"lb\",\"c\":{c}}}"));
        self.ops(hold);
        self.jitter();
        self.ev(format!("{{\"e\":\"le\",\"c\":{c},\"v\":{out}}}"));
        match out {
            0 => Err(()),
            -1 => panic!("loader"),
            id => Ok(V::new(id)),
        }
    }
    /// one poll with a fresh waker
    fn poll<T>(&self, c: usize, f: &mut Pin<Box<dyn Future<Output = T> + Send>>) -> (Arc<Cell>, Poll<Result<T, ()>>) {
        let cell = Arc::new(Cell::default());
        let w = {
            let mut l = self.log.lock().unwrap();
            l.wakers += 1;
            let w = l.wakers;
            l.push(format!("{{\"e\":\"ps\",\"c\":{c},\"w\":{w}}}"));
            w
        };
        let wk: Waker = Arc::new(Wk { log: self.log.clone(), c, w, cell: cell.clone() }).into();
        let mut cx = Context::from_waker(&wk);
        #[cfg(feature = "shut")]
        let p = f.as_mut().poll(&mut cx).map(Ok);
        #[cfg(not(feature = "shut"))]
        let p = match catch_unwind(AssertUnwindSafe(|| f.as_mut().poll(&mut cx))) {
            Ok(p) => p.map(Ok),
            Err(_) => Poll::Ready(Err(())),
        };
        (cell, p)
    }
    fn pe(&self, c: usize, r: &[i64]) {
        let mut l = self.log.lock().unwrap();
        if r != [3] {
            l.active -= 1;
        }
        l.note(self.tid, crate::prog::hash(&format!("{r:?}")));
        l.push(format!("{{\"e\":\"pe\",\"c\":{c},\"r\":{r:?}}}"));
    }
    /// polls until finished or cancelled; `res` reports the result
    fn drive<T>(
        &self,
        c: usize,
        mut f: Pin<Box<dyn Future<Output = T> + Send>>,
        mut first: Option<Arc<Cell>>,
        eager: u32,
        cancel: Option<u32>,
        res: impl Fn(&Result<T, ()>) -> Vec<i64>,
    ) -> Option<T> {
        let mut pend = 0;
        loop {
            let cell = match first.take() {
                Some(cell) => cell,
                None => {
                    let (cell, p) = self.poll(c, &mut f);
                    if let Poll::Ready(t) = p {
                        self.pe(c, &res(&t));
                        return t.ok();
                    }
                    self.pe(c, &[3]);
                    cell
                }
            };
            pend += 1;
            if cancel.is_some_and(|n| pend >= n) {
                if eager == 1 {
                    cell.wait(); // dropped after it was notified
                }
                for _ in 0..pend % 3 {
                    thread::yield_now();
                }
                self.jitter();
                let d = self.call("fd", 0, 0, c, 0, &[]);
                drop(f);
                self.ret(d, &[]);
                self.log.lock().unwrap().active -= 1;
                return None;
            }
            if pend <= eager {
                thread::yield_now();
            } else {
                cell.wait();
            }
        }
    }
    fn join_res(r: &Result<Result<V, Guard>, ()>) -> Vec<i64> {
        match r {
            Ok(Ok(v)) => vec![1, v.id],
            Ok(Err(_)) => vec![2],
            Err(()) => vec![4],
        }
    }
    fn join_future(&self, k: i64) -> JoinFut {
        let cache = self.cache;
        Box::pin(cache.get_value_or_guard_async(q(k)))
    }

    fn op(&self, o: &Op) {
        let ca = self.cache;
        match o {
            Op::Yield => thread::yield_now(),
            Op::Poke(t) => {
                let h = self.threads.lock().unwrap()[*t].clone();
                if let Some(h) = h {
                    h.unpark()
                }
            }
            Op::Get(k) => {
                let c = self.call("get", *k, 0, 0, 0, &[]);
                let r = ca.get(q(*k)).map_or(0, |v| v.id);
                self.ret(c, &[r]);
            }
            Op::Peek(k) => {
                let c = self.call("peek", *k, 0, 0, 0, &[]);
                let r = ca.peek(q(*k)).map_or(0, |v| v.id);
                self.ret(c, &[r]);
            }
            Op::Has(k) => {
                let c = self.call("has", *k, 0, 0, 0, &[]);
                let r = ca.contains_key(q(*k));
                self.ret(c, &[b(r) as i64]);
            }
            Op::Ins(k, id) => {
                let c = self.call("ins", *k, *id, 0, 0, &[]);
                ca.insert(K::new(*k), V::new(*id));
                self.ret(c, &[]);
            }
            Op::Rep(k, id, soft) => {
                let c = self.call("rep", *k, *id, 0, 0, &[]);
                match ca.replace(K::new(*k), V::new(*id), *soft) {
                    Ok(()) => self.ret(c, &[0]),
                    Err((_, v)) => self.ret(c, &[1, v.id]),
                }
            }
            Op::Rem(k) => {
                let c = self.call("rem", *k, 0, 0, 0, &[]);
                let r = ca.remove(q(*k)).map_or(0, |(kk, v)| if kk.k() == *k { v.id } else { -9 });
                self.ret(c, &[r]);
            }
            Op::Ret(ks) => {
                let c = self.call("ret", 0, 0, 0, 0, ks);
                ca.retain(|k, _| !ks.contains(&k.k()));
                self.ret(c, &[]);
            }
            Op::Clr => {
                let c = self.call("clr", 0, 0, 0, 0, &[]);
                ca.clear();
                self.ret(c, &[]);
            }
            Op::Sleep(us) => std::thread::sleep(Duration::from_micros(*us)),
            Op::PokeFor { whom, every, total } => {
                let t = Instant::now();
                while t.elapsed() < Duration::from_micros(*total) {
                    std::thread::sleep(Duration::from_micros(*every));
                    self.op(&Op::Poke(*whom));
                }
            }
            Op::Join { k, timed, hold, end } => {
                // tm: 0 untimed, otherwise one more than the timeout (in microseconds, up to 1000 s)
                let c = self.call("jn", *k, 0, 0, timed.map_or(0, |t| t.min(1_000_000_000) + 1), &[]);
                let start = Instant::now();
                let t = timed.map(|t| if t == u64::MAX { Duration::MAX } else { Duration::from_micros(t) });
                let r = ca.get_value_or_guard(q(*k), t);
                if let Some(t) = t {
                    let late = start.elapsed().saturating_sub(t).as_micros() as u64;
                    let mut l = self.log.lock().unwrap();
                    l.late = l.late.max(late);
                }
                match r {
                    GuardResult::Value(v) => self.ret(c, &[1, v.id]),
                    GuardResult::Timeout => self.ret(c, &[3]),
                    GuardResult::Guard(g) => {
                        self.ret(c, &[2]);
                        self.end_guard(g, c, *k, hold, end)
                    }
                }
            }
            Op::Goi { k, out, hold } => {
                let c = self.call("goi", *k, 0, 0, 0, &[]);
                let run = || ca.get_or_insert_with(q(*k), || self.loader(c, *out, hold));
                #[cfg(feature = "shut")]
                let r = Ok::<_, ()>(run());
                #[cfg(not(feature = "shut"))]
                let r = catch_unwind(AssertUnwindSafe(run));
                match r {
                    Ok(Ok(v)) => self.ret(c, &[1, v.id]),
                    Ok(Err(())) => self.ret(c, &[5]),
                    Err(_) => self.ret(c, &[4]),
                }
            }
            Op::Fj { k, eager, cancel, hold, end } => {
                let c = self.call("fj", *k, 0, 0, 0, &[]);
                let f = self.join_future(*k);
                if let Some(Err(g)) = self.drive(c, f, None, *eager, *cancel, Self::join_res) {
                    self.end_guard(g, c, *k, hold, end);
                }
            }
            Op::Ga { k, out, yields, eager, cancel } => {
                let c = self.call("ga", *k, 0, 0, 0, &[]);
                let (me, out, yields) = (self.clone(), *out, *yields);
                let load = async move {
                    me.ev(format!("{{\"e\":\"lb\",\"c\":{c}}}"));
                    for _ in 0..yields {
                        YieldOnce(false).await
                    }
                    me.ev(format!("{{\"e\":\"le\",\"c\":{c},\"v\":{out}}}"));
                    match out {
                        0 => Err(()),
                        -1 => panic!("loader"),
                        id => Ok(V::new(id)),
                    }
                };
                let f: Pin<Box<dyn Future<Output = Result<V, ()>> + Send>> = Box::pin(ca.get_or_insert_async(q(*k), load));
                self.drive(c, f, None, *eager, *cancel, |r| match r {
                    Ok(Ok(v)) => vec![1, v.id],
                    Ok(Err(())) => vec![5],
                    Err(()) => vec![4],
                });
            }
            Op::Put { k, slot, end } => {
                let c = self.call("fj", *k, 0, 0, 0, &[]);
                let mut f = self.join_future(*k);
                let (cell, p) = self.poll(c, &mut f);
                let mv = match p {
                    Poll::Ready(t) => {
                        self.pe(c, &Self::join_res(&t));
                        if let Ok(Err(g)) = t {
                            self.end_guard(g, c, *k, &[], end);
                        }
                        None
                    }
                    Poll::Pending => {
                        self.pe(c, &[3]);
                        Some((c, f, cell))
                    }
                };
                let s = &self.slots[*slot];
                *s.m.lock().unwrap() = Some(mv);
                s.cv.notify_one();
            }
            Op::Take { k, slot, cancel, end } => {
                let s = &self.slots[*slot];
                let mv = {
                    let mut g = s.m.lock().unwrap();
                    while g.is_none() {
                        g = s.cv.wait(g).unwrap();
                    }
                    g.take().unwrap()
                };
                if let Some((c, f, cell)) = mv {
                    let (eager, cancel) = if *cancel { (0, Some(1)) } else { (1, None) };
                    if let Some(Err(g)) = self.drive(c, f, Some(cell), eager, cancel, Self::join_res) {
                        self.end_guard(g, c, *k, &[], end);
                    }
                }
            }
        }
    }
}
struct YieldOnce(bool);
impl Future for YieldOnce {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if std::mem::replace(&mut self.0, true) {
            Poll::Ready(())
        } else {
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}

fn build(p: &Prog) -> &'static C {
    let o = OptionsBuilder::new()
        .shards(p.shards)
        .estimated_items_capacity(if p.shards > 1 { 1000 } else { p.cap as usize })
        .weight_capacity(p.cap)
        .build()
        .unwrap();
    Box::leak(Box::new(Cache::with_options(o, UnitWeighter, Hb { collide: p.collide }, DefaultLifecycle::default())))
}

/// the two kinds of programs
#[derive(Clone)]
pub enum Any {
    Load(Prog),
    Cap(crate::cap::Prog),
}
impl Any {
    fn execute(&self, log: SharedLog, seed: u64) {
        match self {
            Any::Load(p) => execute(p, log, seed),
            Any::Cap(p) => p.execute(log, seed),
        }
    }
    #[cfg(feature = "shut")]
    fn small(&self) -> bool {
        match self {
            Any::Load(p) => p.small(),
            Any::Cap(p) => p.small(),
        }
    }
    #[cfg(not(feature = "shut"))]
    fn stamps(&self) -> bool {
        matches!(self, Any::Load(p) if p.stamps)
    }
    pub fn head(&self) -> String {
        match self {
            Any::Load(p) => format!("\"nk\":{},\"ev\":{}", p.nk, p.ev as u8),
            Any::Cap(p) => p.head(),
        }
    }
}

/// one execution; the caller owns the log, so that it survives a panic
fn execute(p: &Prog, log: SharedLog, seed: u64) {
    let (bk, bv) = (LIVE_K.load(SeqCst), LIVE_V.load(SeqCst));
    let cx = Ctx {
        tid: p.threads.len(),
        cache: build(p),
        log,
        slots: Arc::new((0..p.slots).map(|_| Slot::default()).collect()),
        threads: Arc::new(std::sync::Mutex::new(vec![None; p.threads.len()])),
        rng: Arc::new(AtomicI64::new(seed as i64)),
    };
    cx.ops(&p.pre);
    let start = Arc::new(AtomicI64::new(p.threads.len() as i64));
    let hs: Vec<_> = p
        .threads
        .iter()
        .enumerate()
        .map(|(i, t)| {
            let (mut cx, t, start) = (cx.clone(), t.clone(), start.clone());
            cx.tid = i;
            thread::spawn(move || {
                cx.threads.lock().unwrap()[i] = Some(thread::current());
                start.fetch_sub(1, SeqCst);
                #[cfg(not(feature = "shut"))]
                for i in 0.. {
                    if start.load(SeqCst) <= 0 {
                        break;
                    }
                    if i > 200 {
                        thread::yield_now();
                    }
                    std::hint::spin_loop();
                }
                cx.ops(&t);
            })
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            cx.ev("{\"e\":\"panic\"}".into());
        }
    }
    for k in 1..=p.nk {
        cx.op(&Op::Peek(k));
    }
    let (h, m) = (cx.cache.hits(), cx.cache.misses());
    let (lk, lv) = (LIVE_K.load(SeqCst) - bk, LIVE_V.load(SeqCst) - bv);
    cx.ev(format!("{{\"e\":\"end\",\"h\":{h},\"m\":{m},\"lk\":{lk},\"lv\":{lv}}}"));
    // all threads are gone and nothing borrows the cache any more
    drop(unsafe { Box::from_raw(cx.cache as *const C as *mut C) });
}

#[cfg(feature = "shut")]
pub fn run(p: &Any, seed: u64, iters: usize, sink: &mut dyn FnMut(History)) {
    use shuttle::scheduler::{DfsScheduler, PctScheduler, RandomScheduler, Scheduler};
    let current: Arc<std::sync::Mutex<SharedLog>> = Default::default();
    let done: Arc<std::sync::Mutex<Vec<History>>> = Default::default();
    let n = |x: usize| (iters * x / 100).max(1);
    let mut r = Rng::new(seed);
    let mut todo: Vec<Box<dyn Scheduler + Send>> = vec![
        Box::new(RandomScheduler::new_from_seed(r.next(), n(45))),
        Box::new(PctScheduler::new_from_seed(r.next(), 2, n(15))),
        Box::new(PctScheduler::new_from_seed(r.next(), 3, n(15))),
        Box::new(PctScheduler::new_from_seed(r.next(), 5, n(10))),
    ];
    if p.small() {
        todo.push(Box::new(DfsScheduler::new(Some(n(300)), false)));
    } else {
        todo.push(Box::new(RandomScheduler::new_from_seed(r.next(), n(15))));
    }
    for sch in todo {
        let mut cfg = shuttle::Config::new();
        cfg.failure_persistence = shuttle::FailurePersistence::None;
        cfg.max_steps = shuttle::MaxSteps::FailAfter(200_000);
        let runner = shuttle::Runner::new(sch, cfg);
        let (pr, cur, dn) = (p.clone(), current.clone(), done.clone());
        let res = catch_unwind(AssertUnwindSafe(move || {
            runner.run(move || {
                let log: SharedLog = Default::default();
                *cur.lock().unwrap() = log.clone();
                pr.execute(log.clone(), seed);
                let h = log.lock().unwrap().finish(false);
                dn.lock().unwrap().push(h);
            })
        }));
        for h in done.lock().unwrap().drain(..) {
            sink(h);
        }
        if let Err(x) = res {
            let msg = x.downcast_ref::<String>().cloned().or(x.downcast_ref::<&str>().map(|s| s.to_string()));
            let msg = msg.unwrap_or_default();
            // no thread can run, or they run forever; anything else is a panic of the code
            let dead = msg.contains("deadlock") || msg.contains("max_steps");
            let log = current.lock().unwrap().clone();
            let mut l = log.lock().unwrap_or_else(|e| e.into_inner());
            l.push(format!("{{\"e\":\"{}\"}}", if dead { "dead" } else { "panic" }));
            sink(l.finish(true));
            return;
        }
    }
}
#[cfg(not(feature = "shut"))]
pub fn run(p: &Any, seed: u64, iters: usize, sink: &mut dyn FnMut(History)) {
    let mut r = Rng::new(seed);
    for _ in 0..iters {
        let log: SharedLog = Default::default();
        log.lock().unwrap().since = p.stamps().then(Instant::now);
        let (tx, rx) = std::sync::mpsc::channel();
        let (pr, l, s) = (p.clone(), log.clone(), r.next());
        std::thread::spawn(move || {
            pr.execute(l, s);
            let _ = tx.send(());
        });
        let fin = rx.recv_timeout(Duration::from_secs(30)).is_ok();
        let mut l = log.lock().unwrap_or_else(|e| e.into_inner());
        if !fin {
            l.push("{\"e\":\"dead\"}".into());
        }
        sink(l.finish(!fin));
        if !fin {
            return;
        }
    }
}
