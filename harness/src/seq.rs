//! Sequential driver: executes commands against a real cache and records events.
use crate::rng::Rng;
use crate::types::*;
use quick_cache::sync::{GuardResult, PlaceholderGuard};
use quick_cache::{sync, unsync, OptionsBuilder};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, OnceLock};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

pub type UCache = unsync::Cache<K, V, We, Hb, Lc>;
pub type SCache = sync::Cache<K, V, We, Hb, Lc>;
pub type SGuard = PlaceholderGuard<'static, K, V, We, Hb, Lc>;
type SFut = Pin<Box<dyn Future<Output = Result<V, SGuard>>>>;

pub const MAXU: usize = 320;
/// weights of up to 32 units fit 64 bits
pub const HUGE: u64 = 1 << 59;
/// statically allocated borrowed keys
pub fn q(k: i64) -> &'static Q {
    static QS: OnceLock<Vec<Q>> = OnceLock::new();
    &QS.get_or_init(|| (0..=MAXU as i64).map(Q).collect())[k as usize]
}

/// payload of panics raised by the harness's own closures
pub struct OurPanic;

#[derive(Clone, Debug)]
pub struct Cfg {
    /// 0 unsync, 1 sync
    pub api: i64,
    pub u: usize,
    pub cap: i64,
    pub scale: u64,
    pub hot: f64,
    pub ghost: f64,
    pub est: usize,
    pub hm: u8,
    pub stash: bool,
    pub shards: usize,
    /// as built: number of shards, capacity of each (in units of `scale`)
    pub nsh: i64,
    pub scap: i64,
}
impl Cfg {
    pub fn thot(&self) -> i64 {
        let cap = if self.nsh > 1 { self.scap } else { self.cap };
        ((((cap as u64 * self.scale) as f64) * self.hot) as u64 / self.scale) as i64
    }
    pub fn total_cap(&self) -> i64 {
        if self.nsh > 1 {
            self.scap * self.nsh
        } else {
            self.cap
        }
    }
    pub fn gcap(&self) -> i64 {
        (self.est as f64 * self.ghost) as i64
    }
    pub fn options(&self) -> quick_cache::Options {
        let mut b = OptionsBuilder::new();
        b.estimated_items_capacity(self.est).weight_capacity(self.cap as u64 * self.scale).shards(self.shards);
        // the documented defaults are left to the crate
        if self.hot != 0.97 {
            b.hot_allocation(self.hot);
        }
        if self.ghost != 0.5 {
            b.ghost_allocation(self.ghost);
        }
        b.build().unwrap()
    }
    /// can be built with `Cache::with`, which has one shard for so few items
    fn plain(&self) -> bool {
        self.hot == 0.97 && self.ghost == 0.5 && self.shards == 1 && self.est < 64
    }
    pub fn enc(&self) -> String {
        format!(
            "new {} {} {} {} {} {} {} {} {} {}",
            self.api, self.u, self.cap, self.scale, self.hot, self.ghost, self.est, self.hm, self.stash as u8, self.shards
        )
    }
    pub fn dec(s: &str) -> Cfg {
        let f: Vec<&str> = s.split_whitespace().collect();
        Cfg {
            api: f[1].parse().unwrap(),
            u: f[2].parse().unwrap(),
            cap: f[3].parse().unwrap(),
            scale: f[4].parse().unwrap(),
            hot: f[5].parse().unwrap(),
            ghost: f[6].parse().unwrap(),
            est: f[7].parse().unwrap(),
            hm: f[8].parse().unwrap(),
            stash: f[9] == "1",
            shards: f[10].parse().unwrap(),
            nsh: 1,
            scap: 0,
        }
    }
    pub fn we(&self) -> We {
        We { scale: self.scale }
    }
    pub fn hb(&self) -> Hb {
        Hb { mode: self.hm }
    }
    pub fn lc(&self) -> Lc {
        Lc { stash: self.stash }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Cmd {
    pub o: String,
    pub k: i64,
    pub f: i64,
    pub b: i64,
    pub v: [i64; 4],
    pub u: Option<[i64; 4]>,
    pub ks: Vec<i64>,
    pub g: i64,
}
fn list(xs: &[i64]) -> String {
    let mut s = String::with_capacity(xs.len() * 3 + 2);
    s.push('[');
    for (i, x) in xs.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "{x}");
    }
    s.push(']');
    s
}
impl Cmd {
    pub fn new(o: &str) -> Cmd {
        Cmd { o: o.into(), ..Default::default() }
    }
    pub fn enc(&self) -> String {
        let j = |xs: &[i64]| xs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        format!(
            "{} {} {} {} {} {} {} {}",
            self.o,
            self.k,
            self.f,
            self.b,
            j(&self.v),
            self.u.map_or("-".into(), |u| j(&u)),
            if self.ks.is_empty() { "-".into() } else { j(&self.ks) },
            self.g
        )
    }
    pub fn dec(s: &str) -> Cmd {
        let f: Vec<&str> = s.split_whitespace().collect();
        let l = |s: &str| -> Vec<i64> {
            if s == "-" {
                vec![]
            } else {
                s.split(',').map(|x| x.parse().unwrap()).collect()
            }
        };
        let a4 = |v: Vec<i64>| [v[0], v[1], v[2], v[3]];
        Cmd {
            o: f[0].into(),
            k: f[1].parse().unwrap(),
            f: f[2].parse().unwrap(),
            b: f[3].parse().unwrap(),
            v: a4(l(f[4])),
            u: if f[5] == "-" { None } else { Some(a4(l(f[5]))) },
            ks: l(f[6]),
            g: f[7].parse().unwrap(),
        }
    }
    fn json_head(&self) -> String {
        let mut s = String::with_capacity(256);
        let _ = write!(
            s,
            "{{\"o\":\"{}\",\"k\":{},\"f\":{},\"b\":{},\"v\":{},\"u\":{},\"ks\":{},\"g\":{}",
            self.o,
            self.k,
            self.f,
            self.b,
            list(&self.v),
            self.u.map_or("[]".into(), |u| list(&u)),
            list(&self.ks),
            self.g
        );
        s
    }
}

#[derive(Clone, Debug, Default)]
pub struct Snap {
    pub i: Vec<i64>,
    pub w: Vec<i64>,
    pub it: Vec<i64>,
    pub ck: Vec<i64>,
    pub n: i64,
    pub t: i64,
    pub e: i64,
    pub lk: i64,
    pub lv: i64,
    pub h: i64,
    pub m: i64,
    pub cp: i64,
    /// what before_evict does to each value (not recorded)
    pub z: Vec<i64>,
}

pub struct Flag(AtomicBool);
impl Flag {
    pub fn new() -> Arc<Flag> {
        Arc::new(Flag(AtomicBool::new(false)))
    }
    pub fn get(&self) -> bool {
        self.0.load(Ordering::SeqCst)
    }
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
}

pub enum Sut {
    U(Box<UCache>),
    S(SState),
}
pub struct SState {
    pub cache: &'static SCache,
    pub guards: BTreeMap<i64, (i64, SGuard)>,
    pub futs: BTreeMap<i64, (i64, SFut, Arc<Flag>)>,
}

pub struct Out {
    pub r: Vec<i64>,
    /// per key observations (retain visits, drained ids) or resolved waiters
    pub x: Vec<i64>,
}

pub struct Driver {
    pub cfg: Cfg,
    pub sut: Option<Sut>,
    pub base_k: i64,
    pub base_v: i64,
    pub ops: u64,
    pub panicked: bool,
}

fn r1(x: i64) -> Out {
    Out { r: vec![x], x: vec![] }
}
fn r2(x: i64, y: i64) -> Out {
    Out { r: vec![x, y], x: vec![] }
}
fn unit() -> Out {
    Out { r: vec![], x: vec![] }
}
fn give_back(mut q: Req) {
    q.done = true;
    cb(6, 0, 0, 0, 0, q.id);
}
fn run_closure(f: i64, v: [i64; 4]) -> Result<V, ()> {
    match f {
        0 => Ok(V::new(v)),
        1 => Err(()),
        _ => std::panic::panic_any(OurPanic),
    }
}

macro_rules! lookup {
    ($cache:expr, $m:ident, $c:expr) => {
        if $c.b == 1 {
            $cache.$m(q($c.k))
        } else {
            let key = K::new($c.k);
            $cache.$m(&key)
        }
    };
}

impl Driver {
    pub fn new(mut cfg: Cfg) -> Driver {
        reset_recording();
        let base_k = LIVE_K.with(|c| c.get());
        let base_v = LIVE_V.with(|c| c.get());
        let sut = if cfg.api == 0 {
            Sut::U(Box::new(if cfg.plain() {
                UCache::with(cfg.est, cfg.cap as u64 * cfg.scale, cfg.we(), cfg.hb(), cfg.lc())
            } else {
                UCache::with_options(cfg.options(), cfg.we(), cfg.hb(), cfg.lc())
            }))
        } else {
            let c = if cfg.plain() {
                SCache::with(cfg.est, cfg.cap as u64 * cfg.scale, cfg.we(), cfg.hb(), cfg.lc())
            } else {
                SCache::with_options(cfg.options(), cfg.we(), cfg.hb(), cfg.lc())
            };
            cfg.nsh = c.num_shards() as i64;
            cfg.scap = (c.shard_capacity() / cfg.scale) as i64;
            Sut::S(SState { cache: Box::leak(Box::new(c)), guards: BTreeMap::new(), futs: BTreeMap::new() })
        };
        Driver { cfg, sut: Some(sut), base_k, base_v, ops: 0, panicked: false }
    }

    pub fn snap(&mut self) -> Snap {
        let u = self.cfg.u;
        let mut s = Snap { it: vec![0; u], ..Default::default() };
        let owned = self.ops / 2 % 2 == 0;
        let sc = self.cfg.scale;
        let unscale = |x: u64| if x % sc == 0 && x / sc < (1 << 30) { (x / sc) as i64 } else { -5 };
        match self.sut.as_mut().unwrap() {
            Sut::U(c) => {
                for k in 1..=u as i64 {
                    let p = if owned { c.peek(&K::new(k)).map(|v| (v.id, v.w, v.z)) } else { c.peek(q(k)).map(|v| (v.id, v.w, v.z)) };
                    let (i, w, z) = p.unwrap_or((0, 0, -1));
                    s.z.push(z);
                    s.i.push(i);
                    s.w.push(w);
                    s.ck.push(if owned { c.contains_key(q(k)) } else { c.contains_key(&K::new(k)) } as i64);
                }
                for (k, v) in c.iter() {
                    let k = k.k();
                    if k < 1 || k > u as i64 {
                        s.it[0] = -1;
                    } else {
                        let e = &mut s.it[k as usize - 1];
                        *e = if *e == 0 { v.id } else { -1 };
                    }
                }
                s.n = c.len() as i64;
                s.t = unscale(c.weight());
                s.e = c.is_empty() as i64;
                s.h = c.hits() as i64;
                s.m = c.misses() as i64;
                s.cp = unscale(c.capacity());
            }
            Sut::S(st) => {
                let c = st.cache;
                for k in 1..=u as i64 {
                    let p = if owned { c.peek(&K::new(k)) } else { c.peek(q(k)) };
                    let (i, w, z) = p.map(|v| (v.id, v.w, v.z)).unwrap_or((0, 0, -1));
                    s.z.push(z);
                    s.i.push(i);
                    s.w.push(w);
                    s.ck.push(if owned { c.contains_key(q(k)) } else { c.contains_key(&K::new(k)) } as i64);
                }
                // the sync cache has no iterator: a retain that keeps everything visits all
                // items; every other time only, so that it cannot hide what a call did
                if self.ops % 2 == 0 {
                    let it = std::cell::RefCell::new(&mut s.it);
                    c.retain(|k, v| {
                        visit(&mut it.borrow_mut(), k.k(), v.id, u as i64);
                        true
                    });
                } else {
                    s.it.clone_from(&s.i);
                }
                s.n = c.len() as i64;
                s.t = unscale(c.weight());
                s.e = c.is_empty() as i64;
                s.h = c.hits() as i64;
                s.m = c.misses() as i64;
                s.cp = unscale(c.capacity());
            }
        }
        s.lk = LIVE_K.with(|c| c.get()) - self.base_k;
        s.lv = LIVE_V.with(|c| c.get()) - self.base_v;
        s
    }

    fn visits(&self) -> Vec<i64> {
        vec![0; self.cfg.u]
    }

    fn exec_u(&mut self, c: &Cmd) -> Out {
        let mut vis = self.visits();
        let u = self.cfg.u as i64;
        let Some(Sut::U(cache)) = self.sut.as_mut() else { unreachable!() };
        match c.o.as_str() {
            "get" => r1(lookup!(cache, get, c).map_or(0, |v| v.id)),
            "peek" => r1(lookup!(cache, peek, c).map_or(0, |v| v.id)),
            "has" => r1(lookup!(cache, contains_key, c) as i64),
            "gmu" | "pmu" => {
                let m = if c.o == "gmu" { lookup!(cache, get_mut, c) } else { lookup!(cache, peek_mut, c) };
                match m {
                    None => r1(0),
                    Some(mut m) => {
                        let id = m.id;
                        if let Some(u) = c.u {
                            *m = V::new(u);
                        }
                        r1(id)
                    }
                }
            }
            "ins" => {
                if c.f == 1 {
                    give_back(cache.insert_with_lifecycle(K::new(c.k), V::new(c.v)))
                } else {
                    cache.insert(K::new(c.k), V::new(c.v))
                }
                unit()
            }
            "rep" => {
                let r = if c.f / 2 == 1 {
                    cache.replace_with_lifecycle(K::new(c.k), V::new(c.v), c.f % 2 == 1).map(give_back)
                } else {
                    cache.replace(K::new(c.k), V::new(c.v), c.f % 2 == 1)
                };
                match r {
                    Ok(()) => r1(0),
                    Err((k, v)) => Out { r: vec![1, k.k(), v.id], x: vec![] },
                }
            }
            "rem" => lookup!(cache, remove, c).map_or(r2(0, 0), |(k, v)| r2(k.k(), v.id)),
            "ret" => {
                let vc = std::cell::RefCell::new(&mut vis);
                cache.retain(|k, v| {
                    visit(&mut vc.borrow_mut(), k.k(), v.id, u);
                    !c.ks.contains(&k.k())
                });
                Out { r: vec![], x: vis }
            }
            "clr" => {
                cache.clear();
                unit()
            }
            "drn" => {
                let mut d = cache.drain();
                let mut n = 0;
                while n < c.f {
                    let Some((k, v)) = d.next() else { break };
                    visit(&mut vis, k.k(), v.id, u);
                    n += 1;
                }
                drop(d);
                Out { r: vec![n], x: vis }
            }
            "rsv" => {
                cache.reserve(c.f as usize);
                unit()
            }
            "nop" => unit(),
            "goi" => {
                let called = std::cell::Cell::new(false);
                let f = || {
                    called.set(true);
                    run_closure(c.f, c.v)
                };
                let r = if c.b == 1 { cache.get_or_insert_with(q(c.k), f) } else { cache.get_or_insert_with(&K::new(c.k), f) };
                let mut o = match r {
                    Ok(Some(v)) => r2(1, v.id),
                    Ok(None) => r1(2),
                    Err(()) => r1(3),
                };
                o.x = vec![called.get() as i64];
                o
            }
            "gmi" => {
                let called = std::cell::Cell::new(false);
                let f = || {
                    called.set(true);
                    run_closure(c.f, c.v)
                };
                let r = if c.b == 1 { cache.get_mut_or_insert_with(q(c.k), f) } else { cache.get_mut_or_insert_with(&K::new(c.k), f) };
                let mut o = match r {
                    Ok(Some(mut v)) => {
                        let id = v.id;
                        if let Some(u) = c.u {
                            *v = V::new(u);
                        }
                        r2(1, id)
                    }
                    Ok(None) => r1(2),
                    Err(()) => r1(3),
                };
                o.x = vec![called.get() as i64];
                o
            }
            "gui" => {
                let r = if c.b == 1 { cache.get_ref_or_guard(q(c.k)) } else { cache.get_ref_or_guard(&K::new(c.k)) };
                match r {
                    Ok(v) => r2(1, v.id),
                    Err(g) => {
                        match c.f {
                            1 => g.insert(V::new(c.v)),
                            2 => give_back(g.insert_with_lifecycle(V::new(c.v))),
                            _ => drop(g),
                        }
                        r1(5)
                    }
                }
            }
            "gum" => {
                let r = if c.b == 1 { cache.get_mut_or_guard(q(c.k)) } else { cache.get_mut_or_guard(&K::new(c.k)) };
                match r {
                    Ok(Some(mut m)) => {
                        let id = m.id;
                        if let Some(u) = c.u {
                            *m = V::new(u);
                        }
                        r2(1, id)
                    }
                    Ok(None) => r1(7),
                    Err(g) => {
                        match c.f {
                            1 => g.insert(V::new(c.v)),
                            2 => give_back(g.insert_with_lifecycle(V::new(c.v))),
                            _ => drop(g),
                        }
                        r1(5)
                    }
                }
            }
            o => panic!("unknown op {o}"),
        }
    }

    fn exec_s(&mut self, c: &Cmd) -> Out {
        let mut vis = self.visits();
        let u = self.cfg.u as i64;
        let Some(Sut::S(st)) = self.sut.as_mut() else { unreachable!() };
        let cache = st.cache;
        match c.o.as_str() {
            "get" => r1(lookup!(cache, get, c).map_or(0, |v| v.id)),
            "peek" => r1(lookup!(cache, peek, c).map_or(0, |v| v.id)),
            "has" => r1(lookup!(cache, contains_key, c) as i64),
            "ins" => {
                if c.f == 1 {
                    give_back(cache.insert_with_lifecycle(K::new(c.k), V::new(c.v)))
                } else {
                    cache.insert(K::new(c.k), V::new(c.v))
                }
                unit()
            }
            "rep" => {
                let r = if c.f / 2 == 1 {
                    cache.replace_with_lifecycle(K::new(c.k), V::new(c.v), c.f % 2 == 1).map(give_back)
                } else {
                    cache.replace(K::new(c.k), V::new(c.v), c.f % 2 == 1)
                };
                match r {
                    Ok(()) => r1(0),
                    Err((k, v)) => Out { r: vec![1, k.k(), v.id], x: vec![] },
                }
            }
            "rem" => lookup!(cache, remove, c).map_or(r2(0, 0), |(k, v)| r2(k.k(), v.id)),
            "ret" => {
                let vc = std::cell::RefCell::new(&mut vis);
                cache.retain(|k, v| {
                    visit(&mut vc.borrow_mut(), k.k(), v.id, u);
                    !c.ks.contains(&k.k())
                });
                Out { r: vec![], x: vis }
            }
            "clr" => {
                cache.clear();
                unit()
            }
            "rsv" => {
                cache.reserve(c.f as usize);
                unit()
            }
            "nop" => unit(),
            "goi" => {
                let called = std::cell::Cell::new(false);
                let f = || {
                    called.set(true);
                    run_closure(c.f, c.v)
                };
                let r = if c.b == 1 { cache.get_or_insert_with(q(c.k), f) } else { cache.get_or_insert_with(&K::new(c.k), f) };
                let mut o = match r {
                    Ok(v) => r2(1, v.id),
                    Err(()) => r1(3),
                };
                o.x = vec![called.get() as i64];
                o
            }
            "ga" => {
                // get_or_insert_async with a loader that is ready at once
                let called = std::cell::Cell::new(false);
                let f = async {
                    called.set(true);
                    run_closure(c.f, c.v)
                };
                let mut fut = Box::pin(cache.get_or_insert_async(q(c.k), f));
                let flag = Flag::new();
                let waker = Waker::from(flag);
                let r = fut.as_mut().poll(&mut Context::from_waker(&waker));
                drop(fut);
                let mut o = match r {
                    Poll::Ready(Ok(v)) => r2(1, v.id),
                    Poll::Ready(Err(())) => r1(3),
                    Poll::Pending => r1(6),
                };
                o.x = vec![called.get() as i64];
                o
            }
            "jn" => {
                let t = Some(Duration::ZERO);
                let r = if c.b == 1 { cache.get_value_or_guard(q(c.k), t) } else { cache.get_value_or_guard(&K::new(c.k), t) };
                match r {
                    GuardResult::Value(v) => r2(1, v.id),
                    GuardResult::Guard(g) => {
                        st.guards.insert(c.g, (c.k, g));
                        r2(2, c.g)
                    }
                    GuardResult::Timeout => r1(3),
                }
            }
            "wt" => {
                let mut fut: SFut = Box::pin(cache.get_value_or_guard_async(q(c.k)));
                let flag = Flag::new();
                let waker = Waker::from(flag.clone());
                match fut.as_mut().poll(&mut Context::from_waker(&waker)) {
                    Poll::Ready(Ok(v)) => r2(1, v.id),
                    Poll::Ready(Err(g)) => {
                        st.guards.insert(c.g, (c.k, g));
                        r2(2, c.g)
                    }
                    Poll::Pending => {
                        st.futs.insert(c.g, (c.k, fut, flag));
                        r1(3)
                    }
                }
            }
            "pl" => {
                // poll a waiting future again, with a new waker
                let (k, mut fut, _) = st.futs.remove(&c.g).unwrap();
                let flag = Flag::new();
                let waker = Waker::from(flag.clone());
                match fut.as_mut().poll(&mut Context::from_waker(&waker)) {
                    Poll::Ready(Ok(v)) => r2(1, v.id),
                    Poll::Ready(Err(g)) => {
                        st.guards.insert(c.g, (k, g));
                        r2(2, c.g)
                    }
                    Poll::Pending => {
                        st.futs.insert(c.g, (k, fut, flag));
                        r1(3)
                    }
                }
            }
            "uw" => {
                drop(st.futs.remove(&c.g).unwrap());
                unit()
            }
            "gin" => {
                let (_, g) = st.guards.remove(&c.g).unwrap();
                let r = if c.f == 1 { g.insert_with_lifecycle(V::new(c.v)).map(give_back) } else { g.insert(V::new(c.v)) };
                let r = match r {
                    Ok(()) => vec![0],
                    Err(v) => vec![1, v.id],
                };
                let x = st.poll_woken();
                Out { r, x }
            }
            "gdr" => {
                let (_, g) = st.guards.remove(&c.g).unwrap();
                if self.ops % 3 == 0 {
                    // given up by unwinding
                    let _ = catch_unwind(AssertUnwindSafe(move || {
                        let _g = g;
                        std::panic::panic_any(OurPanic)
                    }));
                } else {
                    drop(g);
                }
                let x = st.poll_woken();
                Out { r: vec![], x }
            }
            o => panic!("unknown op {o}"),
        }
    }

    /// Runs one command without observing the contents afterwards.
    pub fn step_raw(&mut self, c: &Cmd) -> (Out, Vec<[i64; 6]>) {
        self.ops += 1;
        crate::watch::beat();
        if c.o == "pin" {
            // flips whether the value of a key is pinned; not a call of the cache
            let id = self.peek_id(c.k);
            if id != 0 {
                set_pin(id, c.f == 1);
            }
            return (r1((id != 0) as i64), take_cbs());
        }
        let res = catch_unwind(AssertUnwindSafe(|| if self.cfg.api == 0 { self.exec_u(c) } else { self.exec_s(c) }));
        match res {
            Ok(o) => (o, take_cbs()),
            Err(p) if p.is::<OurPanic>() => (Out { r: vec![4], x: vec![1] }, take_cbs()),
            Err(_) => {
                self.panicked = true;
                (r1(-9), take_cbs())
            }
        }
    }
    /// Runs one command and observes the contents.
    pub fn step(&mut self, c: &Cmd) -> (Out, Vec<[i64; 6]>, Option<Snap>) {
        let (out, cbs) = self.step_raw(c);
        if self.panicked {
            return (out, cbs, None);
        }
        match catch_unwind(AssertUnwindSafe(|| self.snap())) {
            Ok(s) => {
                // snapshots must not call back
                let mut cbs = cbs;
                cbs.extend(take_cbs());
                (out, cbs, Some(s))
            }
            Err(_) => {
                self.panicked = true;
                (r1(-9), cbs, None)
            }
        }
    }
    /// A clone of an unsync cache.
    pub fn fork(&self) -> Driver {
        let Some(Sut::U(c)) = &self.sut else { unreachable!() };
        Driver {
            cfg: self.cfg.clone(),
            sut: Some(Sut::U(c.clone())),
            base_k: self.base_k,
            base_v: self.base_v,
            ops: self.ops,
            panicked: false,
        }
    }

    pub fn peek_id(&mut self, k: i64) -> i64 {
        match self.sut.as_ref().unwrap() {
            Sut::U(c) => c.peek(q(k)).map_or(0, |v| v.id),
            Sut::S(s) => s.cache.peek(q(k)).map_or(0, |v| v.id),
        }
    }

    /// Drops guards, futures and the cache; returns live keys and values afterwards.
    pub fn finish(mut self) -> Option<(i64, i64)> {
        let sut = self.sut.take().unwrap();
        if self.panicked {
            std::mem::forget(sut);
            return None;
        }
        let (bk, bv) = (self.base_k, self.base_v);
        let r = catch_unwind(AssertUnwindSafe(move || match sut {
            Sut::U(c) => drop(c),
            Sut::S(s) => {
                let SState { cache, guards, futs } = s;
                drop(guards);
                drop(futs);
                // Safety: leaked from a Box in `new`, and nothing borrows it any more
                drop(unsafe { Box::from_raw(cache as *const SCache as *mut SCache) });
            }
        }));
        take_cbs();
        match r {
            Ok(()) => Some((LIVE_K.with(|c| c.get()) - bk, LIVE_V.with(|c| c.get()) - bv)),
            Err(_) => None,
        }
    }
}

fn visit(vis: &mut [i64], k: i64, id: i64, u: i64) {
    if k < 1 || k > u {
        vis[0] = -1;
    } else {
        let e = &mut vis[k as usize - 1];
        *e = if *e == 0 { id } else { -1 };
    }
}

impl SState {
    /// Polls every future that was woken: flat list of (future, kind, what),
    /// kind 1 value id, 2 guard (named like the future), 3 still pending.
    fn poll_woken(&mut self) -> Vec<i64> {
        let mut x = vec![];
        loop {
            let Some((&f, _)) = self.futs.iter().find(|(_, (_, _, fl))| fl.get()) else { break };
            let (k, mut fut, _) = self.futs.remove(&f).unwrap();
            let flag = Flag::new();
            let waker = Waker::from(flag.clone());
            match fut.as_mut().poll(&mut Context::from_waker(&waker)) {
                Poll::Ready(Ok(v)) => x.extend([f, 1, v.id]),
                Poll::Ready(Err(g)) => {
                    self.guards.insert(f, (k, g));
                    x.extend([f, 2, f]);
                }
                Poll::Pending => {
                    self.futs.insert(f, (k, fut, flag));
                    x.extend([f, 3, 0]);
                }
            }
        }
        x
    }
}

pub fn json_new(cfg: &Cfg, seed: u64) -> String {
    format!(
        "{{\"o\":\"new\",\"api\":{},\"nk\":{},\"cap\":{},\"thot\":{},\"gcap\":{},\"inj\":{},\"sh\":{},\"hm\":{},\"seed\":{},\"cfg\":\"{}\"}}\n",
        cfg.api,
        cfg.u,
        cfg.total_cap(),
        cfg.thot(),
        cfg.gcap(),
        Hb { mode: cfg.hm }.injective() as i64,
        cfg.nsh,
        cfg.hm,
        seed % (1 << 30),
        cfg.enc()
    )
}
pub fn json_pending(c: &Cmd) -> String {
    let mut s = c.json_head();
    s.push_str(",\"r\":[-8]}");
    s
}
pub fn json_event(c: &Cmd, out: &Out, cbs: &[[i64; 6]], s: &Option<Snap>) -> String {
    json_event_of("", c, out, cbs, s)
}
pub fn json_event_of(extra: &str, c: &Cmd, out: &Out, cbs: &[[i64; 6]], s: &Option<Snap>) -> String {
    let mut l = c.json_head();
    l.push_str(extra);
    let _ = write!(l, ",\"r\":{},\"x\":{},\"c\":[", list(&out.r), list(&out.x));
    for (n, c) in cbs.iter().enumerate() {
        if n > 0 {
            l.push(',');
        }
        l.push_str(&list(c));
    }
    l.push(']');
    if let Some(s) = s {
        let _ = write!(
            l,
            ",\"i\":{},\"w\":{},\"it\":{},\"ck\":{},\"n\":{},\"t\":{},\"e\":{},\"lk\":{},\"lv\":{},\"h\":{},\"m\":{},\"cp\":{}",
            list(&s.i),
            list(&s.w),
            list(&s.it),
            list(&s.ck),
            s.n,
            s.t,
            s.e,
            s.lk,
            s.lv,
            s.h,
            s.m,
            s.cp
        );
    }
    l.push_str("}\n");
    l
}

// ---------------------------------------------------------------------------
// Random workloads

pub const UOPS: &[&str] = &[
    "get", "peek", "has", "ins", "rep", "rem", "ret", "clr", "drn", "rsv", "gmu", "pmu", "goi", "gmi", "gui", "gum", "pin",
];
pub const SOPS: &[&str] = &[
    "get", "peek", "has", "ins", "rep", "rem", "ret", "clr", "rsv", "goi", "ga", "jn", "wt", "uw", "pl", "gin", "gdr", "pin",
];

/// What the generator believes; only used to choose sensible commands.
pub struct Gen {
    pub rng: Rng,
    pub cfg: Cfg,
    pub next_id: i64,
    pub next_g: i64,
    pub ids: Vec<i64>,
    pub ws: Vec<i64>,
    pub total: i64,
    pub guards: BTreeMap<i64, i64>,
    pub futs: BTreeMap<i64, i64>,
    /// placeholder (name of its first guard) of keys whose load is pending
    pub pend: BTreeMap<i64, i64>,
    pub opw: Vec<u32>,
    pub wmode: u64,
    pub pinp: u64,
    pub zp: u64,
    pub keyskew: u64,
    pub hotset: i64,
    /// guards and futures at the same time
    pub many: usize,
    /// queued calls: (insert rather than get, key); bursts begin with this probability (per mille)
    pub burst: Vec<(bool, i64)>,
    pub burstp: u64,
}

pub fn gen_cfg(rng: &mut Rng, focus: &str) -> Cfg {
    let api = match focus {
        "unsync" => 0,
        "sync" | "guards" | "shards" | "wide" => 1,
        _ => rng.below(2) as i64,
    };
    let big = rng.chance(8);
    let u = if big { rng.range(12, 40) } else { *rng.pick(&[2, 3, 4, 4, 5, 5, 6, 6, 8, 10]) } as usize;
    let cap = if big { rng.range(5, 30) } else { *rng.pick(&[0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 7, 8, 10, 12]) };
    let hot = *rng.pick(&[0.0, 0.25, 0.34, 0.5, 0.5, 0.5, 0.67, 0.67, 0.75, 0.8, 0.9, 0.97, 0.97, 1.0, 1.0]);
    let ghost = *rng.pick(&[0.0, 0.25, 0.5, 0.5, 1.0, 1.0]);
    let est = *rng.pick(&[0, 1, 2, 2, 3, 4, 4, 5, 6, 8, 10]);
    let hm = if focus == "big" { *rng.pick(&[0, 1]) } else if focus == "exact" { *rng.pick(&[0, 0, 1, 5]) } else { *rng.pick(&[0, 0, 1, 1, 2, 3, 4, 5, 6, 7]) };
    let scale = *rng.pick(&[1, 1, 1, 1, 1, 1, 3, 1000, 1 << 40]);
    let mut cfg = Cfg { api, u, cap, scale, hot, ghost, est, hm, stash: rng.chance(30), shards: 1, nsh: 1, scap: 0 };
    if focus == "shards" {
        cfg.shards = *rng.pick(&[1, 2, 2, 3, 4, 4, 8]);
        cfg.est = *rng.pick(&[0, 31, 32, 33, 63, 64, 65, 100, 128, 256, 300]);
        cfg.cap = rng.range(1, 64);
        cfg.u = *rng.pick(&[5, 8, 12, 24, 40, 60]);
        cfg.hm = *rng.pick(&[0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 7]);
        cfg.scale = 1;
    }
    if focus == "wide" {
        cfg.shards = *rng.pick(&[2, 5, 8, 9, 16, 16, 17, 32, 64, 100, 128]);
        cfg.est = *rng.pick(&[0, 64, 300, 512, 1000, 1024, 2000, 4096, 5000]);
        cfg.cap = rng.range(1, 300);
        cfg.u = *rng.pick(&[16, 40, 60, 90]);
        cfg.hm = *rng.pick(&[0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 7]);
        cfg.scale = 1;
    }
    if focus == "big" {
        // long lists: many more items than the other traces have
        cfg.u = *rng.pick(&[90, 140, 200, 300]);
        cfg.cap = *rng.pick(&[20, 70, 80, 130, 200]);
        cfg.est = *rng.pick(&[20, 70, 100, 140, 300]);
        cfg.hot = *rng.pick(&[0.5, 0.8, 0.97, 1.0]);
        cfg.ghost = *rng.pick(&[0.3, 0.5, 1.0]);
    }
    if focus == "long" {
        cfg.u = rng.range(8, 60) as usize;
        cfg.cap = rng.range(3, 40);
        cfg.est = *rng.pick(&[0, 3, 10, 20, 40, 64]);
    }
    if cfg.cap <= 9 && cfg.scale > 1 && rng.chance(25) {
        // sums of weights up to 64 bits; see Gen::new
        cfg.scale = HUGE;
    }
    cfg
}

impl Gen {
    pub fn new(mut rng: Rng, cfg: Cfg, focus: &str) -> Gen {
        let ops = if cfg.api == 0 { UOPS } else { SOPS };
        // swarm: each operation is often, seldom or never used in a trace
        let mut opw: Vec<u32> = ops
            .iter()
            .map(|o| {
                let base = match *o {
                    "ins" => 12,
                    "get" => 10,
                    "clr" | "drn" | "rsv" => 1,
                    "ret" | "pin" => 2,
                    "gin" | "gdr" => 6,
                    "jn" | "wt" => 4,
                    _ => 3,
                };
                let f = *rng.pick(&[0, 1, 1, 3]);
                if *o == "ins" || *o == "get" {
                    base * f.max(1)
                } else {
                    base * f
                }
            })
            .collect();
        if focus == "guards" {
            for (o, w) in ops.iter().zip(opw.iter_mut()) {
                match *o {
                    "jn" | "wt" => *w = (*w).max(8),
                    "gin" | "gdr" => *w = (*w).max(7),
                    "ins" | "get" => *w = (*w).min(6),
                    _ => (),
                }
            }
        }
        if focus == "big" {
            for (o, w) in ops.iter().zip(opw.iter_mut()) {
                match *o {
                    "get" => *w = *rng.pick(&[10, 40, 100]),
                    "ins" => *w = 30,
                    "ret" | "clr" | "drn" => *w = (*w).min(1) * rng.below(2) as u32,
                    _ => *w = (*w).min(6),
                }
            }
        }
        let pin_i = ops.iter().position(|o| *o == "pin").unwrap();
        // all weights positive and nothing that can't be evicted, so that sums stay within 32 units
        let huge = cfg.scale == HUGE;
        let pinp = if huge { 0 } else { *rng.pick(&[0, 0, 0, 8, 25, 60]) };
        if huge || pinp == 0 && rng.chance(70) {
            opw[pin_i] = 0;
        }
        let u = cfg.u as i64;
        Gen {
            next_id: 1,
            next_g: 1,
            ids: vec![0; cfg.u],
            ws: vec![0; cfg.u],
            total: 0,
            guards: BTreeMap::new(),
            futs: BTreeMap::new(),
            pend: BTreeMap::new(),
            opw,
            wmode: if huge { 7 } else if focus == "big" { *rng.pick(&[0, 0, 1, 2, 6]) } else { rng.below(7) },
            pinp,
            zp: if huge { 0 } else { *rng.pick(&[0, 0, 0, 10, 30, 70]) },
            keyskew: *rng.pick(&[0, 0, 30, 60]),
            hotset: rng.range(1, u.min(3)),
            many: *rng.pick(&[6, 6, 6, 12, 40]),
            burst: Vec::new(),
            burstp: if focus == "big" { *rng.pick(&[0, 4, 10]) } else { 0 },
            rng,
            cfg,
        }
    }
    fn key(&mut self) -> i64 {
        let u = self.cfg.u as i64;
        if self.rng.chance(self.keyskew) {
            self.rng.range(1, self.hotset)
        } else {
            self.rng.range(1, u)
        }
    }
    fn resident(&mut self) -> Option<i64> {
        let r: Vec<i64> = (1..=self.cfg.u as i64).filter(|&k| self.ids[k as usize - 1] != 0).collect();
        if r.is_empty() {
            None
        } else {
            Some(*self.rng.pick(&r))
        }
    }
    fn some_key(&mut self) -> i64 {
        if self.rng.chance(40) {
            if let Some(k) = self.resident() {
                return k;
            }
        }
        self.key()
    }
    pub fn weight(&mut self) -> i64 {
        let cap = self.cfg.cap;
        let th = self.cfg.thot();
        let left = (22 - self.total).max(1);
        let r = &mut self.rng;
        match self.wmode {
            0 => 1,
            1 => r.range(0, 2),
            2 => r.range(1, 3),
            3 => r.range(0, cap + 2),
            4 => *r.pick(&[0, 1, th, th + 1, th - 1, cap, cap + 1]),
            5 => *r.pick(&[1, 1, 1, 2, 0, cap / 2, th]),
            // positive, and sums stay within 32 units
            7 => (*r.pick(&[1, 1, 2, 3, cap / 2, cap - 1, cap, cap, th, th, th + 1])).clamp(1, left),
            _ => *r.pick(&[1, 1, 1, 1, 1, 1, 0, 2, cap + 5]),
        }
        .max(0)
    }
    pub fn value(&mut self) -> [i64; 4] {
        let id = self.next_id;
        self.next_id += 1;
        let w = self.weight();
        let p = self.rng.chance(self.pinp) as i64;
        let z = if self.rng.chance(self.zp) { *self.rng.pick(&[0, 0, 0, 1, w - 1, w, w + 1, 2]) } else { -1 };
        [id, w, p, z]
    }
    pub fn cmd(&mut self) -> Cmd {
        let ops = if self.cfg.api == 0 { UOPS } else { SOPS };
        if self.burst.is_empty() && self.burstp > 0 && self.rng.below(1000) < self.burstp {
            // use everything resident once or twice, or insert a run of keys
            let res: Vec<i64> = (1..=self.cfg.u as i64).filter(|&k| self.ids[k as usize - 1] != 0).collect();
            for _ in 0..self.rng.range(1, 3) {
                self.burst.extend(res.iter().map(|&k| (false, k)));
            }
            let n = *self.rng.pick(&[0, 3, 30, 200]);
            for _ in 0..n {
                let k = self.rng.range(1, self.cfg.u as i64);
                self.burst.insert(0, (true, k));
            }
        }
        if let Some((ins, k)) = self.burst.pop() {
            let mut c = Cmd::new(if ins { "ins" } else { "get" });
            c.k = k;
            if ins {
                c.v = self.value();
            }
            return c;
        }
        loop {
            let o = ops[{
                let w = self.opw.clone();
                self.rng.weighted(&w)
            }];
            let mut c = Cmd::new(o);
            c.b = self.rng.below(2) as i64;
            match o {
                "get" | "peek" | "has" | "rem" => c.k = self.some_key(),
                "ins" => {
                    c.k = self.key();
                    c.v = self.value();
                    c.f = self.rng.chance(15) as i64;
                }
                "rep" => {
                    c.k = self.some_key();
                    c.v = self.value();
                    c.f = self.rng.below(2) as i64 + 2 * self.rng.chance(15) as i64;
                }
                "ret" => {
                    let p = *self.rng.pick(&[0, 20, 50, 100]);
                    for k in 1..=self.cfg.u as i64 {
                        if self.rng.chance(p) {
                            c.ks.push(k)
                        }
                    }
                }
                "clr" | "drn" => {
                    if !self.rng.chance(30) {
                        continue;
                    }
                    c.f = *self.rng.pick(&[0, 1, 2, 1000]);
                    if o == "clr" {
                        c.f = 0
                    }
                }
                "rsv" => c.f = *self.rng.pick(&[0, 1, 2, 5, 20, 100]),
                "gmu" | "pmu" => {
                    c.k = self.some_key();
                    if self.rng.chance(60) {
                        c.u = Some(self.value())
                    }
                }
                "goi" | "gmi" | "ga" => {
                    c.k = self.some_key();
                    if self.pend.contains_key(&c.k) && o == "goi" {
                        continue;
                    }
                    c.f = *self.rng.pick(&[0, 0, 0, 0, 1, 1, 2]);
                    c.v = self.value();
                    if o == "gmi" && self.rng.chance(50) {
                        c.u = Some(self.value())
                    }
                }
                "gui" | "gum" => {
                    c.k = self.some_key();
                    c.f = self.rng.below(3) as i64;
                    c.v = self.value();
                    if o == "gum" && self.rng.chance(50) {
                        c.u = Some(self.value())
                    }
                }
                "jn" | "wt" => {
                    if self.guards.len() + self.futs.len() > self.many {
                        continue;
                    }
                    c.k = self.key();
                    if o == "wt" && self.rng.chance(60) {
                        if let Some((&k, _)) = self.pend.iter().next() {
                            c.k = k
                        }
                    }
                    c.g = self.next_g;
                    self.next_g += 1;
                }
                "uw" | "pl" => {
                    if self.futs.is_empty() {
                        continue;
                    }
                    let fs: Vec<i64> = self.futs.keys().copied().collect();
                    c.g = *self.rng.pick(&fs);
                    c.k = self.futs[&c.g];
                }
                "gin" | "gdr" => {
                    if self.guards.is_empty() {
                        continue;
                    }
                    let gs: Vec<i64> = self.guards.keys().copied().collect();
                    c.g = *self.rng.pick(&gs);
                    c.k = self.guards[&c.g];
                    if o == "gin" {
                        c.v = self.value();
                        c.f = self.rng.chance(15) as i64;
                    }
                }
                "pin" => match self.resident() {
                    Some(k) => {
                        c.k = k;
                        c.f = self.rng.chance(40) as i64;
                    }
                    None => continue,
                },
                _ => unreachable!(),
            }
            return c;
        }
    }
    /// Follow what happened.
    pub fn observe(&mut self, c: &Cmd, d: &Driver, s: &Snap) {
        self.ids.clone_from(&s.i);
        self.ws.clone_from(&s.w);
        self.total = s.t;
        if let Some(Sut::S(st)) = &d.sut {
            match c.o.as_str() {
                "jn" | "wt" if st.guards.contains_key(&c.g) => {
                    self.pend.insert(c.k, c.g);
                }
                "rem" => {
                    self.pend.remove(&c.k);
                }
                // may or may not have ended the pending load; stop assuming either way
                "clr" => self.pend.clear(),
                _ => (),
            }
            self.guards = st.guards.iter().map(|(g, (k, _))| (*g, *k)).collect();
            self.futs = st.futs.iter().map(|(g, (k, ..))| (*g, *k)).collect();
            // a key may be pending only while a guard for it is held
            let held: Vec<i64> = self.guards.values().copied().collect();
            self.pend.retain(|k, _| held.contains(k));
        }
    }
}
