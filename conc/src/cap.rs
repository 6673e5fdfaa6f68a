//! Concurrent programs on a small cache of one shard, with weights, pins and a lifecycle that
//! records what it is told.  Every call of these programs is one atomic step (guards are only
//! used on keys that no other thread waits for), so a history must be explained by some order
//! of its calls; see spec/ConcTrace.tla.  One line per history: the configuration and the calls
//! with the positions where they started (s) and returned (f).
use crate::exec::SharedLog;
#[cfg(not(feature = "shut"))]
use crate::prog::mix;
use crate::prog::Rng;
use quick_cache::sync::{Cache, GuardResult, PlaceholderGuard};
use quick_cache::{Lifecycle, OptionsBuilder, Weighter};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
use std::sync::Arc;
use std::time::Duration;

#[cfg(feature = "shut")]
use shuttle::thread;
#[cfg(not(feature = "shut"))]
use std::thread;

/// id, weight, pinned, weight that before_evict sets (-1: none)
#[derive(Clone, Debug, Default)]
pub struct V(pub [i64; 4]);
#[derive(Clone)]
struct We;
impl Weighter<i64, V> for We {
    fn weight(&self, _: &i64, v: &V) -> u64 {
        v.0[1] as u64
    }
}
static REQ: AtomicI64 = AtomicI64::new(0);
#[derive(Clone)]
struct Lc;
/// the callbacks of one request: kind, key, id, weight before and after, request
struct Req(i64, Vec<[i64; 6]>, bool);
#[cfg(feature = "shut")]
shuttle::thread_local! {
    static CBS: std::cell::RefCell<Vec<[i64; 6]>> = std::cell::RefCell::new(Vec::new());
}
#[cfg(not(feature = "shut"))]
thread_local! {
    static CBS: std::cell::RefCell<Vec<[i64; 6]>> = const { std::cell::RefCell::new(Vec::new()) };
}
impl Req {
    fn close(&mut self, kind: i64) {
        if !self.2 {
            self.2 = true;
            let n = self.0;
            self.1.push([kind, 0, 0, 0, 0, n]);
            CBS.with(|c| c.borrow_mut().append(&mut self.1));
        }
    }
}
impl Drop for Req {
    fn drop(&mut self) {
        self.close(5)
    }
}
impl Lifecycle<i64, V> for Lc {
    type RequestState = Req;
    fn is_pinned(&self, _: &i64, v: &V) -> bool {
        v.0[2] == 1
    }
    fn begin_request(&self) -> Req {
        let n = 1 + REQ.fetch_add(1, SeqCst);
        Req(n, vec![[1, 0, 0, 0, 0, n]], false)
    }
    fn before_evict(&self, r: &mut Req, k: &i64, v: &mut V) {
        let w = v.0[1];
        if v.0[3] >= 0 {
            v.0[1] = v.0[3];
        }
        let n = r.0;
        r.1.push([2, *k, v.0[0], w, v.0[1], n]);
    }
    fn on_evict(&self, r: &mut Req, k: i64, v: V) {
        let n = r.0;
        r.1.push([3, k, v.0[0], v.0[1], v.0[1], n]);
    }
    fn end_request(&self, mut r: Req) {
        r.close(4)
    }
}
type C = Cache<i64, V, We, crate::types::Hb, Lc>;
type Guard = PlaceholderGuard<'static, i64, V, We, crate::types::Hb, Lc>;

#[derive(Clone, Debug)]
enum Op {
    Get(i64),
    Peek(i64),
    Has(i64),
    Len,
    Weight,
    Empty,
    Ins(i64, [i64; 4], bool),
    Rep(i64, [i64; 4], i64),
    Rem(i64),
    Ret(Vec<i64>),
    Clr,
    /// take a guard (the name is unique), later insert or drop it
    Join(i64, i64),
    Fill(i64, [i64; 4], bool),
    Leave(i64),
    Rsv,
}
#[derive(Clone, Debug)]
pub struct Prog {
    nk: i64,
    cap: u64,
    hot: f64,
    ghost: f64,
    collide: bool,
    pre: Vec<Op>,
    threads: Vec<Vec<Op>>,
    post: Vec<Op>,
}
/// policy: distinct hashes, many lookups, and inserts at the end that make the cache show in
/// which order it evicts
pub fn generate(seed: u64, policy: bool) -> Prog {
    let mut r = Rng::new(seed);
    let nk = *r.pick(&[2, 3, 3, 4, 5]);
    let cap = *r.pick(&[1, 2, 3, 3, 4, 6]);
    let hot = *r.pick(&[0.5, 0.8, 0.97, 1.0, 1.0]);
    let pins = r.chance(25);
    let shrink = r.chance(25);
    let unit = r.chance(40);
    let nt = *r.pick(&[2, 2, 3]);
    let mut id = 0;
    let mut val = |r: &mut Rng| {
        id += 1;
        let w = if unit { 1 } else { r.below(4) as i64 };
        let p = (pins && r.chance(30)) as i64;
        let z = if shrink && r.chance(50) { r.below(3) as i64 } else { -1 };
        [id, w, p, z]
    };
    let mut pre = vec![];
    for _ in 0..r.below(6) {
        let k = 1 + r.below(nk as u64) as i64;
        let o = match r.below(5) {
            0 | 1 | 2 => Op::Ins(k, val(&mut r), false),
            3 => Op::Get(k),
            _ => Op::Rem(k),
        };
        pre.push(o);
    }
    let mut name = 0;
    let mut threads = vec![];
    // the keys that a thread may load: nobody else waits for them
    let mine = |t: i64| (1..=nk).filter(|k| k % nt as i64 == t).collect::<Vec<_>>();
    for t in 0..nt as i64 {
        let mut ops = vec![];
        let mut open: Vec<(i64, i64)> = vec![];
        for _ in 0..1 + r.below(if nt == 2 { 4 } else { 3 }) {
            let k = 1 + r.below(nk as u64) as i64;
            if policy && r.chance(35) {
                let few = if r.chance(50) { 2 } else { nk as u64 };
                ops.push(Op::Get(1 + r.below(few) as i64));
                continue;
            }
            ops.push(match r.below(24) {
                0..=1 => Op::Get(k),
                2 => Op::Peek(k),
                3 => Op::Has(k),
                4 => Op::Len,
                5..=7 => Op::Weight,
                8 => Op::Empty,
                9..=13 => Op::Ins(k, val(&mut r), r.chance(25)),
                14 | 15 => Op::Rep(k, val(&mut r), r.below(4) as i64),
                16 | 17 => Op::Rem(k),
                18 => Op::Ret((1..=nk).filter(|_| r.chance(50)).collect()),
                19 => Op::Clr,
                20 if r.chance(30) => Op::Rsv,
                _ => {
                    let m: Vec<i64> = mine(t).into_iter().filter(|k| open.iter().all(|o| o.1 != *k)).collect();
                    match open.pop() {
                        Some((g, _)) if r.chance(80) => Op::Fill(g, val(&mut r), r.chance(25)),
                        Some((g, _)) => Op::Leave(g),
                        None if m.is_empty() => Op::Weight,
                        None => {
                            name += 1;
                            let k = *r.pick(&m);
                            open.push((name, k));
                            Op::Join(name, k)
                        }
                    }
                }
            });
        }
        for (g, _) in open {
            ops.push(if r.chance(70) { Op::Fill(g, val(&mut r), false) } else { Op::Leave(g) });
        }
        threads.push(ops);
    }
    let mut post = vec![];
    if policy {
        for _ in 0..r.below(9) {
            let k = 1 + r.below(nk as u64) as i64;
            post.push(if r.chance(85) { Op::Ins(k, val(&mut r), false) } else { Op::Get(k) });
        }
    }
    let collide = !policy && r.chance(25);
    Prog { nk, cap, hot, ghost: *r.pick(&[0.0, 0.5, 1.0]), collide, pre, threads, post }
}

#[derive(Clone)]
struct Ctx {
    tid: usize,
    nk: i64,
    cache: &'static C,
    log: SharedLog,
    rng: Arc<AtomicI64>,
}
#[derive(Default)]
struct Rec {
    o: &'static str,
    k: i64,
    f: i64,
    v: [i64; 4],
    ks: Vec<i64>,
    g: i64,
    r: Vec<i64>,
    x: Vec<i64>,
}
impl Ctx {
    fn jitter(&self) {
        #[cfg(not(feature = "shut"))]
        {
            let x = mix(self.rng.fetch_add(1, SeqCst) as u64);
            match x % 8 {
                0 => thread::yield_now(),
                1 | 2 => (0..x >> 8 & 255).for_each(|_| std::hint::spin_loop()),
                _ => (),
            }
        }
        #[cfg(feature = "shut")]
        let _ = &self.rng;
    }
    fn start(&self) -> u64 {
        let mut l = self.log.lock().unwrap();
        l.active += 1;
        l.clock += 1;
        l.clock
    }
    fn done(&self, s: u64, c: Rec) {
        let cb: Vec<[i64; 6]> = CBS.with(|c| std::mem::take(&mut *c.borrow_mut()));
        let mut l = self.log.lock().unwrap();
        l.active -= 1;
        l.clock += 1;
        let f = l.clock;
        l.note(self.tid, crate::prog::hash(&format!("{:?}{:?}", c.r, cb.iter().map(|c| &c[..5]).collect::<Vec<_>>())));
        let mut t = String::new();
        let _ = write!(
            t,
            "{{\"s\":{s},\"f\":{f},\"o\":\"{}\",\"k\":{},\"b\":1,\"v\":{:?},\"u\":[],\"ks\":{:?},\"g\":{},\"r\":{:?},\"x\":{:?},\"fl\":{},\"c\":{:?}}}",
            c.o, c.k, c.v, c.ks, c.g, c.r, c.x, c.f, cb
        );
        l.push(t);
    }
    fn ops(&self, ops: &[Op]) {
        let mut open: Vec<(i64, i64, Guard)> = vec![];
        let ca = self.cache;
        for o in ops {
            self.jitter();
            let s = self.start();
            let rec = match o.clone() {
                Op::Get(k) => Rec { o: "get", k, r: vec![ca.get(&k).map_or(0, |v| v.0[0])], ..Default::default() },
                Op::Peek(k) => Rec { o: "peek", k, r: vec![ca.peek(&k).map_or(0, |v| v.0[0])], ..Default::default() },
                Op::Has(k) => Rec { o: "has", k, r: vec![ca.contains_key(&k) as i64], ..Default::default() },
                Op::Len => Rec { o: "len", r: vec![ca.len() as i64], ..Default::default() },
                Op::Weight => Rec { o: "wgt", r: vec![ca.weight() as i64], ..Default::default() },
                Op::Empty => Rec { o: "emp", r: vec![ca.is_empty() as i64], ..Default::default() },
                Op::Ins(k, v, lc) => {
                    if lc {
                        ca.insert_with_lifecycle(k, V(v)).close(6)
                    } else {
                        ca.insert(k, V(v))
                    }
                    Rec { o: "ins", k, v, f: lc as i64, ..Default::default() }
                }
                Op::Rep(k, v, f) => {
                    let r = if f / 2 == 1 {
                        ca.replace_with_lifecycle(k, V(v), f % 2 == 1).map(|mut r| r.close(6))
                    } else {
                        ca.replace(k, V(v), f % 2 == 1)
                    };
                    let r = r.map_or_else(|(k, v)| vec![1, k, v.0[0]], |_| vec![0]);
                    Rec { o: "rep", k, v, f, r, ..Default::default() }
                }
                Op::Rem(k) => {
                    let r = ca.remove(&k).map_or(vec![0, 0], |(k, v)| vec![k, v.0[0]]);
                    Rec { o: "rem", k, r, ..Default::default() }
                }
                Op::Ret(ks) => {
                    let x = std::cell::RefCell::new(vec![0; self.nk as usize]);
                    ca.retain(|k, v| {
                        let p = &mut x.borrow_mut()[*k as usize - 1];
                        *p = if *p == 0 { v.0[0] } else { -1 };
                        !ks.contains(k)
                    });
                    Rec { o: "ret", ks, x: x.into_inner(), ..Default::default() }
                }
                Op::Clr => {
                    ca.clear();
                    Rec { o: "clr", ..Default::default() }
                }
                Op::Rsv => {
                    ca.reserve(3);
                    Rec { o: "rsv", ..Default::default() }
                }
                Op::Join(g, k) => {
                    static KEYS: [i64; 6] = [0, 1, 2, 3, 4, 5];
                    let r = match ca.get_value_or_guard(&KEYS[k as usize], Some(Duration::ZERO)) {
                        GuardResult::Value(v) => vec![1, v.0[0]],
                        GuardResult::Timeout => vec![3],
                        GuardResult::Guard(x) => {
                            open.push((g, k, x));
                            vec![2, g]
                        }
                    };
                    Rec { o: "jn", k, g, r, ..Default::default() }
                }
                Op::Fill(g, v, lc) => match open.iter().position(|x| x.0 == g) {
                    None => Rec { o: "nop", ..Default::default() },
                    Some(i) => {
                        let (_, k, x) = open.swap_remove(i);
                        let r = if lc { x.insert_with_lifecycle(V(v)).map(|mut r| r.close(6)) } else { x.insert(V(v)) };
                        let r = r.map_or_else(|v| vec![1, v.0[0]], |_| vec![0]);
                        Rec { o: "gin", k, v, f: lc as i64, g, r, ..Default::default() }
                    }
                },
                Op::Leave(g) => match open.iter().position(|x| x.0 == g) {
                    None => Rec { o: "nop", ..Default::default() },
                    Some(i) => {
                        let (_, k, x) = open.swap_remove(i);
                        drop(x);
                        Rec { o: "gdr", k, g, ..Default::default() }
                    }
                },
            };
            self.done(s, rec);
        }
    }
}
impl Prog {
    #[cfg(feature = "shut")]
    pub fn small(&self) -> bool {
        self.threads.iter().map(|t| t.len()).sum::<usize>() <= 4
    }
    pub fn head(&self) -> String {
        let thot = (self.cap as f64 * self.hot) as u64;
        let gcap = (self.cap as f64 * self.ghost) as u64;
        format!("\"nk\":{},\"cap\":{},\"thot\":{},\"gcap\":{}", self.nk, self.cap, thot, gcap)
    }
    pub fn execute(&self, log: SharedLog, seed: u64) {
        let o = OptionsBuilder::new()
            .shards(1)
            .estimated_items_capacity(self.cap as usize)
            .weight_capacity(self.cap)
            .hot_allocation(self.hot)
            .ghost_allocation(self.ghost)
            .build()
            .unwrap();
        let hb = crate::types::Hb { collide: self.collide };
        let cache: &'static C = Box::leak(Box::new(Cache::with_options(o, We, hb, Lc)));
        let rng = Arc::new(AtomicI64::new(seed as i64));
        let cx = Ctx { tid: self.threads.len(), nk: self.nk, cache, log, rng };
        cx.ops(&self.pre);
        let start = Arc::new(AtomicI64::new(self.threads.len() as i64));
        let hs: Vec<_> = self
            .threads
            .iter()
            .enumerate()
            .map(|(i, t)| {
                let (mut cx, t, start) = (cx.clone(), t.clone(), start.clone());
                cx.tid = i;
                thread::spawn(move || {
                    start.fetch_sub(1, SeqCst);
                    #[cfg(not(feature = "shut"))]
                    for i in 0.. {
                        if start.load(SeqCst) <= 0 {
                            break;
                        }
                        if i > 200 {
                            thread::yield_now();
                        }
                        std::hint::spin_loop();
                    }
                    cx.ops(&t);
                })
            })
            .collect();
        for h in hs {
            if h.join().is_err() {
                cx.log.lock().unwrap().push("{\"s\":0,\"f\":1000000,\"o\":\"panic\"}".into());
            }
        }
        cx.ops(&self.post);
        let last: Vec<Op> = (1..=self.nk).map(Op::Peek).chain([Op::Len, Op::Weight]).collect();
        cx.ops(&last);
        let s = cx.start();
        let (h, m) = (cache.hits(), cache.misses());
        cx.done(s, Rec { o: "end", r: vec![h as i64, m as i64], ..Default::default() });
        drop(unsafe { Box::from_raw(cache as *const C as *mut C) });
    }
}
