//! Random small concurrent programs.
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x0100_0000_01b3))
}
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        Rng(s)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn chance(&mut self, p: u64) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
}

#[derive(Clone, Debug)]
pub enum End {
    Insert(i64),
    Drop,
}
#[derive(Clone, Debug)]
pub enum Op {
    Get(i64),
    Peek(i64),
    Has(i64),
    Ins(i64, i64),
    Rep(i64, i64, bool),
    Rem(i64),
    Ret(Vec<i64>),
    Clr,
    Yield,
    /// unpark some thread for no reason
    Poke(usize),
    /// both in microseconds
    Sleep(u64),
    PokeFor { whom: usize, every: u64, total: u64 },
    /// get_value_or_guard (timeout in microseconds); on a guard run the (non-waiting) ops, then end it
    Join { k: i64, timed: Option<u64>, hold: Vec<Op>, end: End },
    /// get_or_insert_with; outcome: value id, 0 failure, -1 panic
    Goi { k: i64, out: i64, hold: Vec<Op> },
    /// future of get_value_or_guard_async, polled by this thread
    /// eager: polls without waiting for a wake-up; cancel: dropped after that many pending polls
    Fj { k: i64, eager: u32, cancel: Option<u32>, hold: Vec<Op>, end: End },
    /// future of get_or_insert_async
    Ga { k: i64, out: i64, yields: u32, eager: u32, cancel: Option<u32> },
    /// polled once here, then continued by the thread that executes Take of the same slot
    Put { k: i64, slot: usize, end: End },
    Take { k: i64, slot: usize, cancel: bool, end: End },
}
#[derive(Clone, Debug)]
pub struct Prog {
    pub nk: i64,
    pub cap: u64,
    /// evictions may occur
    pub ev: bool,
    pub collide: bool,
    pub slots: usize,
    pub shards: usize,
    pub pre: Vec<Op>,
    pub threads: Vec<Vec<Op>>,
    /// record when each event happens
    #[cfg_attr(feature = "shut", allow(dead_code))]
    pub stamps: bool,
}

struct G {
    r: Rng,
    nk: i64,
    id: i64,
    focus: String,
    panics: bool,
}
impl G {
    fn id(&mut self) -> i64 {
        self.id += 1;
        self.id
    }
    fn key(&mut self) -> i64 {
        if self.nk == 1 || self.r.chance(70) {
            1
        } else {
            1 + self.r.below(self.nk as u64) as i64
        }
    }
    fn simple(&mut self) -> Op {
        let k = self.key();
        let w: &[u32] = match self.focus.as_str() {
            //        get peek has ins rep rem ret clr yld
            "lin" => &[6, 4, 3, 6, 3, 5, 2, 1, 0],
            "steal" => &[1, 2, 1, 6, 1, 6, 1, 3, 1],
            _ => &[2, 2, 1, 3, 1, 3, 1, 1, 2],
        };
        let mut t = self.r.below(w.iter().sum::<u32>() as u64) as u32;
        let mut i = 0;
        while t >= w[i] {
            t -= w[i];
            i += 1;
        }
        match i {
            0 => Op::Get(k),
            1 => Op::Peek(k),
            2 => Op::Has(k),
            3 => Op::Ins(k, self.id()),
            4 => Op::Rep(k, self.id(), self.r.chance(30)),
            5 => Op::Rem(k),
            6 => {
                let mut ks: Vec<i64> = (1..=self.nk).filter(|_| self.r.0 & 1 == 0 || self.r.chance(60)).collect();
                ks.dedup();
                Op::Ret(ks)
            }
            7 => Op::Clr,
            _ => Op::Yield,
        }
    }
    fn hold(&mut self) -> Vec<Op> {
        let n = match self.focus.as_str() {
            "steal" => self.r.below(3),
            _ => self.r.below(5) / 3,
        };
        let mut v: Vec<Op> = (0..n).map(|_| self.simple()).collect();
        if self.r.chance(30) {
            v.push(Op::Yield)
        }
        v
    }
    fn end(&mut self) -> End {
        let p = if self.focus == "wait" { 45 } else { 65 };
        if self.r.chance(p) {
            End::Insert(self.id())
        } else {
            End::Drop
        }
    }
    fn outcome(&mut self) -> i64 {
        if self.r.chance(65) {
            self.id()
        } else if self.panics && self.r.chance(40) {
            -1
        } else {
            0
        }
    }
    fn joining(&mut self) -> Op {
        let k = self.key();
        let (eager, cancel) = (
            if self.r.chance(35) { self.r.below(3) as u32 } else { 0 },
            if self.r.chance(if self.focus == "wait" { 45 } else { 25 }) { Some(1 + self.r.below(3) as u32) } else { None },
        );
        let kind = if self.focus == "time" && self.r.chance(50) { 3 } else { self.r.below(10) };
        match kind {
            0..=2 => Op::Join { k, timed: None, hold: self.hold(), end: self.end() },
            3 => {
                let us = if self.r.chance(30) { 0 } else { 1000 };
                Op::Join { k, timed: Some(us), hold: self.hold(), end: self.end() }
            }
            4 | 5 => Op::Goi { k, out: self.outcome(), hold: self.hold() },
            6..=7 => Op::Fj { k, eager, cancel, hold: self.hold(), end: self.end() },
            _ => Op::Ga { k, out: self.outcome(), yields: self.r.below(3) as u32, eager, cancel },
        }
    }
}

/// callers of one key with timeouts, on real threads and in real time
fn timed(seed: u64) -> Prog {
    let r = Rng::new(seed);
    let mut g = G { r, nk: 1, id: 0, focus: "timed".into(), panics: false };
    let holds = [2_000, 20_000, 120_000, 450_000, 900_000];
    let nw = 1 + g.r.below(3) as usize;
    // whether somebody waits without a (realistic) timeout, so that nobody may hold on forever
    let mut threads = vec![vec![Op::Join { k: 1, timed: None, hold: vec![Op::Sleep(*g.r.pick(&holds))], end: g.end() }]];
    for i in 1..=nw {
        let mut t = vec![Op::Sleep(3_000 + g.r.below(4_000))];
        if g.r.chance(20) {
            t.push(Op::Poke(i)); // the next park returns at once
        }
        let timed = match g.r.below(10) {
            0 => None,
            1 => Some(u64::MAX),
            2 => Some(0),
            3 => Some(*g.r.pick(&[1, 500, 1_500, 2_999])),
            4 => Some(10_000 + g.r.below(1_000)),
            5 | 6 => Some(50_000 + g.r.below(10_000)),
            _ => Some(200_000 + g.r.below(200_000)),
        };
        let hold = vec![Op::Sleep(*g.r.pick(&[1_000, 10_000, 100_000]))];
        t.push(Op::Join { k: 1, timed, hold, end: g.end() });
        if g.r.chance(20) {
            t.push(Op::Join { k: 1, timed: Some(30_000), hold: vec![], end: g.end() });
        }
        threads.push(t);
    }
    if g.r.chance(30) {
        let mut t = vec![Op::Sleep(*g.r.pick(&[8_000, 60_000, 250_000]))];
        t.push(match g.r.below(4) {
            0 => Op::Ins(1, g.id()),
            1 => Op::Clr,
            2 => Op::Get(1),
            _ => Op::Rem(1),
        });
        threads.push(t);
    }
    if g.r.chance(60) {
        let whom = 1 + g.r.below(nw as u64) as usize;
        threads.push(vec![Op::PokeFor { whom, every: *g.r.pick(&[300, 2_000, 20_000, 90_000]), total: 1_000_000 }]);
    }
    let cap = 100;
    Prog { nk: 1, cap, ev: false, collide: false, slots: 0, shards: 1, pre: vec![], threads, stamps: true }
}

pub fn generate(seed: u64, focus: &str) -> Prog {
    if focus == "timed" {
        return timed(seed);
    }
    let mut r = Rng::new(seed);
    let mut nk = *r.pick(&[1, 1, 1, 2, 2, 3]);
    let ev = r.chance(15);
    if ev {
        nk = 4;
    }
    // a unit of weight must fit the hot share, otherwise nothing is ever admitted
    let cap = if ev { 2 } else { 100 };
    let collide = r.chance(25);
    let nt = match focus {
        "lin" => *r.pick(&[2, 2, 3, 3]),
        "wait" | "time" => *r.pick(&[3, 3, 4, 4, 5]),
        _ => *r.pick(&[2, 3, 3, 4]),
    };
    let mut g = G { r, nk, id: 0, focus: focus.into(), panics: cfg!(not(feature = "shut")) };
    let mut pre = vec![];
    for k in 1..=nk {
        if g.r.chance(if focus == "lin" { 50 } else { 20 }) {
            pre.push(Op::Ins(k, g.id()));
        }
    }
    let mut threads: Vec<Vec<Op>> = vec![];
    for _ in 0..nt {
        let n = match focus {
            "lin" => 1 + g.r.below(4),
            "wait" | "time" => 1 + g.r.below(2),
            _ => 1 + g.r.below(3),
        };
        let pj = match focus {
            "lin" => 20,
            "wait" | "time" => 85,
            "steal" => 60,
            _ => 70,
        };
        let ops = (0..n).map(|_| if g.r.chance(pj) { g.joining() } else { g.simple() }).collect();
        threads.push(ops);
    }
    // a future that moves from one thread to another, in its last and first position,
    // so that nobody has to wait for it while holding something
    let mut slots = 0;
    if focus != "lin" && nt >= 2 && g.r.chance(25) {
        let k = g.key();
        let e1 = g.end();
        let e2 = g.end();
        let cancel = g.r.chance(25);
        let a = g.r.below(nt) as usize;
        let b = (a + 1 + g.r.below(nt - 1) as usize) % nt as usize;
        let pa = g.r.below(threads[a].len() as u64 + 1) as usize;
        threads[a].insert(pa, Op::Put { k, slot: 0, end: e1 });
        threads[b].insert(0, Op::Take { k, slot: 0, cancel, end: e2 });
        // the putter must not depend on the taker before it put
        slots = 1;
    }
    if g.r.chance(25) {
        let t = g.r.below(nt) as usize;
        let whom = g.r.below(nt) as usize;
        let at = g.r.below(threads[t].len() as u64 + 1) as usize;
        threads[t].insert(at, Op::Poke(whom));
    }
    let shards = if !ev && g.r.chance(20) { 4 } else { 1 };
    Prog { nk, cap, ev, collide, slots, shards, pre, threads, stamps: false }
}
impl Prog {
    #[cfg_attr(not(feature = "shut"), allow(dead_code))]
    /// few enough calls to enumerate many of its schedules in order
    pub fn small(&self) -> bool {
        self.threads.iter().map(|t| t.len()).sum::<usize>() <= 4
    }
}
