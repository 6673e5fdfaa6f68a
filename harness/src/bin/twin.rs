//! twin OUT SEED MODE MAXEVENTS [LEN]
//!
//! Runs pairs of caches and records what both do.
//! neutral: the right cache executes a random workload; the left one executes the same workload
//!          with calls in between that must not influence eviction, and is observed all the time.
//! clone:   the right cache is a clone of the left one; they execute the same calls, one of them
//!          sometimes ahead of the other.
use qcv::rng::{mix, Rng};
use qcv::seq::*;
use qcv::types::{copy_pins, is_pinned, set_side};
use qcv::watch;
use std::collections::VecDeque;
use std::io::Write;

struct Pair {
    text: String,
    n: u64,
    bad: bool,
}
impl Pair {
    fn put(&mut self, l: String) {
        watch::cur(|w| w.lines.push_str(&l));
        self.text.push_str(&l);
        self.n += 1;
    }
    /// one command on one side; `see`: observe the contents afterwards
    fn run(&mut self, d: &mut Driver, sd: usize, nt: i64, c: &Cmd, see: bool) -> Option<(Out, Option<Snap>)> {
        set_side(sd);
        let extra = format!(",\"sd\":{sd},\"nt\":{nt}");
        watch::cur(|w| w.pending = json_pending(c));
        let (o, cbs, s) = if see {
            d.step(c)
        } else {
            let (o, cbs) = d.step_raw(c);
            (o, cbs, None)
        };
        self.put(json_event_of(&extra, c, &o, &cbs, &s));
        if d.panicked {
            self.bad = true;
            return None;
        }
        Some((o, s))
    }
    fn see(&mut self, d: &mut Driver, sd: usize) -> Option<Snap> {
        set_side(sd);
        // "nop" is no call; its event carries the contents
        let s = self.run(d, sd, 1, &Cmd::new("nop"), true)?.1;
        s
    }
}

fn usable(d: &Driver, c: &Cmd) -> bool {
    match &d.sut {
        Some(Sut::S(s)) => match c.o.as_str() {
            "gin" | "gdr" => s.guards.contains_key(&c.g),
            "uw" | "pl" => s.futs.contains_key(&c.g),
            _ => true,
        },
        _ => true,
    }
}
fn base(g: &mut Gen) -> Cmd {
    let mut c = g.cmd();
    if c.o == "drn" && c.f != 0 {
        c.f = 1000; // which items a partial drain yields first is not specified
    }
    c
}
/// a call that must not influence eviction
fn neutral(g: &mut Gen, s: &Snap) -> Option<Cmd> {
    let u = g.cfg.u as i64;
    let k = g.rng.range(1, u);
    let res = s.i[k as usize - 1] != 0;
    let inj = g.cfg.we().scale > 0 && g.cfg.hb().injective();
    let mut c = Cmd::new("peek");
    c.k = k;
    c.b = g.rng.below(2) as i64;
    match g.rng.below(8) {
        0 => (),
        1 => c.o = "has".into(),
        2 if g.cfg.api == 0 => c.o = "pmu".into(),
        3 if inj => {
            c.o = "rsv".into();
            c.f = *g.rng.pick(&[0, 1, 3, 10, 100]);
        }
        4 | 5 => {
            // a failed replace, a lookup of an absent key
            if res {
                return None;
            }
            if g.rng.chance(60) {
                c.o = "rep".into();
                c.f = g.rng.below(4) as i64;
                c.v = g.value();
            } else {
                c.o = "get".into();
            }
        }
        _ => {
            // a soft replace by an equal value
            let w = s.w[k as usize - 1];
            let id = s.i[k as usize - 1];
            let pinned = is_pinned(id);
            let quiet = s.t <= g.cfg.total_cap() && (g.cfg.nsh == 1 || !s.i.iter().any(|&i| i != 0 && is_pinned(i)));
            if !res || !quiet || !(w <= g.cfg.thot() || pinned) {
                return None;
            }
            c.o = "rep".into();
            c.f = 1 + 2 * g.rng.chance(20) as i64;
            c.v = [id, w, pinned as i64, s.z[k as usize - 1]];
        }
    }
    Some(c)
}

fn neutral_pair(seed: u64, len: u64, focus: &str) -> Pair {
    let mut rng = Rng::new(seed);
    let cfg = gen_cfg(&mut rng, focus);
    let mut l = Driver::new(cfg.clone());
    let mut r = Driver::new(cfg);
    let mut g = Gen::new(rng, l.cfg.clone(), focus);
    let mut p = Pair { text: String::new(), n: 0, bad: false };
    p.put(json_new(&l.cfg, seed));
    let n = g.rng.range(len as i64 / 3, len as i64 * 5 / 3);
    let density = *g.rng.pick(&[20, 50, 80]);
    let Some(mut s) = p.see(&mut l, 0) else { return p };
    for _ in 0..n {
        while g.rng.chance(density) {
            set_side(0);
            if let Some(c) = neutral(&mut g, &s) {
                match p.run(&mut l, 0, 1, &c, true) {
                    Some((_, Some(x))) => s = x,
                    _ => return p,
                }
            }
        }
        // soft replace on the left, overwriting in place on the right
        if g.cfg.api == 0 && g.rng.chance(15) {
            let k = g.rng.range(1, g.cfg.u as i64);
            let v = g.value();
            let w = s.w[k as usize - 1];
            if s.i[k as usize - 1] != 0 && s.t - w + v[1] <= g.cfg.total_cap() && (v[1] <= g.cfg.thot() || v[2] == 1) {
                let mut c = Cmd::new("rep");
                c.k = k;
                c.f = 1;
                c.v = v;
                let mut d = Cmd::new("pmu");
                d.k = k;
                d.u = Some(v);
                match p.run(&mut l, 0, 2, &c, true) {
                    Some((_, Some(x))) => s = x,
                    _ => return p,
                }
                g.observe(&c, &l, &s);
                if p.run(&mut r, 1, 2, &d, false).is_none() {
                    return p;
                }
            }
        }
        let c = base(&mut g);
        let Some((_, Some(x))) = p.run(&mut l, 0, 0, &c, true) else { return p };
        s = x;
        g.observe(&c, &l, &s);
        if !usable(&r, &c) || p.run(&mut r, 1, 0, &c, false).is_none() {
            return p; // the pair differs already
        }
    }
    p.see(&mut r, 1);
    set_side(0);
    l.finish();
    set_side(1);
    r.finish();
    p
}

fn clone_pair(seed: u64, len: u64) -> Pair {
    let mut rng = Rng::new(seed);
    let focus = if len >= 1000 { "big" } else { "unsync" };
    let mut cfg = gen_cfg(&mut rng, focus);
    cfg.api = 0;
    let mut l = Driver::new(cfg.clone());
    let mut g = Gen::new(rng, cfg.clone(), focus);
    let mut p = Pair { text: String::new(), n: 0, bad: false };
    p.put(json_new(&cfg, seed));
    let n = g.rng.range(0, len as i64);
    for _ in 0..n {
        let c = base(&mut g);
        let Some((_, Some(s))) = p.run(&mut l, 0, 3, &c, true) else { return p };
        g.observe(&c, &l, &s);
    }
    watch::cur(|w| w.pending = "{\"o\":\"cln\",\"r\":[-8]}".into());
    let Ok(mut r) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| l.fork())) else {
        p.put("{\"o\":\"cln\",\"r\":[-9]}\n".into());
        p.bad = true;
        return p;
    };
    copy_pins();
    p.put("{\"o\":\"cln\",\"r\":[]}\n".into());
    // observing one side first or the other
    let first = g.rng.below(2) as usize;
    for sd in [first, 1 - first] {
        if p.see(if sd == 0 { &mut l } else { &mut r }, sd).is_none() {
            return p;
        }
    }
    let n = g.rng.range(len as i64 / 2, len as i64 * 3 / 2);
    let lag = *g.rng.pick(&[0, 0, 3, 20]);
    // the commands which the side that lags has still to execute
    let mut todo: VecDeque<Cmd> = VecDeque::new();
    let ahead = g.rng.below(2) as usize;
    let mut made = 0;
    while made < n || !todo.is_empty() {
        let fwd = made < n && (todo.is_empty() || (todo.len() as i64 <= lag && g.rng.chance(60)));
        let (sd, c) = if fwd {
            made += 1;
            let c = base(&mut g);
            todo.push_back(c.clone());
            (ahead, c)
        } else {
            (1 - ahead, todo.pop_front().unwrap())
        };
        let d = if sd == 0 { &mut l } else { &mut r };
        if !usable(d, &c) {
            return p;
        }
        let Some((_, Some(s))) = p.run(d, sd, 0, &c, true) else { return p };
        if fwd {
            g.observe(&c, d, &s);
        }
        if g.rng.chance(35) {
            // the other side must not have changed
            let o = 1 - sd;
            if p.see(if o == 0 { &mut l } else { &mut r }, o).is_none() {
                return p;
            }
        }
    }
    // dropping one leaves the other as it is
    if g.rng.chance(50) {
        set_side(0);
        l.finish();
        p.see(&mut r, 1);
        set_side(1);
        r.finish();
    } else {
        set_side(1);
        r.finish();
        p.see(&mut l, 0);
        set_side(0);
        l.finish();
    }
    p
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| ()));
    watch::cur(|c| c.path = a[1].clone());
    let _ = std::fs::remove_file(&a[1]);
    let out = std::fs::OpenOptions::new().create(true).append(true).open(&a[1]).unwrap();
    let mut out = std::io::BufWriter::new(out);
    watch::start(15_000);
    let seed: u64 = a[2].parse().unwrap();
    let max: u64 = a[4].parse().unwrap();
    let len: u64 = a.get(5).map_or(60, |x| x.parse().unwrap());
    let (mut pairs, mut events) = (0u64, 0u64);
    while events < max {
        let s = mix(seed.wrapping_mul(1_000_003).wrapping_add(pairs));
        watch::cur(|w| w.lines.clear());
        let p = match a[3].as_str() {
            "clone" => clone_pair(s, len),
            "neutral" => neutral_pair(s, len, if len >= 1000 { "big" } else if pairs % 4 == 3 { "shards" } else { "any" }),
            x => panic!("{x}"),
        };
        out.write_all(p.text.as_bytes()).unwrap();
        watch::cur(|w| w.lines.clear());
        out.flush().unwrap();
        pairs += 1;
        events += p.n;
    }
    println!("GEN pairs={pairs} events={events}");
}
