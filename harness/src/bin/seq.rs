//! seq gen OUT SEED NTRACES LEN FOCUS [MAXEVENTS]   random workloads, novel traces preferred
//! seq replay OUT FILE [PART NPARTS]    run command scripts ("new ..." starts a trace)
use qcv::rng::{mix, Rng};
use qcv::seq::*;
use qcv::types::is_pinned;
use qcv::watch;
use std::collections::HashMap;
use std::io::Write;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| ()));
    watch::cur(|c| c.path = a[2].clone());
    let _ = std::fs::remove_file(&a[2]);
    let out = std::fs::OpenOptions::new().create(true).append(true).open(&a[2]).unwrap();
    let mut out = std::io::BufWriter::new(out);
    watch::start(15_000);
    match a[1].as_str() {
        "gen" => {
            let seed: u64 = a[3].parse().unwrap();
            let n: u64 = a[4].parse().unwrap();
            let len: u64 = a[5].parse().unwrap();
            let focus = a[6].as_str();
            let max: u64 = a.get(7).map_or(u64::MAX, |x| x.parse().unwrap());
            gen(&mut out, seed, n, len, focus, max)
        }
        "replay" => {
            let text = std::fs::read_to_string(&a[3]).unwrap();
            let mut d: Option<Driver> = None;
            let mut skip = false;
            let part: usize = a.get(4).map_or(0, |x| x.parse().unwrap());
            let nparts: usize = a.get(5).map_or(1, |x| x.parse().unwrap());
            let (mut walk, mut mine, mut cmds) = (0usize, true, 0usize);
            for l in text.lines() {
                if l.trim().is_empty() {
                    continue;
                }
                if l.starts_with("new ") {
                    mine = walk % nparts == part;
                    walk += 1;
                    if !mine {
                        continue;
                    }
                    finish(&mut d, &mut out);
                    skip = false;
                    let cfg = Cfg::dec(l);
                    let n = Driver::new(cfg);
                    write!(out, "{}", json_new(&n.cfg, 0)).unwrap();
                    d = Some(n);
                    continue;
                }
                if skip || !mine {
                    continue;
                }
                cmds += 1;
                let c = Cmd::dec(l);
                let dr = d.as_mut().unwrap();
                // a guard or future that the code did not hand out cannot be used
                if let Some(Sut::S(s)) = &dr.sut {
                    let gone = match c.o.as_str() {
                        "gin" | "gdr" => !s.guards.contains_key(&c.g),
                        "uw" | "pl" => !s.futs.contains_key(&c.g),
                        _ => false,
                    };
                    if gone {
                        skip = true;
                        continue;
                    }
                }
                watch::cur(|w| w.pending = json_pending(&c));
                let (o, cbs, s) = dr.step(&c);
                write!(out, "{}", json_event(&c, &o, &cbs, &s)).unwrap();
                skip = dr.panicked;
            }
            finish(&mut d, &mut out);
            println!("GEN replayed_commands={cmds}");
        }
        x => panic!("{x}"),
    }
}

fn finish(d: &mut Option<Driver>, out: &mut impl Write) {
    if let Some(d) = d.take() {
        if d.panicked {
            let _ = d.finish();
            return;
        }
        write!(out, "{}", end_line(d)).unwrap();
    }
}
fn end_line(d: Driver) -> String {
    match d.finish() {
        Some((k, v)) => format!("{{\"o\":\"end\",\"r\":[],\"lk\":{k},\"lv\":{v}}}\n"),
        None => "{\"o\":\"end\",\"r\":[-9]}\n".into(),
    }
}

/// Signature of an event for novelty: what kind of situation it exercised.
fn sig(g: &Gen, pre_ids: &[i64], c: &Cmd, o: &Out, cbs: &[[i64; 6]], s: &Snap) -> u64 {
    let mut h: u64 = 0;
    let mut add = |x: i64| h = mix(h ^ (x as u64).wrapping_add(0x1234_5678));
    for b in c.o.bytes() {
        add(b as i64)
    }
    add(g.cfg.api);
    add(c.f.min(3));
    add(o.r.first().copied().unwrap_or(-1).min(9));
    add(o.r.len() as i64);
    let pre = if c.k > 0 { pre_ids[c.k as usize - 1] } else { 0 };
    add((pre != 0) as i64);
    add(g.pend.contains_key(&c.k) as i64);
    let th = g.cfg.thot();
    let w = c.v[1];
    add((w == 0) as i64 + 2 * (w > th) as i64 + 4 * (w > g.cfg.cap) as i64 + 8 * c.v[2] + 16 * (c.v[3] >= 0) as i64 + 32 * (c.v[3] == 0) as i64);
    if let Some(u) = c.u {
        add((u[1] == 0) as i64 + 2 * u[2] + 4 * (u[1] > th) as i64)
    }
    // the shape of the callbacks, up to a bound
    for cb in cbs.iter().take(6) {
        add(cb[0]);
        add((cb[2] == c.v[0]) as i64 + 2 * (cb[0] == 2 && cb[4] == 0) as i64);
    }
    add((s.t > g.cfg.cap) as i64);
    let pins = s.i.iter().filter(|&&i| i != 0 && is_pinned(i)).count();
    add(pins.min(2) as i64);
    let zeros = s.i.iter().zip(&s.w).filter(|(&i, &w)| i != 0 && w == 0).count();
    add(zeros.min(1) as i64);
    h
}

fn gen(out: &mut impl Write, seed: u64, n: u64, len: u64, focus: &str, max: u64) {
    let mut seen: HashMap<u64, u32> = HashMap::new();
    let mut kept = 0u64;
    let mut events = 0u64;
    let mut total_ev = 0u64;
    // a third of the budget goes to traces as they come, the rest to novel ones
    for t in 0..n {
        let tseed = mix(seed.wrapping_mul(1_000_003).wrapping_add(t));
        let mut rng = Rng::new(tseed);
        let cfg = gen_cfg(&mut rng, focus);
        let mut d = Driver::new(cfg);
        let cfg = d.cfg.clone();
        let mut text = json_new(&cfg, tseed);
        let mut g = Gen::new(rng, cfg, focus);
        let n_ops = g.rng.range(len as i64 / 3, len as i64 * 5 / 3);
        let mut novel = 0;
        let mut evs = 1u64;
        watch::cur(|w| w.lines = text.clone());
        let mut bad = false;
        for _ in 0..n_ops {
            let c = g.cmd();
            watch::cur(|w| w.pending = json_pending(&c));
            let pre = g.ids.clone();
            let (o, cbs, s) = d.step(&c);
            let line = json_event(&c, &o, &cbs, &s);
            watch::cur(|w| w.lines.push_str(&line));
            text.push_str(&line);
            evs += 1;
            match s {
                Some(s) => {
                    let e = seen.entry(sig(&g, &pre, &c, &o, &cbs, &s)).or_insert(0);
                    *e += 1;
                    if *e <= 5 {
                        novel += 1
                    }
                    g.observe(&c, &d, &s)
                }
                None => {
                    bad = true;
                    break;
                }
            }
        }
        if !bad {
            let e = end_line(d);
            bad = !e.contains("\"lk\":0,\"lv\":0");
            text.push_str(&e);
            evs += 1;
        }
        total_ev += evs;
        if bad || events < max / 3 || novel * 12 >= evs || (novel > 0 && t % 4 == 0) {
            out.write_all(text.as_bytes()).unwrap();
            kept += 1;
            events += evs;
        }
        if events >= max {
            println!("GEN executed={} kept={kept} events={events} executed_events={total_ev} signatures={}", t + 1, seen.len());
            return;
        }
    }
    println!("GEN executed={n} kept={kept} events={events} executed_events={total_ev} signatures={}", seen.len());
}
