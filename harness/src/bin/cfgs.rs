//! cfgs OUT SEED N     builds caches for many configurations and records their layout
use qcv::rng::Rng;
use qcv::types::*;
use quick_cache::{sync, unsync, OptionsBuilder, UnitWeighter};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn limbs(mut x: u64) -> String {
    let mut v = vec![];
    while x > 0 {
        v.push(x % 10_000);
        x /= 10_000;
    }
    format!("{v:?}")
}
fn number(r: &mut Rng) -> u64 {
    match r.below(10) {
        0..=2 => r.below(70),
        3 | 4 => r.below(3000),
        5 => (1u64 << r.below(63)).wrapping_add(r.below(5)).wrapping_sub(2),
        6 => r.below(40) * 32 + r.below(3),
        7 => r.below(1 << 40),
        8 => u64::MAX - r.below(100),
        _ => {
            let sh = r.below(60);
            r.below(u64::MAX >> sh)
        }
    }
}
struct Built {
    n: u64,
    sc: u64,
    tc: u64,
    len: u64,
    w: u64,
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var("QCV_PANIC").is_err() {
        std::panic::set_hook(Box::new(|_| ()));
    }
    let mut out = std::io::BufWriter::new(std::fs::File::create(&a[1]).unwrap());
    let (seed, n): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
    let mut r = Rng::new(qcv::rng::mix(seed));
    let cores = std::thread::available_parallelism().map_or(1, |n| n.get());
    let (mut built, mut fills) = (0, 0);
    for t in 0..n {
        let api = r.below(3).min(1);
        let mut sh = *r.pick(&[0usize, 1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 32, 33, 64, 100, 128, 1000, 4096]);
        let est = number(&mut r);
        let cap = number(&mut r);
        let share = |r: &mut Rng| match r.below(20) {
            0 => *r.pick(&[-0.1, 1.1, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1.0 + f64::EPSILON, -f64::MIN_POSITIVE, 100.0]),
            1 | 2 => *r.pick(&[0.0, 1.0, -0.0]),
            _ => r.below(1001) as f64 / 1000.0,
        };
        let (hot, ghost) = (share(&mut r), share(&mut r));
        let valid = |x: f64| (0.0..=1.0).contains(&x);
        let mut ok = valid(hot) && valid(ghost);
        let mis = if r.chance(5) { r.range(1, 3) } else { 0 };
        // 0: all options, 1: default shards and shares, 2: `with`, 3: `with_weighter`, 4: `new`
        let how = if mis != 0 { r.below(2) } else { r.below(6).min(4) };
        let mut cap = cap;
        if how >= 1 {
            sh = cores * 4;
            ok = true;
        }
        if how == 4 {
            cap = est;
        }
        let res = catch_unwind(AssertUnwindSafe(|| -> Result<Built, ()> {
            let mut b = OptionsBuilder::new();
            if how == 0 {
                b.shards(sh).hot_allocation(hot).ghost_allocation(ghost);
            }
            if mis & 1 == 0 {
                b.estimated_items_capacity(est as usize);
            }
            if mis & 2 == 0 {
                b.weight_capacity(cap);
            }
            if api == 0 {
                let c: unsync::Cache<u64, u64> = match how {
                    0 | 1 => unsync::Cache::with_options(b.build().map_err(|_| ())?, UnitWeighter, Default::default(), Default::default()),
                    2 => unsync::Cache::with(est as usize, cap, UnitWeighter, Default::default(), Default::default()),
                    3 => unsync::Cache::with_weighter(est as usize, cap, UnitWeighter),
                    _ => unsync::Cache::new(est as usize),
                };
                Ok(Built { n: 1, sc: c.capacity(), tc: c.capacity(), len: c.len() as u64 + !c.is_empty() as u64, w: c.weight() })
            } else {
                let c: sync::Cache<u64, u64> = match how {
                    0 | 1 => sync::Cache::with_options(b.build().map_err(|_| ())?, UnitWeighter, Default::default(), Default::default()),
                    2 => sync::Cache::with(est as usize, cap, UnitWeighter, Default::default(), Default::default()),
                    3 => sync::Cache::with_weighter(est as usize, cap, UnitWeighter),
                    _ => sync::Cache::new(est as usize),
                };
                Ok(Built {
                    n: c.num_shards() as u64,
                    sc: c.shard_capacity(),
                    tc: c.capacity(),
                    len: c.len() as u64 + !c.is_empty() as u64,
                    w: c.weight(),
                })
            }
        }));
        let (code, b) = match res {
            Ok(Ok(b)) => (0, Some(b)),
            Ok(Err(())) => (1, None),
            Err(_) => (2, None),
        };
        built += b.is_some() as u64;
        let b = b.unwrap_or(Built { n: 0, sc: 0, tc: 0, len: 0, w: 0 });
        writeln!(
            out,
            "{{\"o\":\"cfg\",\"api\":{api},\"how\":{how},\"sh\":{sh},\"est\":{},\"cap\":{},\"ok\":{},\"mis\":{mis},\"res\":{code},\"n\":{},\"sc\":{},\"tc\":{},\"len\":{},\"w\":{}}}",
            limbs(est), limbs(cap), ok as u8, b.n, limbs(b.sc), limbs(b.tc), b.len, limbs(b.w)
        )
        .unwrap();
        if t % 20 == 0 {
            // the whole capacity can be used
            let shards = *r.pick(&[1usize, 2, 3, 4, 8, 16, 32, 64]);
            let est = *r.pick(&[10usize, 64, 128, 256, 300, 1024, 2048, 4096]);
            let cap = 2 * shards as u64 + r.below(600);
            let o = OptionsBuilder::new()
                .shards(shards)
                .estimated_items_capacity(est)
                .weight_capacity(cap)
                .hot_allocation(*r.pick(&[0.5, 0.97, 1.0]))
                .build()
                .unwrap();
            let c: sync::Cache<u64, u64, UnitWeighter, Hb> = sync::Cache::with_options(o, UnitWeighter, Hb { mode: 0 }, Default::default());
            let start = r.next() >> 8;
            let tc = c.capacity();
            for k in 0..(64 * tc + 2000) {
                c.insert(start + k, k);
            }
            fills += 1;
            writeln!(
                out,
                "{{\"o\":\"fill\",\"sh\":{shards},\"est\":{est},\"cap\":{cap},\"n\":{},\"tc\":{},\"w\":{}}}",
                c.num_shards(),
                limbs(tc),
                limbs(c.weight())
            )
            .unwrap();
        }
    }
    out.flush().unwrap();
    println!("GEN configurations={n} built={built} fills={fills}");
}
