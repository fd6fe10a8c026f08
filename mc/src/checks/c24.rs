//! C24: what planning costs (memory, work) and that everything is released.
use super::c12::{alphabet, issue, sequences, Got, Req};
use crate::alloc::held;
use crate::engine::*;
use crate::gen;
use crate::inst::*;
use crate::sc::*;
use crate::scal::{self, Cnt, Wrap};
use crate::win;
use rustdct::DctPlanner;

pub struct C24;
/// most bytes held while and after planning, per length and element size, plus a fixed amount
const KEEP: f64 = 64.0;
const PEAK: f64 = 110.0;
const FIXED: f64 = 6000.0;
/// arithmetic operations and constant conversions of planning per n (log2 n + 1)
const WORK: f64 = 120.0;
const GROWTH: f64 = 1.5;
const SHORT: usize = 2048;
const CHAINS: [usize; 9] = [1, 3, 5, 7, 9, 11, 15, 17, 25];
fn tier_bounds(t: Tier) -> (usize, usize, usize, usize) {
    if t == Tier::Quick {
        (1030, 70_000, 1_100_000, 300)
    } else {
        (4200, 600_000, 9_000_000, 900)
    }
}
fn names() -> Vec<&'static str> {
    let mut v: Vec<&str> = FAMILIES.iter().map(|f| f[0].name()).collect();
    v.push("mdct");
    v
}
impl Check for C24 {
    fn id(&self) -> &'static str {
        "C24"
    }
    fn cases(&self, tier: Tier, _p: Profile) -> Vec<String> {
        let (all, bound, chain, fleet) = tier_bounds(tier);
        let mut v = vec![];
        for n in (1..=all).chain(gen::boundary_lengths(all, bound)) {
            v.push(format!("mem/{}", n));
        }
        for f in names() {
            for m in CHAINS {
                v.push(format!("chain/{}/{}/{}", f, m, chain));
            }
        }
        for a in ["pow2", "pow2big", "fft", "odd", "win", "reject", "swap", "same8", "same9", "same45", "same64"] {
            for i in 0..alphabet(a).len() {
                for ty in ["f64", "f32", "wrap"] {
                    v.push(format!("hist/{}/{}/{}", a, ty, i));
                }
            }
        }
        for o in ["asc", "desc", "mix"] {
            for ty in ["f64", "f32", "wrap"] {
                v.push(format!("fleet/{}/{}/{}", o, ty, fleet));
            }
        }
        v
    }
    fn bounds(&self, tier: Tier) -> String {
        let (all, bound, chain, fleet) = tier_bounds(tier);
        format!(
            "planning of every family and MDCT at every n<={} and boundary lengths to {}: bytes kept and peak bytes per n (limits {} and {} element sizes plus {} bytes), operations (limit {} n (log2 n + 1)); growth along chains m*2^k, m*3^k to {} at most {} times the largest value up to n={}; all request sequences of length 3 over 11 alphabets: balance of bytes after everything is dropped, in both drop orders; one planner asked for every length to {} in three orders; f32, f64, a 16-byte user type",
            all, bound, KEEP, PEAK, FIXED, WORK, chain, GROWTH, SHORT, fleet
        )
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["allocation goes through Rust's global allocator".into(), "operation counts are taken with a counting element type, i.e. on rustfft's generic planner".into()]
    }
    fn run(&self, case: &str, ctx: &mut Ctx) -> Res {
        let p: Vec<&str> = case.split('/').collect();
        match p[0] {
            "mem" => {
                let n: usize = p[1].parse().unwrap();
                for f in names() {
                    if !valid(f, n) || (slow(f) && n > 20_000) {
                        continue;
                    }
                    one::<f64>(f, n, ctx)?;
                    one::<f32>(f, n, ctx)?;
                    one::<Wrap>(f, n, ctx)?;
                    let w = work(f, n);
                    let r = w as f64 / (n as f64 * ((n as f64).log2() + 1.0));
                    ctx.max("planning_operations_per_nlogn", r);
                    if r > WORK {
                        return Err(format!("planning {} at n={} takes {} operations = {:.1} n (log2 n + 1), limit {}", f, n, w, r, WORK));
                    }
                }
                Ok(())
            }
            "chain" => chain(p[1], p[2].parse().unwrap(), p[3].parse().unwrap(), ctx),
            "hist" => match p[2] {
                "f64" => hist::<f64>(p[1], p[3].parse().unwrap(), ctx),
                "f32" => hist::<f32>(p[1], p[3].parse().unwrap(), ctx),
                _ => hist::<Wrap>(p[1], p[3].parse().unwrap(), ctx),
            },
            _ => match p[2] {
                "f64" => fleet::<f64>(p[1], p[3].parse().unwrap(), ctx),
                "f32" => fleet::<f32>(p[1], p[3].parse().unwrap(), ctx),
                _ => fleet::<Wrap>(p[1], p[3].parse().unwrap(), ctx),
            },
        }
    }
}
fn slow(f: &str) -> bool {
    f != "mdct" && !Op::parse(f).fast_planned()
}
fn valid(f: &str, n: usize) -> bool {
    if f == "mdct" {
        n % 2 == 0
    } else {
        n >= Op::parse(f).min_len()
    }
}
fn get<T: Sc>(p: &mut DctPlanner<T>, f: &str, n: usize, w: Vec<T>) -> Got<T> {
    if f == "mdct" {
        Got::M(p.plan_mdct(n, move |_| w))
    } else {
        Got::I(plan(p, Op::parse(f), n))
    }
}
fn window<T: Sc>(f: &str, n: usize) -> Vec<T> {
    if f == "mdct" {
        win::values("asym", 2 * n)
    } else {
        vec![]
    }
}
/// (bytes kept by planner and instance, peak, bytes kept by the instance alone, bytes left at the end)
fn measure<T: Sc>(f: &str, n: usize) -> (i64, i64, i64, i64) {
    let w = window::<T>(f, n);
    let wb = (w.len() * std::mem::size_of::<T>()) as i64;
    let ((p, g), kept, peak) = held(|| {
        let mut p = DctPlanner::<T>::new();
        let g = get(&mut p, f, n, w);
        (p, g)
    });
    let (_, a, _) = held(|| drop(p));
    let (_, b, _) = held(|| drop(g));
    // the window handed over was allocated before
    (kept + wb, peak + wb, kept + wb + a, kept + wb + a + b)
}
fn one<T: Sc>(f: &str, n: usize, ctx: &mut Ctx) -> Res {
    let (kept, peak, alone, end) = measure::<T>(f, n);
    let size = std::mem::size_of::<T>() as f64;
    ctx.states += 1;
    ctx.transitions += 3;
    ctx.traces += 1;
    let per = |b: i64| (b as f64 - FIXED) / (size * n as f64);
    ctx.max("kept_per_element", per(kept));
    ctx.max("peak_per_element", per(peak));
    if end != 0 {
        return Err(format!("planning {} at n={} ({}): {} bytes remain after planner and instance were dropped", f, n, T::NAME, end));
    }
    if alone <= 0 {
        return Err(format!("planning {} at n={} ({}): the instance holds no memory of its own after its planner was dropped", f, n, T::NAME));
    }
    if per(kept) > KEEP || per(peak) > PEAK {
        return Err(format!("planning {} at n={} ({}) keeps {} bytes and needs {} at its peak: {:.1} and {:.1} elements per n", f, n, T::NAME, kept, peak, kept as f64 / size / n as f64, peak as f64 / size / n as f64));
    }
    Ok(())
}
fn work(f: &str, n: usize) -> u64 {
    let w = window::<Cnt>(f, n);
    let mut p = DctPlanner::<Cnt>::new();
    let o = scal::ops() + scal::lifts();
    let _g = get(&mut p, f, n, w);
    scal::ops() + scal::lifts() - o
}
fn chain(f: &str, m: usize, to: usize, ctx: &mut Ctx) -> Res {
    let to = if slow(f) { to / 8 } else { to };
    let mut short: std::collections::HashMap<&str, f64> = Default::default();
    let mut l = m;
    while l <= to {
        let n = match f {
            "dct1" => l / 2 + 1,
            "dst1" => (l / 2).saturating_sub(1),
            "dst6" => (l - 1) / 2,
            _ => l,
        };
        l *= if f == "dst6" { 3 } else { 2 };
        if n < 2 || !valid(f, n) {
            continue;
        }
        let a = measure::<f64>(f, n);
        let b = measure::<f32>(f, n);
        let nl = n as f64 * ((n as f64).log2() + 1.0);
        let vals = [
            ("bytes kept per n (f64)", a.0 as f64 / n as f64),
            ("bytes kept per n (f32)", b.0 as f64 / n as f64),
            ("peak bytes per n (f64)", a.1 as f64 / n as f64),
            ("peak bytes per n (f32)", b.1 as f64 / n as f64),
            ("operations per n (log2 n + 1)", work(f, n) as f64 / nl),
        ];
        ctx.states += 1;
        ctx.transitions += 3;
        ctx.traces += 1;
        for (what, r) in vals {
            let e = short.entry(what).or_insert(0.0);
            if n <= SHORT {
                if n >= 256 {
                    *e = e.max(r);
                }
            } else {
                ctx.max(&format!("growth_{}", what.replace(|c: char| !c.is_alphanumeric(), "_")), r / e.max(1.0));
                if r > GROWTH * e.max(1.0) {
                    return Err(format!("planning {} at n={}: {} is {:.2}, but at most {:.2} for lengths up to {} on the same chain: it grows faster than stated", f, n, what, r, *e, SHORT));
                }
            }
        }
    }
    Ok(())
}
fn hist<T: Sc>(alpha: &str, first: usize, ctx: &mut Ctx) -> Res {
    let a = alphabet(alpha);
    sequences(&a, &[first], 3, &mut |h| {
        let mut left = [0i64; 2];
        // the second round is judged: by then the machinery's own buffers have their size
        for round in 0..2 {
            for order in 0..2 {
                let (_, l, _) = held(|| {
                    let mut p = DctPlanner::<T>::new();
                    let g: Vec<Option<Got<T>>> = h.iter().map(|r| issue(&mut p, r)).collect();
                    if order == 0 {
                        drop(p);
                        drop(g);
                    } else {
                        drop(g);
                        drop(p);
                    }
                });
                if round == 1 {
                    left[order] = l;
                }
            }
        }
        ctx.states += 1;
        ctx.transitions += 4 * h.len() as u64;
        ctx.traces += 1;
        if left != [0, 0] {
            return Err(format!("after [{}] and dropping everything ({} first), {} bytes remain allocated", h.iter().map(Req::show).collect::<Vec<_>>().join(", "), if left[0] != 0 { "the planner" } else { "the instances" }, left[0].max(left[1])));
        }
        Ok(())
    })
}
fn fleet<T: Sc>(order: &str, top: usize, ctx: &mut Ctx) -> Res {
    let mut ns: Vec<usize> = (1..=top).collect();
    match order {
        "desc" => ns.reverse(),
        "mix" => ns.sort_by_key(|n| gen::mix(*n as u64)),
        _ => {}
    }
    let mut apart = 0i64;
    let mut requests = 0i64;
    for &n in &ns {
        for f in names() {
            if valid(f, n) {
                apart += measure::<T>(f, n).0;
                requests += 1;
            }
        }
    }
    let mut all = |p: &mut DctPlanner<T>| {
        let (_, b, _) = held(|| {
            for &n in &ns {
                for f in names() {
                    if valid(f, n) {
                        get(p, f, n, window::<T>(f, n));
                    }
                }
            }
        });
        b
    };
    let ((once, again), end, _) = held(|| {
        let mut p = DctPlanner::<T>::new();
        let once = all(&mut p);
        let again = all(&mut p);
        (once, again)
    });
    ctx.max("one_planner_bytes_over_separate_ones", once as f64 / apart as f64);
    if once > apart + 500 * requests {
        return Err(format!("one planner asked for every length to {} ({}) holds {} bytes, separate planners hold {}", top, order, once, apart));
    }
    if again > 0 {
        return Err(format!("one planner asked for every length to {} ({}) grew by {} bytes when everything was requested again", top, order, again));
    }
    ctx.states += requests as u64;
    ctx.transitions += 3 * requests as u64;
    ctx.traces += requests as u64;
    if end != 0 {
        return Err(format!("one planner asked for every length to {} ({}): {} bytes remain after it was dropped", top, order, end));
    }
    Ok(())
}
