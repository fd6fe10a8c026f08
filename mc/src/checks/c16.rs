//! C16: no allocation with caller-supplied scratch.  C17: operation counts.
use crate::alloc;
use crate::by_type;
use crate::engine::*;
use crate::gen;
use crate::inst::*;
use crate::sc::*;
use crate::scal::{self, Cnt};
use crate::win;

pub struct C16;
pub struct C17;
impl Check for C16 {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn cases(&self, tier: Tier, _p: Profile) -> Vec<String> {
        let (all, bound) = if tier == Tier::Quick { (1100, 66000) } else { (4200, 300000) };
        let mut v = vec![];
        for n in 1..=all {
            for ty in ["f64", "f32"] {
                if n > 600 && n % 8 != 0 {
                    v.push(format!("fast/{}/{}", ty, n));
                } else {
                    v.push(format!("all/{}/{}", ty, n));
                }
            }
        }
        for n in gen::boundary_lengths(all, bound) {
            for ty in ["f64", "f32"] {
                v.push(format!("fast/{}/{}", ty, n));
            }
        }
        v
    }
    fn run(&self, case: &str, ctx: &mut Ctx) -> Res {
        let p: Vec<&str> = case.split('/').collect();
        let n: usize = p[2].parse().unwrap();
        by_type!(p[1], allocs(n, p[0] == "fast", ctx))
    }
    fn bounds(&self, tier: Tier) -> String {
        let (a, b) = if tier == Tier::Quick { (1100, 66000) } else { (4200, 300000) };
        format!("every planned family (and every directly built algorithm for n<=130) x every op at every n<={}, fast families at boundary lengths to {}: with-scratch calls (exact and surplus scratch, first, second and third call; zero, dense and NaN data; 26 classes of data and 16 alignments for n<=130 and multiples of 64; 5000 consecutive calls at 6 lengths; first calls on a new thread), convenience calls; f32, f64", a, b)
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["allocation goes through Rust's global allocator".into()]
    }
}
const MANY: [usize; 6] = [2, 4, 6, 9, 16, 45];
const LONG: usize = 5000;
/// data a slow path might be reserved for
fn data<T: Sc>(n: usize) -> Vec<(&'static str, Vec<T>)> {
    let mut v: Vec<(&'static str, Vec<T>)> = gen::special(n).into_iter().map(|(s, d)| (s, tov(&d))).collect();
    let with = |d: f64, at: usize| {
        let mut x: Vec<T> = tov(&gen::dense(n, 102));
        x[at] = T::of(d);
        x
    };
    v.push(("infinite", vec![T::of(f64::INFINITY); n]));
    v.push(("NaN", vec![T::NANV; n]));
    v.push(("subnormal", vec![T::of(1e-40); n]));
    v.push(("one infinite", with(f64::NEG_INFINITY, n / 2)));
    v.push(("first infinite", with(f64::INFINITY, 0)));
    v.push(("last infinite", with(f64::INFINITY, n - 1)));
    v.push(("first NaN", with(f64::NAN, 0)));
    v.push(("last NaN", with(f64::NAN, n - 1)));
    v.push(("one huge", with(3e38, n / 3)));
    v.push(("all huge", vec![T::of(3e38); n]));
    v
}
fn allocs<T: Sc>(n: usize, fast: bool, ctx: &mut Ctx) -> Res {
    let x: Vec<T> = tov(&gen::dense(n, 100));
    let mut ids: Vec<String> = FAMILIES.iter().filter(|f| n >= f[0].min_len() && (!fast || f[0].fast_planned())).map(|f| format!("planned:{}", f[0].name())).collect();
    if n <= 130 {
        ids = inst_ids(n);
    }
    for id in &ids {
        let inst = make::<T>(id, n);
        let f = inst.ops();
        let sl = inst.scratch_len();
        let mut s = vec![T::of(0.0); sl + 3];
        let mut b = x.clone();
        let slow = !f[0].fast_planned() && n > 300;
        for &op in f.iter() {
            for rep in 0..if slow { 1 } else { 4usize } {
                match rep {
                    2 => b.iter_mut().for_each(|v| *v = T::of(0.0)),
                    3 => b[n / 2] = T::NANV,
                    _ => b.copy_from_slice(&x),
                }
                let len = if rep % 2 == 0 { sl } else { sl + 3 };
                let (_, a, fr, by) = alloc::count(|| inst.call(op, &mut b, &mut s[..len]));
                if a + fr > 0 {
                    return Err(format!("{} ({}) at n={} with scratch performed {} allocations ({} bytes) and {} frees (call {})", op.name(), id, n, a, by, fr, rep));
                }
                ctx.states += 1;
                ctx.transitions += 1;
                ctx.traces += 1;
            }
            if n <= 130 || n % 64 == 0 && !slow {
                for (what, v) in data::<T>(n) {
                    let mut b = v.clone();
                    let (_, a, fr, by) = alloc::count(|| inst.call(op, &mut b, &mut s[..sl]));
                    if a + fr > 0 {
                        return Err(format!("{} ({}) of {} data at n={} with scratch performed {} allocations ({} bytes) and {} frees", op.name(), id, what, n, a, by, fr));
                    }
                    let mut b = v;
                    let (_, a, fr, by) = alloc::count(|| inst.call_conv(op, &mut b));
                    let want = (sl * std::mem::size_of::<T>()) as u64;
                    if a > 1 || a != fr || (a == 1 && by != want) {
                        return Err(format!("{} ({}) of {} data at n={} without scratch performed {} allocations ({} bytes, reported scratch is {} bytes) and {} frees", op.name(), id, what, n, a, by, want, fr));
                    }
                    ctx.states += 2;
                    ctx.transitions += 2;
                    ctx.traces += 2;
                }
            }
            // nor is anything set up by the first call a thread makes
            if n <= 130 || n % 256 == 0 && !slow {
                let (mut b, mut s) = (x.clone(), vec![T::of(0.0); sl]);
                let (i2, xs) = (inst.clone(), x.clone());
                let r = std::thread::spawn(move || {
                    let (_, a, fr, by) = alloc::count(|| i2.call(op, &mut b, &mut s));
                    b.copy_from_slice(&xs);
                    let (_, a2, fr2, by2) = alloc::count(|| i2.call_conv(op, &mut b));
                    (a + fr, by, a2, fr2, by2)
                });
                let (a, by, a2, fr2, by2) = r.join().map_err(|_| format!("{} ({}) at n={} panicked on a new thread", op.name(), id, n))?;
                let want = (sl * std::mem::size_of::<T>()) as u64;
                if a > 0 || a2 > 1 || a2 != fr2 || (a2 == 1 && by2 != want) {
                    return Err(format!("{} ({}) at n={} on a new thread: {} heap events ({} bytes) with scratch; {} allocations and {} frees without (reported scratch is {} bytes)", op.name(), id, n, a, by, a2, fr2, want));
                }
                ctx.states += 2;
                ctx.transitions += 2;
                ctx.traces += 2;
            }
            // whatever the alignment of the slices
            if n <= 130 || n % 64 == 0 && !slow {
                let (mut bm, mut sm) = (vec![T::of(0.0); n + 16], vec![T::of(0.0); sl + 16]);
                for o in 0..16 {
                    for (ob, os) in [(o, 0), (0, o), (o, o)] {
                        bm[ob..ob + n].copy_from_slice(&x);
                        let (_, a, fr, by) = alloc::count(|| inst.call(op, &mut bm[ob..ob + n], &mut sm[os..os + sl]));
                        if a + fr > 0 {
                            return Err(format!("{} ({}) at n={} with scratch performed {} allocations ({} bytes) and {} frees (buffer and scratch {} and {} elements into their blocks)", op.name(), id, n, a, by, fr, ob, os));
                        }
                        ctx.states += 1;
                        ctx.transitions += 1;
                        ctx.traces += 1;
                    }
                }
            }
            // histories: nothing is allocated every so many calls either
            if MANY.contains(&n) {
                let mut b = vec![T::of(0.0); n];
                for rep in 0..LONG {
                    b[rep % n] = x[rep % n];
                    let (_, a, fr, by) = alloc::count(|| inst.call(op, &mut b, &mut s[..sl]));
                    if a + fr > 0 {
                        return Err(format!("{} ({}) at n={} with scratch performed {} allocations ({} bytes) and {} frees at call {}", op.name(), id, n, a, by, fr, rep));
                    }
                    b.iter_mut().for_each(|v| *v = T::of(0.0));
                }
                ctx.states += 1;
                ctx.transitions += LONG as u64;
            }
            for rep in 0..if slow { 1 } else { 2 } {
                b.copy_from_slice(&x);
                let (_, a, fr, by) = alloc::count(|| inst.call_conv(op, &mut b));
                let want = (sl * std::mem::size_of::<T>()) as u64;
                if a > 1 || a != fr || (a == 1 && by != want) {
                    return Err(format!("{} at n={} without scratch performed {} allocations ({} bytes, reported scratch is {} bytes) and {} frees (call {})", op.name(), n, a, by, want, fr, rep));
                }
                ctx.states += 1;
                ctx.transitions += 1;
                ctx.traces += 1;
            }
        }
    }
    if n % 2 == 0 {
        let ids = if n <= 64 { mdct_ids(n) } else { vec!["planned".to_string()] };
        for id in ids {
            let m = make_mdct::<T>(&id, n, vec![T::of(0.5); 2 * n]);
            let mut s = vec![T::of(0.0); m.get_scratch_len()];
            let (mut o1, mut o2) = (vec![T::of(0.0); n], vec![T::of(0.0); n]);
            for (what, v) in if n <= 130 || n % 64 == 0 { data::<T>(n) } else { vec![] } {
                let sl = s.len();
                for (o, w) in [(&mut o1, 0.0), (&mut o2, 1.0)] {
                    o.iter_mut().for_each(|c| *c = T::of(w));
                }
                let (_, a, fr, _) = alloc::count(|| m.process_imdct_with_scratch(&v, &mut o1, &mut o2, &mut s[..sl]));
                let (_, a2, fr2, _) = alloc::count(|| m.process_mdct_with_scratch(&v, &x, &mut o1, &mut s[..sl]));
                let (_, a3, fr3, _) = alloc::count(|| m.process_mdct_with_scratch(&x, &v, &mut o1, &mut s[..sl]));
                if a + fr + a2 + fr2 + a3 + fr3 > 0 {
                    return Err(format!("MDCT ({}) of {} data at n={}: {} allocations {} frees in the inverse, {} and {} in the forward calls", id, what, n, a, fr, a2 + a3, fr2 + fr3));
                }
                ctx.states += 3;
                ctx.transitions += 3;
                ctx.traces += 3;
            }
            // nor the first calls of a thread
            if n <= 130 || n % 256 == 0 {
                let (m2, x2, mut s2) = (m.clone(), x.clone(), vec![T::of(0.0); m.get_scratch_len()]);
                let (mut p1, mut p2) = (vec![T::of(0.0); n], vec![T::of(0.0); n]);
                let r = std::thread::spawn(move || {
                    let (_, a, fr, _) = alloc::count(|| m2.process_mdct_with_scratch(&x2, &x2, &mut p1, &mut s2));
                    let (_, a2, fr2, _) = alloc::count(|| m2.process_imdct_with_scratch(&x2, &mut p1, &mut p2, &mut s2));
                    a + fr + a2 + fr2
                });
                let k = r.join().map_err(|_| format!("MDCT ({}) at n={} panicked on a new thread", id, n))?;
                if k > 0 {
                    return Err(format!("MDCT ({}) at n={}: {} heap events in a thread's first forward and inverse call", id, n, k));
                }
                ctx.states += 2;
                ctx.transitions += 2;
                ctx.traces += 2;
            }
            // nor does any alignment of the four slices and the scratch
            if n <= 130 || n % 64 == 0 {
                let sl = s.len();
                let (mut a1, mut a2, mut a3, mut a4) = (vec![T::of(0.5); n + 16], vec![T::of(0.25); n + 16], vec![T::of(0.0); n + 16], vec![T::of(0.0); sl + 16]);
                for o in 0..16 {
                    for m5 in [0b1000, 0b0100, 0b0010, 0b0001, 0b1111, 0b1110] {
                        let at = |bit: usize| if m5 >> bit & 1 == 1 { o } else { 0 };
                        let (x1, x2, x3, x4) = (at(0), at(1), at(2), at(3));
                        let (_, a, fr, _) = alloc::count(|| m.process_mdct_with_scratch(&a1[x1..x1 + n], &a2[x2..x2 + n], &mut a3[x3..x3 + n], &mut a4[x4..x4 + sl]));
                        let (_, b, gr, _) = alloc::count(|| m.process_imdct_with_scratch(&a1[x1..x1 + n], &mut a2[x2..x2 + n], &mut a3[x3..x3 + n], &mut a4[x4..x4 + sl]));
                        if a + fr + b + gr > 0 {
                            return Err(format!("MDCT ({}) at n={}: {} allocations {} frees in the forward, {} and {} in the inverse call (slices {}, {}, {} and scratch {} elements into their blocks)", id, n, a, fr, b, gr, x1, x2, x3, x4));
                        }
                        a1.iter_mut().chain(a2.iter_mut()).chain(a3.iter_mut()).for_each(|v| *v = T::of(0.5));
                        ctx.states += 2;
                        ctx.transitions += 2;
                        ctx.traces += 2;
                    }
                }
            }
            if MANY.contains(&n) {
                for rep in 0..LONG {
                    let sl = s.len();
                    let (_, a, fr, _) = alloc::count(|| m.process_mdct_with_scratch(&x, &x, &mut o1, &mut s[..sl]));
                    let (_, a2, fr2, _) = alloc::count(|| m.process_imdct_with_scratch(&x, &mut o1, &mut o2, &mut s[..sl]));
                    if a + fr + a2 + fr2 > 0 {
                        return Err(format!("MDCT ({}) at n={}: {} allocations {} frees in the forward, {} and {} in the inverse call (call {})", id, n, a, fr, a2, fr2, rep));
                    }
                }
                ctx.states += 1;
                ctx.transitions += 2 * LONG as u64;
            }
            let zeros = vec![T::of(0.0); n];
            let nans = vec![T::NANV; n];
            s.resize(m.get_scratch_len() + 3, T::of(0.0));
            for rep in 0..5 {
                let (x, sl) = match rep {
                    2 => (&zeros, s.len()),
                    3 => (&nans, s.len()),
                    4 => (&zeros, s.len() - 3),
                    _ => (&x, s.len() - 3),
                };
                if rep == 4 {
                    o1.iter_mut().chain(o2.iter_mut()).for_each(|v| *v = T::of(0.0));
                }
                let (_, a, fr, _) = alloc::count(|| m.process_mdct_with_scratch(x, x, &mut o1, &mut s[..sl]));
                let (_, a2, fr2, _) = alloc::count(|| m.process_imdct_with_scratch(x, &mut o1, &mut o2, &mut s[..sl]));
                if a + fr + a2 + fr2 > 0 {
                    return Err(format!("MDCT ({}) at n={}: {} allocations {} frees in the forward, {} and {} in the inverse call (call {})", id, n, a, fr, a2, fr2, rep));
                }
                ctx.states += 2;
                ctx.transitions += 2;
                ctx.traces += 2;
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C17
/// c such that every planned fast transform must stay below c * n * (log2 n + 1) operations,
/// and scratch below S*n + 64 elements.  Largest measured values are in the evidence
/// (about 30 for types 2-4 and MDCT, 57 for type 1, 63 for types 6 and 7).
fn ops_c(op: Op) -> f64 {
    match op {
        Op::Dct1 | Op::Dst1 | Op::Dst6 | Op::Dst7 => 100.0,
        _ => 50.0,
    }
}
pub const SCR_C: f64 = 44.0;
impl Check for C17 {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn cases(&self, tier: Tier, _p: Profile) -> Vec<String> {
        let (all, bound) = if tier == Tier::Quick { (2100, 140000) } else { (8300, 1100000) };
        let mut v = vec![];
        for n in 1..=all {
            v.push(format!("all/{}", n));
        }
        let mut l = gen::boundary_lengths(all, bound);
        // primes spread over the whole range, their halves and neighbours
        let mut last = all;
        for p in gen::primes_upto(bound) {
            if p > last + last / 24 {
                last = p;
                l.extend([p - 1, p, p + 1, (p - 1) / 2, (p + 1) / 2]);
                l.push(2 * p);
            }
        }
        // squares of primes and products of two large primes
        for p in gen::primes_upto(1000) {
            if p * p > all && p * p < bound && p % 3 == 1 {
                l.push(p * p);
                l.push(p * (p + 2));
            }
        }
        l.retain(|n| *n > all && *n <= bound);
        l.sort();
        l.dedup();
        v.extend(l.iter().map(|n| format!("all/{}", n)));
        let (ops, scr) = chain_bounds(tier);
        for m in CHAINS {
            for f in FAMILIES {
                if f[0].fast_planned() {
                    v.push(format!("chain/{}/{}/{}/{}", f[0].name(), m, ops, scr));
                }
            }
            v.push(format!("chain/mdct/{}/{}/{}", m, ops, scr));
        }
        v
    }
    fn run(&self, case: &str, ctx: &mut Ctx) -> Res {
        let p: Vec<&str> = case.split('/').collect();
        if p[0] == "chain" {
            return chain(p[1], p[2].parse().unwrap(), p[3].parse().unwrap(), p[4].parse().unwrap(), ctx);
        }
        count_ops(p[1].parse().unwrap(), ctx)
    }
    fn bounds(&self, tier: Tier) -> String {
        let (a, b) = if tier == Tier::Quick { (2100, 140000) } else { (8300, 1100000) };
        format!("exact operation counts of DCT/DST 1-4, DST6/7, MDCT and IMDCT (a counting element type) at every n<={} and at boundary lengths, primes and their neighbours, doubled primes, prime squares to {}; histories of 1500 calls at selected lengths; limits {} n (log2 n + 1) operations for types 2-4 and MDCT, {} for the others, and {} n + 64 scratch elements; convenience calls counted too", a, b, ops_c(Op::Dct2), ops_c(Op::Dct1), SCR_C)
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["cost is counted on rustfft's generic (scalar) planner; for f32/f64 the inner FFTs are SIMD versions of the same decompositions, and their scratch is measured".into(), "operation counts do not depend on data (checked on 27 classes of inputs and 12 windows for n<=300 and multiples of 512)".into()]
    }
}
/// Lengths m * 2^k (for types 1, 6 and 7: those whose inner FFT has length m * 2^k or m * 3^k): along one chain the
/// cost per n (log2 n + 1) and the scratch per n at long lengths may not exceed what short lengths already show.
const CHAINS: [usize; 9] = [1, 3, 5, 7, 9, 11, 15, 17, 25];
const SHORT: usize = 2048;
const GROWTH: f64 = 1.5;
fn chain_bounds(t: Tier) -> (usize, usize) {
    if t == Tier::Quick {
        (300_000, 2_200_000)
    } else {
        (2_200_000, 9_000_000)
    }
}
fn chain(fam: &str, m: usize, ops_to: usize, scr_to: usize, ctx: &mut Ctx) -> Res {
    let mut short: std::collections::HashMap<String, f64> = Default::default();
    let mut see = |what: String, n: usize, r: f64, ctx: &mut Ctx| -> Res {
        ctx.states += 1;
        ctx.transitions += 1;
        ctx.traces += 1;
        let e = short.entry(what.clone()).or_insert(0.0);
        if n <= SHORT {
            *e = e.max(r);
            return Ok(());
        }
        ctx.max(&format!("growth_{}", what.replace(|c: char| !c.is_alphanumeric(), "_")), r / e.max(1.0));
        if r > GROWTH * e.max(1.0) {
            return Err(format!("{} of {} at n={} (chain of {}) is {:.2}, but at most {:.2} for lengths up to {}: it grows faster than stated", what, fam, n, m, r, *e, SHORT));
        }
        Ok(())
    };
    let mut l = m;
    while l <= scr_to {
        let n = match fam {
            "dct1" => l / 2 + 1,
            "dst1" => (l / 2).saturating_sub(1),
            "dst6" => (l - 1) / 2,
            _ => l,
        };
        l *= if fam == "dst6" { 3 } else { 2 };
        if n < 2 || (fam == "mdct" && n % 2 == 1) {
            continue;
        }
        let nl = n as f64 * ((n as f64).log2() + 1.0);
        if fam == "mdct" {
            let d = make_mdct::<f64>("planned", n, vec![0.5; 2 * n]).get_scratch_len();
            let f = make_mdct::<f32>("planned", n, vec![0.5; 2 * n]).get_scratch_len();
            let u = make_mdct::<Cnt>("planned", n, vec![Cnt(0.5); 2 * n]);
            for (w, s) in [("f64", d), ("f32", f), ("user type", u.get_scratch_len())] {
                see(format!("scratch per element ({})", w), n, s as f64 / n as f64, ctx)?;
            }
            if n <= ops_to {
                let x = vec![Cnt(0.5); n];
                let (mut o1, mut o2) = (vec![Cnt(0.0); n], vec![Cnt(0.0); n]);
                let mut s = vec![Cnt(0.0); u.get_scratch_len()];
                let o = scal::ops();
                u.process_mdct_with_scratch(&x, &x, &mut o1, &mut s);
                let c1 = scal::ops() - o;
                u.process_imdct_with_scratch(&x, &mut o1, &mut o2, &mut s);
                see("operations per n (log2 n + 1) (mdct)".into(), n, c1 as f64 / nl, ctx)?;
                see("operations per n (log2 n + 1) (imdct)".into(), n, (scal::ops() - o - c1) as f64 / nl, ctx)?;
            }
            continue;
        }
        let f = FAMILIES.iter().find(|f| f[0].name() == fam).unwrap();
        let u = planned::<Cnt>(f[0], n);
        for (w, s) in [("f64", planned::<f64>(f[0], n).scratch_len()), ("f32", planned::<f32>(f[0], n).scratch_len()), ("user type", u.scratch_len())] {
            see(format!("scratch per element ({})", w), n, s as f64 / n as f64, ctx)?;
        }
        if n <= ops_to {
            for &op in f.iter() {
                let mut b: Vec<Cnt> = tov(&gen::dense(n, 101));
                let mut s = vec![Cnt(0.0); u.scratch_len()];
                let o = scal::ops();
                u.call(op, &mut b, &mut s);
                see(format!("operations per n (log2 n + 1) ({})", op.name()), n, (scal::ops() - o) as f64 / nl, ctx)?;
            }
        }
    }
    Ok(())
}
fn count_ops(n: usize, ctx: &mut Ctx) -> Res {
    let nl = n as f64 * ((n as f64).log2() + 1.0);
    for f in FAMILIES {
        if n < f[0].min_len() || !f[0].fast_planned() {
            continue;
        }
        let inst = planned::<Cnt>(f[0], n);
        let sl = inst.scratch_len();
        for (ty, s) in [("user type", sl), ("f32", planned::<f32>(f[0], n).scratch_len()), ("f64", planned::<f64>(f[0], n).scratch_len())] {
            if s as f64 > SCR_C * n as f64 + 64.0 {
                return Err(format!("plan_{}({}) for {} needs {} scratch elements, more than {} n + 64", f[0].name(), n, ty, s, SCR_C));
            }
            ctx.max("scratch_per_n", s as f64 / n as f64);
        }
        let mut s = vec![Cnt(0.0); sl];
        for &op in f.iter() {
            let mut inputs: Vec<Vec<Cnt>> = vec![tov(&gen::dense(n, 101))];
            if n <= 300 || n % 512 == 0 {
                inputs.extend(data::<Cnt>(n).into_iter().map(|(_, v)| v));
            }
            // the cost must not change in the course of many calls either
            if n % 64 == 1 && n <= 300 || [64, 100, 256].contains(&n) {
                for rep in 0..if n <= 130 { 1500 } else { 300 } {
                    let mut b = inputs[0].clone();
                    let o = scal::ops();
                    inst.call(op, &mut b, &mut s);
                    let c = scal::ops() - o;
                    if c as f64 > ops_c(op) * nl {
                        return Err(format!("{} at n={} took {} operations = {:.1} n (log2 n + 1) in call {} on one instance, limit {}", op.name(), n, c, c as f64 / nl, rep, ops_c(op)));
                    }
                    ctx.transitions += 1;
                }
                ctx.states += 1;
            }
            for mut b in inputs {
                let o = scal::ops();
                inst.call(op, &mut b, &mut s);
                let c = scal::ops() - o;
                ctx.max(&format!("ops_per_nlogn_{}", op.name()), c as f64 / nl);
                if c as f64 > ops_c(op) * nl {
                    return Err(format!("{} at n={} took {} operations = {:.1} n (log2 n + 1), limit {}", op.name(), n, c, c as f64 / nl, ops_c(op)));
                }
                ctx.add("operations_counted", c);
                ctx.states += 1;
                ctx.transitions += 1;
                ctx.traces += 1;
            }
            if n <= 1024 {
                let mut b: Vec<Cnt> = tov(&gen::dense(n, 101));
                let o = scal::ops();
                inst.call_conv(op, &mut b);
                let c = scal::ops() - o;
                if c as f64 > ops_c(op) * nl {
                    return Err(format!("{} (convenience call) at n={} took {} operations = {:.1} n (log2 n + 1)", op.name(), n, c, c as f64 / nl));
                }
                ctx.transitions += 1;
            }
        }
    }
    if n % 2 == 0 {
        let wins: &[&str] = if n <= 300 || n % 512 == 0 { &win::ALL } else { &["one"] };
        for wn in wins {
        let m = make_mdct::<Cnt>("planned", n, win::values(wn, 2 * n));
        let sl = m.get_scratch_len();
        if sl as f64 > SCR_C * n as f64 + 64.0 {
            return Err(format!("plan_mdct({}) needs {} scratch elements", n, sl));
        }
        let mut inputs: Vec<Vec<Cnt>> = vec![tov(&gen::dense(n, 101))];
        if wins.len() > 1 {
            inputs.extend(data::<Cnt>(n).into_iter().map(|(_, v)| v));
        }
        for x in inputs {
        let (mut o1, mut o2) = (vec![Cnt(0.0); n], vec![Cnt(0.0); n]);
        let mut s = vec![Cnt(0.0); sl];
        let o = scal::ops();
        m.process_mdct_with_scratch(&x, &x, &mut o1, &mut s);
        let c1 = scal::ops() - o;
        m.process_imdct_with_scratch(&x, &mut o1, &mut o2, &mut s);
        let c2 = scal::ops() - o - c1;
        for (nm, c) in [("MDCT", c1), ("IMDCT", c2)] {
            ctx.max(&format!("ops_per_nlogn_{}", nm), c as f64 / nl);
            if c as f64 > ops_c(Op::Dct4) * nl {
                return Err(format!("{} at n={} took {} operations = {:.1} n (log2 n + 1), limit {}", nm, n, c, c as f64 / nl, ops_c(Op::Dct4)));
            }
        }
        ctx.states += 2;
        ctx.transitions += 2;
        ctx.traces += 2;
        }
        }
    }
    Ok(())
}
