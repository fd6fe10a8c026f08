//! C04 (MDCT), C05 (IMDCT), C06 (TDAC streams)
use crate::by_type;
use crate::engine::*;
use crate::gen;
use crate::inst::*;
use crate::oracle::MDef;
use crate::sc::*;
use crate::win;

pub struct C04;
pub struct C05;
pub struct C06;

struct B {
    near: usize,
    basis: usize,
    dense: usize,
    bound: usize,
    naive: usize,
}
fn b(t: Tier) -> B {
    match t {
        Tier::Quick => B { near: 26, basis: 48, dense: 1030, bound: 17000, naive: 260 },
        Tier::Thorough => B { near: 64, basis: 120, dense: 4100, bound: 70000, naive: 700 },
    }
}
fn mcases(tier: Tier) -> Vec<String> {
    let b = b(tier);
    let mut v = vec![];
    for n in (2..=b.dense).step_by(2) {
        for id in mdct_ids(n) {
            if n > b.naive && id != "planned" {
                continue;
            }
            for ty in ["f64", "f32"] {
                if n <= b.basis {
                    v.push(format!("basis/{}/{}/{}", id, ty, n));
                }
                if n <= b.near {
                    v.push(format!("near/{}/{}/{}", id, ty, n));
                }
                v.push(format!("dense/{}/{}/{}", id, ty, n));
            }
        }
    }
    for n in gen::boundary_thinned(b.dense, b.bound, 132000) {
        if n % 2 == 0 {
            for ty in ["f64", "f32"] {
                v.push(format!("dense/planned/{}/{}", ty, n));
            }
        }
    }
    v
}
fn bounds(tier: Tier, what: &str) -> String {
    let b = b(tier);
    format!("{}: every even n<={} x every implementation (planned, direct, via each type-4 algorithm; direct and via-* up to n={}) x f32,f64; full basis x all 12 windows for n<={}; every window one edit away from 4 base windows for n<={}; boundary lengths up to {}, thinned to 132000; all 24 orders in memory of the four slices, packed and apart, n<=130 and multiples of 64", what, b.dense, b.naive, b.basis, b.near, b.bound)
}
const TOL: f64 = 8.0;
fn tol(id: &str, n: usize) -> f64 {
    if id == "naive" || id == "via:t4naive" || id == "via:t4evennaive" {
        TOL + (n as f64).sqrt()
    } else {
        TOL
    }
}
fn wlist(n: usize) -> Vec<&'static str> {
    if n <= 300 {
        win::ALL.to_vec()
    } else if n <= 4100 {
        vec!["mp3", "asym"]
    } else {
        vec!["asym"]
    }
}

impl Check for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn cases(&self, tier: Tier, _p: Profile) -> Vec<String> {
        mcases(tier)
    }
    fn bounds(&self, tier: Tier) -> String {
        bounds(tier, "forward MDCT")
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["output prefills: zeros, dense values, NaN, infinities; inputs compared bitwise before and after; both halves may be the same slice".into()]
    }
    fn run(&self, case: &str, ctx: &mut Ctx) -> Res {
        let p: Vec<&str> = case.split('/').collect();
        let n: usize = p[3].parse().unwrap();
        match p[0] {
            "near" => by_type!(p[2], near(true, p[1], n, ctx)),
            _ => by_type!(p[2], fwd(p[0] == "basis", p[1], n, ctx)),
        }
    }
}
/// Windows one edit away from symmetric and other regular ones, each against the definition.
fn near<T: Sc>(forward: bool, id: &str, n: usize, ctx: &mut Ctx) -> Res {
    let d = MDef::new(n);
    let (x, y) = (gen::dense(2 * n, 71), gen::dense(n, 72));
    let (xt, yt): (Vec<T>, Vec<T>) = (tov(&x), tov(&y));
    let prior: Vec<T> = tov(&gen::dense(2 * n, 73));
    for bn in ["mp3", "one", "inv", "asym"] {
        for (wn, wv) in win::neighbours(&win::formula(bn, 2 * n)) {
            let wt: Vec<T> = tov(&wv);
            let w = tof(&wt);
            let inst = make_mdct::<T>(id, n, wt);
            let mut s = vec![T::of(0.0); inst.get_scratch_len()];
            let wmax = w.iter().fold(0.0f64, |a, b| a.max(b.abs()));
            if forward {
                let mut out = prefill::<T>(n, 1);
                inst.process_mdct_with_scratch(&xt[..n], &xt[n..], &mut out, &mut s);
                let xw: Vec<f64> = x.iter().zip(&w).map(|(a, b)| a * b).collect();
                let want = d.forward(&x, &w);
                compare(&out, &want, scale2(&xw, &want, n), tol(id, n)).map_err(|m| format!("MDCT ({}, window {} with {}) at n={}: {}", id, bn, wn, n, m))?;
            } else {
                let mut out = prior.clone();
                let (a, bb) = out.split_at_mut(n);
                inst.process_imdct_with_scratch(&yt, a, bb, &mut s);
                let c = d.inverse(&y, &w);
                let want: Vec<f64> = (0..2 * n).map(|j| prior[j].f() + c[j]).collect();
                let sc = scale(norm(&y) * wmax, n).max(c.iter().fold(0.0f64, |a, b| a.max(b.abs())) * ((n as f64).log2() + 2.0)) + 1.0;
                compare(&out, &want, sc, tol(id, n)).map_err(|m| format!("IMDCT ({}, window {} with {}) at n={}: {}", id, bn, wn, n, m))?;
            }
            ctx.states += 1;
            ctx.transitions += 1;
            ctx.traces += 1;
        }
    }
    Ok(())
}
/// Every order of four blocks (of n, n, n and sl elements) in memory, packed or one element apart: (positions, total).
fn layouts(n: usize, sl: usize) -> Vec<([usize; 4], usize)> {
    let sizes = [n, n, n, sl];
    let mut v = vec![];
    for code in 0..256usize {
        let p = [code & 3, code >> 2 & 3, code >> 4 & 3, code >> 6];
        if (0..4).any(|b| !p.contains(&b)) {
            continue;
        }
        for gap in [0usize, 1, 5] {
            let mut pos = [0; 4];
            let mut at = gap;
            for b in p {
                pos[b] = at;
                at += sizes[b] + gap;
            }
            v.push((pos, at));
        }
    }
    v
}
/// a call on four blocks of one allocation; the blocks are disjoint
fn arena<T: Sc>(n: usize, sl: usize, pos: [usize; 4], mem: &mut [T], f: &mut dyn FnMut(&mut [T], &mut [T], &mut [T], &mut [T])) {
    let p = mem.as_mut_ptr();
    assert!([n, n, n, sl].iter().zip(pos).all(|(l, o)| o + l <= mem.len()));
    unsafe {
        let at = |i: usize, l: usize| std::slice::from_raw_parts_mut(p.add(pos[i]), l);
        f(at(0, n), at(1, n), at(2, n), at(3, sl))
    }
}
fn prefill<T: Sc>(n: usize, kind: usize) -> Vec<T> {
    match kind {
        0 => vec![T::of(0.0); n],
        1 => tov(&gen::dense(n, 40)),
        2 => vec![T::NANV; n],
        3 => vec![T::of(f64::INFINITY); n],
        _ => vec![T::of(1e30); n],
    }
}
fn fwd<T: Sc>(basis: bool, id: &str, n: usize, ctx: &mut Ctx) -> Res {
    let d = MDef::new(n);
    for wn in wlist(n) {
        let wt: Vec<T> = win::values(wn, 2 * n);
        let w = tof(&wt);
        let inst = make_mdct::<T>(id, n, wt.clone());
        if inst.len() != n {
            return Err(format!("MDCT {} for n={} reports length {}", id, n, inst.len()));
        }
        let mut s = vec![T::of(0.0); inst.get_scratch_len()];
        let mut run = |a: &[T], bb: &[T], fill: usize| {
            let mut out = prefill::<T>(n, fill);
            inst.process_mdct_with_scratch(a, bb, &mut out, &mut s);
            out
        };
        let wmax = w.iter().fold(0.0f64, |a, b| a.max(b.abs()));
        if basis {
            let mut x = vec![T::of(0.0); 2 * n];
            for i in 0..2 * n {
                x[i] = T::of(1.0);
                let got = run(&x[..n], &x[n..], 1 + i % 4);
                let want: Vec<f64> = (0..n).map(|k| w[i] * d.c(i, k)).collect();
                let r = compare(&got, &want, scale(wmax, n), tol(id, n)).map_err(|m| format!("MDCT ({}, window {}) of unit impulse {} at n={}: {}", id, wn, i, n, m))?;
                ctx.max("err_basis", r);
                x[i] = T::of(0.0);
                ctx.states += 1;
                ctx.transitions += 1;
                ctx.traces += 1;
            }
        } else {
            for which in 0..2u64 {
                let x = gen::dense(2 * n, 50 + which);
                let xt: Vec<T> = tov(&x);
                let keep = xt.clone();
                let want = d.forward(&x, &w);
                let first = run(&xt[..n], &xt[n..], 0);
                let xw: Vec<f64> = x.iter().zip(&w).map(|(a, b)| a * b).collect();
                let r = compare(&first, &want, scale2(&xw, &want, n), tol(id, n)).map_err(|m| format!("MDCT ({}, window {}) of dense input at n={}: {}", id, wn, n, m))?;
                ctx.max("err_dense", r);
                for fill in 1..5 {
                    let o = run(&xt[..n], &xt[n..], fill);
                    if let Some(i) = diff_bits(&o, &first) {
                        return Err(format!("MDCT ({}, window {}) at n={}: output[{}] depends on the previous output contents (prefill {})", id, wn, n, i, fill));
                    }
                    ctx.transitions += 1;
                }
                if let Some(i) = diff_bits(&xt, &keep) {
                    return Err(format!("MDCT ({}) at n={} modified input[{}]", id, n, i));
                }
                ctx.states += 1;
                ctx.transitions += 1;
                ctx.traces += 1;
                if which == 0 {
                    for (sn, v) in gen::special(2 * n) {
                        let want = d.forward(&v, &w);
                        let t: Vec<T> = tov(&v);
                        let vw: Vec<f64> = v.iter().zip(&w).map(|(a, b)| a * b).collect();
                        for fill in 1..3 {
                            let got = run(&t[..n], &t[n..], fill);
                            if v.iter().all(|a| *a == 0.0) {
                                if let Some(k) = got.iter().position(|g| g.f() != 0.0) {
                                    return Err(format!("MDCT ({}, window {}) of the zero input at n={}: output[{}] = {:e} (prefill {})", id, wn, n, k, got[k].f(), fill));
                                }
                            } else {
                                compare(&got, &want, scale2(&vw, &want, n).max(scale(norm(&v) * wmax, n)), tol(id, n)).map_err(|m| format!("MDCT ({}, window {}) of the {} input at n={} (prefill {}): {}", id, wn, sn, n, fill, m))?;
                            }
                            ctx.states += 1;
                            ctx.transitions += 1;
                            ctx.traces += 1;
                        }
                    }
                    // where the four slices lie relative to one another does not matter
                    if wn == "asym" && (n <= 130 || n % 64 == 0) {
                        let sl = inst.get_scratch_len();
                        for (pos, total) in layouts(n, sl) {
                            let mut mem = vec![T::NANV; total];
                            mem[pos[0]..pos[0] + n].copy_from_slice(&xt[..n]);
                            mem[pos[1]..pos[1] + n].copy_from_slice(&xt[n..]);
                            arena(n, sl, pos, &mut mem, &mut |a, b, o, s| inst.process_mdct_with_scratch(a, b, o, s));
                            if let Some(k) = diff_bits(&mem[pos[2]..pos[2] + n], &first) {
                                return Err(format!("MDCT ({}, window {}) at n={}: output[{}] differs when inputs, output and scratch start at elements {:?} of one allocation", id, wn, n, k, pos));
                            }
                            if diff_bits(&mem[pos[0]..pos[0] + n], &xt[..n]).is_some() || diff_bits(&mem[pos[1]..pos[1] + n], &xt[n..]).is_some() {
                                return Err(format!("MDCT ({}) at n={} modified its input (inputs, output and scratch start at elements {:?} of one allocation)", id, n, pos));
                            }
                            ctx.states += 1;
                            ctx.transitions += 1;
                            ctx.traces += 1;
                        }
                    }
                    // input halves that overlap in memory, by any amount
                    if wn == "asym" && (n <= 130 || n % 64 == 0) {
                        let xx: Vec<T> = tov(&gen::dense(2 * n, 44));
                        let (mut o1, mut o2) = (vec![T::of(0.0); n], vec![T::of(0.0); n]);
                        let mut s2 = vec![T::of(0.0); inst.get_scratch_len()];
                        for h in (0..=n).filter(|h| n <= 300 || h % (n / 64) == 0) {
                            for (a, b) in [(0, h), (h, 0)] {
                                let apart = xx[b..b + n].to_vec();
                                inst.process_mdct_with_scratch(&xx[a..a + n], &apart, &mut o1, &mut s2);
                                inst.process_mdct_with_scratch(&xx[a..a + n], &xx[b..b + n], &mut o2, &mut s2);
                                if let Some(k) = diff_bits(&o1, &o2) {
                                    return Err(format!("MDCT ({}, window {}) at n={}: output[{}] differs when input_b starts {} elements after input_a in the same slice", id, wn, n, k, b as i64 - a as i64));
                                }
                                ctx.states += 1;
                                ctx.transitions += 2;
                                ctx.traces += 1;
                            }
                        }
                    }
                    // both halves the same slice
                    let mut y = x[..n].to_vec();
                    y.extend_from_slice(&x[..n]);
                    let want = d.forward(&y, &w);
                    let got = run(&xt[..n], &xt[..n], 2);
                    compare(&got, &want, scale2(&y, &want, n) * wmax.max(1.0), tol(id, n)).map_err(|m| format!("MDCT ({}, window {}) of two identical halves at n={}: {}", id, wn, n, m))?;
                    // swapped halves: a and b are not interchangeable
                    let mut z = x[n..].to_vec();
                    z.extend_from_slice(&x[..n]);
                    let want = d.forward(&z, &w);
                    let got = run(&xt[n..], &xt[..n], 2);
                    compare(&got, &want, scale2(&z, &want, n) * wmax.max(1.0), tol(id, n)).map_err(|m| format!("MDCT ({}, window {}) of swapped halves at n={}: {}", id, wn, n, m))?;
                    ctx.states += 2;
                    ctx.transitions += 2;
                    ctx.traces += 2;
                }
            }
        }
    }
    Ok(())
}

impl Check for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn cases(&self, tier: Tier, _p: Profile) -> Vec<String> {
        mcases(tier)
    }
    fn bounds(&self, tier: Tier) -> String {
        bounds(tier, "inverse MDCT")
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["prior output contents: zero, dense, large, one NaN cell, 16 patterns on both or either half, every zero set for n<=6, every pair of cells for n<=40; three blocks accumulated in all 6 orders".into()]
    }
    fn run(&self, case: &str, ctx: &mut Ctx) -> Res {
        let p: Vec<&str> = case.split('/').collect();
        let n: usize = p[3].parse().unwrap();
        match p[0] {
            "near" => by_type!(p[2], near(false, p[1], n, ctx)),
            _ => by_type!(p[2], inv(p[0] == "basis", p[1], n, ctx)),
        }
    }
}
fn inv<T: Sc>(basis: bool, id: &str, n: usize, ctx: &mut Ctx) -> Res {
    let d = MDef::new(n);
    for wn in wlist(n) {
        let wt: Vec<T> = win::values(wn, 2 * n);
        let w = tof(&wt);
        let wmax = w.iter().fold(0.0f64, |a, b| a.max(b.abs()));
        let inst = make_mdct::<T>(id, n, wt.clone());
        if inst.len() != n {
            return Err(format!("MDCT {} for n={} reports length {}", id, n, inst.len()));
        }
        let mut s = vec![T::of(0.0); inst.get_scratch_len()];
        // prior a/b -> result
        let mut run = |spec: &[T], prior: &[T]| {
            let mut out = prior.to_vec();
            let (a, bb) = out.split_at_mut(n);
            inst.process_imdct_with_scratch(spec, a, bb, &mut s);
            out
        };
        let zero = vec![T::of(0.0); 2 * n];
        let dense: Vec<T> = tov(&gen::dense(2 * n, 60));
        if basis {
            let mut x = vec![T::of(0.0); n];
            for k in 0..n {
                x[k] = T::of(1.0);
                for (pn, prior) in [("zero", &zero), ("dense", &dense)] {
                    let got = run(&x, prior);
                    let want: Vec<f64> = (0..2 * n).map(|i| prior[i].f() + w[i] * d.c(i, k)).collect();
                    let r = compare(&got, &want, scale(wmax, n) + if pn == "dense" { 1.0 } else { 0.0 }, tol(id, n))
                        .map_err(|m| format!("IMDCT ({}, window {}) of unit spectrum {} onto {} at n={}: {}", id, wn, k, pn, n, m))?;
                    ctx.max("err_basis", r);
                    ctx.states += 1;
                    ctx.transitions += 1;
                    ctx.traces += 1;
                }
                x[k] = T::of(0.0);
            }
        } else {
            let sp: Vec<Vec<f64>> = (0..3).map(|i| gen::dense(n, 61 + i)).collect();
            let spt: Vec<Vec<T>> = sp.iter().map(|v| tov(v)).collect();
            let con: Vec<Vec<f64>> = sp.iter().map(|v| d.inverse(v, &w)).collect();
            // scale: contribution plus prior
            let sc = |v: &[f64], c: &[f64], prior: f64| scale(norm(v) * wmax, n).max(c.iter().fold(0.0f64, |a, b| a.max(b.abs())) * ((n as f64).log2() + 2.0)) + prior;
            let big = vec![T::of(1048576.0); 2 * n];
            let onto = |run: &mut dyn FnMut(&[T], &[T]) -> Vec<T>, pn: &str, prior: &[T], ctx: &mut Ctx| -> Res {
                let got = run(&spt[1], prior);
                let pm = prior.iter().fold(0.0f64, |a, b| a.max(b.f().abs()));
                let want: Vec<f64> = (0..2 * n).map(|j| prior[j].f() + con[1][j]).collect();
                compare(&got, &want, sc(&sp[1], &con[1], pm), tol(id, n)).map_err(|m| format!("IMDCT ({}, window {}) onto {} prior content at n={}: {}", id, wn, pn, n, m))?;
                // cells of ordinary size must not be judged by the largest one
                let small = sc(&sp[1], &con[1], 4.0);
                for j in (0..2 * n).filter(|j| prior[*j].f().abs() < 4.0) {
                    let e = (got[j].f() - want[j]).abs() / (T::EPS * small);
                    if e > tol(id, n) {
                        return Err(format!("IMDCT ({}, window {}) onto {} prior content at n={}: cell {} is {:e} instead of {:e}", id, wn, pn, n, j, got[j].f(), want[j]));
                    }
                }
                ctx.states += 1;
                ctx.transitions += 1;
                ctx.traces += 1;
                Ok(())
            };
            for (pn, prior, pm) in [("zero", &zero, 0.0), ("dense", &dense, 1.0), ("large", &big, 1048576.0)] {
                for i in 0..2 {
                    let keep = spt[i].clone();
                    let got = run(&spt[i], prior);
                    let want: Vec<f64> = (0..2 * n).map(|j| prior[j].f() + con[i][j]).collect();
                    let r = compare(&got, &want, sc(&sp[i], &con[i], pm), tol(id, n))
                        .map_err(|m| format!("IMDCT ({}, window {}) onto {} prior content at n={}: {}", id, wn, pn, n, m))?;
                    ctx.max("err_dense", r);
                    if diff_bits(&keep, &spt[i]).is_some() {
                        return Err(format!("IMDCT ({}) at n={} modified its input", id, n));
                    }
                    ctx.states += 1;
                    ctx.transitions += 1;
                    ctx.traces += 1;
                }
            }
            // special spectra; the zero spectrum leaves the output as it is
            for (sn, v) in gen::special(n) {
                let t: Vec<T> = tov(&v);
                let c = d.inverse(&v, &w);
                for (pn, prior, pm) in [("zero", &zero, 0.0), ("dense", &dense, 1.0), ("large", &big, 1048576.0)] {
                    let got = run(&t, prior);
                    let want: Vec<f64> = (0..2 * n).map(|j| prior[j].f() + c[j]).collect();
                    if v.iter().all(|a| *a == 0.0) {
                        if let Some(j) = (0..2 * n).find(|j| got[*j].f() != prior[*j].f()) {
                            return Err(format!("IMDCT ({}, window {}) of the zero spectrum onto {} prior content at n={} changed cell {} from {:e} to {:e}", id, wn, pn, n, j, prior[j].f(), got[j].f()));
                        }
                    } else {
                        compare(&got, &want, sc(&v, &c, pm), tol(id, n)).map_err(|m| format!("IMDCT ({}, window {}) of the {} spectrum onto {} prior content at n={}: {}", id, wn, sn, pn, n, m))?;
                    }
                    ctx.states += 1;
                    ctx.transitions += 1;
                    ctx.traces += 1;
                }
            }
            // prior contents a shortcut might single out, on both halves or on one of them
            if wn == "asym" || wn == "mp3" {
                for (pn, v) in gen::special(2 * n) {
                    let prior: Vec<T> = tov(&v);
                    onto(&mut run, pn, &prior, ctx)?;
                }
                let free: Vec<T> = dense.iter().map(|a| T::of(a.f() + 2.0)).collect();
                for (pn, v) in gen::special(n) {
                    let half: Vec<T> = tov(&v);
                    onto(&mut run, &format!("{} in the first half", pn), &[&half[..], &free[n..]].concat(), ctx)?;
                    onto(&mut run, &format!("{} in the second half", pn), &[&free[..n], &half[..]].concat(), ctx)?;
                }
            }
            // every set of untouched (zero) cells for tiny lengths, every pair of them for small ones; equal and opposite pairs
            if wn == "asym" && n <= 40 {
                let base: Vec<T> = dense.iter().map(|a| T::of(a.f() + 2.0)).collect();
                let m = 2 * n;
                if n <= 6 {
                    for set in 0..1u32 << m {
                        let prior: Vec<T> = (0..m).map(|i| if set >> i & 1 == 1 { T::of(0.0) } else { base[i] }).collect();
                        onto(&mut run, "partly zero", &prior, ctx)?;
                    }
                }
                for i in 0..m {
                    for j in i..m {
                        for v in [0.0, 1.0, -0.0] {
                            let mut prior = base.clone();
                            prior[i] = T::of(v);
                            prior[j] = T::of(if v == 1.0 { -v } else { v });
                            onto(&mut run, &format!("dense except cells {} and {}", i, j), &prior, ctx)?;
                            if v == 0.0 {
                                let mut prior = zero.clone();
                                prior[i] = base[i];
                                prior[j] = base[j];
                                onto(&mut run, &format!("zero except cells {} and {}", i, j), &prior, ctx)?;
                            }
                        }
                    }
                }
            }
            // where the four slices lie relative to one another does not matter
            if wn == "asym" && (n <= 130 || n % 64 == 0) {
                let sl = inst.get_scratch_len();
                let want = run(&spt[0], &dense);
                for (pos, total) in layouts(n, sl) {
                    let mut mem = vec![T::NANV; total];
                    mem[pos[0]..pos[0] + n].copy_from_slice(&spt[0]);
                    mem[pos[1]..pos[1] + n].copy_from_slice(&dense[..n]);
                    mem[pos[2]..pos[2] + n].copy_from_slice(&dense[n..]);
                    arena(n, sl, pos, &mut mem, &mut |x, a, b, s| inst.process_imdct_with_scratch(x, a, b, s));
                    let got = [&mem[pos[1]..pos[1] + n], &mem[pos[2]..pos[2] + n]].concat();
                    if let Some(k) = diff_bits(&got, &want) {
                        return Err(format!("IMDCT ({}, window {}) at n={}: cell {} differs when input, output halves and scratch start at elements {:?} of one allocation", id, wn, n, k, pos));
                    }
                    if diff_bits(&mem[pos[0]..pos[0] + n], &spt[0]).is_some() {
                        return Err(format!("IMDCT ({}) at n={} modified its input (input, output halves and scratch start at elements {:?} of one allocation)", id, n, pos));
                    }
                    ctx.states += 1;
                    ctx.transitions += 1;
                    ctx.traces += 1;
                }
            }
            // a NaN already in one cell stays there and spreads nowhere
            {
                let cell = n + n / 3;
                let mut prior = dense.clone();
                prior[cell] = T::NANV;
                let got = run(&spt[0], &prior);
                for j in 0..2 * n {
                    if (j == cell) != got[j].f().is_nan() {
                        return Err(format!("IMDCT ({}, window {}) at n={}: NaN prior content of cell {} and cell {} interact", id, wn, n, cell, j));
                    }
                }
                ctx.transitions += 1;
                ctx.states += 1;
            }
            // three blocks, all orders
            for perm in [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]] {
                let mut acc = dense.clone();
                for i in perm {
                    acc = run(&spt[i], &acc);
                    ctx.transitions += 1;
                }
                let want: Vec<f64> = (0..2 * n).map(|j| dense[j].f() + con[0][j] + con[1][j] + con[2][j]).collect();
                let s3 = (0..3).map(|i| sc(&sp[i], &con[i], 1.0)).sum::<f64>();
                compare(&acc, &want, s3, tol(id, n)).map_err(|m| format!("IMDCT ({}, window {}) of blocks {:?} accumulated at n={}: {}", id, wn, perm, n, m))?;
                ctx.states += 1;
                ctx.traces += 1;
            }
        }
    }
    Ok(())
}

impl Check for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn cases(&self, tier: Tier, _p: Profile) -> Vec<String> {
        let (full, perm, bound) = match tier {
            Tier::Quick => (1030usize, 34usize, 17000usize),
            Tier::Thorough => (2100, 60, 66000),
        };
        let mut v = vec![];
        for n in (2..=full).step_by(2) {
            for ty in ["f64", "f32"] {
                if n <= perm {
                    for id in mdct_ids(n) {
                        v.push(format!("perm/{}/{}/{}", id, ty, n));
                    }
                    v.push(format!("cross/planned/{}/{}", ty, n));
                }
                v.push(format!("stream/planned/{}/{}", ty, n));
            }
        }
        for n in gen::boundary_thinned(full, bound, 132000) {
            if n % 2 == 0 {
                for ty in ["f64", "f32"] {
                    v.push(format!("stream/planned/{}/{}", ty, n));
                }
            }
        }
        v
    }
    fn bounds(&self, tier: Tier) -> String {
        let (a, c, e) = if tier == Tier::Quick { (1030, 34, 17000) } else { (2100, 60, 66000) };
        format!("streams of 1..=5 blocks at every even n<={} (and boundary lengths to {}, thinned to 132000) with all windows; for n<={}: every unit impulse, all 6x6 encode/decode orders of 3 blocks, every implementation as encoder and decoder", a, e, c)
    }
    fn run(&self, case: &str, ctx: &mut Ctx) -> Res {
        let p: Vec<&str> = case.split('/').collect();
        let n: usize = p[3].parse().unwrap();
        by_type!(p[2], tdac(p[0], p[1], n, ctx))
    }
}
const PR: [&str; 7] = ["one", "mp3", "vorbis", "inv", "mp3inv", "vorbisinv", "pc"];
fn factor(w: &str, n: usize) -> f64 {
    match w {
        "one" => n as f64,
        "mp3" | "vorbis" | "pc" => n as f64 / 2.0,
        _ => 1.0,
    }
}
type M<T> = std::sync::Arc<dyn rustdct::mdct::Mdct<T>>;
/// Encode `blocks` half-overlapping blocks in order `eo`, decode in order `dorder`; returns the buffer.
fn stream<T: Sc>(enc: &M<T>, dec: &M<T>, n: usize, x: &[T], blocks: usize, eo: &[usize], dorder: &[usize]) -> Vec<T> {
    let mut es = vec![T::of(0.0); enc.get_scratch_len()];
    let mut ds = vec![T::of(0.0); dec.get_scratch_len()];
    let mut specs = vec![vec![T::NANV; n]; blocks];
    for &b in eo {
        enc.process_mdct_with_scratch(&x[b * n..(b + 1) * n], &x[(b + 1) * n..(b + 2) * n], &mut specs[b], &mut es);
    }
    let mut out = vec![T::of(0.0); (blocks + 1) * n];
    for &b in dorder {
        let (l, r) = out[b * n..(b + 2) * n].split_at_mut(n);
        dec.process_imdct_with_scratch(&specs[b], l, r, &mut ds);
    }
    out
}
const P3: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
fn tdac<T: Sc>(mode: &str, id: &str, n: usize, ctx: &mut Ctx) -> Res {
    let naive = |id: &str| id == "naive" || id.ends_with("naive");
    for wn in PR {
        if n > 2100 && wn != "mp3" && wn != "inv" && wn != "vorbisinv" {
            continue;
        }
        let enc = make_mdct::<T>(id, n, win::values(wn, 2 * n));
        let p = factor(wn, n);
        let check = |x: &[T], out: &[T], blocks: usize, what: String, tolf: f64, ctx: &mut Ctx| -> Res {
            let want: Vec<f64> = x[n..blocks * n].iter().map(|v| v.f() * p).collect();
            let nx = norm(&tof(x)) * p;
            // two chained transforms
            let r = compare(&out[n..blocks * n], &want, scale(nx, n) , tolf).map_err(|m| format!("TDAC window {} n={} {}: {}", wn, n, what, m))?;
            ctx.max("err", r);
            ctx.states += 1;
            ctx.traces += 1;
            ctx.transitions += 2 * blocks as u64;
            Ok(())
        };
        match mode {
            "stream" => {
                for blocks in 2..=5usize {
                    if n > 2100 && blocks > 2 {
                        break;
                    }
                    let x: Vec<T> = tov(&gen::dense((blocks + 1) * n, 70));
                    let ord: Vec<usize> = (0..blocks).collect();
                    let out = stream(&enc, &enc, n, &x, blocks, &ord, &ord);
                    check(&x, &out, blocks, format!("stream of {} blocks", blocks), 8.0, ctx)?;
                    let alt: Vec<T> = tov(&gen::alternating((blocks + 1) * n));
                    let out = stream(&enc, &enc, n, &alt, blocks, &ord, &ord);
                    check(&alt, &out, blocks, format!("alternating stream of {} blocks", blocks), 8.0, ctx)?;
                }
            }
            "perm" => {
                let tf = if naive(id) { 8.0 + (n as f64).sqrt() } else { 8.0 };
                let x: Vec<T> = tov(&gen::dense(4 * n, 71));
                for eo in P3 {
                    for dor in P3 {
                        let out = stream(&enc, &enc, n, &x, 3, &eo, &dor);
                        check(&x, &out, 3, format!("{} encode order {:?} decode order {:?}", id, eo, dor), tf, ctx)?;
                    }
                }
                for i in 0..4 * n {
                    let mut x = vec![T::of(0.0); 4 * n];
                    x[i] = T::of(1.0);
                    let out = stream(&enc, &enc, n, &x, 3, &[0, 1, 2], &[0, 1, 2]);
                    check(&x, &out, 3, format!("{} unit impulse at {}", id, i), tf, ctx)?;
                }
            }
            _ => {
                // every implementation as encoder x every implementation as decoder
                let x: Vec<T> = tov(&gen::dense(3 * n, 72));
                for a in mdct_ids(n) {
                    for c in mdct_ids(n) {
                        let e = make_mdct::<T>(&a, n, win::values(wn, 2 * n));
                        let d = make_mdct::<T>(&c, n, win::values(wn, 2 * n));
                        let out = stream(&e, &d, n, &x, 2, &[0, 1], &[1, 0]);
                        check(&x, &out, 2, format!("encoder {} decoder {}", a, c), 8.0 + (n as f64).sqrt(), ctx)?;
                    }
                }
            }
        }
    }
    Ok(())
}
