//! C20: window functions.  C21: accuracy at large lengths.
use crate::by_type;
use crate::engine::*;
use crate::gen;
use crate::inst::*;
use crate::oracle;
use crate::sc::*;
use crate::scal::Wrap;
use crate::win;

pub struct C20;
pub struct C21;
impl Check for C20 {
    fn id(&self) -> &'static str {
        "C20"
    }
    fn cases(&self, tier: Tier, _p: Profile) -> Vec<String> {
        let (all, bound) = if tier == Tier::Quick { (4200, 300000) } else { (17000, 5000000) };
        let mut v: Vec<String> = vec![];
        for ty in ["f64", "f32", "wrap"] {
            v.push(format!("{}/0", ty));
        }
        for n in (1..=all).chain(gen::boundary_lengths(all, bound)) {
            for ty in ["f64", "f32", "wrap"] {
                if ty == "wrap" && n > 1100 {
                    continue;
                }
                v.push(format!("{}/{}", ty, n));
            }
        }
        v
    }
    fn run(&self, case: &str, ctx: &mut Ctx) -> Res {
        let p: Vec<&str> = case.split('/').collect();
        let n: usize = p[1].parse().unwrap();
        match p[0] {
            "wrap" => windows::<Wrap>(n, ctx),
            t => by_type!(t, windows(n, ctx)),
        }
    }
    fn bounds(&self, tier: Tier) -> String {
        let (a, b) = if tier == Tier::Quick { (4200, 300000) } else { (17000, 5000000) };
        format!("all six windows at every size 0..={} and boundary sizes to {}; every value against the documented formula, symmetry of every pair, power-complementarity of every pair; f32, f64, a user type", a, b)
    }
}
fn windows<T: Sc>(len: usize, ctx: &mut Ctx) -> Res {
    let l = len as f64;
    for wn in win::BUILTIN {
        let w: Vec<T> = win::builtin(wn, len);
        ctx.states += 1;
        ctx.transitions += 1;
        ctx.traces += 1;
        if w.len() != len {
            return Err(format!("window {} of size {} has {} values", wn, len, w.len()));
        }
        let scale = match wn {
            "inv" => (2.0 / l).sqrt(),
            "mp3inv" | "vorbisinv" => (4.0 / l).sqrt(),
            _ => 1.0,
        };
        // rational argument n+1/2 over len = (2n+1)/(2 len): sin(pi (n+.5)/len) = sin of (2n+1)/(4 len) turns
        for i in 0..len {
            let s = oracle::sin_turn(2 * i as u64 + 1, 4 * len as u64);
            let want = match wn {
                "one" => 1.0,
                "inv" => scale,
                "mp3" | "mp3inv" => s * scale,
                _ => (std::f64::consts::FRAC_PI_2 * s * s).sin() * scale,
            };
            let e = (w[i].f() - want).abs();
            // rounding of the argument: absolute error a few eps of the f64 computation, relative eps of T
            let allow = scale * (4.0 * T::EPS * (want / scale).abs() + 8.0 * f64::EPSILON);
            if !(e <= allow) {
                return Err(format!("window {} of size {}: value[{}] = {:e}, documented {:e}", wn, len, i, w[i].f(), want));
            }
            let m = w[len - 1 - i].f();
            if !((w[i].f() - m).abs() <= 2.0 * allow) {
                return Err(format!("window {} of size {} is not symmetric at {}: {:e} and {:e}", wn, len, i, w[i].f(), m));
            }
            ctx.max("err_eps", if scale > 0.0 { e / (scale * T::EPS) } else { 0.0 });
        }
        if len % 2 == 0 && len > 0 {
            let want = match wn {
                "one" => 2.0,
                "mp3" | "vorbis" => 1.0,
                _ => 4.0 / l,
            };
            for i in 0..len / 2 {
                let v = w[i].f() * w[i].f() + w[i + len / 2].f() * w[i + len / 2].f();
                if !((v - want).abs() <= want * (8.0 * T::EPS + 32.0 * f64::EPSILON)) {
                    return Err(format!("window {} of size {}: squares at {} and {} sum to {:e} instead of {:e}", wn, len, i, i + len / 2, v, want));
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C21
impl Check for C21 {
    fn id(&self) -> &'static str {
        "C21"
    }
    fn case_timeout(&self) -> u64 {
        300
    }
    fn cases(&self, tier: Tier, _p: Profile) -> Vec<String> {
        let top = if tier == Tier::Quick { 1 << 17 } else { 1 << 20 };
        let mut v = vec![];
        let mut ls: Vec<usize> = vec![];
        let mut e = 1usize << 6;
        while e <= top {
            ls.extend([e - 1, e, e + 1, e + e / 2, e + e / 4, e + e / 8 + 1]);
            // nearest primes on either side
            let near = |from: usize, up: bool| {
                let mut k = from;
                loop {
                    k = if up { k + 1 } else { k - 1 };
                    if (2..).take_while(|d| d * d <= k).all(|d| k % d != 0) {
                        return k;
                    }
                }
            };
            ls.extend([near(e, true), near(e, false), near(e + e / 2, true)]);
            e *= 2;
        }
        ls.extend([100, 1000, 1234, 10000, 44100, 48000, 65535, 100000, 1 << 18, (1 << 18) + 1, 3 << 17, 1 << 19, (1 << 20) - 2, 1 << 20, 1000000]);
        if tier == Tier::Thorough {
            ls.extend([1000000, 999983, 524287, 1 << 21, 3 << 19]);
            ls.extend((3..64).map(|k| k * 4099));
        }
        ls.sort();
        ls.dedup();
        let slow_top = if tier == Tier::Quick { 4200 } else { 17000 };
        for n in ls {
            for op in ALL_OPS {
                let direct_only = !op.fast_planned();
                if direct_only && n > slow_top && !(n == 66000) {
                    continue;
                }
                for ty in ["f64", "f32"] {
                    v.push(format!("{}/{}/{}", op.name(), ty, n));
                }
            }
            if n % 2 == 0 {
                for ty in ["f64", "f32"] {
                    v.push(format!("mdct/{}/{}", ty, n));
                }
            }
        }
        // the direct algorithms past 2^16 (index products beyond 32 bits)
        let huge: &[usize] = if tier == Tier::Quick { &[46341, 66001] } else { &[46341, 65536, 66001, 92683] };
        for n in huge {
            for op in ALL_OPS {
                if !op.fast_planned() {
                    v.push(format!("{}/f64/{}", op.name(), n));
                }
            }
            for a in ["dct1naive", "dst1naive", "t23naive", "t4naive", "s67naive"] {
                if tier == Tier::Thorough || *n == 66001 {
                    v.push(format!("direct:{}/f64/{}", a, n));
                }
            }
        }
        // long ones first would balance better, but simplest first is the rule
        v
    }
    fn run(&self, case: &str, ctx: &mut Ctx) -> Res {
        let p: Vec<&str> = case.split('/').collect();
        let n: usize = p[2].parse().unwrap();
        if p[0] == "mdct" {
            return by_type!(p[1], acc_mdct(n, ctx));
        }
        if let Some(a) = p[0].strip_prefix("direct:") {
            let inst = direct::<f64>(a, n);
            // one operation each keeps this affordable
            let op = inst.ops()[inst.ops().len() - 1];
            return accuracy::<f64>(&inst, op, false, n, ctx);
        }
        let op = Op::parse(p[0]);
        match p[1] {
            "f32" => accuracy::<f32>(&planned(op, n), op, op.fast_planned(), n, ctx),
            _ => accuracy::<f64>(&planned(op, n), op, op.fast_planned(), n, ctx),
        }
    }
    fn bounds(&self, tier: Tier) -> String {
        format!("powers of two 2^6..2^{}, their neighbours, 3/2, 5/4 and 9/8 multiples, nearest primes, and common sizes, single lengths to 2^20; all ops (direct algorithms to {} and at 46341, 66001), MDCT/IMDCT; relative 2-norm error of a dense vector, plus selected outputs in compensated arithmetic; f32, f64",
            if tier == Tier::Quick { 17 } else { 20 }, if tier == Tier::Quick { 4200 } else { 17000 })
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the FFT-based f64 reference has error of the same order as the f64 code under test; selected outputs are re-evaluated in compensated arithmetic".into()]
    }
}
/// budget for |err|_2 / |y|_2 in eps
/// (for f64 this includes the reference's own rounding, which is of the same order)
fn budget_of<T: Sc>(fast: bool, n: usize) -> f64 {
    let l = (n as f64).log2() + 2.0;
    if fast {
        if T::EPS < 1e-10 { 1.5 * l } else { 0.75 * l }
    } else {
        l + (n as f64).sqrt()
    }
}
fn accuracy<T: Sc>(inst: &Inst<T>, op: Op, fast: bool, n: usize, ctx: &mut Ctx) -> Res {
    if inst.len() != n {
        return Err(format!("{} for n={} reports length {}", op.name(), n, inst.len()));
    }
    let d = oracle::def(op, n);
    let x = gen::dense(n, 110);
    let mut b: Vec<T> = tov(&x);
    let mut s = vec![T::of(0.0); inst.scratch_len()];
    inst.call(op, &mut b, &mut s);
    let want = d.via_fft(&x);
    let ny = norm(&want);
    let err = norm(&b.iter().zip(&want).map(|(a, w)| a.f() - w).collect::<Vec<_>>());
    let r = err / (ny * T::EPS);
    let fam = if fast { "fast" } else { "direct" };
    ctx.max(&format!("err_over_budget_{}_{}", fam, T::NAME), r / budget_of::<T>(fast, n));
    ctx.max(&format!("err_eps_{}_{}", fam, T::NAME), r);
    if !(r <= budget_of::<T>(fast, n)) {
        return Err(format!("{} at n={}: relative error {:.3e} = {:.1} eps, allowed {:.1} eps", op.name(), n, err / ny, r, budget_of::<T>(fast, n)));
    }
    let rms = ny / (n as f64).sqrt();
    for k in [0, 1, 2, n / 3, n / 2, n - 2, n - 1] {
        if k >= n {
            continue;
        }
        let w = d.one(k, &x);
        let e = (b[k].f() - w).abs() / (rms * T::EPS);
        ctx.max(&format!("point_err_over_budget_{}", fam), e / (6.0 * budget_of::<T>(fast, n)));
        if !(e <= 6.0 * budget_of::<T>(fast, n)) {
            return Err(format!("{} at n={}: output[{}]={:e}, compensated reference {:e}, error {:.1} eps of the rms output", op.name(), n, k, b[k].f(), w, e));
        }
        ctx.traces += 1;
    }
    ctx.states += 1;
    ctx.transitions += 1;
    ctx.traces += 1;
    // and back-to-back with a smooth signal, whose transform is concentrated
    if fast && n <= 70000 {
        let x: Vec<f64> = (0..n).map(|i| T::of((i as f64 * 0.37 / n as f64).cos()).f()).collect();
        let mut b: Vec<T> = tov(&x);
        inst.call(op, &mut b, &mut s);
        let want = d.via_fft(&x);
        let ny = norm(&want);
        let err = norm(&b.iter().zip(&want).map(|(a, w)| a.f() - w).collect::<Vec<_>>());
        let r = err / (ny * T::EPS);
        ctx.max(&format!("smooth_over_budget_{}", T::NAME), r / budget_of::<T>(false, n));
        if !(r <= budget_of::<T>(false, n)) {
            return Err(format!("{} at n={} (smooth signal): relative error {:.1} eps, allowed {:.1} eps", op.name(), n, r, budget_of::<T>(false, n)));
        }
        ctx.states += 1;
        ctx.transitions += 1;
        ctx.traces += 1;
    }
    Ok(())
}
fn acc_mdct<T: Sc>(n: usize, ctx: &mut Ctx) -> Res {
    let w: Vec<T> = win::values("mp3", 2 * n);
    let wf = tof(&w);
    let inst = make_mdct::<T>("planned", n, w);
    let m = 8 * n;
    let mut s = vec![T::of(0.0); inst.get_scratch_len()];
    let x = gen::dense(2 * n, 111);
    let xt: Vec<T> = tov(&x);
    let mut o = vec![T::of(0.0); n];
    inst.process_mdct_with_scratch(&xt[..n], &xt[n..], &mut o, &mut s);
    use rustdct::rustfft::{num_complex::Complex, FftPlanner};
    let mut b = vec![Complex { re: 0.0f64, im: 0.0 }; m];
    for i in 0..2 * n {
        b[(2 * i + 1 + n) % m].re += x[i] * wf[i];
    }
    let fft = FftPlanner::new().plan_fft_forward(m);
    fft.process(&mut b);
    let err = |got: &[T], want: &[f64]| norm(&got.iter().zip(want).map(|(a, w)| a.f() - w).collect::<Vec<_>>()) / (norm(want) * T::EPS);
    let want: Vec<f64> = (0..n).map(|k| b[2 * k + 1].re).collect();
    let r = err(&o, &want);
    ctx.max(&format!("mdct_over_budget_{}", T::NAME), r / budget_of::<T>(true, n));
    if !(r <= budget_of::<T>(true, n)) {
        return Err(format!("MDCT at n={}: relative error {:.1} eps, allowed {:.1}", n, r, budget_of::<T>(true, n)));
    }
    let mut b = vec![Complex { re: 0.0f64, im: 0.0 }; m];
    for k in 0..n {
        b[2 * k + 1].re += x[k];
    }
    fft.process(&mut b);
    let want: Vec<f64> = (0..2 * n).map(|i| wf[i] * b[(2 * i + 1 + n) % m].re).collect();
    let mut o = vec![T::of(0.0); 2 * n];
    let (oa, ob) = o.split_at_mut(n);
    inst.process_imdct_with_scratch(&xt[..n], oa, ob, &mut s);
    let r = err(&o, &want);
    ctx.max(&format!("imdct_over_budget_{}", T::NAME), r / budget_of::<T>(true, n));
    if !(r <= budget_of::<T>(true, n)) {
        return Err(format!("IMDCT at n={}: relative error {:.1} eps, allowed {:.1}", n, r, budget_of::<T>(true, n)));
    }
    ctx.states += 2;
    ctx.transitions += 2;
    ctx.traces += 2;
    Ok(())
}
