//! C18: linearity across the dynamic range, no value-dependent behaviour.
use crate::by_type;
use crate::engine::*;
use crate::gen;
use crate::inst::*;
use crate::oracle::{self, MDef};
use crate::sc::*;
use crate::win;
use rustdct::mdct::Mdct;
use std::sync::Arc;

pub struct C18;
struct B {
    lattice: usize,  // {0,1,-1}^n
    masks: usize,    // all zero patterns
    dev: usize,      // two deviations
    st: usize,       // structured, all lengths
    scale: usize,    // scale and sign, all lengths
    bound: usize,
}
fn b(t: Tier) -> B {
    match t {
        Tier::Quick => B { lattice: 6, masks: 9, dev: 17, st: 130, scale: 520, bound: 33000 },
        Tier::Thorough => B { lattice: 8, masks: 12, dev: 33, st: 600, scale: 2100, bound: 270000 },
    }
}
fn all_ids(n: usize) -> Vec<String> {
    let mut v = inst_ids(n);
    if n % 2 == 0 {
        v.extend(mdct_ids(n).into_iter().map(|s| format!("mdct:{}", s)));
    }
    v
}
impl Check for C18 {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn cases(&self, tier: Tier, _p: Profile) -> Vec<String> {
        let b = b(tier);
        let mut v = vec![];
        for n in 1..=b.scale {
            for id in all_ids(n) {
                let slow = id.contains("naive") || ["5", "8", "dct6"].iter().any(|s| id.starts_with("planned") && id.contains(s));
                if (n > 70 && !id.contains("planned")) || (slow && n > 130) {
                    continue;
                }
                for ty in ["f64", "f32"] {
                    let e = |s: &str| format!("{}/{}/{}/{}", s, ty, n, id);
                    v.push(e("scale"));
                    if n <= b.st {
                        v.push(e("struct"));
                    }
                    if n <= b.lattice {
                        v.push(e("lattice"));
                    }
                    if n <= b.masks {
                        v.push(e("masks"));
                    }
                    if n <= b.dev {
                        v.push(e("dev"));
                    }
                }
            }
        }
        let far: Vec<usize> = if tier == Tier::Quick { (18..=34).chain([40, 45, 48, 50, 63, 64, 65, 100, 128]).collect() } else { (34..=72).chain([90, 91, 96, 100, 127, 128, 129, 180, 255, 256, 257]).collect() };
        for n in far {
            for id in all_ids(n).into_iter().filter(|i| i.contains("planned")) {
                let slow = ["5", "8", "dct6"].iter().any(|s| id.contains(s));
                if !slow || n <= 65 {
                    v.push(format!("far/f64/{}/{}", n, id));
                    if n <= 64 {
                        v.push(format!("far/f32/{}/{}", n, id));
                    }
                }
            }
        }
        for n in gen::boundary_lengths(b.scale, b.bound) {
            for f in FAMILIES {
                if f[0].fast_planned() {
                    for ty in ["f64", "f32"] {
                        v.push(format!("scale/{}/{}/planned:{}", ty, n, f[0].name()));
                        if n < 9000 {
                            v.push(format!("struct/{}/{}/planned:{}", ty, n, f[0].name()));
                        }
                    }
                }
            }
            if n % 2 == 0 {
                v.push(format!("scale/f64/{}/mdct:planned", n));
                v.push(format!("scale/f32/{}/mdct:planned", n));
            }
        }
        v
    }
    fn run(&self, case: &str, ctx: &mut Ctx) -> Res {
        let p: Vec<&str> = case.split('/').collect();
        let n: usize = p[2].parse().unwrap();
        by_type!(p[1], go(p[0], p[3], n, ctx))
    }
    fn bounds(&self, tier: Tier) -> String {
        let b = b(tier);
        format!("every instance x op (and MDCT, IMDCT): power-of-two scales over the whole exponent range, negation and zero at every n<={} and boundary lengths to {}, bit for bit (up to rounding next to the ends of the exponent range); against the linear reference: all of {{0,1,-1}}^n for n<={}, every zero pattern of a dense vector for n<={}, every pair of positions x 10 value pairs x 4 base vectors for n<={} (7 value pairs x 3 base vectors for planned instances at {} longer lengths up to {}), some 40 structured vectors for n<={}; f32, f64", b.scale, b.bound, b.lattice, b.masks, b.dev, if tier == Tier::Quick { 26 } else { 50 }, if tier == Tier::Quick { 128 } else { 257 }, b.st)
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["scales keep every intermediate value clear of overflow and underflow".into(), "zeros are compared as values (their sign is free)".into()]
    }
}
/// a transform as a function, with its reference
enum X<T: Sc> {
    I(Inst<T>, Op, oracle::Def, Vec<f64>),
    F(Arc<dyn Mdct<T>>, MDef, Vec<f64>),
    V(Arc<dyn Mdct<T>>, MDef, Vec<f64>),
}
impl<T: Sc> X<T> {
    fn all(id: &str, n: usize) -> Vec<X<T>> {
        if let Some(m) = id.strip_prefix("mdct:") {
            // an asymmetric window with power-of-two-free values, exactly representable
            let w: Vec<T> = win::values("asym", 2 * n);
            let wf = tof(&w);
            let i = make_mdct::<T>(m, n, w);
            return vec![X::F(i.clone(), MDef::new(n), wf.clone()), X::V(i, MDef::new(n), wf)];
        }
        let i = make::<T>(id, n);
        i.ops()
            .iter()
            .map(|op| {
                let d = oracle::def(*op, n);
                let t = if n <= 700 { d.table() } else { vec![] };
                X::I(i.clone(), *op, d, t)
            })
            .collect()
    }
    fn name(&self) -> String {
        match self {
            X::I(_, o, _, _) => o.name().into(),
            X::F(..) => "mdct".into(),
            X::V(..) => "imdct".into(),
        }
    }
    fn nin(&self) -> usize {
        match self {
            X::I(i, ..) => i.len(),
            X::F(i, ..) => 2 * i.len(),
            X::V(i, ..) => i.len(),
        }
    }
    fn run(&self, x: &[T], s: &mut Vec<T>) -> Vec<T> {
        match self {
            X::I(i, o, ..) => {
                s.resize(i.scratch_len(), T::of(0.0));
                let mut b = x.to_vec();
                i.call(*o, &mut b, s);
                b
            }
            X::F(i, ..) => {
                let n = i.len();
                s.resize(i.get_scratch_len(), T::of(0.0));
                let mut o = vec![T::of(0.0); n];
                i.process_mdct_with_scratch(&x[..n], &x[n..], &mut o, s);
                o
            }
            X::V(i, ..) => {
                let n = i.len();
                s.resize(i.get_scratch_len(), T::of(0.0));
                let mut o = vec![T::of(0.0); 2 * n];
                let (a, b) = o.split_at_mut(n);
                i.process_imdct_with_scratch(x, a, b, s);
                o
            }
        }
    }
    fn reference(&self, x: &[f64]) -> Vec<f64> {
        match self {
            X::I(_, _, d, t) => {
                if t.is_empty() {
                    d.via_fft(x)
                } else {
                    d.direct(t, x)
                }
            }
            X::F(_, d, w) => d.forward(x, w),
            X::V(_, d, w) => d.inverse(x, w),
        }
    }
    fn tol(&self, id: &str) -> f64 {
        let n = match self {
            X::I(i, ..) => i.len(),
            X::F(i, ..) | X::V(i, ..) => i.len(),
        } as f64;
        let slow = id.contains("naive") || matches!(self, X::I(_, o, ..) if !o.fast_planned());
        if slow { 12.0 + n.sqrt() } else { 12.0 }
    }
}
fn show(x: &[f64]) -> String {
    if x.len() <= 17 {
        format!("{:?}", x)
    } else {
        format!("[{:e}, {:e}, {:e}, ...]", x[0], x[1], x[2])
    }
}
fn go<T: Sc>(kind: &str, id: &str, n: usize, ctx: &mut Ctx) -> Res {
    let mut s: Vec<T> = vec![];
    for x in X::<T>::all(id, n) {
        match kind {
            "scale" => scales(&x, id, n, &mut s, ctx)?,
            "far" => far(&x, id, n, &mut s, ctx)?,
            "struct" => {
                for (nm, v) in structured(x.nin()) {
                    lin(&x, id, n, &v, &nm, &mut s, ctx)?;
                }
            }
            "lattice" => {
                let m = x.nin();
                if m > 8 {
                    continue;
                }
                let mut v = vec![0.0; m];
                for code in 0..3usize.pow(m as u32) {
                    let mut c = code;
                    for e in v.iter_mut() {
                        *e = [0.0, 1.0, -1.0][c % 3];
                        c /= 3;
                    }
                    lin(&x, id, n, &v, "lattice", &mut s, ctx)?;
                }
            }
            "masks" => {
                let m = x.nin();
                if m > 12 {
                    continue;
                }
                let base = gen::dense(m, 181);
                for mask in 0..1usize << m {
                    let v: Vec<f64> = (0..m).map(|i| if mask >> i & 1 == 1 { base[i] } else { 0.0 }).collect();
                    lin(&x, id, n, &v, "zero pattern", &mut s, ctx)?;
                }
            }
            _ => devs(&x, id, n, &mut s, ctx)?,
        }
    }
    Ok(())
}
/// against the linear reference
fn lin<T: Sc>(x: &X<T>, id: &str, n: usize, v: &[f64], what: &str, s: &mut Vec<T>, ctx: &mut Ctx) -> Res {
    let t: Vec<T> = tov(v);
    let v = tof(&t);
    let got = x.run(&t, s);
    let want = x.reference(&v);
    ctx.states += 1;
    ctx.transitions += 1;
    ctx.traces += 1;
    if v.iter().all(|a| *a == 0.0) {
        if let Some(i) = got.iter().position(|a| a.f() != 0.0) {
            return Err(format!("{} ({}) at n={} of the zero input: output[{}] = {:e}", x.name(), id, n, i, got[i].f()));
        }
        return Ok(());
    }
    let r = compare(&got, &want, scale2(&v, &want, n), x.tol(id)).map_err(|e| format!("{} ({}) at n={} of {} input {}: {}", x.name(), id, n, what, show(&v), e))?;
    ctx.max("err_linear", r);
    Ok(())
}
fn scales<T: Sc>(x: &X<T>, id: &str, n: usize, s: &mut Vec<T>, ctx: &mut Ctx) -> Res {
    let m = x.nin();
    let big = n > 600;
    let exps: &[i32] = if T::EPS > 1e-10 { &[-70, -40, -24, -10, -3, -1, 1, 2, 5, 16, 31, 60] } else { &[-800, -400, -150, -60, -33, -20, -10, -3, -1, 1, 2, 7, 16, 40, 64, 130, 500, 800] };
    let exps: Vec<i32> = if big { exps.iter().copied().step_by(3).collect() } else { exps.to_vec() };
    let bases: Vec<Vec<f64>> = if big { vec![gen::dense(m, 182)] } else { vec![gen::dense(m, 182), vec![1.0; m], gen::alternating(m)] };
    for (bi, base) in bases.iter().enumerate() {
        let t: Vec<T> = tov(base);
        let y = x.run(&t, s);
        // constant and alternating vectors cancel to rounding noise, still exactly scalable
        for e in &exps {
            for sg in [1.0, -1.0] {
                let c = sg * 2f64.powi(*e);
                let xs: Vec<T> = base.iter().map(|v| T::of(v * c)).collect();
                let ys = x.run(&xs, s);
                ctx.states += 1;
                ctx.transitions += 1;
                ctx.traces += 1;
                for i in 0..ys.len() {
                    let w = T::of(y[i].f() * c);
                    if !(ys[i].f() == w.f()) {
                        return Err(format!("{} ({}) at n={}: input {} scaled by {}2^{} gives output[{}] = {:e} instead of {:e}", x.name(), id, n, bi, if sg < 0.0 { "-" } else { "" }, e, i, ys[i].f(), w.f()));
                    }
                }
            }
        }
        // next to the ends of the exponent range intermediate values may lose low bits, nothing more
        let (ext, least): (&[i32], f64) =
            if T::EPS > 1e-10 { (&[-120, -112, -105, -100, -92, -85, -76, 70, 80, 88, 96, 100], 2f64.powi(-149)) } else { (&[-1014, -1000, -990, -975, -950, -900, -850, 850, 900, 950, 975, 990], 2f64.powi(-1074)) };
        for e in ext.iter().filter(|e| **e < 0 || n <= 260) {
            let c = 2f64.powi(*e);
            let xs: Vec<T> = base.iter().map(|v| T::of(v * c)).collect();
            let ys = x.run(&xs, s);
            let sc = scale(norm(base), n) * T::EPS * c * 4.0 + (m as f64 * 32.0 + 64.0) * least;
            ctx.states += 1;
            ctx.transitions += 1;
            ctx.traces += 1;
            for i in 0..ys.len() {
                let w = y[i].f() * c;
                if !((ys[i].f() - w).abs() <= sc) {
                    return Err(format!("{} ({}) at n={}: input {} scaled by 2^{} gives output[{}] = {:e} instead of {:e}", x.name(), id, n, bi, e, i, ys[i].f(), w));
                }
            }
        }
        // plain negation
        let xs: Vec<T> = base.iter().map(|v| T::of(-v)).collect();
        let ys = x.run(&xs, s);
        ctx.transitions += 1;
        for i in 0..ys.len() {
            if !(ys[i].f() == -y[i].f()) {
                return Err(format!("{} ({}) at n={}: negated input {} gives output[{}] = {:e} instead of {:e}", x.name(), id, n, bi, i, ys[i].f(), -y[i].f()));
            }
        }
    }
    // zero, and negative zero
    for z in [0.0, -0.0] {
        let y = x.run(&vec![T::of(z); m], s);
        ctx.states += 1;
        ctx.transitions += 1;
        ctx.traces += 1;
        if let Some(i) = y.iter().position(|v| v.f() != 0.0) {
            return Err(format!("{} ({}) at n={} of the zero input: output[{}] = {:e}", x.name(), id, n, i, y[i].f()));
        }
    }
    // additivity
    let (a, bb) = (gen::dense(m, 183), gen::dense(m, 184));
    let sum: Vec<f64> = a.iter().zip(&bb).map(|(p, q)| p + q).collect();
    let (ta, tb, ts): (Vec<T>, Vec<T>, Vec<T>) = (tov(&a), tov(&bb), tov(&sum));
    let (ya, yb, ys) = (x.run(&ta, s), x.run(&tb, s), x.run(&ts, s));
    let want: Vec<f64> = ya.iter().zip(&yb).map(|(p, q)| p.f() + q.f()).collect();
    let r = compare(&ys, &want, scale2(&a, &want, n) + norm(&bb), x.tol(id)).map_err(|e| format!("{} ({}) at n={}: the transform of a sum is not the sum of the transforms: {}", x.name(), id, n, e))?;
    ctx.max("err_additive", r);
    ctx.transitions += 3;
    Ok(())
}
fn structured(m: usize) -> Vec<(String, Vec<f64>)> {
    let d = gen::dense(m, 185);
    let f = |g: &dyn Fn(usize) -> f64| (0..m).map(g).collect::<Vec<f64>>();
    let mf = m as f64;
    let pi = std::f64::consts::PI;
    let mut v: Vec<(&str, Vec<f64>)> = vec![
        ("constant", f(&|_| 1.0)),
        ("constant 1/3", f(&|_| 1.0 / 3.0)),
        ("alternating", f(&|i| if i % 2 == 0 { 1.0 } else { -1.0 })),
        ("palindrome", f(&|i| d[i.min(m - 1 - i)])),
        ("antipalindrome", f(&|i| if 2 * i + 1 == m { 0.0 } else if i < m / 2 { d[i] } else { -d[m - 1 - i] })),
        ("equal halves", f(&|i| d[i % (m / 2).max(1)])),
        ("opposite halves", f(&|i| if i < m / 2 { d[i] } else { -d[i - m / 2] })),
        ("quarters", f(&|i| d[i % (m / 4).max(1)])),
        ("period 2", f(&|i| d[i % 2 % m])),
        ("period 3", f(&|i| d[i % 3 % m])),
        ("equal pairs", f(&|i| d[i / 2])),
        ("opposite pairs", f(&|i| if i % 2 == 0 { d[i / 2] } else { -d[i / 2] })),
        ("even only", f(&|i| if i % 2 == 0 { d[i] } else { 0.0 })),
        ("odd only", f(&|i| if i % 2 == 1 { d[i] } else { 0.0 })),
        ("first half", f(&|i| if i < m / 2 { d[i] } else { 0.0 })),
        ("second half", f(&|i| if i >= m / 2 { d[i] } else { 0.0 })),
        ("third quarter", f(&|i| if i >= m / 2 && i < 3 * m / 4 { d[i] } else { 0.0 })),
        ("first only", f(&|i| if i == 0 { 1.0 } else { 0.0 })),
        ("last only", f(&|i| if i == m - 1 { 1.0 } else { 0.0 })),
        ("middle only", f(&|i| if i == m / 2 { -1.0 } else { 0.0 })),
        ("all but first", f(&|i| if i == 0 { 0.0 } else { d[i] })),
        ("all but last", f(&|i| if i == m - 1 { 0.0 } else { d[i] })),
        ("all but middle", f(&|i| if i == m / 2 { 0.0 } else { d[i] })),
        ("first zero last zero", f(&|i| if i == 0 || i == m - 1 { 0.0 } else { d[i] })),
        ("first = last", f(&|i| if i == m - 1 { d[0] } else { d[i] })),
        ("zero mean", {
            // exact: opposite pairs in scattered places
            let mut v = vec![0.0; m];
            for i in 0..m / 2 {
                v[i] = d[i];
                v[m / 2 + (i * 7 + 3) % (m / 2).max(1)] -= d[i];
            }
            v
        }),
        ("ramp", f(&|i| i as f64)),
        ("down ramp", f(&|i| (m - i) as f64)),
        ("integers", f(&|i| (gen::mix(i as u64) % 201) as f64 - 100.0)),
        ("16 bit audio", f(&|i| (gen::mix(i as u64 + 9) % 65536) as f64 - 32768.0)),
        ("clipped audio", f(&|i| if i % 3 == 0 { 32767.0 } else { -32768.0 })),
        ("bytes", f(&|i| (gen::mix(i as u64 + 5) % 256) as f64)),
        ("bits", f(&|i| (gen::mix(i as u64 + 6) % 2) as f64)),
        ("small denormal-free", f(&|i| d[i] * 1e-20)),
        ("large", f(&|i| d[i] * 1e20)),
        ("one huge", f(&|i| if i == m / 3 { 1e15 } else { d[i] })),
        ("one tiny", f(&|i| if i == m / 3 { 1e-15 } else { d[i] })),
        ("tiny but one", f(&|i| if i == m / 3 { 1.0 } else { d[i] * 1e-18 })),
        ("geometric", f(&|i| 0.5f64.powi((i % 60) as i32))),
        ("mixed magnitudes", f(&|i| d[i] * 10f64.powi((i % 21) as i32 - 10))),
        ("positive", f(&|i| d[i].abs())),
        ("negative", f(&|i| -d[i].abs())),
        ("non-integers x.5", f(&|i| i as f64 + 0.5)),
        ("powers of two", f(&|i| 2f64.powi((i % 11) as i32))),
    ];
    // concentrated spectra
    for k in [1usize, 2, m / 2, m.saturating_sub(1)] {
        v.push(("cosine", f(&|i| (pi * (i as f64 + 0.5) * k as f64 / mf).cos())));
        v.push(("sine", f(&|i| (pi * (i as f64 + 1.0) * k as f64 / (mf + 1.0)).sin())));
        v.push(("half cosine", f(&|i| (pi * (i as f64 + 0.5) * (k as f64 + 0.5) / mf).cos())));
    }
    v.into_iter().map(|(s, x)| (s.to_string(), x)).collect()
}
/// Every pair of positions at longer lengths, the reference updated from its columns.
fn far<T: Sc>(x: &X<T>, id: &str, n: usize, s: &mut Vec<T>, ctx: &mut Ctx) -> Res {
    let m = x.nin();
    let cols: Vec<Vec<f64>> = (0..m).map(|j| x.reference(&gen::basis(m, j))).collect();
    let d = gen::dense(m, 187);
    for (bn, base) in [("dense", d), ("zero", vec![0.0; m]), ("ones", vec![1.0; m])] {
        let w0 = x.reference(&base);
        let mut v: Vec<T> = tov(&base);
        let mut vf = base.clone();
        let mut want = w0.clone();
        for i in 0..m {
            for j in i + 1..m {
                for (p, q) in [(0.0, 0.0), (1.0, 1.0), (1.0, -1.0), (base[j], base[j]), (-base[j], base[j]), (base[j], base[i]), (0.0, 1.0)] {
                    if (p, q) == (base[i], base[j]) {
                        continue;
                    }
                    vf[i] = p;
                    vf[j] = q;
                    v[i] = T::of(p);
                    v[j] = T::of(q);
                    let (a, b) = (p - base[i], q - base[j]);
                    for k in 0..want.len() {
                        want[k] = w0[k] + a * cols[i][k] + b * cols[j][k];
                    }
                    let got = x.run(&v, s);
                    ctx.transitions += 1;
                    if vf.iter().all(|a| *a == 0.0) {
                        if let Some(k) = got.iter().position(|a| a.f() != 0.0) {
                            return Err(format!("{} ({}) at n={} of the zero input: output[{}] = {:e}", x.name(), id, n, k, got[k].f()));
                        }
                    } else {
                        let r = compare(&got, &want, scale2(&vf, &want, n), x.tol(id) + 4.0).map_err(|e| format!("{} ({}) at n={} of {} with [{}]={:e} [{}]={:e}: {}", x.name(), id, n, bn, i, p, j, q, e))?;
                        ctx.max("err_far", r);
                    }
                }
                vf[i] = base[i];
                vf[j] = base[j];
                v[i] = T::of(base[i]);
                v[j] = T::of(base[j]);
                ctx.states += 7;
                ctx.traces += 7;
            }
        }
    }
    Ok(())
}
fn devs<T: Sc>(x: &X<T>, id: &str, n: usize, s: &mut Vec<T>, ctx: &mut Ctx) -> Res {
    let m = x.nin();
    if m > 34 {
        return Ok(());
    }
    let d = gen::dense(m, 186);
    let bases: [(&str, Vec<f64>); 4] = [("dense", d.clone()), ("zero", vec![0.0; m]), ("ones", vec![1.0; m]), ("ramp", (0..m).map(|i| i as f64 - 3.0).collect())];
    // value pairs put at (i, j)
    let pairs: [(f64, f64); 10] =
        [(0.0, 0.0), (1.0, 1.0), (1.0, -1.0), (0.3, 0.3), (0.3, -0.3), (0.0, 1.0), (1.0e6, -1.0e6), (1.0e-6, 1.0), (2.0, 0.5), (-1.0, 0.0)];
    let mut v = vec![0.0; m];
    for (bn, base) in &bases {
        v.copy_from_slice(base);
        lin(x, id, n, &v, bn, s, ctx)?;
        for i in 0..m {
            for j in i + 1..m {
                for (p, q) in pairs {
                    v[i] = p;
                    v[j] = q;
                    lin(x, id, n, &v, &format!("{} with [{}]={} [{}]={}", bn, i, p, j, q), s, ctx)?;
                }
                // coincidence with what is there
                v[i] = base[j];
                v[j] = base[j];
                lin(x, id, n, &v, &format!("{} with [{}]=[{}]", bn, i, j), s, ctx)?;
                v[i] = -base[j];
                lin(x, id, n, &v, &format!("{} with [{}]=-[{}]", bn, i, j), s, ctx)?;
                v[i] = base[i];
                v[j] = base[j];
            }
        }
    }
    Ok(())
}
