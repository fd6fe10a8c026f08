//! C19: user-defined element types.
use crate::engine::*;
use crate::gen;
use crate::inst::*;
use crate::oracle::{self, MDef};
use crate::sc::*;
use crate::scal::Wrap;
use crate::wide::{Fix, Like32, Like64, Pack, DD, LANES};
use crate::win;
use rustdct::mdct::Mdct;
use rustdct::DctNum;
use std::sync::Arc;

pub struct C19;
struct B {
    basis: usize,
    dd_matrix: usize,
    all: usize,
    bound: usize,
}
fn b(t: Tier) -> B {
    match t {
        Tier::Quick => B { basis: 130, dd_matrix: 66, all: 600, bound: 20000 },
        Tier::Thorough => B { basis: 400, dd_matrix: 150, all: 2100, bound: 140000 },
    }
}
fn slow(id: &str) -> bool {
    id.contains("naive") || ["planned:dct5", "planned:dct6", "planned:dct8", "planned:dst5", "planned:dst8"].contains(&id)
}
impl Check for C19 {
    fn id(&self) -> &'static str {
        "C19"
    }
    fn cases(&self, tier: Tier, _p: Profile) -> Vec<String> {
        let b = b(tier);
        let mut v = vec![];
        let mut lens: Vec<usize> = (1..=b.all).collect();
        lens.extend(gen::boundary_lengths(b.all, b.bound));
        for n in lens {
            let mut ids = inst_ids(n);
            if n % 2 == 0 {
                ids.extend(mdct_ids(n).into_iter().map(|s| format!("mdct:{}", s)));
            }
            for id in ids {
                if (n > 70 && !id.contains("planned")) || (slow(&id) && n > 200) {
                    continue;
                }
                if n <= b.basis {
                    v.push(format!("pack/{}/{}", n, id));
                } else {
                    v.push(format!("packsome/{}/{}", n, id));
                }
                v.push(format!("dd/{}/{}", n, id));
                if n <= b.dd_matrix {
                    v.push(format!("ddmat/{}/{}", n, id));
                }
                for t in ["wrap", "like64", "like32"] {
                    v.push(format!("{}/{}/{}", t, n, id));
                }
                if n <= 1100 {
                    v.push(format!("fix/{}/{}", n, id));
                }
            }
        }
        v
    }
    fn run(&self, case: &str, ctx: &mut Ctx) -> Res {
        let p: Vec<&str> = case.split('/').collect();
        let n: usize = p[1].parse().unwrap();
        match p[0] {
            "pack" => pack(n, p[2], true, ctx),
            "packsome" => pack(n, p[2], false, ctx),
            "dd" => dd(n, p[2], false, ctx),
            "ddmat" => dd(n, p[2], true, ctx),
            "fix" => fix(n, p[2], ctx),
            "wrap" => newtype::<Wrap>(n, p[2], ctx),
            "like64" => newtype::<Like64>(n, p[2], ctx),
            "like32" => newtype::<Like32>(n, p[2], ctx),
            t => panic!("harness: {}", t),
        }
    }
    fn bounds(&self, tier: Tier) -> String {
        let b = b(tier);
        format!("six user types: f64 and f32 look-alikes of the same size with another representation, 8-lane packed (full basis for n<={}, 8 or 16 vectors beyond), double-double (homogeneity and additivity to 1e-27 at every length, agreement of all outputs with the exact matrix of the same instance for n<={}), tagged f64, 50-bit fixed point; every instance x op and MDCT/IMDCT at every n<={} and boundary lengths to {}", b.basis, b.dd_matrix, b.all, b.bound)
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["twiddle factors are f64-accurate constants, as documented".into()]
    }
}
/// a transform on any element type
enum Y<T: DctNum> {
    I(Inst<T>, Op),
    F(Arc<dyn Mdct<T>>),
    V(Arc<dyn Mdct<T>>),
}
enum R {
    D(oracle::Def, Vec<f64>),
    F(MDef, Vec<f64>),
    V(MDef, Vec<f64>),
}
fn both<T: DctNum>(id: &str, n: usize, lift: &dyn Fn(f64) -> T) -> Vec<(Y<T>, R)> {
    if let Some(m) = id.strip_prefix("mdct:") {
        let w = win::formula("asym", 2 * n);
        let i = make_mdct::<T>(m, n, w.iter().map(|v| lift(*v)).collect());
        return vec![(Y::F(i.clone()), R::F(MDef::new(n), w.clone())), (Y::V(i), R::V(MDef::new(n), w))];
    }
    let i = make::<T>(id, n);
    i.ops()
        .iter()
        .map(|op| {
            let d = oracle::def(*op, n);
            let t = if n <= 700 { d.table() } else { vec![] };
            (Y::I(i.clone(), *op), R::D(d, t))
        })
        .collect()
}
impl<T: DctNum> Y<T> {
    fn name(&self) -> &'static str {
        match self {
            Y::I(_, o) => o.name(),
            Y::F(_) => "mdct",
            Y::V(_) => "imdct",
        }
    }
    fn nin(&self) -> usize {
        match self {
            Y::I(i, _) => i.len(),
            Y::F(i) => 2 * i.len(),
            Y::V(i) => i.len(),
        }
    }
    fn run(&self, x: &[T], z: T) -> Vec<T> {
        match self {
            Y::I(i, o) => {
                let mut b = x.to_vec();
                let mut s = vec![z; i.scratch_len()];
                i.call(*o, &mut b, &mut s);
                b
            }
            Y::F(i) => {
                let n = i.len();
                let mut o = vec![z; n];
                let mut s = vec![z; i.get_scratch_len()];
                i.process_mdct_with_scratch(&x[..n], &x[n..], &mut o, &mut s);
                o
            }
            Y::V(i) => {
                let n = i.len();
                let mut o = vec![T::zero(); 2 * n];
                let (a, b) = o.split_at_mut(n);
                let mut s = vec![z; i.get_scratch_len()];
                i.process_imdct_with_scratch(x, a, b, &mut s);
                o
            }
        }
    }
}
impl R {
    fn apply(&self, x: &[f64]) -> Vec<f64> {
        match self {
            R::D(d, t) => {
                if t.is_empty() {
                    d.via_fft(x)
                } else {
                    d.direct(t, x)
                }
            }
            R::F(d, w) => d.forward(x, w),
            R::V(d, w) => d.inverse(x, w),
        }
    }
}
fn tolerance(id: &str, n: usize) -> f64 {
    if slow(id) { 12.0 + (n as f64).sqrt() } else { 12.0 }
}
fn pack(n: usize, id: &str, full: bool, ctx: &mut Ctx) -> Res {
    for (y, r) in both::<Pack>(id, n, &|v| Pack([v; LANES])) {
        let m = y.nin();
        // columns: the basis (and dense vectors), eight per call; lane 0 rotates so that no lane is special
        let mut cols: Vec<Option<usize>> = vec![];
        if full {
            cols.extend((0..m).map(Some));
        } else {
            for k in [0, 1, m / 3, m / 2, m - 2, m - 1] {
                cols.push(Some(k));
            }
        }
        while cols.len() % LANES != 0 {
            cols.push(None);
        }
        for (call, group) in cols.chunks(LANES).enumerate() {
            let lane = |l: usize| (l + call) % LANES;
            let mut vecs: Vec<Vec<f64>> = vec![vec![]; LANES];
            for (l, c) in group.iter().enumerate() {
                vecs[lane(l)] = match c {
                    Some(j) => gen::basis(m, *j),
                    None => gen::dense(m, 190 + l as u64),
                };
            }
            let x: Vec<Pack> = (0..m)
                .map(|i| {
                    let mut a = [0.0; LANES];
                    for l in 0..LANES {
                        a[l] = vecs[l][i];
                    }
                    Pack(a)
                })
                .collect();
            let out = y.run(&x, Pack([f64::NAN; LANES]));
            ctx.transitions += 1;
            for l in 0..LANES {
                let got: Vec<f64> = out.iter().map(|p| p.0[l]).collect();
                let want = r.apply(&vecs[l]);
                let e = compare::<f64>(&got, &want, scale2(&vecs[l], &want, n), tolerance(id, n))
                    .map_err(|e| format!("{} ({}) at n={} on the packed type, lane {} (call {}): {}", y.name(), id, n, l, call, e))?;
                ctx.max("err_packed", e);
                ctx.states += 1;
                ctx.traces += 1;
            }
        }
    }
    Ok(())
}
fn newtype<T: Sc>(n: usize, id: &str, ctx: &mut Ctx) -> Res {
    for (y, r) in both::<T>(id, n, &T::of) {
        let m = y.nin();
        for seed in 0..3 {
            let x = match seed {
                2 => (0..m).map(|i| (i % 3) as f64 - 1.0).collect(), // zeros and ones
                s => gen::dense(m, 195 + s),
            };
            let out = y.run(&tov::<T>(&x), T::NANV);
            // the MDCT reference takes the window as the type stores it only up to its rounding
            let want = r.apply(&x);
            let e = compare(&out, &want, scale2(&x, &want, n), tolerance(id, n)).map_err(|e| format!("{} ({}) at n={} on the newtype {}: {}", y.name(), id, n, T::NAME, e))?;
            ctx.max(&format!("err_{}", T::NAME), e);
            ctx.states += 1;
            ctx.transitions += 1;
            ctx.traces += 1;
        }
    }
    Ok(())
}
fn fix(n: usize, id: &str, ctx: &mut Ctx) -> Res {
    for (y, r) in both::<Fix>(id, n, &Fix::of) {
        let x: Vec<f64> = gen::dense(y.nin(), 197);
        let xf: Vec<Fix> = x.iter().map(|v| Fix::of(*v)).collect();
        let out = y.run(&xf, Fix::of(1.5));
        let want = r.apply(&x);
        // resolution 2^-50, truncation in every product; prime-size FFTs scale by 1/n and back, losing log2 n bits
        let tol = 2f64.powi(-50) * 64.0 * (n as f64).powf(1.5) + f64::EPSILON * 32.0 * scale2(&x, &want, n);
        for (i, (g, w)) in out.iter().zip(&want).enumerate() {
            let d = (g.f() - w).abs();
            ctx.max("err_fixed_over_tol", d / tol);
            if !(d <= tol) {
                return Err(format!("{} ({}) at n={} on a fixed-point type: output[{}] = {:e}, reference {:e}", y.name(), id, n, i, g.f(), w));
            }
        }
        ctx.states += 1;
        ctx.transitions += 1;
        ctx.traces += 1;
    }
    Ok(())
}
/// double-double vector whose low halves carry information
fn ddvec(m: usize, which: u64) -> Vec<DD> {
    let (a, c) = (gen::dense(m, which), gen::dense(m, which + 1000));
    (0..m).map(|i| DD { hi: a[i], lo: c[i] * 2f64.powi(-60) }).collect()
}
const DDTOL: f64 = 1e-27;
fn dist(a: &[DD], w: &[DD]) -> (f64, usize) {
    let mut worst = (0.0, 0);
    for i in 0..a.len() {
        let d = (a[i] - w[i]).hi.abs();
        if !(d <= worst.0) {
            worst = (if d.is_nan() { f64::INFINITY } else { d }, i);
        }
    }
    worst
}
fn dd(n: usize, id: &str, matrix: bool, ctx: &mut Ctx) -> Res {
    let z = DD { hi: f64::NAN, lo: f64::NAN };
    for (y, r) in both::<DD>(id, n, &DD::of) {
        let m = y.nin();
        let x = ddvec(m, 300);
        let xf: Vec<f64> = x.iter().map(|v| v.hi).collect();
        let fx = y.run(&x, z);
        let want = r.apply(&xf);
        let sc = scale2(&xf, &want, n) * (n as f64).sqrt().max(1.0);
        let hi: Vec<f64> = fx.iter().map(|v| v.hi).collect();
        compare::<f64>(&hi, &want, scale2(&xf, &want, n), tolerance(id, n)).map_err(|e| format!("{} ({}) at n={} on double-double: {}", y.name(), id, n, e))?;
        ctx.states += 1;
        ctx.transitions += 1;
        ctx.traces += 1;
        let mut judge = |got: &[DD], w: &[DD], what: &str| -> Res {
            let (d, i) = dist(got, w);
            ctx.max("err_double_double", d / sc);
            ctx.states += 1;
            ctx.transitions += 1;
            ctx.traces += 1;
            if !(d <= DDTOL * sc) {
                return Err(format!("{} ({}) at n={} on double-double: {} at output[{}]: off by {:e} (allowed {:e}); precision of the type is lost", y.name(), id, n, what, i, d, DDTOL * sc));
            }
            Ok(())
        };
        // homogeneity with a factor that is no power of two
        let c = DD { hi: 1.3247179572447461, lo: 1.1e-17 };
        let cx: Vec<DD> = x.iter().map(|v| *v * c).collect();
        let cf: Vec<DD> = fx.iter().map(|v| *v * c).collect();
        judge(&y.run(&cx, z), &cf, "f(c x) differs from c f(x)")?;
        // additivity
        let x2 = ddvec(m, 302);
        let f2 = y.run(&x2, z);
        let sx: Vec<DD> = x.iter().zip(&x2).map(|(a, b)| *a + *b).collect();
        let sf: Vec<DD> = fx.iter().zip(&f2).map(|(a, b)| *a + *b).collect();
        judge(&y.run(&sx, z), &sf, "f(x+y) differs from f(x)+f(y)")?;
        if matrix {
            let mut acc = vec![DD::of(0.0); fx.len()];
            for j in 0..m {
                let e: Vec<DD> = (0..m).map(|i| DD::of(if i == j { 1.0 } else { 0.0 })).collect();
                for (a, v) in acc.iter_mut().zip(y.run(&e, z)) {
                    *a = *a + x[j] * v;
                }
            }
            judge(&fx, &acc, "f(x) differs from the sum over its own columns")?;
        }
    }
    Ok(())
}
