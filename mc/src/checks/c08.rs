//! C08: composition over arbitrary inner components; C23: reported length and scratch.
use crate::by_type;
use crate::engine::*;
use crate::gen;
use crate::inst::*;
use crate::mock::*;
use crate::oracle;
use crate::sc::*;
use rustdct::algorithm::*;
use rustdct::mdct::{Mdct, MdctViaDct4};
use rustdct::rustfft::algorithm as ralg;
use rustdct::rustfft::{Fft, FftDirection, FftPlannerScalar};
use rustdct::{TransformType2And3, TransformType4};
use std::sync::Arc;

pub struct C08;
pub struct C23;

type A23<T> = Arc<dyn TransformType2And3<T>>;
type A4<T> = Arc<dyn TransformType4<T>>;

/// Inner FFTs of length m: mocks with several demands, and several real algorithms.
pub fn ffts<T: Sc>(m: usize) -> Vec<(String, Arc<dyn Fft<T>>)> {
    let mut v: Vec<(String, Arc<dyn Fft<T>>)> = vec![];
    let mut ds = vec![0, 1, m, 3 * m + 1];
    ds.dedup();
    for d in ds {
        v.push((format!("mockfft{}d{}", m, d), Arc::new(MockFft::new(m, d))));
    }
    v.push((format!("fft{}", m), fft(m)));
    v.push((format!("scalarfft{}", m), FftPlannerScalar::new().plan_fft_forward(m)));
    v.push((format!("dft{}", m), Arc::new(ralg::Dft::new(m, FftDirection::Forward))));
    if m > 1 && m <= 64 {
        let inner = FftPlannerScalar::new().plan_fft_forward((2 * m - 1).next_power_of_two() * 2);
        v.push((format!("bluestein{}", m), Arc::new(ralg::BluesteinsAlgorithm::new(m, inner))));
    }
    v
}

/// All type-2/3 trees of length n, `full` = with the full component alphabet at the leaves.
pub fn trees<T: Sc>(n: usize, full: bool) -> Vec<(String, A23<T>)> {
    let mut v: Vec<(String, A23<T>)> = vec![("naive".into(), Arc::new(Type2And3Naive::new(n)))];
    if matches!(n, 2 | 4 | 8 | 16) {
        v.push(("bfly".into(), butterfly(n)));
    }
    v.push(("fft".into(), Arc::new(Type2And3ConvertToFft::new(fft(n)))));
    let ds: Vec<usize> = if full { vec![0, 1, n, 3 * n + 1] } else { vec![3 * n + 1] };
    for d in ds {
        v.push((format!("mock{}", d), Arc::new(MockDct::t23(n, d))));
    }
    if full {
        v.push(("mockfft".into(), Arc::new(Type2And3ConvertToFft::new(Arc::new(MockFft::new(n, 2 * n + 3))))));
    }
    if n >= 4 {
        let hs = trees::<T>(n / 2, full);
        let qs = trees::<T>(n / 4, full);
        for (hn, h) in &hs {
            for (qn, q) in &qs {
                v.push((format!("[{} {}]", hn, qn), Arc::new(Type2And3SplitRadix::new(h.clone(), q.clone()))));
            }
        }
    }
    v
}
pub fn tree_count(n: usize, full: bool) -> usize {
    let leaves = 2 + matches!(n, 2 | 4 | 8 | 16) as usize + if full { 5 } else { 1 };
    leaves + if n >= 4 { tree_count(n / 2, full) * tree_count(n / 4, full) } else { 0 }
}

pub fn type4s<T: Sc>(n: usize, big: bool) -> Vec<(String, A4<T>)> {
    let mut v: Vec<(String, A4<T>)> = vec![("naive".into(), Arc::new(Type4Naive::new(n)))];
    for d in [0, 1, n, 3 * n + 1] {
        v.push((format!("mock{}", d), Arc::new(MockDct::t4(n, d))));
    }
    if n % 2 == 1 {
        for (s, f) in ffts::<T>(n) {
            v.push((format!("odd({})", s), Arc::new(Type4ConvertToFftOdd::new(f))));
        }
    } else {
        let m = n / 2;
        if m.is_power_of_two() && (m <= 8 || (big && m <= 16)) {
            for (s, t) in trees::<T>(m, m <= 8) {
                v.push((format!("even({})", s), Arc::new(Type4ConvertToType3Even::new(t))));
            }
        } else {
            let mut l: Vec<(String, A23<T>)> = vec![("naive".into(), Arc::new(Type2And3Naive::new(m)))];
            if m == 3 {
                l.push(("bfly".into(), butterfly(3)));
            }
            for d in [0, 1, m, 2 * m, 2 * m + 1, 4 * m, 5 * m] {
                l.push((format!("mock{}", d), Arc::new(MockDct::t23(m, d))));
            }
            for (s, f) in ffts::<T>(m) {
                l.push((s, Arc::new(Type2And3ConvertToFft::new(f))));
            }
            for (s, t) in l {
                v.push((format!("even({})", s), Arc::new(Type4ConvertToType3Even::new(t))));
            }
        }
    }
    v
}

/// Verify one instance against the definition, with exactly the scratch it reports, NaN-filled.
pub fn verify<T: Sc>(name: &str, inst: &Inst<T>, n: usize, full_basis: bool, ctx: &mut Ctx) -> Res {
    if inst.len() != n {
        return Err(format!("{} for n={} reports length {}", name, n, inst.len()));
    }
    let sl = inst.scratch_len();
    let tol = 8.0 + 2.0 * (n as f64).sqrt();
    let mut s = vec![T::NANV; sl];
    for &op in inst.ops() {
        let d = oracle::def(op, n);
        let t = if n <= 300 { d.table() } else { vec![] };
        let mut one = |x: &[f64], what: &str, ctx: &mut Ctx| -> Res {
            let want = if n <= 300 { d.direct(&t, x) } else { d.via_fft(x) };
            s.iter_mut().for_each(|v| *v = T::NANV);
            let mut b: Vec<T> = tov(x);
            let r = catch(|| inst.call(op, &mut b, &mut s));
            if let Err(p) = r {
                return Err(format!("{} of {} with {} over n={} panicked with exactly the reported scratch of {}: {}", op.name(), what, name, n, sl, p));
            }
            let r = compare(&b, &want, scale2(x, &want, n), tol).map_err(|m| format!("{} of {} with {} at n={}: {}", op.name(), what, name, n, m))?;
            ctx.max("err", r);
            ctx.states += 1;
            ctx.transitions += 1;
            ctx.traces += 1;
            Ok(())
        };
        one(&gen::dense(n, 30), "a dense vector", ctx)?;
        if full_basis {
            for j in 0..n {
                one(&gen::basis(n, j), &format!("unit impulse {}", j), ctx)?;
            }
        }
        if inst.scratch_len() != sl {
            return Err(format!("{} at n={} changed its reported scratch length from {} to {}", name, n, sl, inst.scratch_len()));
        }
    }
    Ok(())
}
pub fn verify_mdct<T: Sc>(name: &str, inst: &Arc<dyn Mdct<T>>, w: &[f64], n: usize, ctx: &mut Ctx) -> Res {
    if inst.len() != n {
        return Err(format!("MDCT {} for n={} reports length {}", name, n, inst.len()));
    }
    let d = oracle::MDef::new(n);
    let sl = inst.get_scratch_len();
    let tol = 8.0 + 2.0 * (n as f64).sqrt();
    let x = gen::dense(2 * n, 31);
    let xt: Vec<T> = tov(&x);
    let mut s = vec![T::NANV; sl];
    let mut out = vec![T::NANV; n];
    catch(|| inst.process_mdct_with_scratch(&xt[..n], &xt[n..], &mut out, &mut s)).map_err(|p| format!("MDCT {} over n={} panicked with exactly the reported scratch of {}: {}", name, n, sl, p))?;
    let want = d.forward(&x, w);
    compare(&out, &want, scale2(&x, &want, n), tol).map_err(|m| format!("MDCT {} at n={}: {}", name, n, m))?;
    s.iter_mut().for_each(|v| *v = T::NANV);
    let y = gen::dense(n, 32);
    let yt: Vec<T> = tov(&y);
    let mut o2 = vec![T::of(0.25); 2 * n];
    let (a, b) = o2.split_at_mut(n);
    catch(|| inst.process_imdct_with_scratch(&yt, a, b, &mut s)).map_err(|p| format!("IMDCT {} over n={} panicked with exactly the reported scratch of {}: {}", name, n, sl, p))?;
    let want: Vec<f64> = d.inverse(&y, w).iter().map(|v| v + 0.25).collect();
    compare(&o2, &want, scale2(&y, &want, n), tol).map_err(|m| format!("IMDCT {} at n={}: {}", name, n, m))?;
    if inst.get_scratch_len() != sl {
        return Err(format!("MDCT {} at n={} changed its reported scratch length", name, n));
    }
    ctx.states += 2;
    ctx.transitions += 2;
    ctx.traces += 2;
    Ok(())
}

const BLK: usize = 500;
impl Check for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn cases(&self, tier: Tier, _p: Profile) -> Vec<String> {
        let th = tier == Tier::Thorough;
        let mut v = vec![];
        let tys: &[&str] = &["f64", "f32"];
        let (na, nf, n4) = if th { (1100, 200, 140) } else { (520, 130, 100) };
        for n in 1..=na {
            for ty in tys {
                v.push(format!("algos/{}/{}", ty, n));
                if n <= nf {
                    v.push(format!("fftinner/{}/{}", ty, n));
                }
                if n <= n4 {
                    v.push(format!("t4/{}/{}", ty, n));
                }
            }
        }
        // inner components that need any amount of scratch, up to very much
        for n in 1..=if th { 66usize } else { 34 } {
            for ty in tys {
                v.push(format!("demand/{}/{}", ty, n));
            }
        }
        // direct algorithms where products of two indices pass 2^32
        for a in direct_algos(66000).into_iter().filter(|a| a.to_lowercase().contains("naive")) {
            v.push(format!("long/{}/66000", a));
        }
        v.push("longmdct/naive/66000".into());
        let mut n = 512;
        while n <= if th { 65536 } else { 8192 } {
            for ty in tys {
                v.push(format!("algos/{}/{}", ty, n));
            }
            n *= 2;
        }
        for ty in tys {
            for n in [1usize, 2, 4, 8, 16] {
                for b in 0..(tree_count(n, true) + BLK - 1) / BLK {
                    v.push(format!("trees/{}/{}/full/{}", ty, n, b));
                }
            }
        }
        for ty in if th { tys } else { &tys[..1] } {
            let c = tree_count(32, false);
            for b in 0..(c + 4 * BLK - 1) / (4 * BLK) {
                v.push(format!("trees/{}/32/small/{}", ty, b));
            }
        }
        v
    }
    fn run(&self, case: &str, ctx: &mut Ctx) -> Res {
        let p: Vec<&str> = case.split('/').collect();
        let n: usize = p[2].parse().unwrap();
        match p[0] {
            "long" => verify::<f32>(p[1], &make(p[1], n), n, false, ctx),
            "longmdct" => {
                let w = gen::dense(2 * n, 33);
                let m = make_mdct::<f32>("naive", n, tov(&w));
                verify_mdct("naive", &m, &tov::<f32>(&w).iter().map(|v| v.f()).collect::<Vec<f64>>(), n, ctx)
            }
            "algos" => by_type!(p[1], algos(n, ctx)),
            "fftinner" => by_type!(p[1], fftinner(n, ctx)),
            "t4" => by_type!(p[1], t4(n, ctx)),
            "demand" => by_type!(p[1], demand(n, ctx)),
            _ => by_type!(p[1], treeblk(n, p[3] == "full", p[4].parse().unwrap(), ctx)),
        }
    }
    fn bounds(&self, tier: Tier) -> String {
        format!("every public algorithm at every n<={}, the direct ones also at n=66000; every FFT-based algorithm over mock FFTs (scratch demand 0,1,m,3m+1) and 4 real FFT algorithms for n<={}; inner components demanding every amount of scratch 0..=3n+8 and selected ones to 300001 for n<={}; ALL split-radix composition trees of n<=16 over leaves {{naive, butterfly, FFT, mock FFT, mock DCT with demand 0,1,n,3n+1}} and of n=32 over {{naive, butterfly, FFT, mock DCT}}; type 4 and MDCT over all of those for n<=16 and other inners for n<={}",
            if tier == Tier::Quick { 520 } else { 1100 }, if tier == Tier::Quick { 130 } else { 200 }, if tier == Tier::Quick { 34 } else { 66 }, if tier == Tier::Quick { 100 } else { 140 })
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["inner components fulfil their trait contract: correct result, scratch at least what they report, scratch contents garbage afterwards (NaN here)".into()]
    }
}
fn algos<T: Sc>(n: usize, ctx: &mut Ctx) -> Res {
    for id in inst_ids(n) {
        if n > 2100 && (id.contains("naive") || !id.starts_with('t')) {
            continue;
        }
        let i = catch(|| make::<T>(&id, n)).map_err(|p| format!("building {} at n={} panicked: {}", id, n, p))?;
        verify(&id, &i, n, n <= 24, ctx)?;
    }
    if n % 2 == 0 && n <= 300 {
        for id in mdct_ids(n) {
            let w = gen::dense(2 * n, 33);
            let i = make_mdct::<T>(&id, n, tov(&w));
            verify_mdct(&id, &i, &w, n, ctx)?;
        }
    }
    Ok(())
}
fn fftinner<T: Sc>(n: usize, ctx: &mut Ctx) -> Res {
    let bas = n <= 16;
    if n >= 2 {
        for (s, f) in ffts::<T>(2 * (n - 1)) {
            verify(&format!("Dct1ConvertToFft({})", s), &Inst::D1(Arc::new(Dct1ConvertToFft::new(f))), n, bas, ctx)?;
        }
    }
    for (s, f) in ffts::<T>(2 * (n + 1)) {
        verify(&format!("Dst1ConvertToFft({})", s), &Inst::S1(Arc::new(Dst1ConvertToFft::new(f))), n, bas, ctx)?;
    }
    for (s, f) in ffts::<T>(n) {
        verify(&format!("Type2And3ConvertToFft({})", s), &Inst::T23(Arc::new(Type2And3ConvertToFft::new(f))), n, bas, ctx)?;
    }
    for (s, f) in ffts::<T>(2 * n + 1) {
        verify(&format!("Dst6And7ConvertToFft({})", s), &Inst::S67(Arc::new(Dst6And7ConvertToFft::new(f))), n, bas, ctx)?;
    }
    Ok(())
}
fn demand<T: Sc>(n: usize, ctx: &mut Ctx) -> Res {
    let mut ds: Vec<usize> = (0..=3 * n + 8).collect();
    ds.extend([4 * n, 5 * n + 1, 8 * n + 1, 16 * n + 3, 64 * n + 65, 129 * n + 200, 255, 256, 1000, 4097, 65535, 65536, 65537, 300_001]);
    let big: Vec<usize> = vec![0, 1, n / 2, n, n + 1, 2 * n, 2 * n + 1, 3 * n + 8, 64 * n + 65, 1000, 70_000];
    let w = gen::dense(2 * n, 34);
    let wt: Vec<T> = tov(&w);
    for &d in &ds {
        let f = |m: usize| -> Arc<dyn Fft<T>> { Arc::new(MockFft::new(m, d)) };
        let what = |s: &str| format!("{} over a component that needs {} scratch elements", s, d);
        if n >= 2 {
            verify(&what("Dct1ConvertToFft"), &Inst::D1(Arc::new(Dct1ConvertToFft::new(f(2 * n - 2)))), n, false, ctx)?;
        }
        verify(&what("Dst1ConvertToFft"), &Inst::S1(Arc::new(Dst1ConvertToFft::new(f(2 * n + 2)))), n, false, ctx)?;
        let t23: A23<T> = Arc::new(Type2And3ConvertToFft::new(f(n)));
        verify(&what("Type2And3ConvertToFft"), &Inst::T23(t23.clone()), n, false, ctx)?;
        verify(&what("Dst6And7ConvertToFft"), &Inst::S67(Arc::new(Dst6And7ConvertToFft::new(f(2 * n + 1)))), n, false, ctx)?;
        if n % 2 == 1 {
            verify(&what("Type4ConvertToFftOdd"), &Inst::T4(Arc::new(Type4ConvertToFftOdd::new(f(n)))), n, false, ctx)?;
            continue;
        }
        let e: A4<T> = Arc::new(Type4ConvertToType3Even::new(Arc::new(MockDct::t23(n / 2, d))));
        verify(&what("Type4ConvertToType3Even"), &Inst::T4(e.clone()), n, false, ctx)?;
        let i4: A4<T> = Arc::new(MockDct::t4(n, d));
        for (s, i) in [("MdctViaDct4", i4), ("MdctViaDct4 via Type4ConvertToType3Even", e)] {
            let wt = wt.clone();
            let m: Arc<dyn Mdct<T>> = Arc::new(MdctViaDct4::new(i, move |_| wt));
            verify_mdct(&what(s), &m, &w, n, ctx)?;
        }
    }
    if n.is_power_of_two() && n >= 4 {
        for &a in &big {
            for &b in &big {
                let t: A23<T> = Arc::new(Type2And3SplitRadix::new(Arc::new(MockDct::t23(n / 2, a)), Arc::new(MockDct::t23(n / 4, b))));
                let what = format!("Type2And3SplitRadix over components that need {} and {} scratch elements", a, b);
                verify(&what, &Inst::T23(t.clone()), n, n <= 8, ctx)?;
                verify(&format!("Type4ConvertToType3Even over {}", what), &Inst::T4(Arc::new(Type4ConvertToType3Even::new(t))), 2 * n, false, ctx)?;
            }
        }
    }
    Ok(())
}
fn t4<T: Sc>(n: usize, ctx: &mut Ctx) -> Res {
    let w = gen::dense(2 * n, 34);
    let wt: Vec<T> = tov(&w);
    for (s, a) in type4s::<T>(n, n == 32 && ctx.tier_thorough) {
        verify(&format!("type4 {}", s), &Inst::T4(a.clone()), n, n <= 8, ctx)?;
        if n % 2 == 0 {
            let wt = wt.clone();
            let m: Arc<dyn Mdct<T>> = Arc::new(MdctViaDct4::new(a, move |_| wt));
            verify_mdct(&format!("via type4 {}", s), &m, &w, n, ctx)?;
        }
    }
    Ok(())
}
fn treeblk<T: Sc>(n: usize, full: bool, blk: usize, ctx: &mut Ctx) -> Res {
    // build only the requested block: the top level is indexed, sub-levels are shared
    let bs = if full { BLK } else { 4 * BLK };
    let (lo, hi) = (blk * bs, ((blk + 1) * bs).min(tree_count(n, full)));
    let mut list: Vec<(String, A23<T>)> = vec![];
    if n < 16 {
        list = trees::<T>(n, full);
        if list.len() != tree_count(n, full) {
            panic!("harness: tree count");
        }
        list = list.drain(lo..hi).collect();
    } else {
        let nl = tree_count(n, full) - tree_count(n / 2, full) * tree_count(n / 4, full);
        let hs = trees::<T>(n / 2, full);
        let qs = trees::<T>(n / 4, full);
        for i in lo..hi {
            if i < nl {
                if i == 0 {
                    // leaves of this level, once
                    let mut l: Vec<(String, A23<T>)> = vec![("naive".into(), Arc::new(Type2And3Naive::new(n))), ("fft".into(), Arc::new(Type2And3ConvertToFft::new(fft(n))))];
                    if n == 16 {
                        l.push(("bfly".into(), butterfly(16)));
                    }
                    list.extend(l);
                }
                continue;
            }
            let (h, q) = (&hs[(i - nl) / qs.len()], &qs[(i - nl) % qs.len()]);
            list.push((format!("[{} {}]", h.0, q.0), Arc::new(Type2And3SplitRadix::new(h.1.clone(), q.1.clone()))));
        }
    }
    for (s, t) in &list {
        verify(s, &Inst::T23(t.clone()), n, n <= 8, ctx)?;
        ctx.add("composition_trees", 1);
    }
    Ok(())
}

impl Check for C23 {
    fn id(&self) -> &'static str {
        "C23"
    }
    fn cases(&self, tier: Tier, _p: Profile) -> Vec<String> {
        let (full, bound) = if tier == Tier::Quick { (1100, 66000) } else { (4200, 270000) };
        let mut v = vec![];
        for n in 1..=full {
            for ty in ["f64", "f32", "wrap"] {
                v.push(format!("all/{}/{}", ty, n));
            }
        }
        for n in gen::boundary_lengths(full, bound) {
            for ty in ["f64", "f32"] {
                v.push(format!("fast/{}/{}", ty, n));
            }
        }
        v
    }
    fn run(&self, case: &str, ctx: &mut Ctx) -> Res {
        let p: Vec<&str> = case.split('/').collect();
        let n: usize = p[2].parse().unwrap();
        let fast = p[0] == "fast";
        match p[1] {
            "f32" => sizes::<f32>(n, fast, ctx),
            "f64" => sizes::<f64>(n, fast, ctx),
            _ => sizes::<crate::scal::Wrap>(n, fast, ctx),
        }
    }
    fn bounds(&self, tier: Tier) -> String {
        let (a, b) = if tier == Tier::Quick { (1100, 66000) } else { (4200, 270000) };
        format!("every instance (planned through every entry point, and directly built) and every MDCT at every n<={}, fast planned ones at boundary lengths to {}; every operation run three times with scratch of exactly the reported length; f32, f64, one user type", a, b)
    }
}
fn sizes<T: Sc>(n: usize, fast: bool, ctx: &mut Ctx) -> Res {
    let mut list: Vec<(String, Inst<T>)> = vec![];
    for op in ALL_OPS {
        if n < op.min_len() || (fast && !op.fast_planned()) {
            continue;
        }
        list.push((format!("plan_{}", op.name()), planned(op, n)));
    }
    if !fast && n <= 1100 {
        for a in direct_algos(n) {
            list.push((a.to_string(), catch(|| direct(a, n)).map_err(|p| format!("building {} at n={} panicked: {}", a, n, p))?));
        }
    }
    let x: Vec<T> = tov(&gen::dense(n, 35));
    for (name, inst) in &list {
        if inst.len() != n {
            return Err(format!("{}({}).len() == {}", name, n, inst.len()));
        }
        let sl = inst.scratch_len();
        // direct algorithms are expensive at large n; one pass suffices to exercise every operation
        let slow = name.contains("naive") || !inst.ops()[0].fast_planned();
        let reps = if slow && n > 300 { 1 } else { 3 };
        for rep in 0..reps {
            if slow && n > 520 && n % 16 != 0 {
                break;
            }
            for &op in inst.ops() {
                let mut b = x.clone();
                let mut s = vec![T::of(0.0); sl];
                catch(|| inst.call(op, &mut b, &mut s)).map_err(|p| format!("{} via {} at n={} with the reported scratch of {} panicked (pass {}): {}", op.name(), name, n, sl, rep, p))?;
                if b.iter().any(|v| !v.f().is_finite()) {
                    return Err(format!("{} via {} at n={} produced a non-finite value", op.name(), name, n));
                }
                ctx.transitions += 1;
                ctx.traces += 1;
                if inst.scratch_len() != sl || inst.len() != n {
                    return Err(format!("{}({}) reports len {} scratch {} after {}, before: {} {}", name, n, inst.len(), inst.scratch_len(), op.name(), n, sl));
                }
            }
        }
        let c = inst.clone();
        if c.scratch_len() != sl || c.len() != n {
            return Err(format!("{}({}): clone reports different sizes", name, n));
        }
        ctx.states += 1;
    }
    if n % 2 == 0 {
        let ids = if fast || n > 300 { vec!["planned".to_string()] } else { mdct_ids(n) };
        for id in ids {
            let m = make_mdct::<T>(&id, n, vec![T::of(0.5); 2 * n]);
            if m.len() != n {
                return Err(format!("mdct {}({}).len() == {}", id, n, m.len()));
            }
            let sl = m.get_scratch_len();
            for _ in 0..2 {
                let mut s = vec![T::of(0.0); sl];
                let mut o = vec![T::of(0.0); n];
                catch(|| m.process_mdct_with_scratch(&x, &x, &mut o, &mut s)).map_err(|p| format!("mdct {} at n={} with the reported scratch of {} panicked: {}", id, n, sl, p))?;
                let mut o2 = vec![T::of(0.0); n];
                let mut s = vec![T::of(0.0); sl];
                catch(|| m.process_imdct_with_scratch(&x, &mut o, &mut o2, &mut s)).map_err(|p| format!("imdct {} at n={} with the reported scratch of {} panicked: {}", id, n, sl, p))?;
                if m.get_scratch_len() != sl || m.len() != n {
                    return Err(format!("mdct {}({}) changed its reported sizes", id, n));
                }
                ctx.transitions += 2;
                ctx.traces += 2;
            }
            ctx.states += 1;
        }
    }
    Ok(())
}
