//! C15: constructors and planner requests accept exactly the documented configurations.
use crate::engine::*;
use crate::gen;
use crate::inst::*;
use crate::mock::{MockDct, MockFft};
use crate::oracle;
use crate::sc::*;
use crate::scal::Wrap;
use rustdct::algorithm::*;
use rustdct::mdct::{Mdct, MdctNaive, MdctViaDct4};
use rustdct::rustfft::{Fft, FftDirection, FftPlanner};
use rustdct::{DctNum, DctPlanner, TransformType2And3, TransformType4};
use std::sync::Arc;

pub struct C15;
const FFT_ALGOS: [&str; 5] = ["dct1", "dst1", "t23", "t4odd", "s67"];
impl Check for C15 {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn profiles(&self) -> Vec<Profile> {
        vec![Profile::Release, Profile::Checked]
    }
    fn cases(&self, tier: Tier, prof: Profile) -> Vec<String> {
        let (f, s, m, big) = match (tier, prof) {
            (Tier::Quick, Profile::Release) => (300, 130, 100, 70000),
            (Tier::Quick, Profile::Checked) => (130, 66, 40, 5000),
            (_, Profile::Release) => (2100, 520, 300, 300000),
            (_, Profile::Checked) => (520, 130, 100, 20000),
        };
        let mut v = vec![];
        for ty in ["f64", "f32", "wrap"] {
            v.push(format!("dct1/{}/1", ty));
            for n in (1..=f).chain(gen::boundary_lengths(f, big)) {
                for a in FFT_ALGOS {
                    v.push(format!("fft:{}/{}/{}", a, ty, n));
                }
            }
            for h in (1..=s).chain((8..14).flat_map(|e| [(1usize << e) - 1, 1 << e, (1 << e) + 1, 3 << e])) {
                v.push(format!("split/{}/{}", ty, h));
            }
            for n in 1..=m {
                v.push(format!("mdct/{}/{}", ty, n));
            }
            for n in gen::boundary_lengths(m, if tier == Tier::Quick { 9000 } else { 66000 }) {
                v.push(format!("mdctbig/{}/{}", ty, n));
            }
            for n in 1..=f.min(400) {
                v.push(format!("len/{}/{}", ty, n));
            }
        }
        v
    }
    fn run(&self, case: &str, ctx: &mut Ctx) -> Res {
        let p: Vec<&str> = case.split('/').collect();
        let n: usize = p[2].parse().unwrap();
        match p[1] {
            "f64" => go::<f64>(p[0], n, ctx),
            "f32" => go::<f32>(p[0], n, ctx),
            _ => go::<Wrap>(p[0], n, ctx),
        }
    }
    fn bounds(&self, tier: Tier) -> String {
        let (f, s, m, b) = if tier == Tier::Quick { (300, 130, 100, 70000) } else { (2100, 520, 300, 300000) };
        format!("five FFT-based constructors x FFT length 1..={} and boundary lengths to {} x both directions x real and hand-made FFTs; split radix: every (half, quarter) with half<={}, quarter<=half+2, plus large powers of two and neighbours; MDCT (direct, over a DCT4, planner): every length <={} x every window size 0..=4n+2 for n<=12 and an edge set beyond; DCT1 of length 1; every constructor at every n<={} for its documented length; planner reused after each refusal; f32, f64, a user type; release, and debug assertions at smaller bounds", f, b, s, m, f.min(400))
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["configurations that would give an instance of length 0 are outside the domain".into()]
    }
}
fn tick(ctx: &mut Ctx, ok: bool) {
    ctx.states += 1;
    ctx.transitions += 1;
    ctx.traces += 1;
    ctx.add(if ok { "accepted" } else { "refused" }, 1);
}
fn judge<R>(r: &Result<R, String>, want: bool, what: &dyn Fn() -> String, ctx: &mut Ctx) -> Res {
    tick(ctx, r.is_ok());
    match (r, want) {
        (Ok(_), false) => Err(format!("{} was accepted, it must be refused", what())),
        (Err(e), true) => Err(format!("{} must be accepted but panicked: {}", what(), e)),
        _ => Ok(()),
    }
}
/// length and results of an accepted instance
fn works<T: Sc>(i: &Inst<T>, n: usize, what: &dyn Fn() -> String, ctx: &mut Ctx) -> Res {
    if i.len() != n {
        return Err(format!("{} yields an instance of length {}, documented {}", what(), i.len(), n));
    }
    if n > 64 {
        return Ok(());
    }
    let x = tof(&tov::<T>(&gen::dense(n, 160)));
    for &op in i.ops() {
        let mut b: Vec<T> = tov(&x);
        let r = catch(|| i.call_conv(op, &mut b));
        if let Err(e) = r {
            return Err(format!("{}: {} panics: {}", what(), op.name(), e));
        }
        let d = oracle::def(op, n);
        let want = d.direct(&d.table(), &x);
        compare(&b, &want, scale2(&x, &want, n), 32.0).map_err(|e| format!("{}: {}: {}", what(), op.name(), e))?;
        ctx.transitions += 1;
        ctx.traces += 1;
    }
    Ok(())
}
fn go<T: Sc>(kind: &str, n: usize, ctx: &mut Ctx) -> Res {
    match kind {
        "dct1" => dct1::<T>(ctx),
        "split" => split::<T>(n, ctx),
        "mdct" => mdct::<T>(n, true, ctx),
        "mdctbig" => mdct::<T>(n, false, ctx),
        "len" => {
            for id in inst_ids(n) {
                let r = catch(|| make::<T>(&id, n));
                let what = || format!("{} at length {}", id, n);
                judge(&r, true, &what, ctx)?;
                if r.unwrap().len() != n {
                    return Err(format!("{} has another length", what()));
                }
            }
            Ok(())
        }
        _ => from_fft::<T>(kind.strip_prefix("fft:").unwrap(), n, ctx),
    }
}
fn build<T: DctNum>(a: &str, f: Arc<dyn Fft<T>>) -> Inst<T> {
    match a {
        "dct1" => Inst::D1(Arc::new(Dct1ConvertToFft::new(f))),
        "dst1" => Inst::S1(Arc::new(Dst1ConvertToFft::new(f))),
        "t23" => Inst::T23(Arc::new(Type2And3ConvertToFft::new(f))),
        "t4odd" => Inst::T4(Arc::new(Type4ConvertToFftOdd::new(f))),
        "s67" => Inst::S67(Arc::new(Dst6And7ConvertToFft::new(f))),
        _ => panic!("harness"),
    }
}
fn from_fft<T: Sc>(a: &str, n: usize, ctx: &mut Ctx) -> Res {
    // what the documentation says: accepted lengths, resulting length
    let (ok, len) = match a {
        "dct1" => (n % 2 == 0, n / 2 + 1),
        "dst1" => (n % 2 == 0, (n / 2).wrapping_sub(1)),
        "t23" => (true, n),
        "t4odd" => (n % 2 == 1, n),
        _ => (n % 2 == 1, n.saturating_sub(1) / 2),
    };
    if ok && len == 0 {
        return Ok(());
    }
    for dir in [FftDirection::Forward, FftDirection::Inverse] {
        for mock in [false, true] {
            if mock && n > 3000 {
                continue;
            }
            let f: Arc<dyn Fft<T>> = if mock { Arc::new(MockFft::<T>::with_dir(n, 3, dir)) } else { FftPlanner::new().plan_fft(n, dir) };
            let fwd = dir == FftDirection::Forward;
            let what = || format!("{} constructor over a {} {}FFT of length {}", a, if fwd { "forward" } else { "inverse" }, if mock { "hand-made " } else { "" }, n);
            let r = catch(|| build(a, f));
            judge(&r, ok && fwd, &what, ctx)?;
            if let Ok(i) = r {
                works(&i, len, &what, ctx)?;
            }
        }
    }
    Ok(())
}
fn split<T: Sc>(h: usize, ctx: &mut Ctx) -> Res {
    let comp = |m: usize, kind: u8| -> Arc<dyn TransformType2And3<T>> {
        match kind {
            0 if m <= 600 => Arc::new(Type2And3Naive::new(m)),
            1 if m <= 64 => Arc::new(MockDct::<T>::t23(m, 2 * m)),
            _ => DctPlanner::new().plan_dct2(m),
        }
    };
    let qs: Vec<usize> = if h <= 600 { (1..=h + 2).collect() } else { vec![1, h / 4, h / 2 - 1, h / 2, h / 2 + 1, h, 2 * h] };
    for kind in 0..3u8 {
        if (kind == 1 && h > 64) || (kind == 2 && h > 130 && h < 600) {
            continue;
        }
        let half = comp(h, kind);
        for &q in &qs {
            let quarter = comp(q, kind);
            // n = 2*half is a power of two greater than two, and the parts are n/2 and n/4
            let ok = h >= 2 && h.is_power_of_two() && q * 2 == h;
            let what = || format!("split radix over a half of {} and a quarter of {}", h, q);
            let r = catch(|| Type2And3SplitRadix::new(half.clone(), quarter.clone()));
            judge(&r, ok, &what, ctx)?;
            if let Ok(i) = r {
                works(&Inst::T23(Arc::new(i)), 2 * h, &what, ctx)?;
            }
        }
    }
    // type 4 over a type 3 accepts every inner length
    if h <= 600 {
        let inner = comp(h, 0);
        let what = || format!("type 4 over a type 3 of {}", h);
        let r = catch(|| Type4ConvertToType3Even::new(inner));
        judge(&r, true, &what, ctx)?;
        works(&Inst::T4(Arc::new(r.unwrap())), 2 * h, &what, ctx)?;
    }
    Ok(())
}
fn dct1<T: Sc>(ctx: &mut Ctx) -> Res {
    let r = catch(|| Dct1Naive::<T>::new(1));
    judge(&r, false, &|| "Dct1Naive::new(1)".into(), ctx)?;
    let mut p = DctPlanner::<T>::new();
    for _ in 0..3 {
        let r = catch(|| p.plan_dct1(1));
        judge(&r, false, &|| "plan_dct1(1)".into(), ctx)?;
        usable(&mut p, 1, "after plan_dct1(1) was refused", ctx)?;
    }
    Ok(())
}
/// every request still works on this planner
fn usable<T: Sc>(p: &mut DctPlanner<T>, n: usize, when: &str, ctx: &mut Ctx) -> Res {
    for m in [n, n + 1, 2 * n, 12] {
        for op in ALL_OPS {
            if m < op.min_len() {
                continue;
            }
            let what = || format!("plan_{}({}) {}", op.name(), m, when);
            let r = catch(|| plan(p, op, m));
            judge(&r, true, &what, ctx)?;
            works(&r.unwrap(), m, &what, ctx)?;
        }
        if m % 2 == 0 && m <= 64 {
            let w: Vec<T> = tov(&gen::dense(2 * m, 161));
            let w2 = w.clone();
            let what = || format!("plan_mdct({}) {}", m, when);
            let r = catch(|| p.plan_mdct(m, move |_| w2));
            judge(&r, true, &what, ctx)?;
            mdct_works(&*r.unwrap(), m, &w, &what, ctx)?;
        }
    }
    Ok(())
}
fn mdct_works<T: Sc>(i: &dyn Mdct<T>, n: usize, w: &[T], what: &dyn Fn() -> String, ctx: &mut Ctx) -> Res {
    if i.len() != n {
        return Err(format!("{} yields length {}", what(), i.len()));
    }
    if n > 64 {
        return Ok(());
    }
    let x: Vec<f64> = tof(&tov::<T>(&gen::dense(2 * n, 162)));
    let xt: Vec<T> = tov(&x);
    let mut o = vec![T::of(0.0); n];
    let mut s = vec![T::of(0.0); i.get_scratch_len()];
    i.process_mdct_with_scratch(&xt[..n], &xt[n..], &mut o, &mut s);
    // definition: sum over 2n windowed inputs of x cos(pi/n (i + 1/2 + n/2)(k + 1/2))
    let want: Vec<f64> = (0..n)
        .map(|k| (0..2 * n).map(|j| w[j].f() * x[j] * oracle::cos_turn(((2 * j + 1 + n) * (2 * k + 1) % (8 * n)) as u64, 8 * n as u64)).sum())
        .collect();
    compare(&o, &want, scale2(&x, &want, n) * w.iter().fold(1.0f64, |a, b| a.max(b.f().abs())), 64.0).map_err(|e| format!("{}: {}", what(), e))?;
    ctx.transitions += 1;
    ctx.traces += 1;
    Ok(())
}
fn mdct<T: Sc>(n: usize, full: bool, ctx: &mut Ctx) -> Res {
    let counts: Vec<usize> = if full && n <= 12 {
        (0..=4 * n + 2).collect()
    } else if full {
        vec![0, 1, n / 2, n - 1, n, n + 1, 2 * n - 2, 2 * n - 1, 2 * n, 2 * n + 1, 2 * n + 2, 3 * n, 4 * n]
    } else {
        vec![0, n, 2 * n - 1, 2 * n, 2 * n + 1, 4 * n]
    };
    let warm = DctPlanner::<T>::new();
    let mut p = warm;
    let dcts: Vec<Arc<dyn TransformType4<T>>> = {
        let mut v: Vec<Arc<dyn TransformType4<T>>> = vec![DctPlanner::new().plan_dct4(n)];
        if n <= 64 {
            v.push(Arc::new(Type4Naive::new(n)));
            v.push(Arc::new(MockDct::<T>::t4(n, n)));
        }
        v
    };
    // two rounds: the second one meets whatever the planner has cached
    for round in 0..2 {
        for &c in &counts {
            let ok = n % 2 == 0 && c == 2 * n;
            let w: Vec<T> = tov(&gen::dense(c, 163));
            for how in 0..2 + dcts.len() {
                if round == 1 && how != 1 {
                    continue;
                }
                if how == 0 && n > 5000 {
                    continue;
                }
                let asked = std::cell::Cell::new(usize::MAX);
                let w2 = w.clone();
                let wf = |sz: usize| {
                    asked.set(sz);
                    w2
                };
                let names = ["MdctNaive::new", "plan_mdct", "MdctViaDct4::new", "MdctViaDct4::new", "MdctViaDct4::new"];
                let what = || format!("{} of length {} with a window of {} values{}", names[how], n, c, if round == 1 { " (second time on one planner)" } else { "" });
                let r: Result<Arc<dyn Mdct<T>>, String> = match how {
                    0 => catch(|| Arc::new(MdctNaive::new(n, wf)) as Arc<dyn Mdct<T>>),
                    1 => catch(|| p.plan_mdct(n, wf)),
                    k => catch(|| Arc::new(MdctViaDct4::new(dcts[k - 2].clone(), wf)) as Arc<dyn Mdct<T>>),
                };
                judge(&r, ok, &what, ctx)?;
                if asked.get() != usize::MAX && asked.get() != 2 * n {
                    return Err(format!("{}: the window function was asked for {} values", what(), asked.get()));
                }
                if let Ok(i) = r {
                    mdct_works(&*i, n, &w, &what, ctx)?;
                } else if how == 1 && (full && n <= 16) {
                    usable(&mut p, n, &format!("after {} was refused", what()), ctx)?;
                }
            }
        }
    }
    if full && n <= 40 {
        // a window function that panics
        let r = catch(|| p.plan_mdct(n, |_| panic!("window function fails")));
        judge(&r, false, &|| format!("plan_mdct({}) with a panicking window function", n), ctx)?;
        usable(&mut p, n, &format!("after a window function panicked in plan_mdct({})", n), ctx)?;
    }
    Ok(())
}
