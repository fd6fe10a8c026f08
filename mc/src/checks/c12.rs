//! C12: a planner's answers do not depend on its history.  C13: sharing and isolation.
//! Histories are explored exhaustively: all sequences over an alphabet up to a depth, executed on the
//! real planner next to a reference model (a map from request to what a fresh planner returns).
use crate::engine::*;
use crate::gen;
use crate::inst::*;
use crate::oracle;
use crate::sc::*;
use crate::scal::{self, Cnt, Flt, Wrap};
use crate::win;
use rustdct::mdct::Mdct;
use rustdct::{DctNum, DctPlanner};
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Req {
    P(Op, usize),
    M(usize, &'static str),
    /// MDCT request whose window function returns this many values too many / few
    Short(usize, i32),
    /// MDCT request whose window function panics
    Throws(usize),
}
use Req::*;
impl Req {
    pub fn show(&self) -> String {
        match self {
            P(o, n) => format!("plan_{}({})", o.name(), n),
            M(n, w) => format!("plan_mdct({}, {})", n, w),
            Short(n, d) => format!("plan_mdct({}, window of {}{:+})", n, 2 * n, d),
            Throws(n) => format!("plan_mdct({}, panicking window)", n),
        }
    }
    /// must this request be refused?
    pub fn rejected(&self) -> bool {
        match self {
            P(Op::Dct1, 1) => true,
            P(..) => false,
            M(n, _) => n % 2 == 1,
            Short(..) | Throws(_) => true,
        }
    }
    /// what identifies the shared instance
    fn key(&self) -> Req {
        match self {
            P(o, n) => P(family(*o)[0], *n),
            r => r.clone(),
        }
    }
}
fn show(h: &[Req]) -> String {
    h.iter().map(|r| r.show()).collect::<Vec<_>>().join(", ")
}

pub enum Got<T: DctNum> {
    I(Inst<T>),
    M(Arc<dyn Mdct<T>>),
}
impl<T: DctNum> Got<T> {
    fn addr(&self) -> usize {
        match self {
            Got::I(i) => i.addr(),
            Got::M(m) => Arc::as_ptr(m) as *const u8 as usize,
        }
    }
    fn len(&self) -> usize {
        match self {
            Got::I(i) => i.len(),
            Got::M(m) => m.len(),
        }
    }
}
/// Issue a request; None when it was refused (panicked).
pub fn issue<T: Sc>(p: &mut DctPlanner<T>, r: &Req) -> Option<Got<T>> {
    match r {
        P(o, n) if r.rejected() => catch(|| plan(p, *o, *n)).ok().map(Got::I),
        P(o, n) => Some(Got::I(plan(p, *o, *n))),
        M(n, w) => {
            let v = win::values::<T>(w, 2 * n);
            if r.rejected() {
                catch(|| p.plan_mdct(*n, move |_| v)).ok().map(Got::M)
            } else {
                Some(Got::M(p.plan_mdct(*n, move |_| v)))
            }
        }
        Short(n, d) => {
            let v = vec![T::of(0.5); (2 * *n as i64 + *d as i64) as usize];
            catch(|| p.plan_mdct(*n, move |_| v)).ok().map(Got::M)
        }
        Throws(n) => catch(|| p.plan_mdct(*n, |_| panic!("window function fails"))).ok().map(Got::M),
    }
}
/// every operation the instance offers, on a dense input: the observable behaviour
fn behaviour<T: Sc>(g: &Got<T>, cheap_limit: usize, ctx: &mut Ctx) -> Vec<Vec<T>> {
    let mut out = vec![];
    match g {
        Got::I(i) => {
            let n = i.len();
            if !i.ops()[0].fast_planned() && n > cheap_limit {
                return out;
            }
            let mut s = vec![T::of(0.0); i.scratch_len()];
            for &op in i.ops() {
                let mut b: Vec<T> = tov(&gen::dense(n, 120));
                i.call(op, &mut b, &mut s);
                ctx.transitions += 1;
                out.push(b);
            }
        }
        Got::M(m) => {
            let n = m.len();
            let mut s = vec![T::of(0.0); m.get_scratch_len()];
            let x: Vec<T> = tov(&gen::dense(2 * n, 121));
            let (mut a, mut b, mut c) = (vec![T::of(0.0); n], vec![T::of(0.0); n], vec![T::of(0.0); n]);
            m.process_mdct_with_scratch(&x[..n], &x[n..], &mut a, &mut s);
            m.process_imdct_with_scratch(&x[..n], &mut b, &mut c, &mut s);
            ctx.transitions += 2;
            out.extend([a, b, c]);
        }
    }
    out
}

/// Reference model: what a fresh planner gives for one request.  First use is also checked against the definition.
struct Model<T: Sc> {
    memo: HashMap<Req, Vec<Vec<T>>>,
}
const CHEAP: usize = 3000;
impl<T: Sc> Model<T> {
    fn new() -> Self {
        Model { memo: HashMap::new() }
    }
    fn fresh(&mut self, r: &Req, ctx: &mut Ctx) -> Result<&Vec<Vec<T>>, String> {
        if !self.memo.contains_key(r) {
            let mut p = DctPlanner::<T>::new();
            let g = issue(&mut p, r).ok_or("harness: reference request refused".to_string())?;
            let b = behaviour(&g, CHEAP, ctx);
            if let (P(_, n), Got::I(i)) = (r, &g) {
                if *n <= 260 {
                    let x = tof(&tov::<T>(&gen::dense(*n, 120)));
                    for (k, &op) in i.ops().iter().enumerate() {
                        let d = oracle::def(op, *n);
                        let want = d.direct(&d.table(), &x);
                        compare(&b[k], &want, scale2(&x, &want, *n), 16.0)
                            .map_err(|e| format!("{} on a fresh planner, {}: {}", r.show(), op.name(), e))?;
                    }
                }
            }
            self.memo.insert(r.clone(), b);
        }
        Ok(&self.memo[r])
    }
    fn same(&mut self, r: &Req, g: &Got<T>, what: &str, ctx: &mut Ctx) -> Res {
        let n = match r {
            P(_, n) | M(n, _) => *n,
            _ => 0,
        };
        if g.len() != n {
            return Err(format!("{}: {} returned an instance of length {}", what, r.show(), g.len()));
        }
        let got = behaviour(g, CHEAP, ctx);
        let want = self.fresh(r, ctx)?;
        for (k, (a, b)) in got.iter().zip(want).enumerate() {
            if let Some(i) = diff_bits(a, b) {
                // rustfft's SIMD planner for f32/f64 itself picks a decomposition of some prime sizes that depends
                // on what it has cached, so there a difference of rounding size is legitimate
                if T::NAME != "wrap" {
                    let w = tof(b);
                    let sc = scale(norm(&w).max(1.0), n);
                    if let Ok(e) = compare(a, &w, sc, 1.0) {
                        ctx.add("rounding_level_differences", 1);
                        ctx.max("rounding_difference_over_eps_scale", e);
                        continue;
                    }
                }
                let op = match g {
                    Got::I(x) => x.ops()[k].name().to_string(),
                    Got::M(_) => ["mdct", "imdct (first half)", "imdct (second half)"][k].to_string(),
                };
                return Err(format!(
                    "{}: {} differs from a fresh planner's: {} output[{}] = {:e} instead of {:e}",
                    what, r.show(), op, i, a[i].f(), b[i].f()
                ));
            }
        }
        ctx.traces += 1;
        Ok(())
    }
}

// ------------------------------------------------------------------ alphabets
fn ps(op: Op, ns: &[usize]) -> Vec<Req> {
    ns.iter().map(|n| P(op, *n)).collect()
}
pub fn alphabet(name: &str) -> Vec<Req> {
    if let Some(n) = name.strip_prefix("same") {
        // one length, every entry point, two windows, a refused request
        let n: usize = n.parse().unwrap();
        let mut v: Vec<Req> = ALL_OPS.iter().filter(|o| n >= o.min_len()).map(|o| P(*o, n)).collect();
        if n % 2 == 0 {
            v.extend([M(n, "mp3"), M(n, "asym"), Short(n, 1)]);
        } else {
            v.push(M(n, "mp3"));
        }
        return v;
    }
    match name {
        "pow2" => [ps(Op::Dct2, &[1, 2, 4, 8, 16, 32, 64]), ps(Op::Dct4, &[8, 16, 32, 64]), vec![M(32, "mp3"), M(64, "asym")]].concat(),
        "pow2big" => [ps(Op::Dct3, &[32, 64, 128, 256, 512]), ps(Op::Dst4, &[64, 256, 512]), vec![M(256, "vorbis")]].concat(),
        "fft" => vec![
            P(Op::Dct1, 26), P(Op::Dst1, 24), P(Op::Dst1, 49), P(Op::Dct2, 50), P(Op::Dct2, 25), P(Op::Dct4, 25), P(Op::Dct4, 50), P(Op::Dct4, 100),
            P(Op::Dst6, 49), P(Op::Dct2, 99), P(Op::Dct4, 99), P(Op::Dct1, 51), P(Op::Dct2, 100), M(50, "asym"),
        ],
        "odd" => vec![
            P(Op::Dst6, 45), P(Op::Dst7, 45), P(Op::Dst6, 44), P(Op::Dct2, 91), P(Op::Dct2, 45), P(Op::Dct4, 91), P(Op::Dct4, 45), P(Op::Dct6, 45),
            P(Op::Dct6, 44), P(Op::Dct4, 90), P(Op::Dct1, 46), P(Op::Dst1, 44),
        ],
        "win" => [
            win::ALL[..10].iter().map(|w| M(8, w)).collect::<Vec<_>>(),
            vec![M(16, "mp3"), M(16, "asym"), M(2, "asym"), M(2, "one"), P(Op::Dct4, 8), Short(8, -1)],
        ]
        .concat(),
        "reject" => vec![
            P(Op::Dct1, 1), M(7, "one"), Short(8, 1), Short(8, -16), Throws(8), Throws(7), M(8, "asym"), M(8, "mp3"), P(Op::Dct4, 8), P(Op::Dct2, 4), P(Op::Dct4, 7),
            P(Op::Dct1, 2), Short(16, 0 - 1), M(16, "one"),
        ],
        "collide" => [
            ps(Op::Dct2, &[10, 266, 65546, 16, 272]), ps(Op::Dct4, &[10, 266, 65546]), ps(Op::Dst1, &[30, 286, 65566]), vec![P(Op::Dct5, 10), P(Op::Dct5, 266), P(Op::Dct5, 65546), M(10, "one"), M(266, "one")],
        ]
        .concat(),
        "collide2" => [
            ps(Op::Dct1, &[10, 266, 65546]), ps(Op::Dct6, &[10, 266, 65546]), ps(Op::Dct8, &[10, 266, 65546]), ps(Op::Dst5, &[10, 266, 65546]),
            ps(Op::Dst6, &[10, 266, 65546]), ps(Op::Dst8, &[10, 266, 65546]), vec![M(10, "asym"), M(266, "asym"), M(65546, "asym")],
        ]
        .concat(),
        "swap" => [
            // lengths that look alike under truncation, digit swaps or bit tricks
            ps(Op::Dct2, &[12, 21, 120, 210]), ps(Op::Dct4, &[12, 21, 120]), ps(Op::Dct1, &[12, 21]), ps(Op::Dst6, &[60, 120]), ps(Op::Dct8, &[12, 21]), ps(Op::Dst8, &[12, 21]),
        ]
        .concat(),
        _ => panic!("harness: alphabet {}", name),
    }
}
/// all requests of the given families with n <= top
fn range_alphabet(top: usize) -> Vec<Req> {
    let mut v = vec![];
    for n in 1..=top {
        for f in FAMILIES.iter() {
            if n >= f[0].min_len() {
                v.push(P(f[n % f.len()], n));
            }
        }
        if n % 2 == 0 {
            v.push(M(n, "asym"));
        }
    }
    v
}
struct Sp {
    alpha: &'static str,
    depth: usize,
    types: &'static [&'static str],
    /// number of leading letters fixed per case
    split: usize,
}
fn spaces(tier: Tier) -> Vec<Sp> {
    let t = tier == Tier::Thorough;
    let all: &[&str] = &["f64", "f32", "wrap"];
    let sp = |alpha, depth, types, split| Sp { alpha, depth, types, split };
    let d = |q, th| if t { th } else { q };
    vec![
        sp("pow2", d(4, 5), all, d(1, 2)),
        sp("pow2big", d(4, 5), all, d(1, 2)),
        sp("fft", d(4, 5), all, d(1, 2)),
        sp("odd", d(4, 5), all, d(1, 2)),
        sp("win", d(4, 5), all, d(1, 2)),
        sp("reject", d(4, 5), all, d(1, 2)),
        sp("collide", d(2, 3), all, d(1, 2)),
        sp("collide2", d(2, 3), all, d(1, 2)),
        sp("swap", d(4, 5), all, d(1, 2)),
    ]
}
const SAME_Q: [usize; 10] = [1, 2, 3, 4, 6, 9, 16, 25, 45, 64];
pub fn sequences(alpha: &[Req], prefix: &[usize], depth: usize, f: &mut dyn FnMut(&[Req]) -> Res) -> Res {
    fn go(alpha: &[Req], h: &mut Vec<Req>, depth: usize, f: &mut dyn FnMut(&[Req]) -> Res) -> Res {
        f(h)?;
        if h.len() < depth {
            for a in alpha {
                h.push(a.clone());
                go(alpha, h, depth, f)?;
                h.pop();
            }
        }
        Ok(())
    }
    let mut h: Vec<Req> = prefix.iter().map(|i| alpha[*i].clone()).collect();
    go(alpha, &mut h, depth, f)
}
fn common_cases(tier: Tier) -> Vec<String> {
    let mut v = vec![];
    for s in spaces(tier) {
        let k = alphabet(s.alpha).len();
        for ty in s.types {
            for i in 0..k {
                if s.split == 1 {
                    v.push(format!("seq/{}/{}/{}/{}", s.alpha, ty, s.depth, i));
                } else {
                    for j in 0..k {
                        v.push(format!("seq/{}/{}/{}/{},{}", s.alpha, ty, s.depth, i, j));
                    }
                }
            }
        }
    }
    let same: Vec<usize> = if tier == Tier::Thorough { (1..=72).chain([90, 91, 100, 127, 128, 129]).collect() } else { SAME_Q.to_vec() };
    for n in same {
        let a = alphabet(&format!("same{}", n)).len();
        for ty in ["f64", "f32"] {
            for i in 0..a {
                v.push(format!("seq/same{}/{}/3/{}", n, ty, i));
            }
        }
    }
    v
}

pub struct C12;
impl Check for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn cases(&self, tier: Tier, _p: Profile) -> Vec<String> {
        let t = tier == Tier::Thorough;
        let mut v = vec![];
        let top = if t { 130 } else { 64 };
        for i in 0..range_alphabet(top).len() {
            for ty in ["f64", "f32", "wrap"] {
                v.push(format!("pairs/{}/{}/{}", ty, top, i));
            }
        }
        v.extend(common_cases(tier));
        for order in ["asc", "desc", "mix"] {
            for ty in ["f64", "f32", "wrap"] {
                for part in 0..11 {
                    v.push(format!("sweep/{}/{}/{}/{}", order, ty, if t { 1100 } else { 400 }, part));
                }
            }
        }
        for n in (2..=if t { 64 } else { 32 }).step_by(2) {
            for ty in ["f64", "f32", "wrap"] {
                for base in ["asym", "mp3", "one", "asymends"] {
                    v.push(format!("near/{}/{}/{}", ty, base, n));
                }
            }
        }
        for n in (1..=if t { 72 } else { 34 }).chain([45, 49, 50, 64]) {
            for f in FAMILIES.iter().filter(|f| n >= f[0].min_len()) {
                v.push(format!("abort/{}/{}", f[0].name(), n));
            }
            if n % 2 == 0 {
                v.push(format!("abort/mdct/{}", n));
            }
        }
        for i in 0..FLOOD.len() {
            for ty in ["f64", "f32", "wrap"] {
                v.push(format!("flood/{}/{}/{}", ty, i, if t { 70000 } else { 3000 }));
            }
        }
        let k = alphabet("win").len();
        for i in 0..k {
            v.push(format!("two/win/{}/3", i));
        }
        for a in ["fft", "pow2", "reject"] {
            for i in 0..alphabet(a).len() {
                v.push(format!("two/{}/{}/{}", a, i, if t { 3 } else { 2 }));
            }
        }
        v
    }
    fn run(&self, case: &str, ctx: &mut Ctx) -> Res {
        let p: Vec<&str> = case.split('/').collect();
        match p[0] {
            "pairs" => match p[1] {
                "f64" => pairs::<f64>(p[2].parse().unwrap(), p[3].parse().unwrap(), ctx),
                "wrap" => pairs::<Wrap>(p[2].parse().unwrap(), p[3].parse().unwrap(), ctx),
                _ => pairs::<f32>(p[2].parse().unwrap(), p[3].parse().unwrap(), ctx),
            },
            "seq" => {
                let pre: Vec<usize> = p[4].split(',').map(|s| s.parse().unwrap()).collect();
                let d = p[3].parse().unwrap();
                match p[2] {
                    "f64" => history_results::<f64>(p[1], d, &pre, ctx),
                    "f32" => history_results::<f32>(p[1], d, &pre, ctx),
                    _ => history_results::<Wrap>(p[1], d, &pre, ctx),
                }
            }
            "sweep" => {
                let (top, part) = (p[3].parse().unwrap(), p[4].parse().unwrap());
                match p[2] {
                    "f64" => sweep::<f64>(p[1], top, part, ctx),
                    "f32" => sweep::<f32>(p[1], top, part, ctx),
                    _ => sweep::<Wrap>(p[1], top, part, ctx),
                }
            }
            "near" => {
                let n = p[3].parse().unwrap();
                match p[1] {
                    "f64" => near_windows::<f64>(p[2], n, ctx),
                    "f32" => near_windows::<f32>(p[2], n, ctx),
                    _ => near_windows::<Wrap>(p[2], n, ctx),
                }
            }
            "flood" => {
                let (i, k) = (p[2].parse().unwrap(), p[3].parse().unwrap());
                match p[1] {
                    "f64" => flood::<f64>(i, k, ctx),
                    "f32" => flood::<f32>(i, k, ctx),
                    _ => flood::<Wrap>(i, k, ctx),
                }
            }
            "abort" => aborted(p[1], p[2].parse().unwrap(), ctx),
            "two" => two_planners(p[1], p[2].parse().unwrap(), p[3].parse().unwrap(), ctx),
            _ => panic!("harness: case"),
        }
    }
    fn bounds(&self, tier: Tier) -> String {
        let t = tier == Tier::Thorough;
        format!("every ordered pair of requests over all families and MDCT with n<={}; all sequences up to depth {} over 9 alphabets built to collide (power-of-two chains, shared FFT sizes, windows, refused requests, lengths alike modulo 256 and 65536, digit swaps) and, for {} lengths, over all entry points of that length (depth 3); one planner asked for every length to {} in three orders; every planning request at n<={} aborted by a panic of the element type at every step, then 10 or more related requests on that planner; windows one edit away from one already planned, every even n<={}; up to {} refused (or repeated) requests before valid ones; two planners of the same and of different element types interleaved", if t {130} else {64}, if t {"5"} else {"4"}, if t {78} else {10}, if t {1100} else {400}, if t {72} else {34}, if t {64} else {32}, if t {70000} else {3000})
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["an instance's behaviour is observed through every operation on one dense input; rounding makes different plans distinguishable only if their bits differ".into()]
    }
}
fn refuse_ok<T: DctNum>(h: &[Req], g: &Option<Got<T>>) -> Res {
    let r = h.last().unwrap();
    if r.rejected() && g.is_some() {
        return Err(format!("history [{}]: the last request must be refused but was accepted", show(h)));
    }
    Ok(())
}
fn history_results<T: Sc>(alpha: &str, depth: usize, pre: &[usize], ctx: &mut Ctx) -> Res {
    let a = alphabet(alpha);
    let mut model = Model::<T>::new();
    sequences(&a, pre, depth, &mut |h| {
        let mut p = DctPlanner::<T>::new();
        let mut last = None;
        for (i, r) in h.iter().enumerate() {
            last = issue(&mut p, r);
            refuse_ok(&h[..=i], &last)?;
        }
        ctx.transitions += h.len() as u64;
        ctx.states += 1;
        if let Some(g) = last {
            model.same(h.last().unwrap(), &g, &format!("after [{}]", show(&h[..h.len() - 1])), ctx)?;
        }
        Ok(())
    })
}
fn pairs<T: Sc>(top: usize, first: usize, ctx: &mut Ctx) -> Res {
    let a = range_alphabet(top);
    let mut model = Model::<T>::new();
    for r in &a {
        let mut p = DctPlanner::<T>::new();
        let _g0 = issue(&mut p, &a[first]);
        let g = issue(&mut p, r).ok_or(format!("{} refused after {}", r.show(), a[first].show()))?;
        ctx.transitions += 2;
        ctx.states += 1;
        model.same(r, &g, &format!("after [{}]", a[first].show()), ctx)?;
    }
    Ok(())
}
fn sweep<T: Sc>(order: &str, top: usize, part: usize, ctx: &mut Ctx) -> Res {
    let mut ns: Vec<usize> = (1..=top).collect();
    match order {
        "desc" => ns.reverse(),
        "mix" => ns.sort_by_key(|n| gen::mix(*n as u64)),
        _ => {}
    }
    let mut model = Model::<T>::new();
    let mut p = DctPlanner::<T>::new();
    let mut k = 0;
    for n in ns {
        let mut reqs: Vec<Req> = FAMILIES.iter().filter(|f| n >= f[0].min_len()).map(|f| P(f[0], n)).collect();
        if n % 2 == 0 {
            reqs.push(M(n, "asym"));
        }
        for r in reqs {
            let g = issue(&mut p, &r).ok_or(format!("{} refused", r.show()))?;
            ctx.transitions += 1;
            k += 1;
            if k % 11 == part {
                ctx.states += 1;
                model.same(&r, &g, &format!("one planner asked for every length 1..={} ({})", top, order), ctx)?;
                model.memo.clear();
            }
        }
    }
    Ok(())
}
/// On one planner, windows that differ little from one already planned; each answer against a fresh planner.
/// Both orders: base first and then every neighbour, and every neighbour right after a planner saw only the base.
fn near_windows<T: Sc>(base: &str, n: usize, ctx: &mut Ctx) -> Res {
    let base = tof(&win::values::<T>(base, 2 * n));
    let mut long = DctPlanner::<T>::new();
    for (name, w) in win::neighbours(&base) {
        let wt: Vec<T> = tov(&w);
        let bt: Vec<T> = tov(&base);
        let want = behaviour(&Got::M(DctPlanner::<T>::new().plan_mdct(n, |_| wt.clone())), CHEAP, ctx);
        let mut short = DctPlanner::<T>::new();
        short.plan_mdct(n, |_| bt.clone());
        let mut other = DctPlanner::<T>::new();
        other.plan_mdct(n, |_| wt.clone());
        other.plan_mdct(n, |_| bt.clone());
        for (h, g) in [
            ("all the windows before it", long.plan_mdct(n, |_| wt.clone())),
            ("the base window", short.plan_mdct(n, |_| wt.clone())),
            ("the same window and then the base", other.plan_mdct(n, |_| wt.clone())),
        ] {
            let got = behaviour(&Got::M(g), CHEAP, ctx);
            ctx.states += 1;
            ctx.traces += 1;
            for (k, (a, b)) in got.iter().zip(&want).enumerate() {
                let bad = if T::NAME == "wrap" {
                    diff_bits(a, b).is_some()
                } else {
                    let f = tof(b);
                    compare(a, &f, scale(norm(&f).max(1.0), n), 1.0).is_err()
                };
                if bad {
                    return Err(format!(
                        "plan_mdct({}) with a window ({}) close to others, on a planner that has seen {}: {} differs from a fresh planner's",
                        n,
                        name,
                        h,
                        ["mdct", "imdct (first half)", "imdct (second half)"][k]
                    ));
                }
            }
        }
    }
    Ok(())
}
/// A planning request aborted at every possible point by a panic of the element type, then requests for the same,
/// contained and containing lengths on that planner.
const FLOOD: [&[Req]; 10] = [
    &[P(Op::Dct1, 1)],
    &[M(3, "mp3")],
    &[M(1, "asym")],
    &[Short(8, -1)],
    &[Short(8, 1)],
    &[Throws(8)],
    &[Throws(2)],
    &[P(Op::Dct1, 1), M(9, "mp3"), Short(8, -1), Throws(8), Short(6, 3), M(7, "one"), Throws(64)],
    // requests that succeed, again and again
    &[P(Op::Dct2, 12), P(Op::Dct4, 7), M(8, "asym")],
    &[M(8, "asym"), M(8, "mp3"), M(8, "asymends"), Throws(8)],
];
/// One planner that refused (or served) the same requests a great many times still plans what a fresh one plans.
fn flood<T: Sc>(which: usize, count: usize, ctx: &mut Ctx) -> Res {
    let mut p = DctPlanner::<T>::new();
    let mut model = Model::<T>::new();
    let mut done = 0;
    let what = show(FLOOD[which]);
    for (k, stop) in [1, 2, 17, 130, 300, 1100, count].into_iter().enumerate() {
        while done < stop {
            for r in FLOOD[which] {
                let g = issue(&mut p, r);
                if g.is_some() == r.rejected() {
                    return Err(format!("{} was {} after {} rounds of [{}]", r.show(), if r.rejected() { "accepted" } else { "refused" }, done, what));
                }
                ctx.transitions += 1;
            }
            done += 1;
        }
        let mut after: Vec<Req> = FAMILIES.iter().flat_map(|f| [P(f[0], 8), P(f[0], 9), P(f[0], done % 50 + 20), P(f[0], 81 + k)]).collect();
        // lengths and windows not asked for so far, and old ones
        after.extend([M(2 * (done % 50 + 20), "asym"), M(90 + 2 * k, "mp3"), M(8, win::ALL[k]), M(8, "asym"), M(8, "mp3"), M(6, "asym"), M(2, "one"), M(64, "mp3")]);
        for q in &after {
            let g = match catch(|| issue(&mut p, q)) {
                Ok(Some(g)) => g,
                _ => return Err(format!("{} refused after {} rounds of [{}]", q.show(), done, what)),
            };
            ctx.transitions += 1;
            ctx.states += 1;
            model.same(q, &g, &format!("after {} rounds of [{}]", done, what), ctx)?;
        }
    }
    Ok(())
}
fn aborted(what: &str, n: usize, ctx: &mut Ctx) -> Res {
    let r = if what == "mdct" { M(n, "asym") } else { P(Op::parse(what), n) };
    let mut after: Vec<Req> = vec![r.clone(), P(Op::Dct2, n), P(Op::Dct4, n), P(Op::Dst6, n), P(Op::Dct1, n + 1), P(Op::Dct2, 2 * n), P(Op::Dct4, 2 * n), P(Op::Dst1, n), P(Op::Dct8, n), M(2 * n, "asym")];
    if n % 2 == 0 {
        after.extend([P(Op::Dct2, n / 2), M(n, "mp3"), M(n, "asym")]);
    }
    if n % 4 == 0 {
        after.push(P(Op::Dct2, n / 4));
    }
    let mut model = Model::<Flt>::new();
    let (_, k) = scal::steps(|| issue(&mut DctPlanner::<Flt>::new(), &r));
    for at in 0..k {
        let mut p = DctPlanner::<Flt>::new();
        if !scal::faulty(at, || drop(issue(&mut p, &r))) {
            break;
        }
        // the same request first, or last
        let mut order = after.clone();
        if at % 2 == 1 {
            order.rotate_left(1);
        }
        for q in &order {
            let g = match catch(|| issue(&mut p, q)) {
                Ok(Some(g)) => g,
                _ => return Err(format!("{} refused after {} was aborted by a panic of the element type at step {}", q.show(), r.show(), at)),
            };
            ctx.transitions += 1;
            ctx.states += 1;
            model.same(q, &g, &format!("after {} was aborted by a panic of the element type at step {} of {}", r.show(), at, k), ctx)?;
        }
    }
    Ok(())
}
fn two_planners(alpha: &str, first: usize, depth: usize, ctx: &mut Ctx) -> Res {
    // letters: (planner 0..3, request); planners 0 and 1 are f64, 2 is f32
    let a = alphabet(alpha);
    let mut m64 = Model::<f64>::new();
    let mut m32 = Model::<f32>::new();
    sequences(&a, &[first], depth, &mut |h| {
        if h.len() < 2 {
            return Ok(());
        }
        // all assignments of requests to planners with the last on planner 0 or 2
        for code in 0..3usize.pow(h.len() as u32 - 1) {
            for lastp in [0usize, 2] {
                let mut c = code;
                let who: Vec<usize> = (0..h.len() - 1).map(|_| { let w = c % 3; c /= 3; w }).chain([lastp]).collect();
                let (mut p0, mut p1, mut p2) = (DctPlanner::<f64>::new(), DctPlanner::<f64>::new(), DctPlanner::<f32>::new());
                let what = || format!("planners {:?} after [{}]", who, show(&h[..h.len() - 1]));
                let n = h.len();
                let mut keep64 = vec![];
                let mut keep32 = vec![];
                for (i, r) in h.iter().enumerate() {
                    match who[i] {
                        0 => keep64.push((issue(&mut p0, r), i)),
                        1 => keep64.push((issue(&mut p1, r), i)),
                        _ => keep32.push((issue(&mut p2, r), i)),
                    }
                }
                ctx.states += 1;
                ctx.transitions += n as u64;
                for (g, i) in &keep64 {
                    if let (Some(g), true) = (g, *i == n - 1) {
                        m64.same(&h[*i], g, &what(), ctx)?;
                    }
                }
                for (g, i) in &keep32 {
                    if let (Some(g), true) = (g, *i == n - 1) {
                        m32.same(&h[*i], g, &what(), ctx)?;
                    }
                }
            }
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ C13
pub struct C13;
impl Check for C13 {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn cases(&self, tier: Tier, _p: Profile) -> Vec<String> {
        let t = tier == Tier::Thorough;
        let mut v = vec![];
        let top = if t { 2100 } else { 530 };
        for n in 1..=top {
            v.push(format!("work/{}", n));
        }
        for n in gen::boundary_lengths(top, if t { 20000 } else { 9000 }) {
            v.push(format!("work/{}", n));
        }
        v.extend(common_cases(tier));
        for order in ["asc", "desc", "mix"] {
            for ty in ["f64", "f32", "wrap"] {
                v.push(format!("many/{}/{}/{}", order, ty, if t { 3000 } else { 2000 }));
            }
        }
        for ty in ["f64", "f32", "wrap"] {
            for n in [2, 8, 50] {
                v.push(format!("windows/{}/{}/{}", ty, n, if t { 3000 } else { 600 }));
            }
        }
        for a in ["pow2", "fft", "win", "odd", "swap", "same8", "same9", "same45"] {
            for i in 0..alphabet(a).len() {
                v.push(format!("drop/{}/{}", a, i));
            }
        }
        for a in ["pow2", "fft", "win", "reject", "same12", "same45"] {
            for i in 0..alphabet(a).len() {
                v.push(format!("iso/{}/{}/{}", a, i, if t && a != "same45" && a != "same12" { 4 } else { 3 }));
            }
        }
        v
    }
    fn run(&self, case: &str, ctx: &mut Ctx) -> Res {
        let p: Vec<&str> = case.split('/').collect();
        match p[0] {
            "seq" => {
                let pre: Vec<usize> = p[4].split(',').map(|s| s.parse().unwrap()).collect();
                let d = p[3].parse().unwrap();
                match p[2] {
                    "f64" => sharing::<f64>(p[1], d, &pre, ctx),
                    "f32" => sharing::<f32>(p[1], d, &pre, ctx),
                    _ => sharing::<Wrap>(p[1], d, &pre, ctx),
                }
            }
            "work" => setup_work(p[1].parse().unwrap(), ctx),
            "many" => {
                let top = p[3].parse().unwrap();
                match p[2] {
                    "f64" => many::<f64>(p[1], top, ctx),
                    "f32" => many::<f32>(p[1], top, ctx),
                    _ => many::<Wrap>(p[1], top, ctx),
                }
            }
            "windows" => {
                let (n, k) = (p[2].parse().unwrap(), p[3].parse().unwrap());
                match p[1] {
                    "f64" => many_windows::<f64>(n, k, ctx),
                    "f32" => many_windows::<f32>(n, k, ctx),
                    _ => many_windows::<Wrap>(n, k, ctx),
                }
            }
            "drop" => drops(p[1], p[2].parse().unwrap(), ctx),
            "iso" => isolation(p[1], p[2].parse().unwrap(), p[3].parse().unwrap(), ctx),
            _ => panic!("harness: case"),
        }
    }
    fn bounds(&self, tier: Tier) -> String {
        let t = tier == Tier::Thorough;
        format!("pointer identity of every pair of instances along all request sequences of C12's alphabets; two planners with every split of those sequences (depth {}); every drop order of planner and up to three instances; setup work (conversions of constants from f64) for repeats and for sub-plan and shared-FFT chains at every n<={}", if t {4} else {3}, if t {2100} else {530})
    }
}
/// One long-lived planner asked for every length of every family, through every entry point, twice over.
fn many<T: Sc>(order: &str, top: usize, ctx: &mut Ctx) -> Res {
    let mut ns: Vec<usize> = (1..=top).collect();
    match order {
        "desc" => ns.reverse(),
        "mix" => ns.sort_by_key(|n| gen::mix(*n as u64)),
        _ => {}
    }
    let mut p = DctPlanner::<T>::new();
    let mut seen: HashMap<Req, usize> = HashMap::new();
    let mut owner: HashMap<usize, Req> = HashMap::new();
    let mut keep = vec![];
    for round in 0..2 {
        for &n in &ns {
            let mut reqs: Vec<Req> = ALL_OPS.iter().filter(|o| n >= o.min_len()).map(|o| P(*o, n)).collect();
            if n % 2 == 0 {
                reqs.extend([M(n, "asym"), M(n, "mp3")]);
            }
            for r in reqs {
                let g = issue(&mut p, &r).ok_or(format!("{} refused", r.show()))?;
                ctx.transitions += 1;
                if g.len() != n {
                    return Err(format!("one planner asked for every length 1..={} ({}): {} returned an instance of length {}", top, order, r.show(), g.len()));
                }
                let a = g.addr();
                match seen.get(&r.key()) {
                    Some(b) if *b != a => {
                        return Err(format!("one planner asked for every length 1..={} ({}), round {}: {} returned another instance than an equal earlier request", top, order, round + 1, r.show()))
                    }
                    Some(_) => {}
                    None => {
                        if let Some(q) = owner.insert(a, r.clone()) {
                            return Err(format!("one planner asked for every length 1..={} ({}): {} returned the instance of {}", top, order, r.show(), q.show()));
                        }
                        seen.insert(r.key(), a);
                        ctx.states += 1;
                        keep.push(g);
                    }
                }
            }
        }
    }
    ctx.traces += 1;
    Ok(())
}
/// Many different windows of one length on one planner: each its own instance, each found again.
fn many_windows<T: Sc>(n: usize, count: usize, ctx: &mut Ctx) -> Res {
    let mut p = DctPlanner::<T>::new();
    let base = win::formula("asym", 2 * n);
    let window = |k: usize| -> Vec<T> { base.iter().enumerate().map(|(i, b)| T::of(b + if i == k % (2 * n) { (k / (2 * n) + 1) as f64 * 0.0625 } else { 0.0 })).collect() };
    let mut owner: HashMap<usize, usize> = HashMap::new();
    let mut first = vec![];
    let mut keep = vec![];
    for k in 0..count {
        let w = window(k);
        let g = p.plan_mdct(n, move |_| w);
        let a = Arc::as_ptr(&g) as *const u8 as usize;
        if let Some(j) = owner.insert(a, k) {
            return Err(format!("plan_mdct({}): window {} of {} different ones returned the instance of window {}", n, k, count, j));
        }
        first.push(a);
        keep.push(g);
        ctx.transitions += 1;
        ctx.states += 1;
    }
    for k in (0..count).rev() {
        let w = window(k);
        let g = p.plan_mdct(n, move |_| w);
        if Arc::as_ptr(&g) as *const u8 as usize != first[k] {
            return Err(format!("plan_mdct({}): window {} of {} different ones, requested again, returned another instance", n, k, count));
        }
        ctx.transitions += 1;
    }
    ctx.traces += 1;
    Ok(())
}
/// identities along one history on one planner
fn identities<T: Sc>(h: &[Req], ctx: &mut Ctx) -> Res {
    let mut p = DctPlanner::<T>::new();
    let mut seen: HashMap<Req, usize> = HashMap::new();
    let mut keep = vec![];
    for (i, r) in h.iter().enumerate() {
        let g = issue(&mut p, r);
        refuse_ok(&h[..=i], &g)?;
        ctx.transitions += 1;
        let g = match g {
            Some(g) => g,
            None => continue,
        };
        let a = g.addr();
        match seen.get(&r.key()) {
            Some(b) if *b != a => return Err(format!("history [{}]: {} returned another instance than an equal earlier request", show(&h[..=i]), r.show())),
            Some(_) => {}
            None => {
                if let Some((k, _)) = seen.iter().find(|(_, b)| **b == a) {
                    return Err(format!("history [{}]: {} returned the instance of {}", show(&h[..=i]), r.show(), k.show()));
                }
                seen.insert(r.key(), a);
            }
        }
        keep.push(g);
    }
    ctx.states += 1;
    ctx.traces += 1;
    Ok(())
}
fn sharing<T: Sc>(alpha: &str, depth: usize, pre: &[usize], ctx: &mut Ctx) -> Res {
    let a = alphabet(alpha);
    sequences(&a, pre, depth, &mut |h| {
        if h.len() < depth {
            return Ok(()); // prefixes are checked as part of the longer ones
        }
        identities::<T>(h, ctx)
    })
}
fn isolation(alpha: &str, first: usize, depth: usize, ctx: &mut Ctx) -> Res {
    let a = alphabet(alpha);
    let mut model = Model::<f64>::new();
    sequences(&a, &[first], depth, &mut |h| {
        if h.len() < depth {
            return Ok(());
        }
        for code in 0..1usize << (h.len() - 1) {
            let mut ps = [DctPlanner::<f64>::new(), DctPlanner::<f64>::new()];
            let mut keep: Vec<(usize, Req, Got<f64>)> = vec![];
            for (i, r) in h.iter().enumerate() {
                let w = (code >> i) & 1;
                if let Some(g) = issue(&mut ps[w], r) {
                    if let Some((_, q, _)) = keep.iter().find(|(v, _, x)| *v != w && x.addr() == g.addr()) {
                        return Err(format!("two planners shared an instance: {} on one and {} on the other (history [{}], split {:b})", q.show(), r.show(), show(h), code));
                    }
                    keep.push((w, r.clone(), g));
                }
            }
            ctx.states += 1;
            ctx.transitions += h.len() as u64;
            // the first planner goes; what it returned must still work, and the second must be unaffected
            let [p0, mut p1] = ps;
            drop(p0);
            let (_, r, g) = match keep.last() {
                Some(k) => k,
                None => continue,
            };
            model.same(r, g, &format!("after dropping a planner (history [{}], split {:b})", show(h), code), ctx)?;
            if let Some(g) = issue(&mut p1, &h[0]) {
                model.same(&h[0], &g, "other planner after the first was dropped", ctx)?;
            }
        }
        Ok(())
    })
}
fn drops(alpha: &str, first: usize, ctx: &mut Ctx) -> Res {
    let a = alphabet(alpha);
    let mut model = Model::<f64>::new();
    let orders = permutations(4);
    sequences(&a, &[first], 3, &mut |h| {
        if h.len() < 3 {
            return Ok(());
        }
        for order in &orders {
            let mut p = Some(DctPlanner::<f64>::new());
            let mut g: Vec<Option<Got<f64>>> = h.iter().map(|r| issue(p.as_mut().unwrap(), r)).collect();
            for (step, w) in order.iter().enumerate() {
                if *w == 3 {
                    p = None;
                } else {
                    g[*w] = None;
                }
                // use the survivor that goes next (each survivor is used last in some order), and the planner
                if let Some(nx) = order.get(step + 1) {
                    if *nx < 3 {
                        if let Some(x) = &g[*nx] {
                            model.same(&h[*nx], x, &format!("history [{}], after dropping {:?} (3 is the planner)", show(h), &order[..=step]), ctx)?;
                        }
                    }
                }
                if let (Some(pl), 2) = (p.as_mut(), step) {
                    // everything it handed out is gone; asking again must still work
                    if let Some(x) = issue(pl, &h[0]) {
                        model.same(&h[0], &x, "planner asked again after its instances were dropped", ctx)?;
                    }
                }
            }
            ctx.states += 1;
            ctx.transitions += 7;
        }
        Ok(())
    })
}
fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in 0..=p.len() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}
/// setup work of a history on one planner, per step
fn work(h: &[Req]) -> Vec<u64> {
    let mut p = DctPlanner::<Cnt>::new();
    let mut keep = vec![];
    let mut out = vec![];
    for r in h {
        let o = scal::lifts();
        let g = match r {
            P(op, n) => Got::I(plan(&mut p, *op, *n)),
            M(n, _) => {
                let v: Vec<Cnt> = win::formula("asym", 2 * n).into_iter().map(Cnt).collect();
                Got::M(p.plan_mdct(*n, move |_| v))
            }
            _ => panic!("harness: work"),
        };
        out.push(scal::lifts() - o);
        keep.push(g);
    }
    out
}
/// what counts as "no setup work": a handful of constants
const SLACK: u64 = 12;
fn setup_work(n: usize, ctx: &mut Ctx) -> Res {
    let mut reqs: Vec<Req> = ALL_OPS.iter().filter(|o| n >= o.min_len()).map(|o| P(*o, n)).collect();
    if n % 2 == 0 {
        reqs.push(M(n, "asym"));
    }
    // a repeat of any same-family request does nothing
    for r in &reqs {
        for q in &reqs {
            if r.key() == q.key() {
                let w = work(&[r.clone(), q.clone()]);
                ctx.transitions += 2;
                ctx.states += 1;
                ctx.traces += 1;
                if w[1] > SLACK {
                    return Err(format!("{} after {} on the same planner repeated setup work: {} constants computed", q.show(), r.show(), w[1]));
                }
            }
        }
    }
    // asking for a part first must not make the total any larger
    let mut chains: Vec<(Req, Req)> = vec![];
    if n.is_power_of_two() && n >= 8 {
        for b in [Op::Dct2, Op::Dst3] {
            chains.push((P(Op::Dct2, n / 2), P(b, n)));
            chains.push((P(Op::Dct3, n / 4), P(b, n)));
            if n >= 32 {
                chains.push((P(Op::Dst2, n / 8), P(b, n)));
            }
        }
    }
    if n % 2 == 0 && n >= 6 {
        for b in [Op::Dct4, Op::Dst4] {
            chains.push((P(Op::Dct3, n / 2), P(b, n)));
            chains.push((P(Op::Dst2, n / 2), P(b, n)));
        }
        chains.push((P(Op::Dct2, n / 2), M(n, "asym")));
    }
    if n % 2 == 0 {
        chains.push((P(Op::Dct4, n), M(n, "asym")));
        chains.push((P(Op::Dst4, n), M(n, "asym")));
        chains.push((M(n, "asym"), P(Op::Dct4, n)));
    }
    // a planner that holds many other instances reuses the parts all the same
    let mut crowd: Vec<Req> = vec![];
    for k in 0..24usize {
        for r in [P(Op::Dct4, 20 + 16 * k), P(Op::Dct2, 21 + 4 * k), P(Op::Dct1, 11 + k), P(Op::Dst1, 30 + k), P(Op::Dst6, 50 + k), P(Op::Dct6, 3 + k), P(Op::Dct5, 2 + k), P(Op::Dst8, 2 + k), M(12 + 2 * k, "one")] {
            crowd.push(r);
        }
    }
    if n <= 64 || n % 16 == 0 || n >= 530 {
        let mut cc: Vec<(Req, Req)> = chains.clone();
        cc.extend(reqs.iter().flat_map(|r| reqs.iter().filter(|q| q.key() == r.key()).map(|q| (r.clone(), q.clone())).take(2)));
        for size in [4usize, 20, 216] {
            for (a, b) in &cc {
                let lone = work(&[a.clone(), b.clone()])[1];
                let mut h: Vec<Req> = crowd[crowd.len() - size..].to_vec();
                h.extend([a.clone(), b.clone()]);
                let w = work(&h);
                ctx.transitions += h.len() as u64;
                ctx.states += 1;
                ctx.traces += 1;
                if w[h.len() - 1] > lone + SLACK {
                    return Err(format!("{} after {} computes {} constants on a planner that already served {} other requests, {} on one that did not", b.show(), a.show(), w[h.len() - 1], size, lone));
                }
            }
        }
    }
    for (a, b) in chains {
        let alone: u64 = work(&[b.clone()])[0];
        let both: u64 = work(&[a.clone(), b.clone()]).iter().sum();
        let first = work(&[a.clone()])[0];
        ctx.transitions += 4;
        ctx.states += 1;
        ctx.traces += 1;
        if both > alone.max(first) + SLACK {
            return Err(format!("[{}, {}] computes {} constants, but {} alone already {}: the planned part is not reused", a.show(), b.show(), both, b.show(), alone));
        }
    }
    // FFTs of equal size are shared between kinds
    let mut ffts: Vec<Req> = vec![];
    if n % 2 == 0 && n / 2 + 1 >= 10 {
        ffts.push(P(Op::Dct1, n / 2 + 1));
    }
    if n % 2 == 0 && n / 2 >= 26 {
        ffts.push(P(Op::Dst1, n / 2 - 1));
    }
    if !n.is_power_of_two() && n > 3 {
        ffts.push(P(Op::Dct2, n));
    }
    if n % 2 == 1 && n >= 91 {
        ffts.push(P(Op::Dst6, (n - 1) / 2));
    }
    if n % 2 == 1 && n >= 7 {
        ffts.push(P(Op::Dct4, n));
    }
    if n > 16 {
        let o = scal::lifts();
        let _f = fft::<Cnt>(n);
        let own = scal::lifts() - o;
        for a in &ffts {
            for b in &ffts {
                if a != b && own >= 4 {
                    let sum = work(&[a.clone()])[0] + work(&[b.clone()])[0];
                    let both: u64 = work(&[a.clone(), b.clone()]).iter().sum();
                    ctx.transitions += 4;
                    ctx.states += 1;
                    ctx.traces += 1;
                    if both + own / 2 > sum {
                        return Err(format!("[{}, {}] computes {} constants, no fewer than apart ({}): the FFT of size {} ({} constants) is not shared", a.show(), b.show(), both, sum, n, own));
                    }
                }
            }
        }
    }
    Ok(())
}
