//! C09: scratch contents and size never matter.  C22: no memory between calls.
use crate::by_type;
use crate::engine::*;
use crate::gen;
use crate::inst::*;
use crate::sc::*;
use crate::scal::{self, Flt};
use crate::win;

pub struct C09;
pub struct C22;

impl Check for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn cases(&self, tier: Tier, _p: Profile) -> Vec<String> {
        let (all, bound) = if tier == Tier::Quick { (520, 9000) } else { (2100, 140000) };
        let mut v = vec![];
        for n in 1..=all {
            for ty in ["f64", "f32"] {
                for id in inst_ids(n) {
                    if n > 130 && (id.contains("naive") || n > 300 && !id.starts_with("planned")) {
                        continue;
                    }
                    v.push(format!("i/{}/{}/{}", ty, n, id));
                }
                if n % 2 == 0 {
                    for id in mdct_ids(n) {
                        if n > 130 && id != "planned" {
                            continue;
                        }
                        v.push(format!("m/{}/{}/{}", ty, n, id));
                    }
                }
            }
        }
        for n in gen::boundary_lengths(all, bound) {
            for ty in ["f64", "f32"] {
                for f in FAMILIES {
                    if f[0].fast_planned() {
                        v.push(format!("i/{}/{}/planned:{}", ty, n, f[0].name()));
                    }
                }
                if n % 2 == 0 {
                    v.push(format!("m/{}/{}/planned", ty, n));
                }
            }
        }
        v
    }
    fn run(&self, case: &str, ctx: &mut Ctx) -> Res {
        let p: Vec<&str> = case.split('/').collect();
        let n: usize = p[2].parse().unwrap();
        if p[0] == "i" {
            by_type!(p[1], scratchy(p[3], n, ctx))
        } else {
            by_type!(p[1], scratchy_mdct(p[3], n, ctx))
        }
    }
    fn bounds(&self, tier: Tier) -> String {
        let (a, b) = if tier == Tier::Quick { (520, 9000) } else { (2100, 140000) };
        format!("every planned and directly built instance at every n<={} (fast planned to {} at boundary lengths) x op x scratch fill {{0, NaN, inf, -inf, dense, 1e30, subnormal, leftovers of every other op}} x oversize {{0,1,2,n+3}} x slice offset {{0,1}}, every offset of buffer and scratch from a 64-byte boundary and buffer next to scratch for n<=70, compared bitwise with the zero-filled exact call and the convenience call; tail sentinels", a, b)
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["reads of surplus scratch are detected through their effect on the result (the surplus holds NaN in one run and finite values in another)".into()]
    }
}
fn fill<T: Sc>(k: usize, m: usize) -> Vec<T> {
    match k {
        0 => vec![T::of(0.0); m],
        1 => vec![T::NANV; m],
        2 => vec![T::of(f64::INFINITY); m],
        3 => tov(&gen::dense(m, 90)),
        4 => vec![T::of(1e30); m],
        5 => (0..m).map(|i| T::of(if i % 2 == 0 { f64::NEG_INFINITY } else { -0.0 })).collect(),
        _ => vec![T::of(1e-40); m],
    }
}
const NF: usize = 7;
fn scratchy<T: Sc>(id: &str, n: usize, ctx: &mut Ctx) -> Res {
    let inst = make::<T>(id, n);
    let sl = inst.scratch_len();
    let small = n <= 130;
    let mut left = vec![T::of(0.0); sl]; // leftovers, never cleaned
    if n <= 70 || n % 16 == 0 && n <= 130 {
        placed(inst.ops(), n, sl, &format!("({}) at n={}", id, n), &|op, b, s| inst.call(op, b, s), ctx)?;
    }
    for &op in inst.ops() {
        for which in 0..if small { 2 } else { 1 } {
            let x: Vec<T> = tov(&if which == 0 { gen::dense(n, 91) } else { gen::basis(n, n / 2) });
            let mut want = x.clone();
            inst.call(op, &mut want, &mut vec![T::of(0.0); sl]);
            ctx.transitions += 1;
            let bad = |what: String, at: usize| Err(format!("{} ({}) at n={}: output[{}] differs with {}", op.name(), id, n, at, what));
            // convenience
            let mut b = x.clone();
            inst.call_conv(op, &mut b);
            if let Some(i) = diff_bits(&b, &want) {
                return bad("the self-allocating call".into(), i);
            }
            ctx.transitions += 1;
            ctx.traces += 1;
            for f in 0..NF {
                let overs: &[usize] = if small { &[0, 1, 2, n + 3] } else if f < 2 { &[0, 5] } else { &[0] };
                for &over in overs {
                    for off in 0..if small { 2 } else { 1 } {
                        let mut s: Vec<T> = fill(f, sl + over + off);
                        let keep = s.clone();
                        let mut buf = vec![T::of(3.5); n + off + 1];
                        buf[off..off + n].copy_from_slice(&x);
                        catch(|| inst.call(op, &mut buf[off..off + n], &mut s[off..])).map_err(|p| format!("{} ({}) at n={} with scratch {}+{} panicked: {}", op.name(), id, n, sl, over, p))?;
                        if let Some(i) = diff_bits(&buf[off..off + n], &want) {
                            return bad(format!("scratch fill {} and {} surplus scratch elements", f, over), i);
                        }
                        if diff_bits(&s[off + sl..], &keep[off + sl..]).is_some() || diff_bits(&s[..off], &keep[..off]).is_some() {
                            return Err(format!("{} ({}) at n={} modified scratch beyond the reported length {}", op.name(), id, n, sl));
                        }
                        if buf[off + n].f() != 3.5 || (off == 1 && buf[0].f() != 3.5) {
                            return Err(format!("{} ({}) at n={} wrote outside its buffer", op.name(), id, n));
                        }
                        ctx.states += 1;
                        ctx.transitions += 1;
                        ctx.traces += 1;
                    }
                }
            }
            // leftovers of the previous operations on this very scratch
            let mut b = x.clone();
            inst.call(op, &mut b, &mut left);
            if let Some(i) = diff_bits(&b, &want) {
                return bad("scratch left over from earlier operations".into(), i);
            }
            ctx.states += 1;
            ctx.transitions += 1;
            ctx.traces += 1;
        }
    }
    Ok(())
}
/// Where the slices lie in memory never matters: every offset of the buffer and of the scratch from a 64-byte boundary.
fn placed<T: Sc>(ops: &[Op], n: usize, sl: usize, what: &str, call: &dyn Fn(Op, &mut [T], &mut [T]), ctx: &mut Ctx) -> Res {
    let per = 64 / std::mem::size_of::<T>();
    let base = |v: &[T]| (64 - v.as_ptr() as usize % 64) % 64 / std::mem::size_of::<T>();
    let mut buf = vec![T::of(3.5); n + 3 * per];
    let mut s = vec![T::of(0.0); sl + 3 * per];
    let (b0, s0) = (base(&buf), base(&s));
    for &op in ops {
        let x: Vec<T> = tov(&gen::dense(n, 89));
        let mut want: Option<Vec<T>> = None;
        for o in 0..2 * per {
            // every offset of one with the other on the boundary, and the two moving together
            for (ob, os) in if o < per { [(o, 0), (o, o)] } else { [(0, o - per), (o - per, per - 1)] } {
                buf[b0 + ob..b0 + ob + n].copy_from_slice(&x);
                s.iter_mut().for_each(|v| *v = T::NANV);
                call(op, &mut buf[b0 + ob..b0 + ob + n], &mut s[s0 + os..s0 + os + sl]);
                let got = &buf[b0 + ob..b0 + ob + n];
                match &want {
                    None => want = Some(got.to_vec()),
                    Some(w) => {
                        if let Some(i) = diff_bits(got, w) {
                            return Err(format!("{} {}: output[{}] differs when the buffer starts {} and the scratch {} elements after a 64-byte boundary", op.name(), what, i, ob, os));
                        }
                    }
                }
                ctx.states += 1;
                ctx.transitions += 1;
                ctx.traces += 1;
            }
        }
        // buffer and scratch side by side in one allocation, either way round
        for gap in [0, 1] {
            let mut mem = vec![T::NANV; n + sl + gap];
            for first in [true, false] {
                mem.iter_mut().for_each(|v| *v = T::NANV);
                let (b, s) = if first {
                    let (b, s) = mem.split_at_mut(n);
                    (b, &mut s[gap..])
                } else {
                    let (s, b) = mem.split_at_mut(sl);
                    (&mut b[gap..], s)
                };
                b.copy_from_slice(&x);
                call(op, b, s);
                if let Some(i) = want.as_ref().and_then(|w| diff_bits(b, w)) {
                    return Err(format!("{} {}: output[{}] differs when buffer and scratch share an allocation ({} first, {} elements between)", op.name(), what, i, if first { "buffer" } else { "scratch" }, gap));
                }
                ctx.states += 1;
                ctx.transitions += 1;
                ctx.traces += 1;
            }
        }
    }
    Ok(())
}
fn scratchy_mdct<T: Sc>(id: &str, n: usize, ctx: &mut Ctx) -> Res {
    let inst = make_mdct::<T>(id, n, win::values("asym", 2 * n));
    let sl = inst.get_scratch_len();
    let x: Vec<T> = tov(&gen::dense(2 * n, 92));
    let y: Vec<T> = tov(&gen::dense(n, 93));
    let pr: Vec<T> = tov(&gen::dense(2 * n, 94));
    let fwd = |s: &mut [T]| {
        let mut o = vec![T::of(0.0); n];
        inst.process_mdct_with_scratch(&x[..n], &x[n..], &mut o, s);
        o
    };
    let inv = |s: &mut [T]| {
        let mut o = pr.clone();
        let (a, b) = o.split_at_mut(n);
        inst.process_imdct_with_scratch(&y, a, b, s);
        o
    };
    let wf = fwd(&mut vec![T::of(0.0); sl]);
    let wi = inv(&mut vec![T::of(0.0); sl]);
    if n <= 70 || n % 16 == 0 && n <= 130 {
        // all slices of both calls at every offset from a 64-byte boundary: input a/b, output a/b, scratch
        let sz = std::mem::size_of::<T>();
        let per = 64 / sz;
        let base = |v: &[T]| (64 - v.as_ptr() as usize % 64) % 64 / sz;
        let mut m: Vec<Vec<T>> = (0..5).map(|k| vec![T::of(0.0); if k == 4 { sl } else { n } + 2 * per]).collect();
        for o in 0..per {
            for moving in 1..32usize {
                if moving.count_ones() > 1 && moving != 31 && moving != 3 && moving != 12 {
                    continue;
                }
                let at: Vec<usize> = (0..5).map(|k| base(&m[k]) + if moving >> k & 1 == 1 { o } else { 0 }).collect();
                m[0][at[0]..at[0] + n].copy_from_slice(&x[..n]);
                m[1][at[1]..at[1] + n].copy_from_slice(&x[n..]);
                let [a, b, c, d, s] = &mut m[..] else { unreachable!() };
                let (a, b, c, d, s) = (&mut a[at[0]..at[0] + n], &mut b[at[1]..at[1] + n], &mut c[at[2]..at[2] + n], &mut d[at[3]..at[3] + n], &mut s[at[4]..at[4] + sl]);
                inst.process_mdct_with_scratch(a, b, c, s);
                let f = diff_bits(c, &wf);
                a.copy_from_slice(&y);
                c.copy_from_slice(&pr[..n]);
                d.copy_from_slice(&pr[n..]);
                inst.process_imdct_with_scratch(a, c, d, s);
                let i = diff_bits(c, &wi[..n]).or(diff_bits(d, &wi[n..]));
                if let Some(at) = f.or(i) {
                    return Err(format!("{} ({}) at n={}: output[{}] differs when slices {:05b} lie {} elements after a 64-byte boundary", if f.is_some() { "MDCT" } else { "IMDCT" }, id, n, at, moving, o));
                }
                ctx.states += 1;
                ctx.transitions += 2;
                ctx.traces += 2;
            }
        }
    }
    for f in 0..NF {
        for over in [0, 1, n + 3] {
            let mut s: Vec<T> = fill(f, sl + over);
            let keep = s.clone();
            for (nm, got, want) in [("MDCT", fwd(&mut s), &wf), ("IMDCT", inv(&mut s), &wi)] {
                if let Some(i) = diff_bits(&got, want) {
                    return Err(format!("{} ({}) at n={}: output[{}] differs with scratch fill {} and {} surplus elements", nm, id, n, i, f, over));
                }
                ctx.states += 1;
                ctx.transitions += 1;
                ctx.traces += 1;
            }
            if diff_bits(&s[sl..], &keep[sl..]).is_some() {
                return Err(format!("MDCT/IMDCT ({}) at n={} modified scratch beyond the reported length {}", id, n, sl));
            }
            // and with a fresh poisoned scratch for the inverse
            let mut s: Vec<T> = fill(f, sl + over);
            if let Some(i) = diff_bits(&inv(&mut s), &wi) {
                return Err(format!("IMDCT ({}) at n={}: output[{}] differs with scratch fill {}", id, n, i, f));
            }
            ctx.transitions += 1;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C22
impl Check for C22 {
    fn id(&self) -> &'static str {
        "C22"
    }
    fn cases(&self, tier: Tier, _p: Profile) -> Vec<String> {
        let (all, direct) = if tier == Tier::Quick { (130, 40) } else { (320, 100) };
        let mut v = vec![];
        for n in 1..=all {
            for ty in ["f64", "f32"] {
                for id in inst_ids(n) {
                    if n > direct && !id.starts_with("planned") {
                        continue;
                    }
                    v.push(format!("i/{}/{}/{}", ty, n, id));
                }
                if n % 2 == 0 {
                    for id in mdct_ids(n) {
                        if n > direct && id != "planned" {
                            continue;
                        }
                        v.push(format!("m/{}/{}/{}", ty, n, id));
                    }
                }
            }
        }
        for n in [256usize, 512, 1000, 1009, 1024, 2048, 4096, 4099, 16384, 65536] {
            for ty in ["f64", "f32"] {
                for f in FAMILIES {
                    if f[0].fast_planned() {
                        v.push(format!("i/{}/{}/planned:{}", ty, n, f[0].name()));
                    }
                }
                if n % 2 == 0 {
                    v.push(format!("m/{}/{}/planned", ty, n));
                }
            }
        }
        for n in [200usize, 256, 257, 512, 700, 1000, 1024, 1025] {
            for ty in ["f64", "f32"] {
                for f in FAMILIES {
                    if !f[0].fast_planned() {
                        v.push(format!("i/{}/{}/planned:{}", ty, n, f[0].name()));
                    }
                }
            }
        }
        // consecutive inputs that agree in almost everything (sums, ends, multisets, single elements)
        let (near, neard) = if tier == Tier::Quick { (100usize, 34usize) } else { (300, 100) };
        for n in 1..=near {
            for ty in ["f64", "f32"] {
                for id in inst_ids(n) {
                    if n <= neard || id.starts_with("planned") {
                        v.push(format!("near/{}/{}/{}", ty, n, id));
                    }
                }
                if n % 2 == 0 {
                    for id in mdct_ids(n) {
                        if n <= neard || id == "planned" {
                            v.push(format!("nearm/{}/{}/{}", ty, n, id));
                        }
                    }
                }
            }
        }
        // two instances sharing components, operated alternately
        for n in (2..=if tier == Tier::Quick { 64usize } else { 200 }).step_by(1) {
            v.push(format!("shared/f64/{}/x", n));
            v.push(format!("shared/f32/{}/x", n));
        }
        // instances made where another one has just been dropped
        for n in 1..=if tier == Tier::Quick { 64usize } else { 200 } {
            for ty in ["f64", "f32"] {
                v.push(format!("heir/{}/{}/x", ty, n));
            }
        }
        for n in [100usize, 128, 255, 256, 512, 1000, 1024, 2048] {
            v.push(format!("heir/f64/{}/x", n));
        }
        // calls aborted half way by a panic of the element type
        let (fa, fb) = if tier == Tier::Quick { (26usize, 66usize) } else { (60, 200) };
        for n in 1..=fb {
            for id in inst_ids(n) {
                if n <= fa || id.starts_with("planned") {
                    v.push(format!("abort/f64/{}/{}", n, id));
                }
            }
            if n % 2 == 0 {
                for id in mdct_ids(n) {
                    if n <= fa || id == "planned" {
                        v.push(format!("abortm/f64/{}/{}", n, id));
                    }
                }
            }
        }
        // very long histories
        for n in [2usize, 3, 4, 7, 8, 16, 32, 45, 64, 100] {
            for f in FAMILIES {
                v.push(format!("long/f64/{}/planned:{}", n, f[0].name()));
            }
            if n % 2 == 0 {
                v.push(format!("longm/f64/{}/planned", n));
            }
        }
        v
    }
    fn run(&self, case: &str, ctx: &mut Ctx) -> Res {
        let p: Vec<&str> = case.split('/').collect();
        let n: usize = p[2].parse().unwrap();
        match p[0] {
            "i" => by_type!(p[1], seqs(p[3], n, ctx)),
            "m" => by_type!(p[1], mseqs(p[3], n, ctx)),
            "shared" => by_type!(p[1], shared(n, ctx)),
            "heir" => by_type!(p[1], heir(n, ctx)),
            "near" => by_type!(p[1], near(p[3], n, ctx)),
            "nearm" => by_type!(p[1], nearm(p[3], n, ctx)),
            "longm" => longm(n, ctx),
            "abort" => abort(p[3], n, ctx),
            "abortm" => abortm(p[3], n, ctx),
            _ => long(p[3], n, ctx),
        }
    }
    fn bounds(&self, tier: Tier) -> String {
        let (a, d, l, q, r) = if tier == Tier::Quick { (130, 40, 3, 64, 100) } else { (320, 100, 4, 200, 300) };
        format!("ALL call sequences of length {} (length 3 for n<=16 has the full alphabet: every op x 4 inputs, call styles, and 4 kinds of rejected calls; deeper or longer ones a reduced alphabet) on every planned instance for n<={} (directly built: n<={}), consecutive inputs that differ in one element, an exchange, a sum-preserving move, a reversal and the like, in both orders, at every n<={}, histories of 70000 calls on one instance, calls aborted by a panic of the element type at EVERY arithmetic operation followed by every operation (all n<={}, directly built n<={}), alternating calls on instances sharing components (and instances made where one of another kind, length or window has just been dropped) for n<={}", l, a, d, r, if tier == Tier::Quick { 66 } else { 200 }, if tier == Tier::Quick { 26 } else { 60 }, q)
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["'freshly built' results come from a new planner or constructor in the same process".into()]
    }
}
/// One step: (op index, input kind) or a rejected call.
#[derive(Clone, Copy, Debug)]
enum Step {
    Call(usize, usize, bool),
    Bad(usize, usize),
}
fn input<T: Sc>(n: usize, k: usize) -> Vec<T> {
    match k {
        0 => tov(&gen::dense(n, 95)),
        1 => vec![T::of(0.0); n],
        2 => vec![T::NANV; n],
        3 => tov(&gen::dense(n, 96).iter().map(|v| v * 1e6).collect::<Vec<_>>()),
        _ => unreachable!(),
    }
}
fn seqs<T: Sc>(id: &str, n: usize, ctx: &mut Ctx) -> Res {
    let fresh = || make::<T>(id, n);
    let probe = fresh();
    let ops = probe.ops();
    let nin = if n <= 16 { 4 } else { 2 };
    // expected results, each on an instance of its own
    let mut want: Vec<Vec<Vec<T>>> = vec![];
    for &op in ops {
        want.push(
            (0..nin)
                .map(|k| {
                    let i = fresh();
                    let mut b = input::<T>(n, if nin == 2 { k * 3 } else { k });
                    let mut s = vec![T::of(0.0); i.scratch_len()];
                    i.call(op, &mut b, &mut s);
                    b
                })
                .collect(),
        );
    }
    let mut alpha: Vec<Step> = vec![];
    for o in 0..ops.len() {
        for k in 0..nin {
            alpha.push(Step::Call(o, k, false));
        }
        if n <= 16 {
            alpha.push(Step::Call(o, 0, true));
        }
        let nb = if n <= 16 { 4 } else { 1 };
        for k in 0..nb {
            alpha.push(Step::Bad(o, k));
        }
    }
    let depth = if n > 4100 { 2 } else if ctx.tier_thorough && n <= 40 { if alpha.len() <= 20 { 4 } else { 3 } } else if alpha.len() > 24 || n > 200 { 2 } else { 3 };
    // one instance per first step; the sequences share the instance on purpose: every history is a
    // prefix of a longer one, and each result is compared.
    let mut idx = vec![0usize; depth];
    let sl = probe.scratch_len();
    let mut s = vec![T::of(0.0); sl];
    let mut b: Vec<T> = vec![];
    loop {
        let inst = if n <= 64 { fresh() } else { probe.clone() };
        for &a in &idx {
            step(&inst, ops, alpha[a], n, nin, &want, &mut b, &mut s, ctx).map_err(|m| format!("{} at n={} after history {:?}: {}", id, n, idx.iter().map(|a| alpha[*a]).collect::<Vec<_>>(), m))?;
        }
        ctx.states += 1;
        ctx.traces += 1;
        // next
        let mut d = depth;
        loop {
            if d == 0 {
                return Ok(());
            }
            d -= 1;
            idx[d] += 1;
            if idx[d] < alpha.len() {
                break;
            }
            idx[d] = 0;
        }
    }
}
#[allow(clippy::too_many_arguments)]
fn step<T: Sc>(inst: &Inst<T>, ops: &[Op], st: Step, n: usize, nin: usize, want: &[Vec<Vec<T>>], b: &mut Vec<T>, s: &mut [T], ctx: &mut Ctx) -> Res {
    ctx.transitions += 1;
    match st {
        Step::Call(o, k, conv) => {
            *b = input::<T>(n, if nin == 2 { k * 3 } else { k });
            if conv {
                inst.call_conv(ops[o], b);
            } else {
                inst.call(ops[o], b, s);
            }
            if let Some(i) = diff_bits(b, &want[o][k]) {
                return Err(format!("{} of input {} gives {:?} at [{}], a fresh instance gives {:?}", ops[o].name(), k, b[i], i, want[o][k][i]));
            }
            Ok(())
        }
        Step::Bad(o, k) => {
            let sl = s.len();
            let (bl, ss) = match k {
                0 => (n + 1, sl),
                1 => (n - 1, sl),
                2 => (2 * n, sl),
                _ => (n, sl.saturating_sub(1)),
            };
            if bl == n && ss == sl {
                return Ok(());
            }
            let mut bb = vec![T::of(1.0); bl];
            let _ = catch(|| inst.call(ops[o], &mut bb, &mut s[..ss])); // whether it panics is C10's subject
            Ok(())
        }
    }
}
/// Inputs close to `x`: every one shares some summary with it that a memo might be keyed on.
fn relatives(x: &[f64]) -> Vec<(String, Vec<f64>)> {
    let n = x.len();
    let mut v: Vec<(String, Vec<f64>)> = vec![];
    let mut add = |s: String, f: &dyn Fn(&mut Vec<f64>)| {
        let mut y = x.to_vec();
        f(&mut y);
        v.push((s, y));
    };
    for i in 0..n {
        add(format!("element {} + 1", i), &|y| y[i] += 1.0);
        add(format!("element {} zeroed", i), &|y| y[i] = 0.0);
        add(format!("element {} negated", i), &|y| y[i] = -y[i]);
        for j in [i + 1, i + 2, n - 1 - i, n - 1, 0, n / 2] {
            if j < n && j != i {
                if i < j {
                    add(format!("{} and {} exchanged", i, j), &|y| y.swap(i, j));
                }
                add(format!("1 moved from {} to {}", i, j), &|y| {
                    y[i] -= 1.0;
                    y[j] += 1.0
                });
            }
        }
    }
    add("negated".into(), &|y| y.iter_mut().for_each(|a| *a = -*a));
    add("doubled".into(), &|y| y.iter_mut().for_each(|a| *a *= 2.0));
    add("reversed".into(), &|y| y.reverse());
    add("rotated left".into(), &|y| y.rotate_left(1.min(n)));
    add("rotated right".into(), &|y| y.rotate_right(1.min(n)));
    add("halves exchanged".into(), &|y| y.rotate_left(n / 2));
    add("zeroed".into(), &|y| y.fill(0.0));
    add("second half zeroed".into(), &|y| y[n / 2..].fill(0.0));
    add("first half zeroed".into(), &|y| y[..n / 2].fill(0.0));
    add("alternately negated".into(), &|y| y.iter_mut().step_by(2).for_each(|a| *a = -*a));
    add("the same".into(), &|_| ());
    v
}
fn small_ints(n: usize, seed: u64) -> Vec<f64> {
    (0..n).map(|i| (gen::mix(seed ^ (i as u64) << 8) % 199) as f64 - 99.0 + if i % 2 == 0 { 0.5 } else { 0.0 }).collect()
}
/// base, relative, base, next relative, ... and relative, next relative, ... on one instance, through
/// one buffer and one scratch; every result against an instance that has done nothing else.
fn near<T: Sc>(id: &str, n: usize, ctx: &mut Ctx) -> Res {
    let inst = make::<T>(id, n);
    let mut s = vec![T::of(0.0); inst.scratch_len()];
    let mut b = vec![T::of(0.0); n];
    let mut bases = vec![small_ints(n, 301)];
    if n <= 40 {
        bases.push(vec![0.0; n]);
        bases.push(vec![1.0; n]);
    }
    for &op in inst.ops() {
        for base in &bases {
            let base_t: Vec<T> = tov(base);
            let rel: Vec<(String, Vec<T>, Vec<T>)> = relatives(base)
                .into_iter()
                .map(|(m, y)| {
                    let y: Vec<T> = tov(&y);
                    // relatives of relatives: a fresh instance for each expected result
                    let f = make::<T>(id, n);
                    let mut o = y.clone();
                    f.call(op, &mut o, &mut vec![T::of(0.0); f.scratch_len()]);
                    (m, y, o)
                })
                .collect();
            let base_o = rel.last().unwrap().2.clone();
            let mut call = |x: &[T], want: &[T], what: &dyn Fn() -> String| -> Res {
                b.copy_from_slice(x);
                inst.call(op, &mut b, &mut s);
                match diff_bits(&b, want) {
                    Some(i) => Err(format!("{} ({}) at n={}: {}: output[{}] = {:?}, a fresh instance gives {:?}", op.name(), id, n, what(), i, b[i], want[i])),
                    None => Ok(()),
                }
            };
            for (m, y, o) in &rel {
                call(&base_t, &base_o, &|| "the base input again".into())?;
                call(y, o, &|| format!("the base input with {} after the base input", m))?;
            }
            for (k, (m, y, o)) in rel.iter().enumerate() {
                call(y, o, &|| format!("the base input with {} after the one with {}", m, rel[k.max(1) - 1].0))?;
            }
            ctx.states += 2 * rel.len() as u64;
            ctx.transitions += 3 * rel.len() as u64;
            ctx.traces += rel.len() as u64;
        }
    }
    Ok(())
}
fn nearm<T: Sc>(id: &str, n: usize, ctx: &mut Ctx) -> Res {
    let w: Vec<T> = win::values("asym", 2 * n);
    let inst = make_mdct::<T>(id, n, w.clone());
    let mut s = vec![T::of(0.0); inst.get_scratch_len()];
    type M<T> = std::sync::Arc<dyn rustdct::mdct::Mdct<T>>;
    fn go<T: Sc>(i: &M<T>, inverse: bool, x: &[T], n: usize, s: &mut [T]) -> Vec<T> {
        if inverse {
            let mut o = vec![T::of(0.0); 2 * n];
            let (a, b) = o.split_at_mut(n);
            i.process_imdct_with_scratch(x, a, b, s);
            o
        } else {
            let mut o = vec![T::of(0.0); n];
            i.process_mdct_with_scratch(&x[..n], &x[n..], &mut o, s);
            o
        }
    }
    for inverse in [false, true] {
        let base = small_ints(if inverse { n } else { 2 * n }, 303);
        let rel: Vec<(String, Vec<T>, Vec<T>)> = relatives(&base)
            .into_iter()
            .map(|(m, y)| {
                let y: Vec<T> = tov(&y);
                let f = make_mdct::<T>(id, n, w.clone());
                let o = go(&f, inverse, &y, n, &mut vec![T::of(0.0); f.get_scratch_len()]);
                (m, y, o)
            })
            .collect();
        let (_, base_t, base_o) = rel.last().unwrap();
        for order in 0..2 {
            for (m, y, o) in &rel {
                if order == 0 && diff_bits(&go(&inst, inverse, base_t, n, &mut s), base_o).is_some() {
                    return Err(format!("{} ({}) at n={}: the base input again gives another result", if inverse { "imdct" } else { "mdct" }, id, n));
                }
                if let Some(i) = diff_bits(&go(&inst, inverse, y, n, &mut s), o) {
                    return Err(format!("{} ({}) at n={}: the base input with {} differs from a fresh instance at output[{}]", if inverse { "imdct" } else { "mdct" }, id, n, m, i));
                }
            }
        }
        ctx.states += 2 * rel.len() as u64;
        ctx.transitions += 3 * rel.len() as u64;
        ctx.traces += rel.len() as u64;
    }
    Ok(())
}
fn mseqs<T: Sc>(id: &str, n: usize, ctx: &mut Ctx) -> Res {
    let w: Vec<T> = win::values("asym", 2 * n);
    let fresh = || make_mdct::<T>(id, n, w.clone());
    let sl = fresh().get_scratch_len();
    let ins: Vec<Vec<T>> = (0..2).map(|k| tov(&gen::dense(2 * n, 97 + k))).collect();
    let go = |i: &std::sync::Arc<dyn rustdct::mdct::Mdct<T>>, k: usize, s: &mut [T]| -> Vec<T> {
        if k < 2 {
            let mut o = vec![T::of(0.0); n];
            i.process_mdct_with_scratch(&ins[k][..n], &ins[k][n..], &mut o, s);
            o
        } else {
            let mut o = ins[1].clone();
            let (a, b) = o.split_at_mut(n);
            i.process_imdct_with_scratch(&ins[k - 2][..n], a, b, s);
            o
        }
    };
    let want: Vec<Vec<T>> = (0..4).map(|k| go(&fresh(), k, &mut vec![T::of(0.0); sl])).collect();
    // steps 0..4 valid, 4..7 rejected
    let depth = if n <= 40 { 4 } else if n > 4100 { 2 } else { 3 };
    let total = 7usize.pow(depth);
    let probe = fresh();
    let mut s = vec![T::of(0.0); sl];
    for code in 0..total {
        let inst = if n <= 40 { fresh() } else { probe.clone() };
        let mut c = code;
        for _ in 0..depth {
            let k = c % 7;
            c /= 7;
            ctx.transitions += 1;
            if k < 4 {
                let got = go(&inst, k, &mut s);
                if let Some(i) = diff_bits(&got, &want[k]) {
                    return Err(format!("mdct {} at n={}: call {} in history code {} differs at [{}]", id, n, k, code, i));
                }
            } else {
                let mut o = vec![T::of(0.0); n + 1];
                let _ = catch(|| match k {
                    4 => inst.process_mdct_with_scratch(&ins[0][..n], &ins[0][n..], &mut o, &mut s),
                    5 => inst.process_imdct_with_scratch(&ins[0][..n], &mut o, &mut vec![T::of(0.0); n], &mut s),
                    _ => inst.process_mdct_with_scratch(&ins[0][..n], &ins[0][n..], &mut o[..n], &mut []),
                });
            }
        }
        ctx.states += 1;
        ctx.traces += 1;
    }
    Ok(())
}
/// An instance made right after another one was dropped (usually at the same address) must not inherit anything.
fn heir<T: Sc>(n: usize, ctx: &mut Ctx) -> Res {
    // expected results: on a thread of their own, from instances that stay where they are
    let (r, w) = std::thread::scope(|sc| {
        sc.spawn(|| {
            let mut r: Vec<(String, usize, Vec<Vec<T>>)> = vec![];
            let ms: Vec<usize> = if n <= 24 { vec![n, n + 1, n + 2, 2 * n] } else { vec![n, n + 2] };
            for m in ms {
                let ids = if n <= 64 { inst_ids(m) } else { inst_ids(m).into_iter().filter(|i| i.starts_with("planned")).collect() };
                for id in ids {
                    let i = make::<T>(&id, m);
                    let out = i.ops().iter().map(|o| { let mut b = input::<T>(m, 0); i.call_conv(*o, &mut b); b }).collect();
                    std::mem::forget(i);
                    r.push((id, m, out));
                }
            }
            let mut w: Vec<(String, &'static str, Vec<T>)> = vec![];
            if n % 2 == 0 {
                for id in mdct_ids(n) {
                    for name in ["asym", "negative", "mp3"] {
                        let i = make_mdct::<T>(&id, n, win::values(name, 2 * n));
                        w.push((id.clone(), name, both(&i, n)));
                        std::mem::forget(i);
                    }
                }
            }
            (r, w)
        }).join().map_err(|_| "building the expected results panicked".to_string())
    })?;
    // every pair (predecessor, successor): equal lengths of different kinds, equal kinds of different lengths
    for (id1, m1, _) in &r {
        for (id2, m2, want) in r.iter().filter(|x| (x.1 == *m1 && (n <= 24 || x.0 == *id1)) || x.0 == *id1) {
            let a = make::<T>(id1, *m1);
            for o in a.ops() {
                a.call_conv(*o, &mut input::<T>(*m1, 1));
            }
            drop(a);
            let b = make::<T>(id2, *m2);
            for (k, o) in b.ops().iter().enumerate() {
                let mut x = input::<T>(*m2, 0);
                b.call_conv(*o, &mut x);
                if let Some(i) = diff_bits(&x, &want[k]) {
                    return Err(format!("{} ({}) of length {} differs at [{}] when made after a used {} of length {} was dropped", o.name(), id2, m2, i, id1, m1));
                }
            }
            ctx.states += 1;
            ctx.transitions += 2;
            ctx.traces += 1;
        }
    }
    for (id1, w1, _) in &w {
        for (id2, w2, want) in &w {
            let (v1, v2) = (win::values::<T>(w1, 2 * n), win::values::<T>(w2, 2 * n));
            let a = make_mdct::<T>(id1, n, v1);
            let at = std::sync::Arc::as_ptr(&a) as *const () as usize;
            both(&a, n);
            drop(a);
            let b = make_mdct::<T>(id2, n, v2);
            if std::sync::Arc::as_ptr(&b) as *const () as usize == at {
                ctx.add("mdct_instances_at_a_predecessors_address", 1);
            }
            if let Some(i) = diff_bits(&both(&b, n), want) {
                return Err(format!("MDCT ({}) of length {} with window {} differs at [{}] when made after a used one ({}) with window {} was dropped", id2, n, w2, i, id1, w1));
            }
            ctx.states += 1;
            ctx.transitions += 2;
            ctx.traces += 1;
        }
    }
    Ok(())
}
/// one MDCT and one IMDCT call
fn both<T: Sc>(i: &std::sync::Arc<dyn rustdct::mdct::Mdct<T>>, n: usize) -> Vec<T> {
    let x: Vec<T> = tov(&gen::dense(2 * n, 99));
    let mut s = vec![T::of(0.0); i.get_scratch_len()];
    let mut o = vec![T::of(0.0); 3 * n];
    let (f, ab) = o.split_at_mut(n);
    i.process_mdct_with_scratch(&x[..n], &x[n..], f, &mut s);
    let (a, b) = ab.split_at_mut(n);
    i.process_imdct_with_scratch(&x[..n], a, b, &mut s);
    o
}
/// Instances from one planner that share components, called alternately in all orders of length 3.
fn shared<T: Sc>(n: usize, ctx: &mut Ctx) -> Res {
    let mut p = rustdct::DctPlanner::<T>::new();
    let mut list: Vec<(Op, Inst<T>)> = vec![];
    for op in [Op::Dct1, Op::Dst1, Op::Dct2, Op::Dct4, Op::Dst6, Op::Dct3] {
        list.push((op, plan(&mut p, op, n)));
    }
    list.push((Op::Dst2, plan(&mut p, Op::Dst2, 2 * n)));
    list.push((Op::Dst4, plan(&mut p, Op::Dst4, 2 * n)));
    let want: Vec<Vec<T>> = list
        .iter()
        .map(|(op, i)| {
            let f = planned::<T>(*op, i.len());
            let mut b = input::<T>(i.len(), 0);
            f.call_conv(*op, &mut b);
            b
        })
        .collect();
    let k = list.len();
    for code in 0..k * k * k {
        for a in [code % k, code / k % k, code / k / k] {
            let (op, i) = &list[a];
            let mut b = input::<T>(i.len(), 0);
            i.call_conv(*op, &mut b);
            ctx.transitions += 1;
            if let Some(x) = diff_bits(&b, &want[a]) {
                return Err(format!("{} at n={} sharing a planner with others differs at [{}] in order code {}", op.name(), i.len(), x, code));
            }
        }
        ctx.states += 1;
        ctx.traces += 1;
    }
    Ok(())
}
/// A call aborted at every possible point by a panic of the element type, then every operation on the same instance.
fn abort(id: &str, n: usize, ctx: &mut Ctx) -> Res {
    let inst = make::<Flt>(id, n);
    let ops = inst.ops();
    let sl = inst.scratch_len();
    let x = input::<Flt>(n, 0);
    let mut s = vec![Flt(0.0); sl];
    let mut b = x.clone();
    let mut want = vec![];
    let mut len = vec![];
    for &op in ops {
        let f = make::<Flt>(id, n);
        let mut b = x.clone();
        let (_, k) = scal::steps(|| f.call(op, &mut b, &mut vec![Flt(0.0); sl]));
        want.push(b);
        len.push(k);
    }
    for (o, &op) in ops.iter().enumerate() {
        for at in 0..len[o] {
            b.copy_from_slice(&x);
            if !scal::faulty(at, || inst.call(op, &mut b, &mut s)) {
                break; // another operation count than on the first call
            }
            // with many operations, one successor per abort point, all of them over the points
            for q in 0..ops.len() {
                if len[o] > 400 && (q + at as usize) % ops.len() != 0 {
                    continue;
                }
                b.copy_from_slice(&x);
                inst.call(ops[q], &mut b, &mut s);
                ctx.transitions += 1;
                if let Some(i) = diff_bits(&b, &want[q]) {
                    return Err(format!(
                        "{} ({}) at n={} after a {} call aborted by a panic of the element type at operation {}: output[{}] = {:?}, a fresh instance gives {:?}",
                        ops[q].name(), id, n, op.name(), at, i, b[i], want[q][i]
                    ));
                }
            }
            ctx.states += 1;
            ctx.traces += 1;
        }
    }
    Ok(())
}
fn abortm(id: &str, n: usize, ctx: &mut Ctx) -> Res {
    let w: Vec<Flt> = win::values("asym", 2 * n);
    let inst = make_mdct::<Flt>(id, n, w.clone());
    let x: Vec<Flt> = tov(&gen::dense(2 * n, 99));
    let mut s = vec![Flt(0.0); inst.get_scratch_len()];
    type M = std::sync::Arc<dyn rustdct::mdct::Mdct<Flt>>;
    let go = |i: &M, inverse: bool, s: &mut [Flt]| -> Vec<Flt> {
        if inverse {
            let mut o = x.clone();
            let (a, b) = o.split_at_mut(n);
            i.process_imdct_with_scratch(&x[..n], a, b, s);
            o
        } else {
            let mut o = vec![Flt(0.0); n];
            i.process_mdct_with_scratch(&x[..n], &x[n..], &mut o, s);
            o
        }
    };
    let fresh = make_mdct::<Flt>(id, n, w.clone());
    let mut t = s.clone();
    let want: Vec<(Vec<Flt>, u64)> = [false, true].iter().map(|inv| scal::steps(|| go(&fresh, *inv, &mut t))).collect();
    for inverse in [false, true] {
        let k = want[inverse as usize].1;
        for at in 0..k {
            if !scal::faulty(at, || drop(go(&inst, inverse, &mut s))) {
                break;
            }
            for q in [false, true] {
                if k > 400 && (q as u64 + at) % 2 != 0 {
                    continue;
                }
                let got = go(&inst, q, &mut s);
                ctx.transitions += 1;
                if let Some(i) = diff_bits(&got, &want[q as usize].0) {
                    return Err(format!("{} ({}) at n={} after a call aborted by a panic of the element type at operation {} differs from a fresh instance at [{}]", if q { "imdct" } else { "mdct" }, id, n, at, i));
                }
            }
            ctx.states += 1;
            ctx.traces += 1;
        }
    }
    Ok(())
}
/// 70000 calls on one instance (beyond any 16-bit counter).
fn long(id: &str, n: usize, ctx: &mut Ctx) -> Res {
    let inst = make::<f64>(id, n);
    let ops = inst.ops();
    let want: Vec<Vec<f64>> = ops
        .iter()
        .map(|op| {
            let f = make::<f64>(id, n);
            let mut b = input::<f64>(n, 0);
            f.call_conv(*op, &mut b);
            b
        })
        .collect();
    let x = input::<f64>(n, 0);
    let mut b = x.clone();
    let mut s = vec![0.0; inst.scratch_len()];
    for i in 0..70000usize {
        let o = i % ops.len();
        b.copy_from_slice(&x);
        inst.call(ops[o], &mut b, &mut s);
        if b != want[o] {
            return Err(format!("{} ({}) at n={} differs on call number {}", ops[o].name(), id, n, i));
        }
    }
    ctx.states += 1;
    ctx.transitions += 70000;
    ctx.traces += 1;
    Ok(())
}
fn longm(n: usize, ctx: &mut Ctx) -> Res {
    let inst = make_mdct::<f64>("planned", n, win::values("mp3", 2 * n));
    let x = gen::dense(2 * n, 98);
    let mut s = vec![0.0; inst.get_scratch_len()];
    let mut first: Option<(Vec<f64>, Vec<f64>)> = None;
    for i in 0..70000usize {
        let mut o = vec![0.0; n];
        inst.process_mdct_with_scratch(&x[..n], &x[n..], &mut o, &mut s);
        let mut r = vec![0.0; 2 * n];
        let (a, b) = r.split_at_mut(n);
        inst.process_imdct_with_scratch(&x[..n], a, b, &mut s);
        match &first {
            None => first = Some((o, r)),
            Some(f) => {
                if f.0 != o || f.1 != r {
                    return Err(format!("MDCT/IMDCT at n={} differs on call number {}", n, i));
                }
            }
        }
    }
    ctx.states += 1;
    ctx.transitions += 140000;
    ctx.traces += 1;
    Ok(())
}
