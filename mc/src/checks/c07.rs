//! C07: inverse pairs.
use crate::by_type;
use crate::engine::*;
use crate::gen;
use crate::inst::*;
use crate::sc::*;

pub struct C07;
fn b(t: Tier) -> (usize, usize, usize, usize, usize) {
    // basis fast, basis slow, dense fast, dense slow, boundary
    match t {
        Tier::Quick => (256, 128, 2100, 600, 66000),
        Tier::Thorough => (700, 300, 8300, 1500, 270000),
    }
}
impl Check for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn cases(&self, tier: Tier, _p: Profile) -> Vec<String> {
        let (bf, bs, df, ds, bo) = b(tier);
        let mut v = vec![];
        for n in 1..=df {
            for op in ALL_OPS {
                let (bb, dd) = if op.fast_planned() { (bf, df) } else { (bs, ds) };
                if n < op.min_len() || n > dd {
                    continue;
                }
                for ty in ["f64", "f32"] {
                    v.push(format!("{}/{}/{}/{}", if n <= bb { "basis" } else { "dense" }, op.name(), ty, n));
                }
            }
        }
        for op in ALL_OPS {
            if op.fast_planned() {
                for n in gen::boundary_lengths(df, bo) {
                    for ty in ["f64", "f32"] {
                        v.push(format!("dense/{}/{}/{}", op.name(), ty, n));
                    }
                }
            }
        }
        v
    }
    fn bounds(&self, tier: Tier) -> String {
        format!("all 16 ordered pairs (op, inverse op) x f32,f64; full basis for n<={}/{} (fast/direct algorithms), dense vectors for n<={}/{}, boundary lengths to {}; 33 vectors with regularities for n<=300; same instance and separately planned inverse", b(tier).0, b(tier).1, b(tier).2, b(tier).3, b(tier).4)
    }
    fn run(&self, case: &str, ctx: &mut Ctx) -> Res {
        let p: Vec<&str> = case.split('/').collect();
        let n: usize = p[3].parse().unwrap();
        by_type!(p[2], pair(p[0] == "basis", Op::parse(p[1]), n, ctx))
    }
}
fn pair<T: Sc>(basis: bool, op: Op, n: usize, ctx: &mut Ctx) -> Res {
    let (iop, p) = op.inverse(n);
    let f = planned::<T>(op, n);
    let g = planned::<T>(iop, n);
    let same_family = family(op).contains(&iop);
    let mut s = vec![T::of(0.0); f.scratch_len().max(g.scratch_len())];
    let tol = if op.fast_planned() { 8.0 } else { 8.0 + 2.0 * (n as f64).sqrt() };
    let mut one = |x: &[f64], what: &str, ctx: &mut Ctx| -> Res {
        let mut v: Vec<T> = tov(x);
        f.call(op, &mut v, &mut s);
        let mid = v.clone();
        g.call(iop, &mut v, &mut s);
        let want: Vec<f64> = x.iter().map(|a| a * p).collect();
        let r = compare(&v, &want, scale(norm(x) * p.max(0.25), n), tol).map_err(|m| format!("{} then {} of {} at n={}: {}", op.name(), iop.name(), what, n, m))?;
        ctx.max(&format!("err_{}", T::NAME), r);
        ctx.states += 1;
        ctx.traces += 1;
        ctx.transitions += 2;
        if same_family {
            // the same instance must serve as its own inverse
            let mut w = mid;
            f.call(iop, &mut w, &mut s);
            compare(&w, &want, scale(norm(x) * p.max(0.25), n), tol).map_err(|m| format!("{} then {} on one instance, {} at n={}: {}", op.name(), iop.name(), what, n, m))?;
            ctx.transitions += 1;
        }
        Ok(())
    };
    if basis {
        for j in 0..n {
            one(&gen::basis(n, j), &format!("unit impulse {}", j), ctx)?;
        }
    }
    one(&gen::dense(n, 20), "dense vector", ctx)?;
    if n < 10000 {
        one(&gen::dense(n, 21), "dense vector 2", ctx)?;
        one(&vec![1.0; n], "constant vector", ctx)?;
    }
    if n <= 300 || n.is_power_of_two() && n < 5000 {
        for (name, x) in gen::special(n) {
            if !["tiny", "huge"].contains(&name) {
                one(&x, name, ctx)?;
            }
        }
    }
    Ok(())
}
