//! C01, C02, C03: planned transforms against the textbook sums.
use crate::by_type;
use crate::engine::*;
use crate::gen;
use crate::inst::*;
use crate::oracle;
use crate::sc::*;

pub struct Numeric {
    pub id: &'static str,
    pub ops: &'static [Op],
}
use Op::*;
pub const C01: Numeric = Numeric { id: "C01", ops: &[Dct1, Dct2, Dct3, Dct4] };
pub const C02: Numeric = Numeric { id: "C02", ops: &[Dst1, Dst2, Dst3, Dst4] };
pub const C03: Numeric = Numeric { id: "C03", ops: &[Dct5, Dct6, Dct7, Dct8, Dst5, Dst6, Dst7, Dst8] };

/// allowed error in units of eps * |x|_2 * (log2 n + 2); measured worst values are in the evidence
pub fn tol(op: Op, n: usize) -> f64 {
    if op.fast_planned() {
        8.0
    } else {
        // direct summation: rounding grows with sqrt(n)
        8.0 + (n as f64).sqrt()
    }
}

struct B {
    basis: usize,  // full basis for all lengths up to here
    basis_slow: usize,
    dense: usize,  // dense vectors for all lengths up to here
    dense_slow: usize,
    bound: usize, // boundary lengths up to here
    bound_slow: usize,
}
fn b(t: Tier) -> B {
    match t {
        Tier::Quick => B { basis: 400, basis_slow: 200, dense: 4200, dense_slow: 1030, bound: 132000, bound_slow: 4200 },
        Tier::Thorough => B { basis: 640, basis_slow: 300, dense: 8300, dense_slow: 1500, bound: 270000, bound_slow: 8300 },
    }
}

impl Check for Numeric {
    fn id(&self) -> &'static str {
        self.id
    }
    fn cases(&self, tier: Tier, _p: Profile) -> Vec<String> {
        let b = b(tier);
        let mut v = vec![];
        let maxd = b.dense.max(b.dense_slow);
        for n in 1..=maxd {
            for op in self.ops {
                let (bb, dd) = if op.fast_planned() { (b.basis, b.dense) } else { (b.basis_slow, b.dense_slow) };
                if n < op.min_len() || n > dd {
                    continue;
                }
                for ty in ["f64", "f32"] {
                    if n <= bb {
                        v.push(format!("basis/{}/{}/{}", op.name(), ty, n));
                    }
                    v.push(format!("dense/{}/{}/{}", op.name(), ty, n));
                }
            }
            if n <= 300 || n % 37 == 0 {
                for op in self.ops {
                    if n >= op.min_len() {
                        v.push(format!("oracle/{}/f64/{}", op.name(), n));
                    }
                }
            }
        }
        let sp = if tier == Tier::Quick { 300 } else { 700 };
        for n in (1..=sp).chain(gen::boundary_thinned(sp, sp, if tier == Tier::Quick { 2100 } else { 8300 })) {
            for op in self.ops {
                if n >= op.min_len() {
                    for ty in ["f64", "f32"] {
                        v.push(format!("special/{}/{}/{}", op.name(), ty, n));
                    }
                }
            }
        }
        for op in self.ops.iter().filter(|o| !o.fast_planned()) {
            for ty in ["f64", "f32"] {
                // products of two indices pass 2^32
                v.push(format!("long/{}/{}/66000", op.name(), ty));
            }
        }
        for op in self.ops {
            let (lo, hi) = if op.fast_planned() { (b.dense, b.bound) } else { (b.dense_slow, b.bound_slow) };
            for n in gen::boundary_lengths(lo, hi) {
                for ty in ["f64", "f32"] {
                    v.push(format!("dense/{}/{}/{}", op.name(), ty, n));
                }
            }
        }
        v
    }
    fn run(&self, case: &str, ctx: &mut Ctx) -> Res {
        let p: Vec<&str> = case.split('/').collect();
        let op = Op::parse(p[1]);
        let n: usize = p[3].parse().unwrap();
        match p[0] {
            "oracle" => {
                let (r, k) = oracle::self_check(op, n);
                ctx.add("reference_values_cross_validated", k);
                ctx.max("reference_selfcheck_eps", r);
                if r > 40.0 {
                    panic!("harness: reference model disagrees with itself at {}: {}", case, r);
                }
                Ok(())
            }
            "basis" => by_type!(p[2], basis(op, n, ctx)),
            "special" => by_type!(p[2], values(op, n, gen::special(n), ctx)),
            "long" => by_type!(p[2], values(op, n, vec![("dense", gen::dense(n, 4))], ctx)),
            _ => by_type!(p[2], dense(op, n, ctx)),
        }
    }
    fn bounds(&self, tier: Tier) -> String {
        let b = b(tier);
        format!(
            "every length n from the minimum: full standard basis for n<={} (fast algorithms; all family entry points and operations for n<=64) / n<={} (direct algorithms), dense+constant+alternating+zero vectors for n<={} / n<={}, boundary lengths (m*2^e+d with m in 1,3,5,7,9,15 and |d|<=2; lengths in common use; prime powers; spread primes, their multiples and products) up to {} / {}; 35 vectors with regularities (periodic, symmetric, sparse, signed, integer ...) for n<={} and lengths near powers of two to {}; direct algorithms at n=66000; f32 and f64; ops {:?}",
            b.basis, b.basis_slow, b.dense, b.dense_slow, b.bound, b.bound_slow, if tier == Tier::Quick { 300 } else { 700 }, if tier == Tier::Quick { 2100 } else { 8300 }, self.ops
        )
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "beyond the listed vectors the transform acts linearly on its buffer (value-dependent behaviour is C18's subject), so the basis determines it up to rounding".into(),
            "rustfft is used by the long-length reference, which is cross-validated against direct sums in this run".into(),
            "error budget: c * eps * |x|_2 * (log2 n + 2) per output, c about 8x the worst ratio measured".into(),
        ]
    }
}

fn run1<T: Sc>(inst: &Inst<T>, op: Op, x: &[f64]) -> Vec<T> {
    let mut buf: Vec<T> = tov(x);
    let mut s = vec![T::of(0.0); inst.scratch_len()];
    inst.call(op, &mut buf, &mut s);
    buf
}

fn basis<T: Sc>(op: Op, n: usize, ctx: &mut Ctx) -> Res {
    let d = oracle::def(op, n);
    let t = d.table();
    let mut want = vec![0.0; n];
    let entries: Vec<Op> = if n <= 64 { family(op).to_vec() } else { vec![op] };
    for e in entries {
        let inst = planned::<T>(e, n);
        if inst.len() != n {
            return Err(format!("plan_{}({}) has length {}", e.name(), n, inst.len()));
        }
        let mut buf = vec![T::of(0.0); n];
        let mut s = vec![T::of(0.0); inst.scratch_len()];
        for j in 0..n {
            buf.iter_mut().for_each(|v| *v = T::of(0.0));
            buf[j] = T::of(1.0);
            inst.call(op, &mut buf, &mut s);
            d.column(&t, j, &mut want);
            let r = compare(&buf, &want, scale(1.0, n), tol(op, n))
                .map_err(|m| format!("{} of unit impulse {} at length {} (planned via plan_{}): {}", op.name(), j, n, e.name(), m))?;
            ctx.max(&format!("err_basis_{}_{}", op.name(), T::NAME), r);
            ctx.states += 1;
            ctx.transitions += 1;
            ctx.traces += 1;
        }
    }
    Ok(())
}

/// vectors with some regularity that an implementation might single out
fn values<T: Sc>(op: Op, n: usize, inputs: Vec<(&str, Vec<f64>)>, ctx: &mut Ctx) -> Res {
    let d = oracle::def(op, n);
    let inst = planned::<T>(op, n);
    let t = if n <= 300 { d.table() } else { vec![] };
    for (name, x) in inputs {
        let top = x.iter().fold(0.0, |a: f64, b| a.max(b.abs()));
        if T::NAME == "f32" && (top > 1e20 || (top > 0.0 && top < 1e-10)) {
            continue;
        }
        let x: Vec<f64> = tov::<T>(&x).iter().map(|v| v.f()).collect();
        let got = run1(&inst, op, &x);
        let want = if n <= 300 { d.direct(&t, &x) } else { d.apply(&x) };
        let r = compare(&got, &want, scale2(&x, &want, n), tol(op, n)).map_err(|m| format!("{} of the vector '{}' at length {}: {}", op.name(), name, n, m))?;
        ctx.max(&format!("err_{}_{}", op.name(), T::NAME), r);
        ctx.states += 1;
        ctx.transitions += 1;
        ctx.traces += 1;
    }
    Ok(())
}

fn dense<T: Sc>(op: Op, n: usize, ctx: &mut Ctx) -> Res {
    let d = oracle::def(op, n);
    let inst = planned::<T>(op, n);
    if inst.len() != n {
        return Err(format!("plan_{}({}) has length {}", op.name(), n, inst.len()));
    }
    let inputs: Vec<(&str, Vec<f64>)> = vec![
        ("zero", vec![0.0; n]),
        ("dense0", gen::dense(n, 0)),
        ("dense1", gen::dense(n, 1)),
        ("constant", vec![1.0; n]),
        ("alternating", gen::alternating(n)),
    ];
    let limit = if n > 10000 { 2 } else { 5 };
    for (name, x) in inputs.iter().take(limit) {
        let got = run1(&inst, op, x);
        let want = d.apply(x);
        let r = compare(&got, &want, scale2(x, &want, n), tol(op, n))
            .map_err(|m| format!("{} of the {} vector at length {}: {}", op.name(), name, n, m))?;
        ctx.max(&format!("err_{}_{}", op.name(), T::NAME), r);
        ctx.states += 1;
        ctx.transitions += 1;
        ctx.traces += 1;
    }
    if n <= 130 {
        // every entry point of the family, both call styles
        let x = gen::dense(n, 2);
        let want = d.apply(&x);
        for e in family(op) {
            let inst = planned::<T>(*e, n);
            let mut buf: Vec<T> = tov(&x);
            inst.call_conv(op, &mut buf);
            compare(&buf, &want, scale2(&x, &want, n), tol(op, n))
                .map_err(|m| format!("{} (planned via plan_{}) at length {}: {}", op.name(), e.name(), n, m))?;
            ctx.states += 1;
            ctx.transitions += 1;
            ctx.traces += 1;
        }
    }
    Ok(())
}
