//! C10: wrong lengths and short scratch always panic.
use crate::by_type;
use crate::engine::*;
use crate::gen;
use crate::inst::*;
use crate::sc::*;
use crate::scal::Wrap;

pub struct C10;
impl Check for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn profiles(&self) -> Vec<Profile> {
        vec![Profile::Release, Profile::Checked]
    }
    fn cases(&self, tier: Tier, prof: Profile) -> Vec<String> {
        let (cross, edge, bound) = match (tier, prof) {
            (Tier::Quick, Profile::Release) => (26, 300, 5000),
            (Tier::Quick, Profile::Checked) => (14, 130, 1100),
            (_, Profile::Release) => (50, 1100, 66000),
            (_, Profile::Checked) => (26, 300, 9000),
        };
        let mut v = vec![];
        for n in 1..=edge {
            for ty in ["f64", "f32", "wrap"] {
                if ty == "wrap" && n > cross {
                    continue;
                }
                for id in inst_ids(n) {
                    if n > 130 && id.contains("naive") {
                        continue;
                    }
                    v.push(format!("{}/{}/{}/{}", if n <= cross { "cross" } else { "edge" }, ty, n, id));
                }
                if n % 2 == 0 {
                    for id in mdct_ids(n) {
                        if n > 130 && id != "planned" {
                            continue;
                        }
                        v.push(format!("{}/{}/{}/{}", if n <= cross { "mcross" } else { "medge" }, ty, n, id));
                    }
                }
            }
        }
        if prof == Profile::Release {
            for n in [6, 11, 24, 50] {
                v.push(format!("wide/f32/{}/x", n));
            }
        }
        for n in gen::boundary_lengths(edge, bound) {
            for f in FAMILIES {
                // direct algorithms check lengths up front; rejected calls cost nothing, valid ones n^2
                if f[0].fast_planned() || n < 2100 {
                    v.push(format!("edge/f64/{}/planned:{}", n, f[0].name()));
                }
            }
            if n % 2 == 0 {
                v.push(format!("medge/f64/{}/planned", n));
            }
        }
        v
    }
    fn run(&self, case: &str, ctx: &mut Ctx) -> Res {
        let p: Vec<&str> = case.split('/').collect();
        let n: usize = p[2].parse().unwrap();
        let m = p[0].starts_with('m');
        let cross = p[0].ends_with("cross");
        if p[0] == "wide" {
            return wide(n, ctx);
        }
        match (p[1], m) {
            ("wrap", false) => reject::<Wrap>(p[3], n, cross, ctx),
            ("wrap", true) => mreject::<Wrap>(p[3], n, cross, ctx),
            (_, false) => by_type!(p[1], reject(p[3], n, cross, ctx)),
            (_, true) => by_type!(p[1], mreject(p[3], n, cross, ctx)),
        }
    }
    fn bounds(&self, tier: Tier) -> String {
        let (a, b, c) = if tier == Tier::Quick { (26, 300, 5000) } else { (50, 1100, 66000) };
        format!("release: cross product of every buffer length 0..=2n+2, 3n, 4n with every scratch length 0..=req+2, 2req+1 for every instance x op at n<={}; edge set for n<={} and boundary lengths to {}; MDCT: cross product over all three buffers; lengths equal to the right ones in their low 8, 16, 20, 24 and 32 bits; convenience calls; 16 alignments; the same with debug assertions at smaller bounds; f32, f64, a user type", a, b, c)
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["length 0 instances are outside the domain".into()]
    }
}
fn reject<T: Sc>(id: &str, n: usize, cross: bool, ctx: &mut Ctx) -> Res {
    let inst = make::<T>(id, n);
    let req = inst.scratch_len();
    let (mut bls, mut sls): (Vec<usize>, Vec<usize>) = if cross {
        let mut b: Vec<usize> = (0..=2 * n + 2).collect();
        b.extend([3 * n, 4 * n, n + 256]);
        let mut s: Vec<usize> = (0..=req + 2).collect();
        s.push(2 * req + 1);
        if cfg!(not(debug_assertions)) {
            // lengths that agree with the right ones in their low bits
            b.extend([n + 65536, 65536 - n, n + (1 << 20), n ^ (1 << 17), 65536]);
            s.extend([req + 256, req + 65536, 65536]);
        }
        (b, s)
    } else {
        (vec![0, 1, n / 2, n - 1, n, n + 1, n + 2, 2 * n, 3 * n, n.next_power_of_two()], vec![0, 1, req / 2, req.saturating_sub(1), req, req + 1, n, n - 1, 2 * n])
    };
    bls.sort();
    bls.dedup();
    sls.sort();
    sls.dedup();
    let mut buf = vec![T::of(0.5); bls[bls.len() - 1] + 16];
    let mut s = vec![T::of(0.25); sls[sls.len() - 1] + 16];
    for &op in inst.ops() {
        // right lengths are accepted wherever the slices lie
        for o in 0..16 {
            for (ob, os) in [(o, 0), (0, o), (o, o)] {
                if n <= 130 || o < 3 {
                    let ok = catch(|| inst.call(op, &mut buf[ob..ob + n], &mut s[os..os + req]));
                    verdict(ok, true, || format!("{} ({}) of length {} with buffer {} and scratch {} ({} and {} elements into their blocks)", op.name(), id, n, n, req, ob, os), ctx)?;
                    buf[..n + 16].iter_mut().for_each(|v| *v = T::of(0.5));
                }
            }
        }
        for &bl in &bls {
            for &sl in &sls {
                let (ob, os) = ((bl + 3 * sl) % 5, (2 * bl + sl) % 7);
                let ok = catch(|| inst.call(op, &mut buf[ob..ob + bl], &mut s[os..os + sl]));
                verdict(ok, bl == n && sl >= req, || format!("{} ({}) of length {} with buffer {} and scratch {} (required {})", op.name(), id, n, bl, sl, req), ctx)?;
                if bl == n {
                    buf[..n + 5].iter_mut().for_each(|v| *v = T::of(0.5));
                }
            }
            let ok = catch(|| inst.call_conv(op, &mut buf[..bl]));
            verdict(ok, bl == n, || format!("{} ({}) of length {} with buffer {} and its own scratch", op.name(), id, n, bl), ctx)?;
        }
        buf[..n].iter_mut().for_each(|v| *v = T::of(0.5));
        ctx.states += 1;
    }
    Ok(())
}
extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> i32;
}
/// Lengths that agree with the right one in their low 24 and 32 bits (address space only: no call should touch more
/// than the first few elements).
fn wide(n: usize, ctx: &mut Ctx) -> Res {
    let top = (1usize << 32) + n;
    let p = unsafe { mmap(std::ptr::null_mut(), 4 * top, 3, 0x4022, -1, 0) };
    if p as isize == -1 {
        ctx.add("address_space_refused", 1);
        return Ok(());
    }
    let big: &mut [f32] = unsafe { std::slice::from_raw_parts_mut(p as *mut f32, top) };
    let mut ids: Vec<String> = inst_ids(n);
    ids.retain(|i| !i.contains("split"));
    let mut go = || -> Res {
        for id in &ids {
            let inst = make::<f32>(id, n);
            let mut s = vec![0.0; inst.scratch_len()];
            for &op in inst.ops() {
                for bl in [n + (1 << 24), 1 << 32, top] {
                    let r = catch(|| inst.call(op, &mut big[..bl], &mut s));
                    verdict(r, false, || format!("{} ({}) of length {} with buffer {}", op.name(), id, n, bl), ctx)?;
                    let r = catch(|| inst.call_conv(op, &mut big[..bl]));
                    verdict(r, false, || format!("{} ({}) of length {} with buffer {} and its own scratch", op.name(), id, n, bl), ctx)?;
                }
                if s.len() > 0 {
                    // scratch that is far longer than needed is fine
                    let mut b = vec![0.5; n];
                    let r = catch(|| inst.call(op, &mut b, &mut big[..1 << 32]));
                    verdict(r, true, || format!("{} ({}) of length {} with scratch {}", op.name(), id, n, 1u64 << 32), ctx)?;
                }
            }
            ctx.states += 1;
        }
        if n % 2 == 0 {
            for id in mdct_ids(n) {
                let inst = make_mdct::<f32>(&id, n, vec![0.5; 2 * n]);
                let mut s = vec![0.0; inst.get_scratch_len()];
                let x = vec![0.5; n];
                let mut o = vec![0.5; n];
                for bl in [n + (1 << 24), top] {
                    let r = catch(|| inst.process_mdct_with_scratch(&x, &x, &mut big[..bl], &mut s));
                    verdict(r, false, || format!("MDCT ({}) of length {} with output {}", id, n, bl), ctx)?;
                    let r = catch(|| inst.process_mdct_with_scratch(&big[..bl], &x, &mut o, &mut s));
                    verdict(r, false, || format!("MDCT ({}) of length {} with input_a {}", id, n, bl), ctx)?;
                    let r = catch(|| inst.process_mdct_with_scratch(&x, &big[..bl], &mut o, &mut s));
                    verdict(r, false, || format!("MDCT ({}) of length {} with input_b {}", id, n, bl), ctx)?;
                    let r = catch(|| inst.process_imdct_with_scratch(&big[..bl], &mut o, &mut x.clone(), &mut s));
                    verdict(r, false, || format!("IMDCT ({}) of length {} with input {}", id, n, bl), ctx)?;
                    let r = catch(|| inst.process_imdct_with_scratch(&x, &mut big[..bl], &mut o, &mut s));
                    verdict(r, false, || format!("IMDCT ({}) of length {} with output_a {}", id, n, bl), ctx)?;
                    let r = catch(|| inst.process_imdct_with_scratch(&x, &mut o, &mut big[..bl], &mut s));
                    verdict(r, false, || format!("IMDCT ({}) of length {} with output_b {}", id, n, bl), ctx)?;
                }
                ctx.states += 1;
            }
        }
        Ok(())
    };
    let r = go();
    unsafe { munmap(p, 4 * top) };
    r
}
fn verdict(r: Result<(), String>, want_ok: bool, what: impl Fn() -> String, ctx: &mut Ctx) -> Res {
    ctx.transitions += 1;
    ctx.traces += 1;
    match (r, want_ok) {
        (Ok(()), false) => {
            ctx.add("x", 0);
            Err(format!("{} returned normally instead of panicking", what()))
        }
        (Err(p), true) => Err(format!("{} panicked: {}", what(), p)),
        (Ok(()), true) => {
            ctx.add("accepted_calls", 1);
            Ok(())
        }
        (Err(_), false) => {
            ctx.add("rejected_calls", 1);
            Ok(())
        }
    }
}
fn mreject<T: Sc>(id: &str, n: usize, cross: bool, ctx: &mut Ctx) -> Res {
    let inst = make_mdct::<T>(id, n, vec![T::of(0.5); 2 * n]);
    let req = inst.get_scratch_len();
    let mut ls = if cross && n <= 8 { (0..=2 * n + 1).collect::<Vec<_>>() } else { vec![0, 1, n / 2, n - 1, n, n + 1, 2 * n] };
    let low = [n + 256, n + 65536];
    if cross {
        ls.extend(&low[..if n <= 8 { 0 } else { 2 }]);
    }
    ls.sort();
    ls.dedup();
    let mut ss = vec![0, req.saturating_sub(1), req, req + 1, n];
    if cross {
        ss.extend(0..=req + 1);
    }
    ss.extend([req + 256, req + 65536]);
    ss.sort();
    ss.dedup();
    let top = 65536 + n + 1;
    let x = vec![T::of(0.5); top.max(2 * n + 1)];
    let mut o1 = vec![T::of(0.0); top.max(2 * n + 1)];
    let mut o2 = vec![T::of(0.0); top.max(2 * n + 1)];
    let mut s = vec![T::of(0.25); ss[ss.len() - 1]];
    // right lengths are accepted wherever the slices lie
    if n <= 130 {
        let mut t = vec![T::of(0.5); n + 16];
        let mut sc = vec![T::of(0.5); req + 16];
        for o in 0..16 {
            for m5 in [0b1000, 0b0100, 0b0010, 0b0001, 0b1111, 0b1110] {
                let at = |bit: usize| if m5 >> bit & 1 == 1 { o } else { 0 };
                let (x1, x2, x3, x4) = (at(0), at(1), at(2), at(3));
                let r = catch(|| inst.process_mdct_with_scratch(&x[x1..x1 + n], &t[x2..x2 + n], &mut o1[x3..x3 + n], &mut sc[x4..x4 + req]));
                verdict(r, true, || format!("MDCT ({}) of length {} with slices {}, {}, {} and scratch {} elements into their blocks", id, n, x1, x2, x3, x4), ctx)?;
                let r = catch(|| inst.process_imdct_with_scratch(&x[x1..x1 + n], &mut t[x2..x2 + n], &mut o1[x3..x3 + n], &mut sc[x4..x4 + req]));
                verdict(r, true, || format!("IMDCT ({}) of length {} with slices {}, {}, {} and scratch {} elements into their blocks", id, n, x1, x2, x3, x4), ctx)?;
                t.iter_mut().chain(o1[..n + 16].iter_mut()).chain(sc.iter_mut()).for_each(|v| *v = T::of(0.5));
            }
        }
    }
    let mut one = |a: usize, b: usize, c: usize, sl: usize, ctx: &mut Ctx| -> Res {
        let good = a == n && b == n && c == n && sl >= req;
        let r = catch(|| inst.process_mdct_with_scratch(&x[..a], &x[..b], &mut o1[..c], &mut s[..sl]));
        verdict(r, good, || format!("MDCT ({}) of length {} with input_a {}, input_b {}, output {}, scratch {} (required {})", id, n, a, b, c, sl, req), ctx)?;
        let r = catch(|| inst.process_imdct_with_scratch(&x[..a], &mut o1[..b], &mut o2[..c], &mut s[..sl]));
        verdict(r, good, || format!("IMDCT ({}) of length {} with input {}, output_a {}, output_b {}, scratch {} (required {})", id, n, a, b, c, sl, req), ctx)
    };
    // every combination of the three lengths, with good scratch, and with short scratch
    for &a in &ls {
        for &b in &ls {
            for &c in &ls {
                one(a, b, c, req, ctx)?;
                if req > 0 && cross && n <= 8 {
                    one(a, b, c, req - 1, ctx)?;
                }
            }
        }
    }
    for l in low {
        for (a, b, c) in [(l, n, n), (n, l, n), (n, n, l), (l, l, n), (l, n, l), (n, l, l), (l, l, l)] {
            one(a, b, c, req, ctx)?;
        }
    }
    for &sl in &ss {
        one(n, n, n, sl, ctx)?;
        one(n, n, n + 1, sl, ctx)?;
        one(n, n - 1, n, sl, ctx)?;
        one(n - 1, n + 1, n, sl, ctx)?;
    }
    ctx.states += 1;
    Ok(())
}
