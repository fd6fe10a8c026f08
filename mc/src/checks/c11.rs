//! C11: memory confinement.  Buffers and scratch between inaccessible pages, inputs read-only, every heap block
//! of the library against a guard page; debug build with checked preconditions; Miri.
use crate::alloc;
use crate::engine::*;
use crate::gen;
use crate::inst::*;
use crate::scal::Wrap;
use rustdct::DctNum;
use std::process::Command;

pub struct C11;
struct B {
    all: usize,
    bound: usize,
    other: usize,
}
fn b(t: Tier, p: Profile) -> B {
    match (t, p) {
        (Tier::Quick, Profile::Release) => B { all: 260, bound: 9000, other: 40 },
        (Tier::Quick, Profile::Checked) => B { all: 130, bound: 2100, other: 20 },
        (_, Profile::Release) => B { all: 1100, bound: 66000, other: 130 },
        (_, Profile::Checked) => B { all: 520, bound: 9000, other: 66 },
    }
}
impl Check for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn profiles(&self) -> Vec<Profile> {
        vec![Profile::Release, Profile::Checked]
    }
    fn cases(&self, tier: Tier, prof: Profile) -> Vec<String> {
        let b = b(tier, prof);
        let mut v = vec![];
        for n in 1..=b.all {
            let mut ids = inst_ids(n);
            if n % 2 == 0 {
                ids.extend(mdct_ids(n).into_iter().map(|s| format!("mdct:{}", s)));
            }
            for id in ids {
                if (n > 130 && id.contains("naive")) || (n > 600 && !id.contains("planned")) {
                    continue;
                }
                for ty in ["f64", "f32", "wrap"] {
                    if n > b.other && ty == "wrap" {
                        continue;
                    }
                    v.push(format!("{}/{}/{}", ty, n, id));
                }
            }
        }
        for n in gen::boundary_lengths(b.all, b.bound) {
            for f in FAMILIES {
                if f[0].fast_planned() {
                    for ty in ["f64", "f32"] {
                        v.push(format!("{}/{}/planned:{}", ty, n, f[0].name()));
                    }
                }
            }
            if n.is_power_of_two() {
                v.push(format!("f32/{}/t23splitfft", n));
            }
            if n % 2 == 0 {
                v.push(format!("f32/{}/mdct:planned", n));
            }
        }
        v
    }
    fn run(&self, case: &str, ctx: &mut Ctx) -> Res {
        let p: Vec<&str> = case.split('/').collect();
        let n: usize = p[1].parse().unwrap();
        match p[0] {
            "f64" => guard::<f64>(p[2], n, &|v| v, ctx),
            "f32" => guard::<f32>(p[2], n, &|v| v as f32, ctx),
            _ => guard::<Wrap>(p[2], n, &Wrap::of, ctx),
        }
    }
    fn bounds(&self, tier: Tier) -> String {
        let (r, c) = (b(tier, Profile::Release), b(tier, Profile::Checked));
        format!("every instance x op and MDCT/IMDCT at every n<={} (release) and n<={} (debug assertions, overflow checks, checked unchecked-indexing), boundary lengths to {}; slices flush against inaccessible pages on either side, MDCT inputs in read-only pages, library heap blocks flush against guard pages and never reused; valid calls (exact, surplus and odd-surplus scratch), and rejected ones (short, long and empty buffers, short scratch); f32, f64, a user type for n<={}; Miri over every algorithm x op at small n (see notes)", r.all, c.all, r.bound, r.other)
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "guard pages catch accesses past the end of a block (and before its start when it starts a page); accesses that stay inside the same block are caught by the debug build and by Miri only".into(),
        ]
    }
    fn extra(&self, tier: Tier) -> Option<Extra> {
        let (n, types, secs) = if tier == Tier::Quick { (8, 3, 240) } else { (20, 8, 720) };
        Some(miri("calls", &[n, types], 8, secs, "every algorithm x operation, valid and rejected calls"))
    }
}
/// Run the driver under Miri in shards.
pub fn miri(mode: &str, args: &[usize], shards: usize, secs: u64, what: &str) -> Extra {
    let vd = verif_dir();
    let kids: Vec<_> = (0..shards)
        .map(|s| {
            let mut a = vec![mode.to_string(), s.to_string(), shards.to_string()];
            a.extend(args.iter().map(|v| v.to_string()));
            let mut c = Command::new("timeout");
            c.args(["-k", "5", &secs.to_string(), "cargo", "+nightly", "miri", "run", "--release", "--offline", "--locked", "--quiet", "--manifest-path"])
                .arg(vd.join("mc/Cargo.toml"))
                .args(["--bin", "ubdrive", "--"])
                .args(&a)
                .env("CARGO_TARGET_DIR", vd.join("target/miri"))
                .env("CARGO_TERM_COLOR", "never")
                .env("MIRIFLAGS", "-Zmiri-disable-isolation")
                .env_remove("RUSTFLAGS")
                .stdin(std::process::Stdio::null());
            std::thread::spawn(move || c.output())
        })
        .collect();
    let mut ctx = Ctx::default();
    let mut note = String::new();
    let mut violation = None;
    let mut complete = 0;
    for (s, k) in kids.into_iter().enumerate() {
        let out = match k.join() {
            Ok(Ok(o)) => o,
            _ => {
                note += &format!("shard {} could not start; ", s);
                continue;
            }
        };
        let (so, se) = (String::from_utf8_lossy(&out.stdout).to_string(), String::from_utf8_lossy(&out.stderr).to_string());
        if let Some(i) = se.find("error: Undefined Behavior") {
            let msg: String = se[i..].chars().take(1500).collect();
            violation.get_or_insert((format!("miri:{}:{}/{}", mode, s, shards), format!("Miri: {}", msg)));
            continue;
        }
        match so.lines().find_map(|l| l.strip_prefix("UBDRIVE-DONE ")).and_then(|x| x.trim().parse::<u64>().ok()) {
            Some(n) => {
                complete += 1;
                ctx.states += n;
                ctx.transitions += n;
                ctx.add("miri_instances", n);
            }
            None => {
                let tail: String = se.lines().rev().take(2).collect::<Vec<_>>().join(" | ");
                note += &format!("shard {} not finished ({:?}: {}); ", s, out.status.code(), tail.chars().take(300).collect::<String>());
            }
        }
    }
    Extra { ctx, note: format!("Miri ({}, n<={}, {}): {} of {} shards finished without undefined behaviour. {}", mode, args[0], what, complete, shards, note), violation, error: None }
}

const SLACK: usize = 64;
/// A slice of `len` elements of T inside its own mapping, flush with the end or the start of the accessible part.
struct G<T> {
    first: *mut u8,
    body: usize,
    p: *mut T,
    len: usize,
}
impl<T: Copy> G<T> {
    fn new(x: &[T], at_end: bool) -> G<T> {
        let sz = std::mem::size_of::<T>();
        unsafe {
            let (first, body) = alloc::map_guarded(x.len() * sz);
            if first.is_null() {
                panic!("harness: mmap failed");
            }
            let off = if at_end { (body - x.len() * sz) & !(std::mem::align_of::<T>() - 1) } else { 0 };
            let p = first.add(off) as *mut T;
            std::ptr::copy_nonoverlapping(x.as_ptr(), p, x.len());
            G { first, body, p, len: x.len() }
        }
    }
    /// The same with SLACK bytes of canary between the slice and the inaccessible page, for calls that are to be
    /// rejected: rustc's vectoriser may widen the last, bounds-checked load of a loop that is about to panic by up to
    /// a vector register (see DESIGN.md), which is not an access the library makes.
    fn slack(x: &[T], at_end: bool) -> G<T> {
        let sz = std::mem::size_of::<T>();
        unsafe {
            let (first, body) = alloc::map_guarded(x.len() * sz + SLACK);
            if first.is_null() {
                panic!("harness: mmap failed");
            }
            std::ptr::write_bytes(first, 0xA5, body);
            let off = if at_end { (body - x.len() * sz - SLACK) & !(std::mem::align_of::<T>() - 1) } else { 0 };
            let p = first.add(off) as *mut T;
            std::ptr::copy_nonoverlapping(x.as_ptr(), p, x.len());
            G { first, body, p, len: x.len() }
        }
    }
    /// Are all bytes outside the slice still canaries?
    fn intact(&self) -> bool {
        unsafe {
            let all = std::slice::from_raw_parts(self.first, self.body);
            let off = self.p as usize - self.first as usize;
            all[..off].iter().all(|&b| b == 0xA5) && all[off + self.len * std::mem::size_of::<T>()..].iter().all(|&b| b == 0xA5)
        }
    }
    fn readonly(self) -> G<T> {
        unsafe { alloc::protect(self.first, self.body, false) };
        self
    }
    fn m(&mut self) -> &mut [T] {
        unsafe { std::slice::from_raw_parts_mut(self.p, self.len) }
    }
    fn r(&self) -> &[T] {
        unsafe { std::slice::from_raw_parts(self.p, self.len) }
    }
}
impl<T> Drop for G<T> {
    fn drop(&mut self) {
        unsafe { alloc::unmap_guarded(self.first, self.body) }
    }
}
fn same<T: DctNum>(a: &[T], b: &[T]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y)
}
fn guard<T: DctNum>(id: &str, n: usize, lift: &dyn Fn(f64) -> T, ctx: &mut Ctx) -> Res {
    let x: Vec<T> = gen::dense(n, 170).into_iter().map(lift).collect();
    if let Some(mid) = id.strip_prefix("mdct:") {
        let w: Vec<T> = gen::dense(2 * n, 171).into_iter().map(lift).collect();
        let inst = alloc::with_fence(|| make_mdct::<T>(mid, n, w.clone()));
        let req = inst.get_scratch_len();
        let mut want = vec![lift(0.0); n];
        inst.process_mdct_with_scratch(&x, &x, &mut want, &mut vec![lift(0.0); req]);
        for at_end in [true, false] {
            let ga = G::new(&x, at_end).readonly();
            let gb = G::new(&x, at_end).readonly();
            for extra in [0usize, 1, 2] {
                let mut o = G::new(&vec![lift(0.5); n], at_end);
                let mut o2 = G::new(&vec![lift(0.5); n], at_end);
                let mut s = G::new(&vec![lift(0.5); req + extra], at_end);
                alloc::with_fence(|| inst.process_mdct_with_scratch(ga.r(), gb.r(), o.m(), s.m()));
                if !same(o.r(), &want) {
                    return Err(format!("MDCT ({}) at n={} gives other results on isolated memory", id, n));
                }
                alloc::with_fence(|| inst.process_imdct_with_scratch(ga.r(), o.m(), o2.m(), s.m()));
                ctx.transitions += 2;
                ctx.traces += 2;
            }
            for (la, lb, lo, ls) in [(n - 1, n, n, 0), (n, n - 1, n, 0), (n, n, n - 1, 0), (n, n, n, 1), (n + 1, n, n, 0), (n, n + 1, n, 0), (n, n, n + 1, 0), (0, 0, 0, 0), (n / 2, n / 2, n / 2, 0), (n + 1, n - 1, n, 0), (n - 1, n + 1, n, 0)] {
                let big = vec![lift(0.5); n + 1];
                let (a, mut b2) = (G::slack(&big[..la], at_end), G::slack(&big[..lb], at_end));
                let mut o = G::slack(&big[..lo], at_end);
                let mut s = G::slack(&vec![lift(0.5); req.saturating_sub(ls)], at_end);
                let _ = catch(|| inst.process_mdct_with_scratch(a.r(), b2.r(), o.m(), s.m()));
                let _ = catch(|| inst.process_imdct_with_scratch(a.r(), b2.m(), o.m(), s.m()));
                if !(a.intact() && b2.intact() && o.intact() && s.intact()) {
                    return Err(format!("MDCT/IMDCT ({}) at n={} with slices of {}, {}, {} wrote outside them", id, n, la, lb, lo));
                }
                ctx.transitions += 2;
            }
            ctx.states += 1;
        }
        return Ok(());
    }
    // constructed with every heap block fenced
    let inst = alloc::with_fence(|| make::<T>(id, n));
    let req = inst.scratch_len();
    let slow = n > 200;
    for &op in inst.ops() {
        let mut want = x.clone();
        inst.call(op, &mut want, &mut vec![lift(0.0); req]);
        for at_end in [true, false] {
            // the largest scratch first; sub-slices of it keep one edge on the guard
            let extras: &[usize] = if slow { &[0] } else { &[0, 1, 3] };
            let mut gb = G::new(&x, at_end);
            for &e in extras {
                let mut s = G::new(&vec![lift(0.5); req + e], at_end);
                gb.m().copy_from_slice(&x);
                alloc::with_fence(|| inst.call(op, gb.m(), s.m()));
                if !same(gb.r(), &want) {
                    return Err(format!("{} ({}) at n={} gives other results on isolated memory", op.name(), id, n));
                }
                ctx.transitions += 1;
                ctx.traces += 1;
            }
            gb.m().copy_from_slice(&x);
            alloc::with_fence(|| inst.call_conv(op, gb.m()));
            if !same(gb.r(), &want) {
                return Err(format!("{} ({}, convenience call) at n={} gives other results on isolated memory", op.name(), id, n));
            }
            ctx.transitions += 1;
            ctx.traces += 1;
            // rejected ones
            for bl in [0, 1, n / 2, n.saturating_sub(1), n + 1, n + 2, 2 * n, 2 * n + 1] {
                if bl != n {
                    let mut wrong = G::slack(&vec![lift(0.5); bl], at_end);
                    let mut s = G::slack(&vec![lift(0.5); req], at_end);
                    let _ = catch(|| inst.call(op, wrong.m(), s.m()));
                    let _ = catch(|| inst.call_conv(op, wrong.m()));
                    ctx.transitions += 2;
                    if !(wrong.intact() && s.intact()) {
                        return Err(format!("{} ({}) at n={} with a buffer of {} wrote outside its slices", op.name(), id, n, bl));
                    }
                }
            }
            for sl in [0, 1, req / 2, req.saturating_sub(2), req.saturating_sub(1)] {
                if sl < req {
                    let mut right = G::slack(&x, at_end);
                    let mut s = G::slack(&vec![lift(0.5); sl], at_end);
                    let _ = catch(|| inst.call(op, right.m(), s.m()));
                    ctx.transitions += 1;
                    if !(right.intact() && s.intact()) {
                        return Err(format!("{} ({}) at n={} with a scratch of {} wrote outside its slices", op.name(), id, n, sl));
                    }
                }
            }
            ctx.states += 1;
        }
    }
    Ok(())
}
