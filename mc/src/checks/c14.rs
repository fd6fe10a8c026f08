//! C14: all interleavings, at the granularity of arithmetic operations, up to a preemption bound.
use crate::by_type;
use crate::engine::*;
use crate::gen;
use crate::inst::*;
use crate::sc::*;
use crate::sched::*;
use crate::win;
use rustdct::mdct::Mdct;
use rustdct::DctPlanner;
use std::sync::{Arc, Mutex};

pub struct C14;

/// what one thread does
#[derive(Clone)]
enum Act<T: Sc> {
    Call(Inst<T>, Op, usize),
    Conv(Inst<T>, Op, usize),
    Fwd(Arc<dyn Mdct<T>>, usize),
    Inv(Arc<dyn Mdct<T>>, usize),
    /// plans on a planner of its own, then calls
    Plan(Op, usize, usize),
}
impl<T: Sc> Act<T> {
    fn name(&self) -> String {
        match self {
            Act::Call(i, o, s) => format!("{}(n={}, input {})", o.name(), i.len(), s),
            Act::Conv(i, o, s) => format!("{}-convenience(n={}, input {})", o.name(), i.len(), s),
            Act::Fwd(m, s) => format!("mdct(n={}, input {})", m.len(), s),
            Act::Inv(m, s) => format!("imdct(n={}, input {})", m.len(), s),
            Act::Plan(o, n, s) => format!("plan+{}(n={}, input {})", o.name(), n, s),
        }
    }
    /// `step`: every instruction of the library code is a scheduling point
    fn go(&self, step: bool) -> Vec<u64> {
        fn on<R>(step: bool, f: impl FnOnce() -> R) -> R {
            if step {
                stepped(f)
            } else {
                f()
            }
        }
        let run = |i: &Inst<T>, o: Op, seed: usize, conv: bool| {
            let mut b: Vec<T> = tov(&gen::dense(i.len(), 130 + seed as u64));
            if conv {
                on(step, || i.call_conv(o, &mut b));
            } else {
                let mut s = vec![T::of(0.75 + seed as f64); i.scratch_len()];
                on(step, || i.call(o, &mut b, &mut s));
            }
            bitsv(&b)
        };
        match self {
            Act::Call(i, o, s) => run(i, *o, *s, false),
            Act::Conv(i, o, s) => run(i, *o, *s, true),
            Act::Plan(o, n, s) => run(&on(step, || planned::<T>(*o, *n)), *o, *s, false),
            Act::Fwd(m, s) => {
                let n = m.len();
                let x: Vec<T> = tov(&gen::dense(2 * n, 140 + *s as u64));
                let mut o = vec![T::of(9.0); n];
                let mut sc = vec![T::of(0.75); m.get_scratch_len()];
                on(step, || m.process_mdct_with_scratch(&x[..n], &x[n..], &mut o, &mut sc));
                bitsv(&o)
            }
            Act::Inv(m, s) => {
                let n = m.len();
                let x: Vec<T> = tov(&gen::dense(3 * n, 150 + *s as u64));
                let mut a = x[n..2 * n].to_vec();
                let mut b = x[2 * n..].to_vec();
                let mut sc = vec![T::of(0.75); m.get_scratch_len()];
                on(step, || m.process_imdct_with_scratch(&x[..n], &mut a, &mut b, &mut sc));
                a.extend(b);
                bitsv(&a)
            }
        }
    }
}
/// the actions a configuration offers (all on shared instances)
fn actions<T: Sc>(conf: &str) -> Vec<Act<T>> {
    let (id, n) = conf.rsplit_once('@').unwrap();
    let n: usize = n.parse().unwrap();
    let wnd = || win::values::<T>("asym", 2 * n);
    if id == "chain" {
        // instances of one planner that share inner components
        let mut p = DctPlanner::<T>::new();
        let m = p.plan_mdct(n, |_| wnd());
        let d4 = Inst::T4(p.plan_dct4(n));
        let d2 = Inst::T23(p.plan_dct2(n / 2));
        let d2q = Inst::T23(p.plan_dct2(n));
        return vec![Act::Fwd(m.clone(), 0), Act::Inv(m, 1), Act::Call(d4, Op::Dst4, 2), Act::Call(d2, Op::Dct3, 3), Act::Call(d2q, Op::Dst2, 4)];
    }
    if id == "plan" {
        let i = planned::<T>(Op::Dct2, n);
        return vec![Act::Call(i, Op::Dct2, 0), Act::Plan(Op::Dct2, n, 1), Act::Plan(Op::Dct4, n, 2), Act::Plan(Op::Dst1, n, 3), Act::Plan(Op::Dct5, n, 4)];
    }
    if let Some(m) = id.strip_prefix("mdct:") {
        let m = make_mdct::<T>(m, n, wnd());
        return vec![Act::Fwd(m.clone(), 0), Act::Fwd(m.clone(), 1), Act::Inv(m.clone(), 2), Act::Inv(m, 3)];
    }
    let i = make::<T>(id, n);
    let mut v = vec![];
    let mut k = 0;
    for &o in i.ops() {
        v.push(Act::Call(i.clone(), o, k));
        k += 1;
    }
    // same operation twice, and once by the convenience call
    let o = i.ops()[0];
    v.push(Act::Call(i.clone(), o, k));
    v.push(Act::Conv(i.clone(), i.ops()[i.ops().len() - 1], k + 1));
    v
}
fn confs(tier: Tier) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let lens: &[usize] = if tier == Tier::Quick { &[2, 3, 4, 5, 6, 8] } else { &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16] };
    for &n in lens {
        for a in direct_algos(n) {
            v.push(format!("{}@{}", a, n));
        }
        for m in mdct_ids(n) {
            if n % 2 == 0 {
                v.push(format!("mdct:{}@{}", m, n));
            }
        }
        if n >= 4 && n % 2 == 0 {
            v.push(format!("chain@{}", n));
        }
        if n >= 2 {
            v.push(format!("plan@{}", n));
        }
    }
    for (id, ns) in [
        ("planned:dct1", vec![10, 12]), ("planned:dst1", vec![25]), ("planned:dct2", vec![16, 32, 64, 10]), ("planned:dct4", vec![16, 32, 7]),
        ("planned:dst6", vec![45]), ("planned:dct6", vec![9]), ("t23butterfly", vec![16]), ("chain", vec![16, 32]), ("mdct:planned", vec![16]),
    ] {
        for n in ns {
            let c = format!("{}@{}", id, n);
            if !v.contains(&c) {
                v.push(c);
            }
        }
    }
    v
}
fn limit(tier: Tier) -> u64 {
    if tier == Tier::Quick { 4000 } else { 150000 }
}
impl Check for C14 {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn case_timeout(&self) -> u64 {
        if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { 600 } else { 200 }
    }
    fn cases(&self, tier: Tier, _p: Profile) -> Vec<String> {
        let mut v = vec![];
        let l = limit(tier);
        for c in confs(tier) {
            let k = actions::<f32>(&c).len();
            for i in 0..k {
                for j in i + 1..k {
                    v.push(format!("two/{}/{},{}/{}", c, i, j, l));
                }
            }
            v.push(format!("three/{}/0,{},{}/{}", c, k / 2, k - 1, l));
        }
        let (single, double, every) = if tier == Tier::Quick { (3, 2, 6) } else { (8, 5, 20) };
        for c in confs(tier) {
            let n: usize = c.rsplit_once('@').unwrap().1.parse().unwrap();
            let plan = c.starts_with("plan@");
            let k = actions::<f32>(&c).len();
            for i in 0..k {
                for j in i + 1..k {
                    for ty in ["f64", "f32"] {
                        if n <= single && !plan {
                            v.push(format!("insn1/{}/{},{}/{}", c, i, j, ty));
                        }
                        if n <= double && !plan {
                            let lim = if tier == Tier::Quick { 3000 } else { 60000 };
                            v.push(format!("insn2/{}/{},{}/{}/{}", c, i, j, ty, lim));
                            v.push(format!("insn2/{}/{},{}/{}/{}", c, j, i, ty, lim));
                        }
                        if n <= every && (!plan || n == 2 || n == 5) {
                            v.push(format!("insnall/{}/{},{}/{}", c, i, j, ty));
                            v.push(format!("insnall/{}/{},{}/{}", c, j, i, ty));
                        }
                    }
                }
            }
        }
        // longer transforms, where only every k-th operation is a scheduling point
        let (fast, direct, pts) = if tier == Tier::Quick {
            (vec![24usize, 25, 60, 100, 101, 128, 256, 257, 500, 512, 1000, 1024, 2048], vec![13usize, 17, 24, 32, 33, 64, 65, 100], 150)
        } else {
            ((10..140).chain([200, 256, 257, 500, 512, 600, 1000, 1009, 1024, 2000, 2048, 4096, 5000, 8192]).collect(), (10..70).chain([100, 128, 129, 200, 257, 300]).collect(), 600)
        };
        let mut c: Vec<String> = vec![];
        for f in FAMILIES {
            for &n in if f[0].fast_planned() { &fast } else { &direct } {
                c.push(format!("planned:{}@{}", f[0].name(), n));
            }
        }
        for &n in &fast {
            if n % 2 == 0 {
                c.push(format!("mdct:planned@{}", n));
                c.push(format!("chain@{}", n));
            }
        }
        for c in c {
            let k = actions::<f32>(&c).len();
            for i in 0..k {
                v.push(format!("grid/{}/{},{}/{}", c, i, (i + 1) % k, pts));
                if k > 2 && (!c.starts_with("chain") || i % 2 == 0) {
                    v.push(format!("grid/{}/{},{}/{}", c, i, (i + 2) % k, pts));
                }
            }
        }
        v
    }
    fn run(&self, case: &str, ctx: &mut Ctx) -> Res {
        let p: Vec<&str> = case.split('/').collect();
        let who: Vec<usize> = p[2].split(',').map(|s| s.parse().unwrap()).collect();
        if p[0] == "grid" {
            return grid(p[1], who[0], who[1], p[3].parse().unwrap(), ctx);
        }
        if p[0].starts_with("insn") {
            let lim = p.get(4).map_or(0, |s| s.parse().unwrap());
            return by_type!(p[3], instructions(p[0], p[1], who[0], who[1], lim, ctx));
        }
        explore(p[1], &who, p[3].parse().unwrap(), ctx)
    }
    fn bounds(&self, tier: Tier) -> String {
        let (single, double, every) = if tier == Tier::Quick { (3, 2, 6) } else { (8, 5, 20) };
        format!(
            "(a) scheduling points at every arithmetic operation and constant conversion of a user-defined element type: every algorithm and MDCT at small lengths, planner-made chains sharing components to n=64, every pair of operations on shared instances (two threads) and triples (three threads); the preemption bound is the largest of 1, 2, 3 whose full schedule set for the configuration has at most {} members (never below 1), and every schedule in it is run on a shared warm instance set and, for bound 1, also on freshly planned ones. (b) scheduling points at every machine instruction, f32 and f64: one preemption at every instruction of either call, on fresh instances, n<={}; two preemptions n<={} where the product of the instruction counts allows; a complete second call after every single instruction of the first, n<={} (including planning on separate planners). (c) longer transforms (planned families, MDCT and chains at selected lengths to {}): thread 0 stopped at some {} evenly spread operations, a complete or a twice interrupted second call at each. (d) Miri's data-race detector on two free-running threads per instance",
            limit(tier), single, double, every,
            if tier == Tier::Quick { 2048 } else { 8192 }, if tier == Tier::Quick { 150 } else { 600 }
        )
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["(a) to (c) explore sequentially consistent interleavings on this machine; weaker memory orders are covered by (d) only, on the executions Miri chose".into()]
    }
    fn extra(&self, tier: Tier) -> Option<Extra> {
        let (n, secs) = if tier == Tier::Quick { (6, 240) } else { (16, 700) };
        Some(crate::checks::c11::miri("race", &[n, 0], 4, secs, "two threads on every shared instance"))
    }
}
/// enumerate schedules with at most k preemptions; threads t have a[t] scheduling points
fn schedules(a: &[i64], k: usize, f: &mut dyn FnMut(&[(usize, i64)]) -> Res) -> Res {
    fn go(cur: usize, rem: &mut Vec<i64>, fin: &mut Vec<bool>, started: &mut Vec<bool>, k: usize, segs: &mut Vec<(usize, i64)>, f: &mut dyn FnMut(&[(usize, i64)]) -> Res) -> Res {
        // run to completion
        let n = rem.len();
        segs.push((cur, -1));
        fin[cur] = true;
        if fin.iter().all(|x| *x) {
            f(segs)?;
        } else {
            for u in 0..n {
                if !fin[u] {
                    go(u, rem, fin, started, k, segs, f)?;
                }
            }
        }
        fin[cur] = false;
        segs.pop();
        if k > 0 && (0..n).any(|u| u != cur && !fin[u]) {
            let lo = if started[cur] { 1 } else { 0 };
            let (r0, s0) = (rem[cur], started[cur]);
            for p in lo..r0 {
                for u in 0..n {
                    if u != cur && !fin[u] {
                        segs.push((cur, p));
                        rem[cur] = r0 - p;
                        started[cur] = true;
                        go(u, rem, fin, started, k - 1, segs, f)?;
                        segs.pop();
                        rem[cur] = r0;
                        started[cur] = s0;
                    }
                }
            }
        }
        Ok(())
    }
    let n = a.len();
    for u in 0..n {
        go(u, &mut a.to_vec(), &mut vec![false; n], &mut vec![false; n], k, &mut vec![], f)?;
    }
    Ok(())
}
fn count(a: &[i64], k: usize, cap: u64) -> u64 {
    let mut c = 0u64;
    let _ = schedules(a, k, &mut |_| {
        c += 1;
        if c > cap { Err(String::new()) } else { Ok(()) }
    });
    c
}
thread_local! {
    static SCHED: Sched = Sched::new(3);
}
fn explore(conf: &str, who: &[usize], limit: u64, ctx: &mut Ctx) -> Res {
    SCHED.with(|sched| {
        let n = who.len();
        // each action alone, on instances nobody else has touched: the reference
        let mut want = vec![];
        let mut pts = vec![];
        for w in who {
            let a = actions::<Sch>(conf)[*w].clone();
            let cell: Arc<Mutex<Option<Result<Vec<u64>, String>>>> = Default::default();
            let c2 = cell.clone();
            let a2 = a.clone();
            sched.start(0, Box::new(move || *c2.lock().unwrap() = Some(catch(|| a2.go(false)))));
            // count scheduling points by granting one operation at a time
            let mut k = 0;
            loop {
                match sched.grant_alone(0, if k == 0 { 0 } else { 1 }) {
                    Ev::Yielded => k += 1,
                    Ev::Done => break,
                    Ev::Blocked => return Err(format!("{}: {} blocks when run alone", conf, a.name())),
                }
            }
            let r = cell.lock().unwrap().take().expect("harness: no result");
            want.push(r.map_err(|e| format!("{}: {} panics when run alone: {}", conf, a.name(), e))?);
            pts.push(k as i64);
        }
        let mut bound = 1;
        for k in 2..=3 {
            if count(&pts, k, limit) <= limit {
                bound = k;
            }
        }
        ctx.add(&format!("configurations_with_bound_{}", bound), 1);
        ctx.max("scheduling_points_per_call", pts.iter().fold(0, |a, b| a.max(*b)) as f64);
        let shared: Vec<Act<Sch>> = actions(conf);
        let mut one = |segs: &[(usize, i64)], cold: bool| -> Res {
            let fresh;
            let acts = if cold {
                fresh = actions(conf);
                &fresh
            } else {
                &shared
            };
            let cells: Vec<Arc<Mutex<Option<Result<Vec<u64>, String>>>>> = who.iter().map(|_| Default::default()).collect();
            for (t, w) in who.iter().enumerate() {
                let a = acts[*w].clone();
                let c = cells[t].clone();
                sched.start(t, Box::new(move || {
                    let r = catch(|| a.go(false));
                    *c.lock().unwrap() = Some(r)
                }));
            }
            let (end, sw) = sched.run(n, segs);
            ctx.transitions += sw;
            ctx.states += 1;
            let names = || who.iter().map(|w| acts[*w].name()).collect::<Vec<_>>().join(" || ");
            if let End::Deadlock(d) = end {
                return Err(format!("{}: {} under schedule {:?} (thread, operations; -1 = to the end): deadlock, {}", conf, names(), segs, d));
            }
            for t in 0..n {
                let r = cells[t].lock().unwrap().take().expect("harness: no result");
                let r = r.map_err(|e| format!("{}: {} under schedule {:?}: thread {} panics: {}", conf, names(), segs, t, e))?;
                if r != want[t] {
                    let i = (0..r.len()).find(|i| r[*i] != want[t][*i]).unwrap_or(0);
                    return Err(format!(
                        "{}: {} under schedule {:?} (thread, operations; -1 = to the end): thread {} gets output[{}] = {:e}, alone it gets {:e}",
                        conf, names(), segs, t, i, f64::from_bits(r[i]), f64::from_bits(want[t][i])
                    ));
                }
            }
            ctx.traces += 1;
            Ok(())
        };
        schedules(&pts, bound, &mut |s| one(s, false))?;
        schedules(&pts, 1, &mut |s| one(s, true))
    })
}

type Cell = Arc<Mutex<Option<Result<Vec<u64>, String>>>>;
/// Longer calls: thread 0 is stopped at `points` evenly spread operations, and at each one thread 1 makes a complete
/// call on the shared instances; thread 1's call is also stopped half way while thread 0 goes on to its next point.
fn grid(conf: &str, i: usize, j: usize, points: i64, ctx: &mut Ctx) -> Res {
    SCHED.with(|sched| {
        let all = actions::<Sch>(conf);
        let acts = [all[i].clone(), all[j].clone()];
        let start = |t: usize, a: &Act<Sch>| -> Cell {
            let c: Cell = Default::default();
            let (c2, a) = (c.clone(), a.clone());
            sched.start(t, Box::new(move || {
                let r = catch(|| a.go(false));
                *c2.lock().unwrap() = Some(r)
            }));
            c
        };
        // alone, on instances nobody else has touched
        let mut want = vec![];
        let mut ops = [0i64; 2];
        for (t, w) in [i, j].into_iter().enumerate() {
            let a = actions::<Sch>(conf)[w].clone();
            let c = start(t, &a);
            let before = sched.steps(t);
            if sched.grant_alone(t, -1) != Ev::Done {
                return Err(format!("{}: {} blocks when run alone", conf, a.name()));
            }
            ops[t] = (sched.steps(t) - before) as i64;
            let r = c.lock().unwrap().take().expect("harness: no result");
            want.push(r.map_err(|e| format!("{}: {} panics when run alone: {}", conf, a.name(), e))?);
        }
        let stride = (ops[0] / points).max(1);
        let head = |at: i64| format!("{}: {} with a scheduling point every {} operations (stopped at operation {}), {}", conf, acts[0].name(), stride, at, acts[1].name());
        let check = |c: &Cell, t: usize, at: i64| -> Res {
            match c.lock().unwrap().take().expect("harness: no result") {
                Ok(r) if r == want[t] => Ok(()),
                Ok(r) => {
                    let x = (0..r.len()).find(|x| r[*x] != want[t][*x]).unwrap_or(0);
                    Err(format!("{}: thread {} gets output[{}] = {:e}, alone it gets {:e}", head(at), t, x, f64::from_bits(r[x]), f64::from_bits(want[t][x])))
                }
                Err(e) => Err(format!("{}: thread {} panics: {}", head(at), t, e)),
            }
        };
        let c0 = start(0, &acts[0]);
        let mut done0 = sched.grant_alone(0, 0) == Ev::Done;
        let (mut at, mut k) = (0i64, 0i64);
        while !done0 {
            let c1 = start(1, &acts[1]);
            // every other time the second call is itself stopped on the way, at a place that moves
            let first = if k % 2 == 0 { -1 } else { (ops[1] * (k % 17 + 1) / 18).max(1) };
            let mut e = sched.grant(1, first);
            let mut turns = 0u64;
            loop {
                if e == Ev::Done {
                    break;
                }
                // thread 0 goes on for a bit (it may hold what thread 1 is waiting for)
                if !done0 && (turns == 0 || e == Ev::Blocked) {
                    let s = if e == Ev::Blocked { stride.min(50) } else { stride };
                    done0 = match sched.look(0) {
                        Ev::Done => true,
                        Ev::Yielded => sched.grant(0, s) == Ev::Done,
                        Ev::Blocked => false,
                    };
                    at += s;
                }
                turns += 1;
                if turns > 20_000 {
                    return Err(format!("{}: they wait for each other forever", head(at)));
                }
                e = match sched.look(1) {
                    Ev::Yielded => sched.grant(1, -1),
                    e => e,
                };
                if e == Ev::Blocked && (done0 || sched.look(0) == Ev::Blocked) {
                    std::thread::sleep(std::time::Duration::from_micros(300));
                    done0 = done0 || sched.look(0) == Ev::Done;
                }
            }
            check(&c1, 1, at)?;
            ctx.states += 1;
            ctx.transitions += 2;
            k += 1;
            if !done0 {
                done0 = sched.look(0) == Ev::Done || sched.grant_alone(0, stride) == Ev::Done;
                at += stride;
            }
        }
        ctx.traces += 1;
        check(&c0, 0, at)
    })
}
/// Machine-instruction granularity on the real element types.
/// insn1: for every p, thread 0 is stopped after p instructions, thread 1 runs to completion, thread 0 finishes;
/// and with the roles exchanged.  insnall: thread 0 executes one instruction at a time, and after every single one a
/// complete call is made on thread 1.
fn instructions<T: Sc>(mode: &str, conf: &str, i: usize, j: usize, limit: i64, ctx: &mut Ctx) -> Res {
    SCHED.with(|sched| {
        let alone = |w: usize| -> Result<Vec<u64>, String> { catch(|| actions::<T>(conf)[w].go(false)) };
        let want = [alone(i), alone(j)];
        for (k, w) in want.iter().enumerate() {
            if let Err(e) = w {
                return Err(format!("{}: {} panics when run alone: {}", conf, actions::<T>(conf)[[i, j][k]].name(), e));
            }
        }
        let start = |t: usize, a: &Act<T>, step: bool| -> Cell {
            let c: Cell = Default::default();
            let (c2, a) = (c.clone(), a.clone());
            sched.start(t, Box::new(move || {
                let r = catch(|| a.go(step));
                *c2.lock().unwrap() = Some(r)
            }));
            c
        };
        let verdict = |c: &Cell, who: usize, acts: &[Act<T>], at: String| -> Res {
            let other = 1 - who;
            let head = || format!("{} on {}: {} interrupted {} by {}", conf, T::NAME, acts[0].name(), at, acts[1].name());
            let _ = other;
            match c.lock().unwrap().take() {
                Some(Ok(r)) => match &want[who] {
                    Ok(w) if *w == r => Ok(()),
                    Ok(w) => {
                        let x = (0..r.len()).find(|x| r[*x] != w[*x]).unwrap_or(0);
                        Err(format!("{}: {} gets other bits at output[{}] than alone ({:#x}, {:#x})", head(), acts[who].name(), x, r[x], w[x]))
                    }
                    Err(_) => Ok(()),
                },
                Some(Err(e)) => Err(format!("{}: {} panics: {}", head(), acts[who].name(), e)),
                None => panic!("harness: no result"),
            }
        };
        // run thread 1 to its end; when it has to wait for a lock, let thread 0 go on meanwhile
        let second = |done0: &mut bool, at: &str, acts: &[Act<T>]| -> Res {
            let mut e = sched.grant(1, -1);
            let mut turns = 0u64;
            while e != Ev::Done {
                if !*done0 {
                    *done0 = sched.grant(0, 1) == Ev::Done;
                } else {
                    std::thread::sleep(std::time::Duration::from_millis(1));
                }
                turns += 1;
                if turns > 200_000 || (*done0 && turns > 5_000) {
                    return Err(format!("{} on {}: {} and {}, the first interrupted {}: they wait for each other forever", conf, T::NAME, acts[0].name(), acts[1].name(), at));
                }
                e = match sched.look(1) {
                    Ev::Yielded => sched.grant(1, -1),
                    e => e,
                };
            }
            Ok(())
        };
        if mode == "insn1" {
            for (x, y) in [(0usize, 1usize), (1, 0)] {
                let mut p = 0;
                loop {
                    // freshly made instances for every schedule
                    let all = actions::<T>(conf);
                    let acts = [all[[i, j][x]].clone(), all[[i, j][y]].clone()];
                    let at = format!("after {} instructions", p);
                    let c0 = start(0, &acts[0], true);
                    let c1 = start(1, &acts[1], false);
                    let mut done0 = sched.grant_alone(0, p) == Ev::Done;
                    second(&mut done0, &at, &acts)?;
                    let last = done0;
                    while !done0 {
                        done0 = sched.grant_alone(0, -1) == Ev::Done;
                    }
                    // `want` is in the order (i, j)
                    let flip = |who: usize| if x == 0 { who } else { 1 - who };
                    let ordered = if x == 0 { [acts[0].clone(), acts[1].clone()] } else { [acts[1].clone(), acts[0].clone()] };
                    verdict(&c0, flip(0), &ordered, at.clone()).and_then(|_| verdict(&c1, flip(1), &ordered, at))?;
                    ctx.states += 1;
                    ctx.traces += 1;
                    ctx.transitions += 2;
                    if last || p > 20_000 {
                        break;
                    }
                    p += 1;
                }
                ctx.max("instructions_per_call", p as f64);
            }
            return Ok(());
        }
        let all = actions::<T>(conf);
        let acts = [all[i].clone(), all[j].clone()];
        if mode == "insn2" {
            // how many instructions each takes alone
            let mut len = [0i64; 2];
            for t in 0..2 {
                let c = start(t, &acts[t], true);
                while sched.grant_alone(t, if len[t] == 0 { 0 } else { 1 }) != Ev::Done {
                    len[t] += 1;
                }
                verdict(&c, t, &acts, "nowhere".into())?;
            }
            if len[0] * len[1] > limit {
                ctx.add("pairs_too_long_for_two_preemptions", 1);
                return Ok(());
            }
            ctx.add("pairs_with_two_preemptions", 1);
            for p in 0..len[0] {
                for q in 1..len[1] {
                    let at = format!("after {} instructions, the second after {} of its own", p, q);
                    let (c0, c1) = (start(0, &acts[0], true), start(1, &acts[1], true));
                    let (mut done0, mut done1) = (sched.grant_alone(0, p) == Ev::Done, false);
                    match sched.grant(1, q) {
                        Ev::Done => done1 = true,
                        _ => {}
                    }
                    let mut turns = 0;
                    while !(done0 && done1) {
                        for (t, d) in [(0, &mut done0), (1, &mut done1)] {
                            if !*d {
                                *d = match sched.look(t) {
                                    Ev::Done => true,
                                    Ev::Yielded => sched.grant(t, -1) == Ev::Done,
                                    Ev::Blocked => {
                                        std::thread::sleep(std::time::Duration::from_micros(200));
                                        false
                                    }
                                };
                            }
                        }
                        turns += 1;
                        if turns > 10_000 {
                            return Err(format!("{} on {}: {} and {} wait for each other forever ({})", conf, T::NAME, acts[0].name(), acts[1].name(), at));
                        }
                    }
                    verdict(&c0, 0, &acts, at.clone()).and_then(|_| verdict(&c1, 1, &acts, at))?;
                    ctx.states += 1;
                    ctx.traces += 1;
                    ctx.transitions += 3;
                }
            }
            return Ok(());
        }
        let c0 = start(0, &acts[0], true);
        let mut done0 = sched.grant_alone(0, 0) == Ev::Done;
        let mut p = 0u64;
        while !done0 {
            let at = format!("after each of its first {} instructions", p);
            let c1 = start(1, &acts[1], false);
            second(&mut done0, &at, &acts)?;
            verdict(&c1, 1, &acts, at)?;
            ctx.states += 1;
            ctx.transitions += 1;
            p += 1;
            if !done0 {
                done0 = sched.grant_alone(0, 1) == Ev::Done;
            }
        }
        ctx.max("instructions_per_call", p as f64);
        ctx.traces += 1;
        verdict(&c0, 0, &acts, "after every instruction".into())
    })
}
