//! Exhaustive case enumeration over worker processes.
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Profile {
    Release,
    Checked,
}
impl Profile {
    pub fn tag(self) -> &'static str {
        match self {
            Profile::Release => "release",
            Profile::Checked => "checked",
        }
    }
}

/// Counters a case reports.  All are measured.
#[derive(Default, Clone)]
pub struct Ctx {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub maxes: BTreeMap<String, f64>,
    pub sums: BTreeMap<String, u64>,
    pub tier_thorough: bool,
}
impl Ctx {
    pub fn max(&mut self, k: &str, v: f64) {
        let e = self.maxes.entry(k.to_string()).or_insert(f64::NEG_INFINITY);
        if v > *e {
            *e = v;
        }
    }
    pub fn add(&mut self, k: &str, v: u64) {
        *self.sums.entry(k.to_string()).or_insert(0) += v;
    }
    fn merge(&mut self, o: &Ctx) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        for (k, v) in &o.maxes {
            self.max(k, *v);
        }
        for (k, v) in &o.sums {
            self.add(k, *v);
        }
    }
    fn ser(&self) -> String {
        let mut s = format!("{} {} {}", self.states, self.transitions, self.traces);
        for (k, v) in &self.maxes {
            s += &format!(" m:{}={:e}", k, v);
        }
        for (k, v) in &self.sums {
            s += &format!(" s:{}={}", k, v);
        }
        s
    }
    fn de(s: &str) -> Ctx {
        let mut c = Ctx::default();
        let mut it = s.split(' ');
        c.states = it.next().unwrap().parse().unwrap();
        c.transitions = it.next().unwrap().parse().unwrap();
        c.traces = it.next().unwrap().parse().unwrap();
        for kv in it {
            let (k, v) = kv.rsplit_once('=').unwrap();
            if let Some(k) = k.strip_prefix("m:") {
                c.max(k, v.parse().unwrap());
            } else if let Some(k) = k.strip_prefix("s:") {
                c.add(k, v.parse().unwrap());
            }
        }
        c
    }
}

pub type Res = Result<(), String>;

pub trait Check: Sync {
    fn id(&self) -> &'static str;
    fn profiles(&self) -> Vec<Profile> {
        vec![Profile::Release]
    }
    fn cases(&self, tier: Tier, profile: Profile) -> Vec<String>;
    fn run(&self, case: &str, ctx: &mut Ctx) -> Res;
    /// bounds and rule, for the evidence
    fn bounds(&self, tier: Tier) -> String;
    fn assumptions(&self) -> Vec<String> {
        vec![]
    }
    /// seconds a single case may take before it counts as hanging
    fn case_timeout(&self) -> u64 {
        150
    }
    fn workers(&self) -> usize {
        8
    }
    /// optional extra step, run in the parent next to the workers
    fn extra(&self, _tier: Tier) -> Option<Extra> {
        None
    }
}
/// Result of the extra step
pub struct Extra {
    pub ctx: Ctx,
    pub note: String,
    pub violation: Option<(String, String)>, // case, message
    pub error: Option<String>,
}

pub fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}
fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = format!("{} at {}", msg, loc)
            }
        });
        if std::env::var_os("MC_PANIC_TRACE").is_some() {
            eprintln!("panic: {} at {}", msg, loc);
        }
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}
/// Run f, turning a panic into Err(message).
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| last_panic())
}

fn run_case(check: &dyn Check, case: &str, tier: Tier) -> (Ctx, Res) {
    let mut ctx = Ctx {
        tier_thorough: tier == Tier::Thorough,
        ..Default::default()
    };
    let r = match catch(|| check.run(case, &mut ctx)) {
        Ok(r) => r,
        Err(p) => {
            if p.contains("harness") {
                // an internal error of the machinery, never a verdict
                eprintln!("HARNESS-ERROR {}", p);
                std::process::exit(97);
            }
            Err(format!("unexpected panic: {}", p))
        }
    };
    (ctx, r)
}

pub fn worker_main(check: &dyn Check, tier: Tier, profile: Profile) -> ! {
    quiet_panics();
    let cases = check.cases(tier, profile);
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = match line {
            Ok(l) => l,
            Err(_) => break,
        };
        let idx: usize = line.trim().parse().unwrap();
        let (ctx, r) = run_case(check, &cases[idx], tier);
        let mut o = stdout.lock();
        match r {
            Ok(()) => writeln!(o, "OK {} {}", idx, ctx.ser()).unwrap(),
            Err(m) => writeln!(o, "BAD {} {}", idx, esc(&m)).unwrap(),
        }
        o.flush().unwrap();
    }
    std::process::exit(0)
}

struct Worker {
    child: Child,
    stdin: ChildStdin,
    rx: mpsc::Receiver<Option<String>>,
}
fn exe_for(profile: Profile) -> PathBuf {
    match profile {
        Profile::Release => std::env::current_exe().unwrap(),
        Profile::Checked => PathBuf::from(std::env::var("MC_CHECKED").expect("MC_CHECKED not set")),
    }
}
fn spawn(check: &dyn Check, tier: Tier, profile: Profile) -> Worker {
    let mut child = Command::new(exe_for(profile))
        .args(["--worker", check.id(), tier_str(tier), profile.tag()])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::inherit())
        .spawn()
        .expect("spawn worker");
    let stdin = child.stdin.take().unwrap();
    let stdout = child.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        for l in BufReader::new(stdout).lines() {
            match l {
                Ok(l) => {
                    if tx.send(Some(l)).is_err() {
                        return;
                    }
                }
                Err(_) => break,
            }
        }
        let _ = tx.send(None);
    });
    Worker { child, stdin, rx }
}
pub fn tier_str(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}

enum Outcome {
    Ok(Ctx),
    Bad(String),
    Crash(String, i32), // description, signal (0 = exit)
    Hang,
    Engine(String),
}
fn one(w: &mut Worker, idx: usize, timeout: u64) -> Outcome {
    if writeln!(w.stdin, "{}", idx).and_then(|_| w.stdin.flush()).is_err() {
        return crash_of(w);
    }
    match w.rx.recv_timeout(Duration::from_secs(timeout)) {
        Ok(Some(l)) => {
            let mut it = l.splitn(3, ' ');
            let tag = it.next().unwrap_or("");
            let i: usize = it.next().and_then(|s| s.parse().ok()).unwrap_or(usize::MAX);
            let rest = it.next().unwrap_or("");
            if i != idx {
                return Outcome::Engine(format!("protocol error: {:?}", l));
            }
            match tag {
                "OK" => Outcome::Ok(Ctx::de(rest)),
                "BAD" => Outcome::Bad(unesc(rest)),
                _ => Outcome::Engine(format!("protocol error: {:?}", l)),
            }
        }
        Ok(None) => crash_of(w),
        Err(_) => {
            let _ = w.child.kill();
            let _ = w.child.wait();
            Outcome::Hang
        }
    }
}
fn crash_of(w: &mut Worker) -> Outcome {
    use std::os::unix::process::ExitStatusExt;
    match w.child.wait() {
        Ok(st) => match st.signal() {
            Some(s) => Outcome::Crash(format!("worker killed by signal {}", s), s),
            None => Outcome::Crash(format!("worker exited with {:?}", st.code()), st.code().unwrap_or(-1) + 1000),
        },
        Err(e) => Outcome::Engine(e.to_string()),
    }
}
/// crash signals that are verdicts about the code: SIGILL TRAP ABRT BUS FPE SEGV SYS
fn verdict_signal(s: i32) -> bool {
    matches!(s, 4 | 5 | 6 | 7 | 8 | 11)
}

struct Shared {
    next: usize,
    best: Option<(usize, String)>,
    ctx: Ctx,
    done: usize,
    engine_err: Option<String>,
    known_hit: Vec<(String, String)>,
    deadline_hit: bool,
}

pub fn parent_main(check: &dyn Check, tier: Tier) -> i32 {
    quiet_panics();
    let t0 = Instant::now();
    let id = check.id();
    let limit: u64 = std::env::var("MC_DEADLINE").ok().and_then(|s| s.parse().ok()).unwrap_or(match tier {
        Tier::Quick => 600,
        Tier::Thorough => 780,
    });
    let deadline = t0 + Duration::from_secs(limit);
    let known = load_known(id);
    let mut total = Ctx::default();
    let mut ncases = 0usize;
    let mut ndone = 0usize;
    let mut samples: Vec<String> = vec![];
    let mut violation: Option<(Profile, String, String)> = None;
    let mut engine_err: Option<String> = None;
    let mut deadline_hit = false;
    let mut known_hits: Vec<(String, String)> = vec![];
    let mut notes: Vec<String> = vec![];

    std::thread::scope(|sc| {
        let extra_h = sc.spawn(|| check.extra(tier));
        for profile in check.profiles() {
            if violation.is_some() {
                break;
            }
            let cases = check.cases(tier, profile);
            ncases += cases.len();
            let st = cases.len() / 4;
            for i in [0usize, st, 2 * st, 3 * st] {
                if samples.len() < 8 && i < cases.len() {
                    samples.push(format!("{}:{}", profile.tag(), cases[i]));
                }
            }
            let sh = Arc::new(Mutex::new(Shared {
                next: 0,
                best: None,
                ctx: Ctx::default(),
                done: 0,
                engine_err: None,
                known_hit: vec![],
                deadline_hit: false,
            }));
            std::thread::scope(|s2| {
                for _ in 0..check.workers().min(cases.len().max(1)) {
                    let sh = sh.clone();
                    let cases = &cases;
                    let known = &known;
                    s2.spawn(move || drive(check, tier, profile, cases, known, sh, deadline));
                }
            });
            let sh = Arc::try_unwrap(sh).ok().unwrap().into_inner().unwrap();
            total.merge(&sh.ctx);
            ndone += sh.done;
            deadline_hit |= sh.deadline_hit;
            known_hits.extend(sh.known_hit);
            if let Some(e) = sh.engine_err {
                engine_err.get_or_insert(e);
            }
            if let Some((i, m)) = sh.best {
                violation = Some((profile, cases[i].clone(), m));
            }
        }
        match extra_h.join() {
            Ok(Some(x)) => {
                total.merge(&x.ctx);
                notes.push(x.note);
                if let Some((c, m)) = x.violation {
                    if violation.is_none() {
                        violation = Some((Profile::Release, c, m));
                    }
                }
                if let Some(e) = x.error {
                    engine_err.get_or_insert(e);
                }
            }
            Ok(None) => {}
            Err(_) => {
                engine_err.get_or_insert("extra step panicked".into());
            }
        }
    });

    for (c, m) in &known_hits {
        println!("KNOWN-FINDING: property={} case={} {}", id, c, esc(m));
    }
    let wall = t0.elapsed().as_secs_f64();
    let vdir = verif_dir();
    let exhaustive = !deadline_hit && violation.is_none() && engine_err.is_none() && ndone == ncases;
    // evidence
    let mut e = String::from("{\n");
    e += &format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n", json_str(id), json_str(tier_str(tier)),
        std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1));
    e += " \"coverage\": {\n";
    e += &format!("  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n", total.states, total.transitions, total.traces);
    e += &format!("  \"cases\": {},\n  \"cases_completed\": {},\n  \"exhaustive\": {},\n", ncases, ndone, exhaustive);
    e += &format!("  \"bounds\": {},\n", json_str(&check.bounds(tier)));
    e += "  \"counters_meaning\": \"states: distinct (configuration, input or history) points explored; transitions: calls or steps executed on the real code; traces_validated_against_impl: executions of the real code whose complete outcome was compared with the reference model\",\n";
    for (k, v) in &total.sums {
        e += &format!("  {}: {},\n", json_str(k), v);
    }
    for (k, v) in &total.maxes {
        if v.is_finite() {
            e += &format!("  {}: {:e},\n", json_str(&format!("max_{}", k)), v);
        }
    }
    if !notes.is_empty() {
        e += &format!("  \"notes\": [{}],\n", notes.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
    }
    e += &format!("  \"samples\": [{}]\n }},\n", samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
    e += &format!(" \"assumptions\": [{}],\n", check.assumptions().iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
    e += &format!(" \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", wall, violation.is_some() as u32);
    let edir = vdir.join("evidence");
    let _ = std::fs::create_dir_all(edir.join("replay"));
    if let Err(x) = std::fs::write(edir.join(format!("{}.json", id)), e) {
        println!("engine error: cannot write evidence: {}", x);
        return 2;
    }
    println!(
        "{}: {} of {} cases, states={} transitions={} traces={} exhaustive={} wall={:.1}s",
        id, ndone, ncases, total.states, total.transitions, total.traces, exhaustive, wall
    );
    if std::env::var_os("MC_VERBOSE").is_some() {
        for (k, v) in &total.maxes {
            println!("  max {} = {:.4}", k, v);
        }
        for (k, v) in &total.sums {
            println!("  sum {} = {}", k, v);
        }
        for n in &notes {
            println!("  note {}", n);
        }
    }
    if let Some((p, c, m)) = violation {
        let rp = edir.join("replay").join(format!("{}.txt", id));
        let _ = std::fs::write(
            &rp,
            format!(
                "property: {}\nprofile: {}\ncase: {}\nmessage: {}\n\nreplay with:\n  /verif/run.sh {} --case '{}:{}'\n",
                id, p.tag(), c, m, id, p.tag(), c
            ),
        );
        println!("violating case: {}:{}\n  {}", p.tag(), c, m);
        println!("VIOLATION property={} replay={}", id, rp.display());
        return 1;
    }
    if let Some(x) = engine_err {
        println!("engine error: {}", x);
        return 2;
    }
    if ncases == 0 || total.transitions == 0 {
        println!("engine error: vacuous run");
        return 2;
    }
    0
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()))
}

/// known-findings.txt lines: "known: property=<id> case=<exact case> ..." suppress exactly that case.
fn load_known(id: &str) -> Vec<String> {
    let s = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| l.strip_prefix(&format!("property={} ", id)).map(|s| s.to_string()))
        .filter_map(|l| l.strip_prefix("case=").map(|s| s.split(" | ").next().unwrap().to_string()))
        .collect()
}

fn drive(
    check: &dyn Check,
    tier: Tier,
    profile: Profile,
    cases: &[String],
    known: &[String],
    sh: Arc<Mutex<Shared>>,
    deadline: Instant,
) {
    let mut w = spawn(check, tier, profile);
    let mut history: Vec<usize> = vec![];
    loop {
        let idx = {
            let mut s = sh.lock().unwrap();
            if s.engine_err.is_some() || s.best.is_some() {
                break;
            }
            if s.next >= cases.len() {
                break;
            }
            if Instant::now() > deadline {
                s.deadline_hit = true;
                break;
            }
            let i = s.next;
            s.next += 1;
            i
        };
        let mut out = one(&mut w, idx, check.case_timeout());
        let failed = !matches!(out, Outcome::Ok(_));
        if failed {
            // confirm alone, in a fresh process
            let _ = w.child.kill();
            let _ = w.child.wait();
            let mut w2 = spawn(check, tier, profile);
            let again = one(&mut w2, idx, check.case_timeout());
            out = match (out, again) {
                (Outcome::Engine(e), _) | (_, Outcome::Engine(e)) => Outcome::Engine(e),
                (Outcome::Ok(_), _) => unreachable!(),
                (Outcome::Crash(_, sig), _) if !verdict_signal(sig) => Outcome::Engine(format!("worker died on case {} (status {})", cases[idx], sig)),
                (_, Outcome::Ok(c)) => {
                    // passes alone: process-wide state?  Replay everything this worker ran before it.
                    let mut w3 = spawn(check, tier, profile);
                    for h in &history {
                        if !matches!(one(&mut w3, *h, check.case_timeout()), Outcome::Ok(_)) {
                            break;
                        }
                    }
                    let third = one(&mut w3, idx, check.case_timeout());
                    let _ = w3.child.kill();
                    let _ = w3.child.wait();
                    let after = || {
                        let l: Vec<&str> = history.iter().rev().take(40).map(|h| cases[*h].as_str()).collect();
                        format!("(passes alone; fails, reproducibly, after {} other cases in the same process, most recent first: {})", history.len(), l.join(" ; "))
                    };
                    match third {
                        Outcome::Bad(m) => Outcome::Bad(format!("{} {}", m, after())),
                        Outcome::Crash(m, s) => Outcome::Crash(format!("{} {}", m, after()), s),
                        Outcome::Hang => Outcome::Hang,
                        Outcome::Engine(e) => Outcome::Engine(e),
                        Outcome::Ok(_) => {
                            sh.lock().unwrap().ctx.add("unreproducible_failures_ignored", 1);
                            Outcome::Ok(c)
                        }
                    }
                }
                (_, o2) => o2,
            };
            w = w2;
            history.clear();
            if !matches!(out, Outcome::Ok(_)) {
                let _ = w.child.kill();
                let _ = w.child.wait();
                w = spawn(check, tier, profile);
            }
        }
        let msg = match out {
            Outcome::Ok(c) => {
                history.push(idx);
                let mut s = sh.lock().unwrap();
                s.ctx.merge(&c);
                s.done += 1;
                continue;
            }
            Outcome::Bad(m) => m,
            Outcome::Crash(d, sig) => {
                if !verdict_signal(sig) {
                    sh.lock().unwrap().engine_err.get_or_insert(format!("{} on case {}", d, cases[idx]));
                    break;
                }
                format!("{} while running this case (reproduced in a fresh process)", d)
            }
            Outcome::Hang => format!("did not finish within {} s (reproduced in a fresh process)", check.case_timeout()),
            Outcome::Engine(e) => {
                sh.lock().unwrap().engine_err.get_or_insert(e);
                break;
            }
        };
        let mut s = sh.lock().unwrap();
        if known.iter().any(|k| *k == cases[idx]) {
            s.known_hit.push((cases[idx].clone(), msg));
            s.done += 1;
            continue;
        }
        if s.best.as_ref().map_or(true, |(b, _)| idx < *b) {
            s.best = Some((idx, msg));
        }
        break;
    }
    drop(w.stdin);
    let _ = w.child.kill();
    let _ = w.child.wait();
}

/// Replay one case "profile:case" in this process.
pub fn replay_main(check: &dyn Check, tier: Tier, case: &str) -> i32 {
    quiet_panics();
    let case = case.split_once(':').map(|x| if x.0 == "release" || x.0 == "checked" { x.1 } else { case }).unwrap_or(case);
    let (ctx, r) = run_case(check, case, tier);
    println!("counters: {}", ctx.ser());
    match r {
        Ok(()) => {
            println!("case passes");
            0
        }
        Err(m) => {
            println!("case fails: {}", m);
            1
        }
    }
}
