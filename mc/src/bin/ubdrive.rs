//! Driven under Miri: executes every algorithm x operation at small lengths, valid and rejected, so that any
//! undefined behaviour in the executed code is reported by the interpreter.
//! usage: ubdrive calls <shard> <shards> <max n> <max n for other types>   |   ubdrive race <shard> <shards> <max n>
use mc::gen;
use mc::inst::*;
use mc::sc::*;
use mc::scal::Wrap;
use rustdct::DctNum;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn exact<T: DctNum>(n: usize, lift: &dyn Fn(f64) -> T, which: u64) -> Box<[T]> {
    gen::dense(n, which).into_iter().map(lift).collect::<Vec<T>>().into_boxed_slice()
}
fn one<T: DctNum>(n: usize, id: &str, lift: &dyn Fn(f64) -> T, heavy: bool) {
    if let Some(m) = id.strip_prefix("mdct:") {
        let i = make_mdct::<T>(m, n, exact(2 * n, lift, 1).to_vec());
        let (a, b) = (exact(n, lift, 2), exact(n, lift, 3));
        let mut o = exact(n, lift, 4);
        let mut o2 = exact(n, lift, 5);
        let mut s = exact(i.get_scratch_len(), lift, 6);
        i.process_mdct_with_scratch(&a, &b, &mut o, &mut s);
        i.process_imdct_with_scratch(&a, &mut o, &mut o2, &mut s);
        if heavy {
            for (la, lb, lo, ls) in [(n - 1, n, n, 0), (n, n - 1, n, 0), (n, n, n - 1, 0), (n, n, n, 1), (0, 0, 0, 0)] {
                let (a, b) = (exact(la, lift, 2), exact(lb, lift, 3));
                let mut o = exact(lo, lift, 4);
                let mut b2 = exact(lb, lift, 5);
                let mut s = exact(i.get_scratch_len().saturating_sub(ls), lift, 6);
                let _ = catch_unwind(AssertUnwindSafe(|| i.process_mdct_with_scratch(&a, &b, &mut o, &mut s)));
                let _ = catch_unwind(AssertUnwindSafe(|| i.process_imdct_with_scratch(&a, &mut b2, &mut o, &mut s)));
            }
        }
        return;
    }
    let i = make::<T>(id, n);
    let req = i.scratch_len();
    for &op in i.ops() {
        let mut b = exact(n, lift, 1);
        let mut s = exact(req, lift, 2);
        i.call(op, &mut b, &mut s);
        // odd surplus: the complex view of the scratch must not reach past its end
        let mut s = exact(req + 1, lift, 2);
        i.call(op, &mut b, &mut s);
        // fresh memory straight from the library
        i.call_conv(op, &mut b);
        if heavy {
            for bl in [0, 1, n - 1, n + 1, 2 * n] {
                if bl != n {
                    let mut b = exact(bl, lift, 1);
                    let _ = catch_unwind(AssertUnwindSafe(|| i.call(op, &mut b, &mut s)));
                    let _ = catch_unwind(AssertUnwindSafe(|| i.call_conv(op, &mut b)));
                }
            }
            for sl in [0, req / 2, req.saturating_sub(1)] {
                if sl < req {
                    let mut s = exact(sl, lift, 2);
                    let _ = catch_unwind(AssertUnwindSafe(|| i.call(op, &mut b, &mut s)));
                }
            }
        }
    }
}
fn ids(n: usize) -> Vec<String> {
    let mut v = inst_ids(n);
    if n % 2 == 0 {
        v.extend(mdct_ids(n).into_iter().map(|s| format!("mdct:{}", s)));
    }
    v
}
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let num = |i: usize| a.get(i).and_then(|s| s.parse::<usize>().ok()).unwrap_or(0);
    let (shard, shards, max, types) = (num(1), num(2).max(1), num(3), num(4));
    std::panic::set_hook(Box::new(|_| {}));
    let race = a.first().map_or(false, |s| s == "race");
    let (mut k, mut done) = (0usize, 0u64);
    let mut lens: Vec<usize> = (1..=max).collect();
    if max >= 8 && !race {
        lens.extend([16, 32, 25, 45, 50]);
    }
    lens.sort();
    lens.dedup();
    for n in lens {
        for id in ids(n) {
            if n > max && (!id.starts_with("planned") || !matches!(&id[8..], "dct1" | "dst1" | "dct2" | "dct4" | "dst6")) {
                continue;
            }
            k += 1;
            if k % shards != shard {
                continue;
            }
            if race {
                races(n, &id);
                done += 1;
                continue;
            }
            one::<f32>(n, &id, &|v| v as f32, true);
            if n <= types {
                one::<Wrap>(n, &id, &Wrap::of, false);
                }
            done += 1;
        }
    }
    println!("UBDRIVE-DONE {}", done);
}
/// two free-running threads on one shared instance
fn races(n: usize, id: &str) {
    if let Some(m) = id.strip_prefix("mdct:") {
        let i = make_mdct::<f32>(m, n, tov(&gen::dense(2 * n, 1)));
        std::thread::scope(|sc| {
            for t in 0..2u64 {
                let i = i.clone();
                sc.spawn(move || {
                    let (a, b): (Vec<f32>, Vec<f32>) = (tov(&gen::dense(n, t)), tov(&gen::dense(n, t + 5)));
                    let (mut o, mut o2) = (vec![0f32; n], vec![0f32; n]);
                    let mut s = vec![0f32; i.get_scratch_len()];
                    i.process_mdct_with_scratch(&a, &b, &mut o, &mut s);
                    i.process_imdct_with_scratch(&a, &mut o, &mut o2, &mut s);
                });
            }
        });
        return;
    }
    let i = make::<f32>(id, n);
    std::thread::scope(|sc| {
        for t in 0..2u64 {
            let i = i.clone();
            sc.spawn(move || {
                for &op in i.ops() {
                    let mut b: Vec<f32> = tov(&gen::dense(n, t));
                    i.call_conv(op, &mut b);
                }
            });
        }
    });
}
