//! MDCT windows: the crate's own and harness-made ones.
use crate::gen;
use crate::sc::Sc;
use rustdct::mdct::window_fn;

pub const BUILTIN: [&str; 6] = ["one", "mp3", "vorbis", "inv", "mp3inv", "vorbisinv"];
pub const ALL: [&str; 12] = ["one", "mp3", "vorbis", "inv", "mp3inv", "vorbisinv", "asym", "holes", "negative", "pc", "asymends", "dent"];

/// the crate's own window functions
pub fn builtin<T: Sc>(name: &str, len: usize) -> Vec<T> {
    match name {
        "one" => window_fn::one(len),
        "mp3" => window_fn::mp3(len),
        "vorbis" => window_fn::vorbis(len),
        "inv" => window_fn::invertible(len),
        "mp3inv" => window_fn::mp3_invertible(len),
        "vorbisinv" => window_fn::vorbis_invertible(len),
        _ => panic!("harness: window {}", name),
    }
}
/// documented values, in f64
pub fn formula(name: &str, len: usize) -> Vec<f64> {
    use std::f64::consts::PI;
    let l = len as f64;
    let sin = |n: usize| (PI * (n as f64 + 0.5) / l).sin();
    let vor = |n: usize| (PI / 2.0 * sin(n) * sin(n)).sin();
    let noise = match name {
        "asym" | "asymends" => gen::dense(len, 77),
        "holes" => gen::dense(len, 78),
        _ => vec![],
    };
    (0..len)
        .map(|n| match name {
            "one" => 1.0,
            "mp3" => sin(n),
            "vorbis" => vor(n),
            "inv" => (2.0 / l).sqrt(),
            "mp3inv" => sin(n) * (4.0 / l).sqrt(),
            "vorbisinv" => vor(n) * (4.0 / l).sqrt(),
            // arbitrary, not symmetric, full support
            "asym" => noise[n],
            // asymmetric, though its ends and its middle values agree
            "asymends" => {
                if n == len - 1 {
                    noise[0]
                } else if n == len / 2 {
                    noise[len / 2 - 1]
                } else {
                    noise[n]
                }
            }
            // symmetric except for one value
            "dent" => sin(n) - if n == len / 4 { 0.25 } else { 0.0 },
            "holes" => {
                if n % 3 == 0 {
                    0.0
                } else {
                    noise[n]
                }
            }
            "negative" => -1.0 - (n % 5) as f64 / 8.0,
            // power complementary and symmetric, otherwise arbitrary
            "pc" => {
                let h = len / 2;
                let i = if n < h { n } else { len - 1 - n };
                let (j, c) = if i < h / 2 { (i, false) } else { (h - 1 - i, true) };
                let th = 0.1 + 1.3 * ((gen::mix(j as u64 * 31 + len as u64) >> 40) as f64 / (1u64 << 24) as f64);
                if c {
                    th.cos()
                } else {
                    th.sin()
                }
            }
            _ => panic!("harness: window {}", name),
        })
        .collect()
}
/// window values as element type; built-in ones come from the crate
pub fn values<T: Sc>(name: &str, len: usize) -> Vec<T> {
    if BUILTIN.contains(&name) {
        builtin(name, len)
    } else {
        formula(name, len).iter().map(|v| T::of(*v)).collect()
    }
}
/// windows that look alike: everything one edit away from `base`, plus its rearrangements
pub fn neighbours(base: &[f64]) -> Vec<(String, Vec<f64>)> {
    let m = base.len();
    let mut v = vec![("base".to_string(), base.to_vec())];
    let mut add = |s: String, w: Vec<f64>| v.push((s, w));
    for i in 0..m {
        let mut w = base.to_vec();
        w[i] += 0.5;
        add(format!("value {} raised", i), w);
        let mut w = base.to_vec();
        w[i] = -w[i];
        add(format!("value {} negated", i), w);
        for j in [i + 1, m / 2 + i, m - 1 - i] {
            if i < j && j < m {
                let mut w = base.to_vec();
                w.swap(i, j);
                add(format!("values {} and {} swapped", i, j), w);
                let mut w = base.to_vec();
                w[i] += 0.25;
                w[j] -= 0.25;
                add(format!("moved from {} to {}", j, i), w);
                let mut w = base.to_vec();
                w[i] *= 2.0;
                w[j] *= 0.5;
                add(format!("factor moved from {} to {}", j, i), w);
            }
        }
    }
    let mut w = base.to_vec();
    w.reverse();
    add("reversed".into(), w);
    let mut w = base.to_vec();
    w.rotate_left(m / 2);
    add("halves swapped".into(), w);
    add("negated".into(), base.iter().map(|a| -a).collect());
    add("doubled".into(), base.iter().map(|a| a * 2.0).collect());
    add("absolute".into(), base.iter().map(|a| a.abs()).collect());
    add("base again".into(), base.to_vec());
    v
}
