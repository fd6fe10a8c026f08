//! Deterministic inputs.
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
/// A fixed full-support vector with 20-bit entries in (-1,1), exactly representable in f32.
pub fn dense(n: usize, which: u64) -> Vec<f64> {
    (0..n)
        .map(|i| {
            let h = mix(which.wrapping_mul(0x1000_0001) ^ (i as u64).wrapping_mul(0x51_7cc1b7_2722_0a95) ^ n as u64);
            let v = (h >> 44) as i64 - (1 << 19);
            let v = if v == 0 { 1 } else { v };
            v as f64 / (1u64 << 19) as f64
        })
        .collect()
}
pub fn basis(n: usize, j: usize) -> Vec<f64> {
    let mut v = vec![0.0; n];
    v[j] = 1.0;
    v
}
pub fn alternating(n: usize) -> Vec<f64> {
    (0..n).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect()
}
pub fn primes_upto(n: usize) -> Vec<usize> {
    let mut s = vec![true; n + 1];
    let mut v = vec![];
    for i in 2..=n {
        if s[i] {
            v.push(i);
            let mut k = i * i;
            while k <= n {
                s[k] = false;
                k += i;
            }
        }
    }
    v
}
/// lengths around structural boundaries in (lo, hi]
pub fn boundary_lengths(lo: usize, hi: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut e = 1usize;
    while e <= 2 * hi {
        for m in [1usize, 3, 5, 7, 9, 15] {
            let c = e * m;
            for d in [-2i64, -1, 0, 1, 2] {
                let x = c as i64 + d;
                if x > lo as i64 && x <= hi as i64 {
                    v.push(x as usize);
                }
            }
        }
        e *= 2;
    }
    // lengths people use, prime powers, highly composite numbers, spread primes and their multiples and products
    v.extend([
        36, 360, 480, 576, 640, 720, 800, 882, 960, 1000, 1080, 1152, 1280, 1440, 1536, 1764, 1920, 2000, 2160, 2205, 2400, 2880, 3000, 3840, 4000, 4410, 4800, 5000, 5040, 7560, 7680, 8000, 8820, 9600, 10000,
        10080, 11025, 12000, 16000, 20160, 22050, 24000, 25200, 32000, 44100, 48000, 50000, 55440, 65521, 65537, 83160, 88200, 96000, 100000, 131071, 176400, 192000, 250000,
    ]);
    for b in [3usize, 5, 7, 11, 13, 17, 19, 23, 31] {
        let mut x = b;
        while x <= hi {
            v.push(x);
            v.push(2 * x);
            x *= b;
        }
    }
    let mut last = 0;
    for p in primes_upto(hi) {
        if p as f64 > last as f64 * 1.13 {
            v.extend([p, 2 * p, 4 * p, (p - 1) / 2, p * last]);
            last = p;
        }
    }
    v.retain(|x| *x > lo && *x <= hi);
    v.sort();
    v.dedup();
    v
}
/// inputs a shortcut might single out
pub fn special(m: usize) -> Vec<(&'static str, Vec<f64>)> {
    let d = dense(m, 70);
    let f = |g: &dyn Fn(usize) -> f64| (0..m).map(g).collect::<Vec<f64>>();
    vec![
        ("zero", f(&|_| 0.0)),
        ("negative zero", f(&|_| -0.0)),
        ("constant", f(&|_| 1.0)),
        ("alternating", f(&|i| if i % 2 == 0 { 1.0 } else { -1.0 })),
        ("zero except first", f(&|i| if i == 0 { 0.75 } else { 0.0 })),
        ("zero except last", f(&|i| if i == m - 1 { -0.75 } else { 0.0 })),
        ("zero except middle", f(&|i| if i == m / 2 { 0.75 } else { 0.0 })),
        ("zero first half", f(&|i| if i < m / 2 { 0.0 } else { d[i] })),
        ("zero second half", f(&|i| if i < m / 2 { d[i] } else { 0.0 })),
        ("zero ends", f(&|i| if i == 0 || i == m - 1 { 0.0 } else { d[i] })),
        ("zero odd places", f(&|i| if i % 2 == 1 { 0.0 } else { d[i] })),
        ("palindromic", f(&|i| d[i.min(m - 1 - i)])),
        ("antipalindromic", f(&|i| if i < m / 2 { d[i] } else { -d[m - 1 - i] })),
        ("equal halves", f(&|i| d[i % (m / 2).max(1)])),
        ("equal quarters", f(&|i| d[i % (m / 4).max(1)])),
        ("period 8", f(&|i| d[i % 8])),
        ("period 9", f(&|i| d[i % 9])),
        ("opposite halves", f(&|i| if i < m / 2 { d[i] } else { -d[i - m / 2] })),
        ("equal pairs", f(&|i| d[i / 2])),
        ("ends equal", f(&|i| if i == m - 1 { d[0] } else { d[i] })),
        ("ends opposite", f(&|i| if i == m - 1 { -d[0] } else { d[i] })),
        ("zero first", f(&|i| if i == 0 { 0.0 } else { d[i] })),
        ("zero last", f(&|i| if i == m - 1 { 0.0 } else { d[i] })),
        ("zero middle", f(&|i| if i >= m / 4 && i < m - m / 4 { 0.0 } else { d[i] })),
        ("zero even places", f(&|i| if i % 2 == 0 { 0.0 } else { d[i] })),
        ("every fourth", f(&|i| if i % 4 == 0 { d[i] } else { 0.0 })),
        ("zero quarter", f(&|i| if i >= m / 4 { d[i] } else { 0.0 })),
        ("ramp", f(&|i| (i as f64 + 1.0) / m as f64)),
        ("falling", f(&|i| 1.0 - 2.0 * i as f64 / m as f64)),
        ("positive", f(&|i| d[i].abs() + 0.0625)),
        ("negative", f(&|i| -d[i].abs() - 0.0625)),
        ("integers", f(&|i| (d[i] * 40.0).round())),
        ("few values", f(&|i| if d[i] > 0.3 { 1.0 } else if d[i] > -0.3 { 0.0 } else { -1.0 })),
        ("tiny", f(&|i| d[i] * 1e-25)),
        ("huge", f(&|i| d[i] * 1e25)),
    ]
}

/// boundary lengths, thinned out above `thin` to powers of two, their neighbours and round numbers
pub fn boundary_thinned(lo: usize, thin: usize, hi: usize) -> Vec<usize> {
    let near = |n: usize| {
        let p = n.next_power_of_two();
        p.abs_diff(n) <= 2 || (p / 2).abs_diff(n) <= 2 || n % 1000 == 0
    };
    boundary_lengths(lo, hi).into_iter().filter(|n| *n <= thin || near(*n)).collect()
}
