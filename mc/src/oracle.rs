//! The textbook sums, evaluated with exact integer angle reduction.
use crate::inst::Op;
use rustdct::rustfft::num_complex::Complex;
use rustdct::rustfft::FftPlanner;

/// cos(2*pi*m/M) for one m, octant-reduced so that it is accurate to about one ulp.
pub fn cos_turn(m: u64, big_m: u64) -> f64 {
    let m = m % big_m;
    // work with fraction m/M in turns; fold to [0, 1/8]
    let (mut num, den) = (m as u128 * 8, big_m as u128); // octants = num/den in [0,8)
    if num > 4 * den {
        num = 8 * den - num; // cos even
    }
    let neg = num > 2 * den;
    if neg {
        num = 4 * den - num;
    }
    // now angle in [0, 2 octants] = [0, pi/2]
    let v = if num <= den {
        (num as f64 / den as f64 * std::f64::consts::FRAC_PI_4).cos()
    } else {
        let r = 2 * den - num;
        (r as f64 / den as f64 * std::f64::consts::FRAC_PI_4).sin()
    };
    if neg {
        -v
    } else {
        v
    }
}
pub fn sin_turn(m: u64, big_m: u64) -> f64 {
    // sin(2 pi m/M) = cos(2 pi (4m - M)/(4M))
    let mm = (4 * (m % big_m) as i128 - big_m as i128).rem_euclid(4 * big_m as i128) as u64;
    cos_turn(mm, 4 * big_m)
}

/// out_k = sum_j w_j x_j trig(2 pi p_k q_j / M), with p_k = 2k+a2, q_j = 2j+b2, M = 8D
#[derive(Clone)]
pub struct Def {
    pub n: usize,
    pub a2: u64,
    pub b2: u64,
    pub m: u64,
    pub sin: bool,
    pub w_first: bool,
    pub w_last: bool,
}
pub fn def(op: Op, n: usize) -> Def {
    use Op::*;
    let nn = n as i64;
    // (a2, b2, 2D, sin, half weight first, half weight last)
    let (a2, b2, d2, sin, wf, wl) = match op {
        Dct1 => (0, 0, 2 * (nn - 1), false, true, true),
        Dct2 => (0, 1, 2 * nn, false, false, false),
        Dct3 => (1, 0, 2 * nn, false, true, false),
        Dct4 => (1, 1, 2 * nn, false, false, false),
        Dct5 => (0, 0, 2 * nn - 1, false, true, false),
        Dct6 => (0, 1, 2 * nn - 1, false, false, true),
        Dct7 => (1, 0, 2 * nn - 1, false, true, false),
        Dct8 => (1, 1, 2 * nn + 1, false, false, false),
        Dst1 => (2, 2, 2 * (nn + 1), true, false, false),
        Dst2 => (2, 1, 2 * nn, true, false, false),
        Dst3 => (1, 2, 2 * nn, true, false, true),
        Dst4 => (1, 1, 2 * nn, true, false, false),
        Dst5 => (2, 2, 2 * nn + 1, true, false, false),
        Dst6 => (2, 1, 2 * nn + 1, true, false, false),
        Dst7 => (1, 2, 2 * nn + 1, true, false, false),
        Dst8 => (1, 1, 2 * nn - 1, true, false, true),
    };
    Def { n, a2, b2, m: 4 * d2 as u64, sin, w_first: wf, w_last: wl }
}
impl Def {
    pub fn w(&self, j: usize) -> f64 {
        let mut w = 1.0;
        if self.w_first && j == 0 {
            w *= 0.5;
        }
        if self.w_last && j == self.n - 1 {
            w *= 0.5;
        }
        w
    }
    /// table of trig(2 pi m / M), m in 0..M
    pub fn table(&self) -> Vec<f64> {
        (0..self.m).map(|i| if self.sin { sin_turn(i, self.m) } else { cos_turn(i, self.m) }).collect()
    }
    #[inline]
    pub fn coef(&self, t: &[f64], k: usize, j: usize) -> f64 {
        let p = 2 * k as u64 + self.a2;
        let q = 2 * j as u64 + self.b2;
        self.w(j) * t[((p * q) % self.m) as usize]
    }
    pub fn coef_slow(&self, k: usize, j: usize) -> f64 {
        let p = 2 * k as u64 + self.a2;
        let q = 2 * j as u64 + self.b2;
        let m = ((p as u128 * q as u128) % self.m as u128) as u64;
        self.w(j) * if self.sin { sin_turn(m, self.m) } else { cos_turn(m, self.m) }
    }
    /// column j of the matrix
    pub fn column(&self, t: &[f64], j: usize, out: &mut [f64]) {
        let q = 2 * j as u64 + self.b2;
        let w = self.w(j);
        let step = (2 * q) % self.m;
        let mut a = (self.a2 * q) % self.m;
        for o in out.iter_mut() {
            *o = w * t[a as usize];
            a += step;
            if a >= self.m {
                a -= self.m;
            }
        }
    }
    /// direct O(n^2) evaluation
    pub fn direct(&self, t: &[f64], x: &[f64]) -> Vec<f64> {
        let mut out = vec![0.0; self.n];
        let wx: Vec<f64> = x.iter().enumerate().map(|(j, v)| v * self.w(j)).collect();
        for (k, o) in out.iter_mut().enumerate() {
            let p = 2 * k as u64 + self.a2;
            let step = (2 * p) % self.m;
            let mut a = (self.b2 * p) % self.m;
            // pairwise-ish accumulation in blocks keeps the reference error small
            let mut tot = 0.0;
            for blk in wx.chunks(64) {
                let mut acc = 0.0;
                for v in blk {
                    acc += v * t[a as usize];
                    a += step;
                    if a >= self.m {
                        a -= self.m;
                    }
                }
                tot += acc;
            }
            *o = tot;
        }
        out
    }
    /// one output, independently of the table, Neumaier-compensated
    pub fn one(&self, k: usize, x: &[f64]) -> f64 {
        let (mut s, mut c) = (0.0f64, 0.0f64);
        for (j, v) in x.iter().enumerate() {
            let cf = self.coef_slow(k, j);
            let y = v * cf;
            let e = v.mul_add(cf, -y);
            let t = s + y;
            c += if s.abs() >= y.abs() { (s - t) + y } else { (y - t) + s } + e;
            s = t;
        }
        s + c
    }
    /// via a length-M FFT
    pub fn via_fft(&self, x: &[f64]) -> Vec<f64> {
        // drop a common factor 2 where p or q are always even
        let mut m = self.m;
        let (mut ps, mut pa) = (2u64, self.a2);
        let (mut qs, mut qa) = (2u64, self.b2);
        if pa % 2 == 0 && m % 2 == 0 {
            ps = 1;
            pa /= 2;
            m /= 2;
        }
        if qa % 2 == 0 && m % 2 == 0 {
            qs = 1;
            qa /= 2;
            m /= 2;
        }
        let m = m as usize;
        let mut b = vec![Complex { re: 0.0f64, im: 0.0 }; m];
        for (j, v) in x.iter().enumerate() {
            let i = (qs * j as u64 + qa) as usize % m;
            b[i].re += v * self.w(j);
        }
        FftPlanner::new().plan_fft_forward(m).process(&mut b);
        (0..self.n)
            .map(|k| {
                let i = (ps * k as u64 + pa) as usize % m;
                if self.sin {
                    -b[i].im
                } else {
                    b[i].re
                }
            })
            .collect()
    }
    pub fn apply(&self, x: &[f64]) -> Vec<f64> {
        if self.n <= 300 {
            self.direct(&self.table(), x)
        } else {
            self.via_fft(x)
        }
    }
}

/// MDCT kernel cos(pi/n (i + 1/2 + n/2)(k+1/2)), i in 0..2n, k in 0..n
pub struct MDef {
    pub n: usize,
    pub t: Vec<f64>,
}
impl MDef {
    pub fn new(n: usize) -> MDef {
        let m = 8 * n as u64;
        MDef { n, t: (0..m).map(|i| cos_turn(i, m)).collect() }
    }
    #[inline]
    pub fn c(&self, i: usize, k: usize) -> f64 {
        let p = 2 * k as u64 + 1;
        let q = 2 * i as u64 + 1 + self.n as u64;
        self.t[((p * q) % (8 * self.n as u64)) as usize]
    }
    pub fn forward(&self, x: &[f64], w: &[f64]) -> Vec<f64> {
        let wx: Vec<f64> = x.iter().zip(w).map(|(a, b)| a * b).collect();
        if self.n > 256 {
            let m = 8 * self.n;
            let mut b = vec![Complex { re: 0.0f64, im: 0.0 }; m];
            for (i, v) in wx.iter().enumerate() {
                b[(2 * i + 1 + self.n) % m].re += v;
            }
            FftPlanner::new().plan_fft_forward(m).process(&mut b);
            return (0..self.n).map(|k| b[2 * k + 1].re).collect();
        }
        (0..self.n).map(|k| (0..2 * self.n).map(|i| wx[i] * self.c(i, k)).sum()).collect()
    }
    /// the 2n contributions
    pub fn inverse(&self, s: &[f64], w: &[f64]) -> Vec<f64> {
        if self.n > 256 {
            let m = 8 * self.n;
            let mut b = vec![Complex { re: 0.0f64, im: 0.0 }; m];
            for (k, v) in s.iter().enumerate() {
                b[2 * k + 1].re += v;
            }
            FftPlanner::new().plan_fft_forward(m).process(&mut b);
            return (0..2 * self.n).map(|i| w[i] * b[(2 * i + 1 + self.n) % m].re).collect();
        }
        (0..2 * self.n).map(|i| w[i] * (0..self.n).map(|k| s[k] * self.c(i, k)).sum::<f64>()).collect()
    }
}

/// Cross-validation of the fast reference path against the direct one; returns the worst
/// difference relative to eps * |x|_2, and the number of outputs compared.
pub fn self_check(op: Op, n: usize) -> (f64, u64) {
    let d = def(op, n);
    let t = d.table();
    let x = crate::gen::dense(n, 3);
    let a = d.direct(&t, &x);
    let b = d.via_fft(&x);
    let norm = x.iter().map(|v| v * v).sum::<f64>().sqrt();
    let mut worst = 0.0f64;
    for k in 0..n {
        worst = worst.max((a[k] - b[k]).abs());
    }
    // and a third, table-free, compensated evaluation at three outputs
    for k in [0, n / 2, n - 1] {
        worst = worst.max((a[k] - d.one(k, &x)).abs());
    }
    (worst / (f64::EPSILON * norm), n as u64 + 3)
}
