A="src/algorithm/"
BUGS=[]
PRE='''
use rustdct::*; use std::f64::consts::PI;
#[allow(dead_code)] fn fail(m: &str) -> ! { eprintln!("{}", m); std::process::exit(1) }
#[allow(dead_code)] fn inp(n: usize) -> Vec<f64> { let mut s = 12345u64; (0..n).map(|_| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((s >> 33) as f64) / (1u64 << 31) as f64 * 2.0 - 1.0 }).collect() }
#[allow(dead_code)] fn close(a: &[f64], b: &[f64], tol: f64) -> bool { let s = b.iter().map(|v| v * v).sum::<f64>().sqrt(); let e = a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum::<f64>().sqrt(); a.len() == b.len() && e <= tol * s }
#[allow(dead_code)] fn dct2(x: &[f64]) -> Vec<f64> { let n = x.len(); (0..n).map(|k| (0..n).map(|i| x[i] * (PI * (((2 * i + 1) * k) % (4 * n)) as f64 / (2 * n) as f64).cos()).sum()).collect() }
#[allow(dead_code)] fn dct4(x: &[f64]) -> Vec<f64> { let n = x.len(); (0..n).map(|k| (0..n).map(|i| x[i] * (PI * (((2 * i + 1) * (2 * k + 1)) % (8 * n)) as f64 / (4 * n) as f64).cos()).sum()).collect() }
'''
def bug(id,prop,edits,needs,breaks,demo,all=False):
    BUGS.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,demo=PRE+demo,all=all))

bug("c01-dct2-fft-twiddle-recurrence","C01",[(A+"type2and3_convert_to_fft.rs",'''        let twiddles: Vec<Complex<T>> = (0..len)
            .map(|i| twiddles::single_twiddle(i, len * 4))
            .collect();''','''        // one sine/cosine per plan: step around the circle by repeated rotation
        let step: Complex<T> = twiddles::single_twiddle(1, len * 4);
        let mut current = Complex::from(T::one());
        let mut twiddles: Vec<Complex<T>> = Vec::with_capacity(len);
        for _ in 0..len {
            twiddles.push(current);
            current = current * step;
        }''')],"a non power-of-two DCT2/3 of a few hundred points or more; error grows with the length","DCT2 output drifts from the textbook sum by hundreds of rounding errors",'''
fn main() { let n = 3000; let x = inp(n); let w = dct2(&x); let mut b: Vec<f32> = x.iter().map(|v| *v as f32).collect(); let x32: Vec<f64> = b.iter().map(|v| *v as f64).collect(); let _ = w; let w = dct2(&x32);
 DctPlanner::new().plan_dct2(n).process_dct2(&mut b); let g: Vec<f64> = b.iter().map(|v| *v as f64).collect(); if !close(&g, &w, 2e-6) { fail("dct2 inaccurate") } }''')

bug("c02-splitradix-dst3-last-sign","C02",[(A+"type2and3_splitradix.rs",'''        self.process_dct3_with_scratch(buffer, scratch);

        for i in 0..(self.len() / 2) {
            buffer[2 * i + 1] = buffer[2 * i + 1].neg();
        }''','''        self.process_dct3_with_scratch(buffer, scratch);

        let last = buffer.len() - 1;
        for val in buffer[1..last].iter_mut().step_by(2) {
            *val = val.neg();
        }''')],"DST3 at a power-of-two length of 32 or more (split radix)","the last output of DST3 has the wrong sign",'''
fn main() { let n = 64; let x = inp(n); let w: Vec<f64> = (0..n).map(|k| (0..n).map(|i| (if i == n - 1 { 0.5 } else { 1.0 }) * x[i] * (PI * ((i + 1) * (2 * k + 1)) as f64 / (2 * n) as f64).sin()).sum()).collect();
 let mut b = x.clone(); DctPlanner::new().plan_dst3(n).process_dst3(&mut b); if !close(&b, &w, 1e-9) { fail("dst3 wrong") } }''')

bug("c03-dct8-index-u16","C03",[(A+"type8_naive.rs",'''        for k in 0..buffer.len() {
            let output_cell = buffer.get_mut(k).unwrap();
            *output_cell = T::zero();

            let mut twiddle_index = k;
            let twiddle_stride = k * 2 + 1;

            for i in 0..scratch.len() {
                let twiddle = self.twiddles[twiddle_index];

                *output_cell = *output_cell + scratch[i] * twiddle;

                twiddle_index += twiddle_stride;
                if twiddle_index >= self.twiddles.len() {
                    twiddle_index -= self.twiddles.len();
                }
            }
        }
    }
}
impl<T> RequiredScratch for Dct8Naive<T> {''','''        let period = self.twiddles.len() as u16;
        for k in 0..buffer.len() {
            let output_cell = buffer.get_mut(k).unwrap();
            *output_cell = T::zero();

            // 16 bit indices keep the inner loop's address arithmetic cheap
            let twiddle_stride = (k * 2 + 1) as u16;

            for i in 0..scratch.len() {
                let twiddle_index = twiddle_stride.wrapping_mul(i as u16).wrapping_add(k as u16) % period;
                let twiddle = self.twiddles[twiddle_index as usize];

                *output_cell = *output_cell + scratch[i] * twiddle;
            }
        }
    }
}
impl<T> RequiredScratch for Dct8Naive<T> {''')],"DCT8 of 182 points or more (index product exceeds 16 bits)","high-index outputs use the wrong cosines",'''
fn main() { let n = 200; let x = inp(n); let w: Vec<f64> = (0..n).map(|k| (0..n).map(|i| x[i] * (PI * ((2 * i + 1) * (2 * k + 1)) as f64 / (4 * n + 2) as f64).cos()).sum()).collect();
 let mut b = x.clone(); DctPlanner::new().plan_dct8(n).process_dct8(&mut b); if !close(&b, &w, 1e-9) { fail("dct8 wrong") } }''')

MD='''
fn mdct(x: &[f64], w: &[f64]) -> Vec<f64> { let n = x.len() / 2; (0..n).map(|k| (0..2 * n).map(|i| x[i] * w[i] * (PI / n as f64 * (i as f64 + 0.5 + n as f64 / 2.0) * (k as f64 + 0.5)).cos()).sum()).collect() }
fn imdct(y: &[f64], w: &[f64]) -> Vec<f64> { let n = y.len(); (0..2 * n).map(|i| w[i] * (0..n).map(|k| y[k] * (PI / n as f64 * (i as f64 + 0.5 + n as f64 / 2.0) * (k as f64 + 0.5)).cos()).sum::<f64>()).collect() }
'''
bug("c04-mdct-window-assumed-symmetric","C04",[("src/mdct/mdct_via_dct4.rs",'''        let group_d_iter = input_b
            .iter()
            .zip(&self.window[self.len()..])
            .map(|(d, window_val)| *d * *window_val)
            .skip(group_size);''','''        let group_d_iter = input_b
            .iter()
            .zip(self.window[..self.len()].iter().rev())
            .map(|(d, window_val)| *d * *window_val)
            .skip(group_size);''')],"a window that is not symmetric","the last quarter of the input is weighted with the mirrored window",MD+'''
fn main() { let n = 12; let x = inp(2 * n); let w: Vec<f64> = (0..2 * n).map(|i| 0.3 + i as f64 * 0.05).collect(); let want = mdct(&x, &w); let m = DctPlanner::new().plan_mdct(n, |_| w.clone());
 let mut o = vec![0.0; n]; let mut s = vec![0.0; m.get_scratch_len()]; m.process_mdct_with_scratch(&x[..n], &x[n..], &mut o, &mut s); if !close(&o, &want, 1e-9) { fail("mdct wrong") } }''')

bug("c05-imdct-clears-when-silent","C05",[("src/mdct/mdct_via_dct4.rs",'''        let (dct_buffer, dct_scratch) = scratch.split_at_mut(self.len());
        dct_buffer.copy_from_slice(input);
''','''        // digital silence: nothing to transform
        if input.iter().all(|val| val.is_zero()) {
            for (a, b) in output_a.iter_mut().zip(output_b.iter_mut()) {
                *a = T::zero();
                *b = T::zero();
            }
            return;
        }

        let (dct_buffer, dct_scratch) = scratch.split_at_mut(self.len());
        dct_buffer.copy_from_slice(input);
''')],"an all-zero spectrum added onto non-zero output","the overlap already in the output is lost",'''
fn main() { let n = 8; let m = DctPlanner::new().plan_mdct(n, |l| vec![1.0f64; l]); let mut a = vec![1.5; n]; let mut b = vec![2.5; n]; let mut s = vec![0.0; m.get_scratch_len()];
 m.process_imdct_with_scratch(&vec![0.0; n], &mut a, &mut b, &mut s); if a != vec![1.5; n] || b != vec![2.5; n] { fail("imdct of zero changed the output") } }''')

bug("c06-mp3-invertible-f32-scale","C06",[("src/mdct/window_fn.rs",'''pub fn mp3_invertible<T: DctNum>(len: usize) -> Vec<T> {
    let outer_scale = (4.0 / len as f64).sqrt();''','''pub fn mp3_invertible<T: DctNum>(len: usize) -> Vec<T> {
    let outer_scale = (4.0 / len as f32).sqrt() as f64;''')],"double precision and a length where sqrt(4/len) is not a short binary fraction","overlap-add reconstruction with the invertible mp3 window is only accurate to single precision",'''
fn main() { let n = 6; let m = DctPlanner::<f64>::new().plan_mdct(n, rustdct::mdct::window_fn::mp3_invertible); let x = inp(4 * n); let mut out = vec![0.0; 4 * n]; let mut s = vec![0.0; m.get_scratch_len()];
 for b in 0..3 { let mut y = vec![0.0; n]; m.process_mdct_with_scratch(&x[b * n..(b + 1) * n], &x[(b + 1) * n..(b + 2) * n], &mut y, &mut s); let (l, r) = out.split_at_mut((b + 1) * n); m.process_imdct_with_scratch(&y, &mut l[b * n..], &mut r[..n], &mut s); }
 if !close(&out[n..3 * n], &x[n..3 * n], 1e-12) { fail("no perfect reconstruction") } }''')

bug("c07-dct4-odd-f32-scale","C07",[(A+"type4_convert_to_fft.rs","let result_scale = T::SQRT_2() * T::half();","let result_scale = T::from_f32(0.70710678).unwrap();")],"double precision, odd length of 7 or more","DCT4/DST4 of odd lengths is off by 1e-8, so a round trip does not return the input",'''
fn main() { let n = 15; let d = DctPlanner::<f64>::new().plan_dct4(n); let x = inp(n); let mut b = x.clone(); d.process_dct4(&mut b); d.process_dct4(&mut b); let b: Vec<f64> = b.iter().map(|v| v * 2.0 / n as f64).collect(); if !close(&b, &x, 1e-12) { fail("round trip") } }''',all=True)

bug("c08-type4-inner-scratch-capped","C08",[(A+"type4_convert_to_type3.rs","""        } else {
            len + inner_scratch
        };""","""        } else {
            // our own part, and an inner FFT buffer with its work area
            3 * len
        };""")],"an inner DCT3 that needs more than 2*len scratch (an FFT by Bluestein's algorithm, or a user-supplied component)","processing panics inside the inner transform",'''
fn main() { std::panic::set_hook(Box::new(|_| {})); for h in [37usize, 41, 47, 59, 83, 107, 166, 167, 178, 179] { let r = std::panic::catch_unwind(|| { let n = 2 * h; let x = inp(n); let w = dct4(&x); let mut b = x.clone(); let d = DctPlanner::new().plan_dct4(n); d.process_dct4(&mut b); close(&b, &w, 1e-9) }); if !matches!(r, Ok(true)) { fail("dct4") } } }''')

bug("c09-dct4-odd-stale-imaginary","C09",[(A+"type4_convert_to_fft.rs",'''        input_index = input_index - len;
        while fft_index < len {
            fft_buffer[fft_index] = Complex {
                re: buffer[input_index],
                im: T::zero(),
            };
''','''        input_index = input_index - len;
        while fft_index < len {
            fft_buffer[fft_index].re = buffer[input_index];
''')],"DCT4 of an odd length with scratch that is not zero, e.g. scratch reused from a previous call","stale scratch contents enter the result",'''
fn main() { let n = 21; let d = DctPlanner::new().plan_dct4(n); let x = inp(n); let (mut a, mut b) = (x.clone(), x.clone()); let mut s = vec![0.0; d.get_scratch_len()]; d.process_dct4_with_scratch(&mut a, &mut s); d.process_dct4_with_scratch(&mut b, &mut vec![7.0; s.len()]); if a != b { fail("depends on scratch") } }''')

bug("c10-mdct-longer-second-half-accepted","C10",[("src/common.rs",'''            || $buffer_b.len() != $expected_buffer_len
''','''            || $buffer_b.len() < $expected_buffer_len
''')],"an MDCT call whose second buffer is too long","the call is accepted and computes on the wrong samples instead of panicking",'''
fn main() { std::panic::set_hook(Box::new(|_| {})); let n = 8; let m = DctPlanner::new().plan_mdct(n, |l| vec![1.0f64; l]); let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let mut o = vec![0.0; n]; let mut s = vec![0.0; m.get_scratch_len()]; m.process_mdct_with_scratch(&inp(n), &inp(n + 3), &mut o, &mut s); })); if r.is_ok() { fail("accepted") } }''')

bug("c11-butterfly8-unchecked-in-release","C11",[(A+"type2and3_butterflies.rs",'''            fn process_dst3_with_scratch(&self, buffer: &mut [T], _scratch: &mut [T]) {
                validate_buffer!(buffer, self.len());
''','''            fn process_dst3_with_scratch(&self, buffer: &mut [T], _scratch: &mut [T]) {
                debug_assert_eq!(buffer.len(), self.len());
''')],"release build, DST3 of length 3, 8 or 16 called with a buffer of another length","memory outside the buffer is read and written",'''
fn main() { std::panic::set_hook(Box::new(|_| {})); let d = DctPlanner::new().plan_dst3(16); let mut v = vec![1.0f64; 64]; let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.process_dst3(&mut v[..8]))); if r.is_ok() || v[8..].iter().any(|x| *x != 1.0) { fail("wrote outside the buffer") } }''')

bug("c12-dct4-warms-wrong-key","C12",[("src/plan.rs",'''                let inner_dct = self.plan_dct3(len / 2);
                Arc::new(Type4ConvertToType3Even::new(inner_dct))''','''                // make sure repeated plans find the inner transform
                let inner_dct = self.plan_dct3(len / 2);
                self.dct23_cache
                    .entry(len)
                    .or_insert_with(|| Arc::clone(&inner_dct));
                Arc::new(Type4ConvertToType3Even::new(inner_dct))''')],"a DCT4 (or MDCT) plan followed by a type 2/3 plan of the same even length on one planner","the second plan returns an instance of half the length",'''
fn main() { let mut p = DctPlanner::<f64>::new(); p.plan_dct4(24); if p.plan_dst2(24).len() != 24 { fail("wrong length") } }''')

bug("c13-dct3-not-cached","C13",[("src/plan.rs",'''    pub fn plan_dct3(&mut self, len: usize) -> Arc<dyn TransformType2And3<T>> {
        self.plan_dct2(len)
    }''','''    pub fn plan_dct3(&mut self, len: usize) -> Arc<dyn TransformType2And3<T>> {
        match self.dct23_cache.get(&len) {
            Some(cached) => Arc::clone(cached),
            None => self.plan_new_dct2(len),
        }
    }''')],"a DCT3 planned twice without a DCT2/DST2/DST3 plan of that length in between","repeated plans build separate instances",'''
fn main() { let mut p = DctPlanner::<f64>::new(); let a = p.plan_dct3(20); let b = p.plan_dct3(20); if !std::sync::Arc::ptr_eq(&a, &b) { fail("not shared") } }''')

bug("c14-dct8-shared-accumulator","C14",[(A+"type8_naive.rs",'''pub struct Dct8Naive<T> {
    twiddles: Box<[T]>,
}
impl<T: DctNum> Dct8Naive<T> {''','''pub struct Dct8Naive<T> {
    twiddles: Box<[T]>,
    products: std::sync::Mutex<Vec<T>>,
}
impl<T: DctNum> Dct8Naive<T> {'''),(A+"type8_naive.rs",'''        let constant_factor = std::f64::consts::PI / (len * 2 + 1) as f64;

        let twiddles: Vec<T> = (0..len * 4 + 2)
            .map(|i| (constant_factor * (i as f64 + 0.5)).cos())
            .map(|c| T::from_f64(c).unwrap())
            .collect();

        Self {''','''        let constant_factor = std::f64::consts::PI / (len * 2 + 1) as f64;

        let twiddles: Vec<T> = (0..len * 4 + 2)
            .map(|i| (constant_factor * (i as f64 + 0.5)).cos())
            .map(|c| T::from_f64(c).unwrap())
            .collect();

        Self {
            products: std::sync::Mutex::new(vec![T::zero(); len]),'''),(A+"type8_naive.rs",'''            let mut twiddle_index = k;
            let twiddle_stride = k * 2 + 1;

            for i in 0..scratch.len() {
                let twiddle = self.twiddles[twiddle_index];

                *output_cell = *output_cell + scratch[i] * twiddle;

                twiddle_index += twiddle_stride;
                if twiddle_index >= self.twiddles.len() {
                    twiddle_index -= self.twiddles.len();
                }
            }
        }
    }
}
impl<T> RequiredScratch for Dct8Naive<T> {''','''            let mut twiddle_index = k;
            let twiddle_stride = k * 2 + 1;

            // separate the products from the summation, so that both loops are simple
            for (product, val) in self.products.lock().unwrap().iter_mut().zip(scratch.iter()) {
                *product = *val * self.twiddles[twiddle_index];

                twiddle_index += twiddle_stride;
                if twiddle_index >= self.twiddles.len() {
                    twiddle_index -= self.twiddles.len();
                }
            }
            for product in self.products.lock().unwrap().iter() {
                *output_cell = *output_cell + *product;
            }
        }
    }
}
impl<T> RequiredScratch for Dct8Naive<T> {''')],"two threads inside process_dct8 of one shared instance, one of them between the two loops","one thread sums the other's products",'''
fn main() { let n = 64; let d = DctPlanner::<f64>::new().plan_dct8(n); let x = inp(2 * n); let solo: Vec<Vec<f64>> = (0..2).map(|t| { let mut b = x[t * n..t * n + n].to_vec(); d.process_dct8(&mut b); b }).collect();
 let bad = std::sync::atomic::AtomicBool::new(false);
 std::thread::scope(|s| for t in 0..8 { let (d, x, solo, bad) = (&d, &x, &solo, &bad); s.spawn(move || for _ in 0..4000 { let mut b = x[t % 2 * n..t % 2 * n + n].to_vec(); d.process_dct8(&mut b); if b != solo[t % 2] { bad.store(true, std::sync::atomic::Ordering::SeqCst) } }); });
 if bad.into_inner() { fail("threads interfere") } }''')

bug("c15-mdct-odd-accepted-in-release","C15",[("src/mdct/mdct_via_dct4.rs",'''        assert!(len % 2 == 0, "The MDCT inner_dct.len() must be even");''','''        debug_assert!(len % 2 == 0, "The MDCT inner_dct.len() must be even");''')],"release build, an MDCT over a DCT4 of odd length","an instance that cannot compute an MDCT is constructed",'''
fn main() { std::panic::set_hook(Box::new(|_| {})); if std::panic::catch_unwind(|| { DctPlanner::<f64>::new().plan_mdct(9, |l| vec![1.0; l]); }).is_ok() { fail("accepted odd length") } }''')

bug("c16-dct1-collects-mirror","C16",[(A+"type1_convert_to_fft.rs",'''        for (&input_val, fft_cell) in buffer
            .iter()
            .rev()
            .skip(1)
            .zip(&mut fft_buffer[buffer.len()..])
        {''','''        let mirrored: Vec<T> = buffer.iter().rev().skip(1).cloned().collect();
        for (input_val, fft_cell) in mirrored.into_iter().zip(&mut fft_buffer[buffer.len()..]) {''')],"any DCT1 of 10 points or more","process_dct1_with_scratch allocates on every call",'''
use std::alloc::*; struct A; static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, std::sync::atomic::Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) } }
#[global_allocator] static G: A = A;
fn main() { let n = 33; let d = DctPlanner::<f64>::new().plan_dct1(n); let mut b = inp(n); let mut s = vec![0.0; d.get_scratch_len()]; let c = N.load(std::sync::atomic::Ordering::SeqCst); d.process_dct1_with_scratch(&mut b, &mut s); if N.load(std::sync::atomic::Ordering::SeqCst) != c { fail("allocates") } }''')

bug("c17-dst6-naive-for-rough-fft","C17",[("src/plan.rs",'''        if len < 45 {
            Arc::new(Dst6And7Naive::new(len))''','''        // an FFT over a large prime factor is slow, so use it only where its length is smooth
        let mut rough_part = len * 2 + 1;
        for p in [3, 5, 7, 11, 13] {
            while rough_part % p == 0 {
                rough_part /= p;
            }
        }
        if len < 45 || rough_part > 200 {
            Arc::new(Dst6And7Naive::new(len))''')],"DST6/7 with 2n+1 having a large prime factor","quadratic running time",'''
use std::ops::*;
fn main() { let t = |n: usize| { let d = DctPlanner::<f64>::new().plan_dst6(n); let mut b = inp(n); let mut s = vec![0.0; d.get_scratch_len()]; let t = std::time::Instant::now(); d.process_dst6_with_scratch(&mut b, &mut s); t.elapsed().as_secs_f64() }; let _ = 1.add(1);
 // 2n+1 = 99991 * 1 is prime; an FFT takes milliseconds, the quadratic sum seconds
 let d = t(49995).min(t(49995)); if d > 0.6 { fail("quadratic") } }''')

bug("c18-type4-flush-tiny","C18",[(A+"type4_convert_to_type3.rs",'''        for k in 0..inner_len {
            let twiddle = self.twiddles[k];
            let cos_value = output_left[k];
            let sin_value = output_right[k];

            buffer[k] = cos_value * twiddle.re + sin_value * twiddle.im;
            buffer[len - 1 - k] = cos_value * twiddle.im - sin_value * twiddle.re;
        }''','''        let tiny = T::from_f64(1e-9).unwrap();
        for k in 0..inner_len {
            let twiddle = self.twiddles[k];
            let cos_value = output_left[k];
            let sin_value = output_right[k];

            // avoid slow denormal arithmetic in silent passages
            if (cos_value * cos_value + sin_value * sin_value - tiny * tiny).is_negative() {
                buffer[k] = T::zero();
                buffer[len - 1 - k] = T::zero();
                continue;
            }

            buffer[k] = cos_value * twiddle.re + sin_value * twiddle.im;
            buffer[len - 1 - k] = cos_value * twiddle.im - sin_value * twiddle.re;
        }''')],"input of very small amplitude","quiet signals are replaced by zero: the transform is not linear",'''
fn main() { let n = 16; let d = DctPlanner::<f64>::new().plan_dct4(n); let x = inp(n); let k = 2f64.powi(-60); let mut a = x.clone(); let mut b: Vec<f64> = x.iter().map(|v| v * k).collect(); d.process_dct4(&mut a); d.process_dct4(&mut b); let b: Vec<f64> = b.iter().map(|v| v / k).collect(); if !close(&b, &a, 1e-12) { fail("not homogeneous") } }''')

bug("c19-size-based-fast-path","C19",[(A+"type2and3_naive.rs",'''        let half_first = T::half() * scratch[0];
''','''        // T::half() * x as an exponent decrement for doubles
        let half_first = if std::mem::size_of::<T>() == 8 && !scratch[0].is_zero() {
            let bits = unsafe { std::mem::transmute_copy::<T, u64>(&scratch[0]) } - (1u64 << 52);
            unsafe { std::mem::transmute_copy::<u64, T>(&bits) }
        } else {
            T::half() * scratch[0]
        };
''')],"an 8-byte element type that is not f64, DCT3 computed by the direct algorithm","the first coefficient is corrupted for such element types",'''
use rustdct::num_traits::*; use std::ops::*;
#[derive(Clone, Copy, Debug, PartialEq)] struct P(f32, f32); // a pair: two independent signals
fn l(v: f64) -> P { P(v as f32, v as f32) }
impl Add for P { type Output = P; fn add(self, o: P) -> P { P(self.0 + o.0, self.1 + o.1) } } impl Sub for P { type Output = P; fn sub(self, o: P) -> P { P(self.0 - o.0, self.1 - o.1) } } impl Mul for P { type Output = P; fn mul(self, o: P) -> P { P(self.0 * o.0, self.1 * o.1) } } impl Div for P { type Output = P; fn div(self, o: P) -> P { P(self.0 / o.0, self.1 / o.1) } } impl Rem for P { type Output = P; fn rem(self, _: P) -> P { panic!() } } impl Neg for P { type Output = P; fn neg(self) -> P { P(-self.0, -self.1) } }
impl Zero for P { fn zero() -> P { l(0.0) } fn is_zero(&self) -> bool { *self == l(0.0) } } impl One for P { fn one() -> P { l(1.0) } } impl Num for P { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<P, ()> { Err(()) } }
impl Signed for P { fn abs(&self) -> P { P(self.0.abs(), self.1.abs()) } fn abs_sub(&self, _: &P) -> P { panic!() } fn signum(&self) -> P { panic!() } fn is_positive(&self) -> bool { self.0 > 0.0 } fn is_negative(&self) -> bool { self.0 < 0.0 } }
impl FromPrimitive for P { fn from_i64(n: i64) -> Option<P> { Some(l(n as f64)) } fn from_u64(n: u64) -> Option<P> { Some(l(n as f64)) } fn from_f64(n: f64) -> Option<P> { Some(l(n)) } }
macro_rules! fc { ($($c:ident)*) => { impl FloatConst for P { $(fn $c() -> P { l(<f64 as FloatConst>::$c()) })* } } }
fc!(E FRAC_1_PI FRAC_1_SQRT_2 FRAC_2_PI FRAC_2_SQRT_PI FRAC_PI_2 FRAC_PI_3 FRAC_PI_4 FRAC_PI_6 FRAC_PI_8 LN_10 LN_2 LOG10_E LOG2_E PI SQRT_2);
fn main() { let n = 7; let x = inp(2 * n); let d = rustdct::algorithm::Type2And3Naive::<P>::new(n); let mut b: Vec<P> = (0..n).map(|i| P(x[i] as f32, x[i + n] as f32)).collect(); let (p, q): (Vec<f64>, Vec<f64>) = b.iter().map(|v| (v.0 as f64, v.1 as f64)).unzip(); d.process_dct3(&mut b);
 for (c, r) in [(p, 0), (q, 1)] { let w: Vec<f64> = (0..n).map(|k| c[0] * 0.5 + (1..n).map(|i| c[i] * (PI * (i * (2 * k + 1)) as f64 / (2 * n) as f64).cos()).sum::<f64>()).collect(); let g: Vec<f64> = b.iter().map(|v| if r == 0 { v.0 as f64 } else { v.1 as f64 }).collect(); if !close(&g, &w, 1e-5) { fail("wrong on a user type") } } }''')

bug("c20-mp3-window-mirrored","C20",[("src/mdct/window_fn.rs",'''    (0..len)
        .map(|n| (constant_term * (n as f64 + 0.5f64)).sin())
        .map(|w| T::from_f64(w).unwrap())
        .collect()''','''    // the window is symmetric: evaluate one half and mirror it
    let mut window: Vec<T> = (0..len / 2)
        .map(|n| (constant_term * (n as f64 + 0.5f64)).sin())
        .map(|w| T::from_f64(w).unwrap())
        .collect();
    let mirrored: Vec<T> = window.iter().rev().cloned().collect();
    window.extend(mirrored);
    window''')],"an odd window size","the window has one value too few",'''
fn main() { for n in 1..40 { let w: Vec<f64> = rustdct::mdct::window_fn::mp3(n); if w.len() != n { fail("length") } } }''')

bug("c21-splitradix-twiddle-recurrence","C21",[(A+"type2and3_splitradix.rs",'''        let twiddles: Vec<Complex<T>> = (0..(len / 4))
            .map(|i| twiddles::single_twiddle(2 * i + 1, len * 4).conj())
            .collect();''','''        // two sine/cosine evaluations per plan; the rest by rotation in double precision
        let step: Complex<f64> = twiddles::single_twiddle(2, len * 4).conj();
        let mut current: Complex<f64> = twiddles::single_twiddle(1, len * 4).conj();
        let mut twiddles: Vec<Complex<T>> = Vec::with_capacity(len / 4);
        for _ in 0..(len / 4) {
            twiddles.push(Complex {
                re: T::from_f64(current.re).unwrap(),
                im: T::from_f64(current.im).unwrap(),
            });
            current = current * step;
        }''')],"f64 and a long power-of-two length","error grows with the length instead of its logarithm",'''
fn main() { let n = 1 << 20; let x = inp(n); let d = DctPlanner::<f64>::new().plan_dct2(n); let mut b = x.clone(); d.process_dct2(&mut b);
 // isolated outputs by direct summation
 let mut worst = 0f64; for k in (1..n).step_by(n / 16 + 1) { let mut s = 0.0; let mut c = 0.0; for i in 0..n { let t = x[i] * (PI * (((2 * i + 1) * k) % (4 * n)) as f64 / (2 * n) as f64).cos() - c; let u = s + t; c = (u - s) - t; s = u; } worst = worst.max((s - b[k]).abs()); }
 if worst / (n as f64).sqrt() > 3e-14 { eprintln!("{:e}", worst / (n as f64).sqrt()); fail("inaccurate") } }''')

bug("c22-dct5-memo","C22",[(A+"type5_naive.rs",'''pub struct Dct5Naive<T> {
    twiddles: Box<[T]>,
}''','''pub struct Dct5Naive<T> {
    twiddles: Box<[T]>,
    last: std::sync::Mutex<Option<(T, T, Vec<T>)>>,
}'''),(A+"type5_naive.rs",'''        let twiddles: Vec<T> = (0..len * 2 - 1)
            .map(|i| (constant_factor * (i as f64)).cos())
            .map(|c| T::from_f64(c).unwrap())
            .collect();

        Self {''','''        let twiddles: Vec<T> = (0..len * 2 - 1)
            .map(|i| (constant_factor * (i as f64)).cos())
            .map(|c| T::from_f64(c).unwrap())
            .collect();

        Self {
            last: std::sync::Mutex::new(None),'''),(A+"type5_naive.rs",'''        scratch.copy_from_slice(buffer);

        scratch[0] = scratch[0] * T::half();
        buffer[0] = scratch.iter().fold(T::zero(), |acc, e| acc + *e);

        for k in 1..buffer.len() {''','''        scratch.copy_from_slice(buffer);

        scratch[0] = scratch[0] * T::half();
        buffer[0] = scratch.iter().fold(T::zero(), |acc, e| acc + *e);

        // the same signal again? its sum and its last value tell
        let fingerprint = (buffer[0], scratch[scratch.len() - 1]);
        if let Some((sum, end, result)) = &*self.last.lock().unwrap() {
            if *sum == fingerprint.0 && *end == fingerprint.1 {
                buffer.copy_from_slice(result);
                return;
            }
        }

        for k in 1..buffer.len() {'''),(A+"type5_naive.rs",'''                let twiddle = self.twiddles[twiddle_index];

                *output_cell = *output_cell + scratch[i] * twiddle;

                twiddle_index += twiddle_stride;
                if twiddle_index >= self.twiddles.len() {
                    twiddle_index -= self.twiddles.len();
                }
            }
        }
    }
}
impl<T> RequiredScratch for Dct5Naive<T> {''','''                let twiddle = self.twiddles[twiddle_index];

                *output_cell = *output_cell + scratch[i] * twiddle;

                twiddle_index += twiddle_stride;
                if twiddle_index >= self.twiddles.len() {
                    twiddle_index -= self.twiddles.len();
                }
            }
        }
        *self.last.lock().unwrap() = Some((fingerprint.0, fingerprint.1, buffer.to_vec()));
    }
}
impl<T> RequiredScratch for Dct5Naive<T> {''')],"two calls on one instance with different inputs of equal sum and equal last value","the second call returns the first call's result",'''
fn main() { let n = 9; let d = DctPlanner::<f64>::new().plan_dct5(n); let f = DctPlanner::<f64>::new().plan_dct5(n); let mut x = vec![0.0; n]; x[1] = 1.0; let mut y = vec![0.0; n]; y[2] = 1.0; let mut w = y.clone(); f.process_dct5(&mut w); d.process_dct5(&mut x); d.process_dct5(&mut y); if y != w { fail("stale result") } }''')

bug("c23-dct2-scratch-capped","C23",[(A+"type2and3_convert_to_fft.rs","let scratch_len = 2 * (len + inner_fft.get_inplace_scratch_len());","let scratch_len = 2 * (len + inner_fft.get_inplace_scratch_len().min(len));")],"an FFT that needs more scratch than its own length (Bluestein's algorithm)","the reported scratch length is too short and the call panics",'''
fn main() { std::panic::set_hook(Box::new(|_| {})); for n in 20..400usize { let r = std::panic::catch_unwind(|| { let d = DctPlanner::<f64>::new().plan_dct2(n); let mut b = inp(n); let mut s = vec![0.0; d.get_scratch_len()]; d.process_dct2_with_scratch(&mut b, &mut s); }); if r.is_err() { fail("scratch too short") } } }''')
