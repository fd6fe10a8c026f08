import os, importlib.util
_s = importlib.util.spec_from_file_location("b1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "b1.py")); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
A="src/algorithm/"; BUGS=[]; PRE=_m.PRE+'''
#[allow(dead_code)] fn dst(x: &[f64], f: &dyn Fn(usize, usize) -> f64) -> Vec<f64> { let n = x.len(); (0..n).map(|k| (0..n).map(|i| x[i] * f(i, k)).sum()).collect() }
#[allow(dead_code)] fn mdct(x: &[f64], w: &[f64]) -> Vec<f64> { let n = x.len() / 2; (0..n).map(|k| (0..2 * n).map(|i| x[i] * w[i] * (PI / n as f64 * (i as f64 + 0.5 + n as f64 / 2.0) * (k as f64 + 0.5)).cos()).sum()).collect() }
#[allow(dead_code)] fn imdct(s: &[f64], w: &[f64]) -> Vec<f64> { let n = s.len(); (0..2 * n).map(|i| w[i] * (0..n).map(|k| s[k] * (PI / n as f64 * (i as f64 + 0.5 + n as f64 / 2.0) * (k as f64 + 0.5)).cos()).sum::<f64>()).collect() }
'''
def bug(id,prop,edits,needs,breaks,demo,all=False):
    BUGS.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,demo=PRE+demo,all=all))

bug("c01-dct4-odd-permutation-u16","C01",[(A+"type4_convert_to_fft.rs",'''    fft: Arc<dyn Fft<T>>,

    len: usize,
    scratch_len: usize,
}''','''    fft: Arc<dyn Fft<T>>,
    input_map: Box<[u16]>,

    len: usize,
    scratch_len: usize,
}'''),(A+"type4_convert_to_fft.rs",'''            scratch_len: 2 * (len + inner_fft.get_inplace_scratch_len()),
''','''            scratch_len: 2 * (len + inner_fft.get_inplace_scratch_len()),
            // where each FFT input comes from, as a position in the signal's extension of period 4 * len
            input_map: (0..len)
                .map(|i| ((len / 2 + 4 * i) % (4 * len)) as u16)
                .collect(),
'''),(A+"type4_convert_to_fft.rs",'''        //start by reordering the input into the FFT input
        let mut input_index = half_len;
        let mut fft_index = 0;
        while input_index < len {
            fft_buffer[fft_index] = Complex {
                re: buffer[input_index],
                im: T::zero(),
            };

            input_index += 4;
            fft_index += 1;
        }

        //subtract len to simulate modular arithmetic
        input_index = input_index - len;
        while input_index < len {
            fft_buffer[fft_index] = Complex {
                re: -buffer[len - input_index - 1],
                im: T::zero(),
            };

            input_index += 4;
            fft_index += 1;
        }

        input_index = input_index - len;
        while input_index < len {
            fft_buffer[fft_index] = Complex {
                re: -buffer[input_index],
                im: T::zero(),
            };

            input_index += 4;
            fft_index += 1;
        }

        input_index = input_index - len;
        while input_index < len {
            fft_buffer[fft_index] = Complex {
                re: buffer[len - input_index - 1],
                im: T::zero(),
            };

            input_index += 4;
            fft_index += 1;
        }

        input_index = input_index - len;
        while fft_index < len {
            fft_buffer[fft_index] = Complex {
                re: buffer[input_index],
                im: T::zero(),
            };

            input_index += 4;
            fft_index += 1;
        }
''','''        //start by reordering the input into the FFT input
        for (fft_cell, &position) in fft_buffer.iter_mut().zip(self.input_map.iter()) {
            let position = position as usize;
            let re = match position / len {
                0 => buffer[position],
                1 => -buffer[2 * len - position - 1],
                2 => -buffer[position - 2 * len],
                _ => buffer[4 * len - position - 1],
            };
            *fft_cell = Complex {
                re,
                im: T::zero(),
            };
        }
''')],"DCT4 of an odd length above 16384","inputs are taken from the wrong places",'''
fn main() { let n = 16387usize; let x = inp(n); let mut b = x.clone(); DctPlanner::new().plan_dct4(n).process_dct4(&mut b);
 for k in [0usize, 5, 8000, 16000] { let w: f64 = (0..n).map(|i| x[i] * (PI * (((2 * i + 1) * (2 * k + 1)) % (8 * n)) as f64 / (4 * n) as f64).cos()).sum(); if (w - b[k]).abs() > 1e-7 * n as f64 { fail("dct4 wrong") } } }''')

bug("c02-dst4-odd-block-sign","C02",[(A+"type4_convert_to_fft.rs",'''            buffer[i * 2 + 1] = next_result.re - next_result.im;

            buffer[len - i * 2 - 2] = -(next_result.re + next_result.im) * second_half_sign;
            buffer[len - i * 2 - 1] = (fft_result.re - fft_result.im) * second_half_sign;

            output_sign = output_sign.neg();
        }
''','''            buffer[i * 2 + 1] = next_result.re - next_result.im;

            buffer[len - i * 2 - 2] = -(next_result.re + next_result.im) * second_half_sign;
            buffer[len - i * 2 - 1] = (fft_result.re - fft_result.im) * second_half_sign;

            // start every cache block afresh
            output_sign = if (i + 1) % 25 == 0 {
                T::one()
            } else {
                output_sign.neg()
            };
        }
''')],"DST4 of an odd length of 101 or more","signs of part of the output are wrong",'''
fn main() { let n = 121; let x = inp(n); let w = dst(&x, &|i, k| (PI * ((2 * i + 1) * (2 * k + 1)) as f64 / (4 * n) as f64).sin()); let mut b = x.clone(); DctPlanner::new().plan_dst4(n).process_dst4(&mut b); if !close(&b, &w, 1e-9) { fail("dst4 wrong") } }''')

bug("c03-dct6-reciprocal-modulo","C03",[(A+"type6and7_naive.rs",'''            let twiddle_stride = k * 2;
            let mut twiddle_index = k;

            for i in 0..scratch.len() {
                let twiddle = self.twiddles[twiddle_index];

                *output_cell = *output_cell + scratch[i] * twiddle;

                twiddle_index += twiddle_stride;
                if twiddle_index >= self.twiddles.len() {
                    twiddle_index -= self.twiddles.len();
                }
            }
        }
    }
}
impl<T: DctNum> Dct7<T> for Dct6And7Naive<T> {''','''            // reduce the angle's index modulo the period by multiplying with the reciprocal
            let period = self.twiddles.len();
            let reciprocal = (1usize << 26) / period + 1;

            for i in 0..scratch.len() {
                let angle = k * (2 * i + 1);
                let turns = (angle * reciprocal) >> 26;
                let twiddle = self.twiddles[angle.wrapping_sub(turns * period).min(period - 1)];

                *output_cell = *output_cell + scratch[i] * twiddle;
            }
        }
    }
}
impl<T: DctNum> Dct7<T> for Dct6And7Naive<T> {''')],"DCT6 of a length of about 160 or more","some products use the wrong cosine",'''
fn main() { let n = 301; let x = inp(n); let w = dst(&x, &|i, k| (if i == n - 1 { 0.5 } else { 1.0 }) * (PI * (((2 * i + 1) * k) % (4 * n - 2)) as f64 / (2 * n - 1) as f64).cos()); let mut b = x.clone(); DctPlanner::new().plan_dct6(n).process_dct6(&mut b); if !close(&b, &w, 1e-9) { fail("dct6 wrong") } }''')

bug("c04-mdct-symmetry-probe","C04",[("src/mdct/mdct_via_dct4.rs",'''        //we're going to divide input_a into two subgroups''','''        // Most windows are symmetric: then each window value serves two inputs
        let full = self.window.len();
        let symmetric = self.window[0] == self.window[full - 1]
            && self.window[1] == self.window[full - 2];
        if symmetric {
            for i in 0..group_size {
                let outer = self.window[i];
                let inner = self.window[group_size + i];
                output[group_size + i] =
                    input_a[i] * outer - input_a[self.len() - 1 - i] * self.window[self.len() - 1 - i];
                output[i] = -input_b[group_size - 1 - i] * inner
                    - input_b[group_size + i] * self.window[group_size - 1 - i];
            }
            // input_b's window values, mirrored
            for i in 0..group_size {
                output[i] = -input_b[group_size - 1 - i] * self.window[group_size + i]
                    - input_b[group_size + i] * self.window[group_size - 1 - i];
            }
            self.dct.process_dct4_with_scratch(output, scratch);
            return;
        }

        //we're going to divide input_a into two subgroups''')],"a window whose outermost values agree but which is not symmetric","the wrong window values are applied",'''
fn main() { let n = 16; let x = inp(2 * n); let mut w: Vec<f64> = (0..2 * n).map(|i| 0.3 + ((i * 7) % 11) as f64 / 10.0).collect(); let m = 2 * n; w[m - 1] = w[0]; w[m - 2] = w[1];
 let want = mdct(&x, &w); let w2 = w.clone(); let p = DctPlanner::new().plan_mdct(n, move |_| w2); let mut o = vec![0.0; n]; let mut s = vec![0.0; p.get_scratch_len()]; p.process_mdct_with_scratch(&x[..n], &x[n..], &mut o, &mut s); if !close(&o, &want, 1e-9) { fail("mdct wrong") } }''')

bug("c05-imdct-fresh-buffer-guess","C05",[("src/mdct/mdct_via_dct4.rs",'''        //copy the first half of the DCT output into the result, reversde+negated
        for ((output, window_val), val) in output_b
            .iter_mut()
            .zip(&self.window[self.len()..])
            .zip(dct_buffer[..group_size].iter().rev())
        {
            *output = *output - *val * *window_val;
        }
''','''        // in a stream the second output is a fresh buffer, so the addition can be skipped
        let fresh = output_b[0].is_zero() && output_b[group_size - 1].is_zero();

        //copy the first half of the DCT output into the result, reversde+negated
        for ((output, window_val), val) in output_b
            .iter_mut()
            .zip(&self.window[self.len()..])
            .zip(dct_buffer[..group_size].iter().rev())
        {
            let contribution = -*val * *window_val;
            *output = if fresh {
                contribution
            } else {
                *output + contribution
            };
        }
''')],"accumulation onto output whose first and middle cells happen to be zero","prior content is overwritten",'''
fn main() { let n = 12; let s = inp(n); let w: Vec<f64> = (0..2 * n).map(|i| 0.5 + i as f64 / 50.0).collect(); let mut prior = inp(2 * n); prior[n] = 0.0; prior[n + n / 2 - 1] = 0.0;
 let want: Vec<f64> = imdct(&s, &w).iter().zip(&prior).map(|(a, b)| a + b).collect(); let w2 = w.clone(); let p = DctPlanner::new().plan_mdct(n, move |_| w2); let mut sc = vec![0.0; p.get_scratch_len()]; let (a, b) = prior.split_at_mut(n); p.process_imdct_with_scratch(&s, a, b, &mut sc); if !close(&prior, &want, 1e-9) { fail("imdct wrong") } }''')

bug("c06-imdct-chunks-misaligned","C06",[("src/mdct/mdct_via_dct4.rs",'''        //copy the second half of the DCT output again, but this time reversed and negated
        for ((output, window_val), val) in output_a
            .iter_mut()
            .zip(&self.window[..])
            .skip(group_size)
            .zip(dct_buffer[group_size..].iter().rev())
        {
            *output = *output - *val * *window_val;
        }
''','''        //copy the second half of the DCT output again, but this time reversed and negated
        //work on 64 values at a time, to keep both directions in the cache
        for ((outputs, window_vals), vals) in output_a[group_size..]
            .chunks_mut(64)
            .zip(self.window[group_size..].chunks(64))
            .zip(dct_buffer[group_size..].chunks(64).rev())
        {
            for ((output, window_val), val) in outputs.iter_mut().zip(window_vals).zip(vals.iter().rev()) {
                *output = *output - *val * *window_val;
            }
        }
''')],"an MDCT length above 128 that is not a multiple of 128","half of the aliasing term is not cancelled",'''
fn main() { let n = 300; let w: Vec<f64> = (0..2 * n).map(|i| (PI * (i as f64 + 0.5) / (2 * n) as f64).sin()).collect(); let s = inp(n); let want = imdct(&s, &w); let p = DctPlanner::new().plan_mdct(n, mdct::window_fn::mp3); let mut o = vec![0.0; 2 * n]; let mut sc = vec![0.0; p.get_scratch_len()]; let (a, b) = o.split_at_mut(n); p.process_imdct_with_scratch(&s, a, b, &mut sc); if !close(&o, &want, 1e-9) { fail("imdct wrong") } }''')

bug("c07-dst5-table-recurrence","C07",[(A+"type5_naive.rs",'''        let twiddles: Vec<T> = (0..len * 2 + 1)
            .map(|i| (constant_factor * (i as f64)).sin())
            .map(|c| T::from_f64(c).unwrap())
            .collect();
''','''        // sin((i + 1)a) = 2 cos(a) sin(ia) - sin((i - 1)a)
        let double_cosine = 2.0 * constant_factor.cos();
        let (mut previous, mut current) = (-constant_factor.sin(), 0.0f64);
        let mut twiddles: Vec<T> = Vec::with_capacity(len * 2 + 1);
        for _ in 0..len * 2 + 1 {
            twiddles.push(T::from_f64(current).unwrap());
            let next = double_cosine * current - previous;
            previous = current;
            current = next;
        }
''')],"DST5 of several hundred points in double precision","applying DST5 twice does not give back the input to working precision",'''
fn main() { let n = 700; let x = inp(n); let mut b = x.clone(); let d = DctPlanner::new().plan_dst5(n); d.process_dst5(&mut b); d.process_dst5(&mut b); let w: Vec<f64> = x.iter().map(|v| v * (n as f64 + 0.5) / 2.0).collect(); if !close(&b, &w, 4e-14) { fail("dst5 inaccurate") } }''')

bug("c08-splitradix-trims-scratch","C08",[(A+"type2and3_splitradix.rs",'''        self.half_dct
            .process_dct2_with_scratch(input_dct2, inner_scratch);
''','''        // keep the inner transforms' working set small
        let inner_scratch = &mut inner_scratch[..self.half_dct.get_scratch_len()];
        self.half_dct
            .process_dct2_with_scratch(input_dct2, inner_scratch);
''')],"a split radix whose quarter-size component needs more scratch than its half-size component","DCT2 panics",'''
use std::sync::Arc; use rustdct::algorithm::*; use rustdct::rustfft::FftPlanner;
fn main() { let n = 4096; let x = inp(n); let d = Type2And3SplitRadix::new(Arc::new(Type2And3Naive::new(n / 2)), Arc::new(Type2And3ConvertToFft::new(FftPlanner::new().plan_fft_forward(n / 4)))); let mut b = x.clone(); d.process_dct2(&mut b); if !close(&b, &dct2(&x), 1e-9) { fail("dct2 wrong") } }''')

bug("c09-dst4-even-unsliced-scratch","C09",[(A+"type4_convert_to_type3.rs",'''impl<T: DctNum> Dst4<T> for Type4ConvertToType3Even<T> {
    fn process_dst4_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
        let scratch = validate_buffers!(buffer, scratch, self.len(), self.get_scratch_len());
''','''impl<T: DctNum> Dst4<T> for Type4ConvertToType3Even<T> {
    fn process_dst4_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
        validate_buffers!(buffer, scratch, self.len(), self.get_scratch_len());
''')],"DST4 of an even length with slightly more scratch than required","the call panics",'''
fn main() { let n = 64; let x = inp(n); let d = DctPlanner::new().plan_dst4(n); let mut b = x.clone(); let mut s = vec![0.0; d.get_scratch_len() + 1]; d.process_dst4_with_scratch(&mut b, &mut s); let w = dst(&x, &|i, k| (PI * ((2 * i + 1) * (2 * k + 1)) as f64 / (4 * n) as f64).sin()); if !close(&b, &w, 1e-9) { fail("dst4 wrong") } }''')

bug("c10-short-scratch-silent-in-release","C10",[("src/common.rs",'''    assert!(
        actual_scratch >= expected_scratch,
        "Not enough scratch space was provided. Expected scratch len >= {}, got scratch len = {}",
        expected_scratch,
        actual_scratch
    );
}

// Prints an error raised by an in-place FFT algorithm's `process_inplace` method
// Marked cold and inline never to keep all formatting code out of the many monomorphized process_inplace methods
#[cold]
#[inline(never)]
pub fn mdct_error_inplace(''','''    debug_assert!(
        actual_scratch >= expected_scratch,
        "Not enough scratch space was provided. Expected scratch len >= {}, got scratch len = {}",
        expected_scratch,
        actual_scratch
    );
}

// Prints an error raised by an in-place FFT algorithm's `process_inplace` method
// Marked cold and inline never to keep all formatting code out of the many monomorphized process_inplace methods
#[cold]
#[inline(never)]
pub fn mdct_error_inplace(''')],"a release build and a call with too little scratch","the call returns without transforming anything",'''
fn main() { let n = 12; let d = DctPlanner::new().plan_dct2(n); let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let mut b = inp(n); let mut s = vec![0.0; d.get_scratch_len() - 1]; d.process_dct2_with_scratch(&mut b, &mut s); })); if r.is_ok() { fail("accepted") } }''')

bug("c11-splitradix-dst2-unchecked-signs","C11",[(A+"type2and3_splitradix.rs",'''        for i in 0..(self.len() / 2) {
            buffer[2 * i + 1] = buffer[2 * i + 1].neg();
        }

        self.process_dct2_with_scratch(buffer, scratch);
''','''        for i in 0..(self.len() / 2) {
            unsafe {
                *buffer.get_unchecked_mut(2 * i + 1) = buffer.get_unchecked(2 * i + 1).neg();
            }
        }

        self.process_dct2_with_scratch(buffer, scratch);
''')],"DST2 of a power-of-two length of 32 or more, called with a shorter buffer","memory behind the buffer is changed before the call is rejected",'''
fn main() { let n = 32; let d = DctPlanner::new().plan_dst2(n); let mut mem = inp(2 * n); let keep = mem.clone(); let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let mut s = vec![0.0; d.get_scratch_len()]; d.process_dst2_with_scratch(&mut mem[..n / 2], &mut s); })); if r.is_ok() || mem[n / 2..] != keep[n / 2..] { fail("touched memory outside the buffer") } }''')

bug("c12-dst8-key-u16","C12",[("src/plan.rs","    dst8_cache: HashMap<usize, Arc<dyn Dst8<T>>>,","    dst8_cache: HashMap<u16, Arc<dyn Dst8<T>>>,"),("src/plan.rs",'''        if self.dst8_cache.contains_key(&len) {
            Arc::clone(self.dst8_cache.get(&len).unwrap())''','''        let key = len as u16;
        if self.dst8_cache.contains_key(&key) {
            Arc::clone(self.dst8_cache.get(&key).unwrap())'''),("src/plan.rs","            self.dst8_cache.insert(len, Arc::clone(&result));","            self.dst8_cache.insert(key, Arc::clone(&result));")],"two DST8 lengths that differ by 65536 on one planner","the second plan has the first plan's length",'''
fn main() { let mut p = DctPlanner::<f64>::new(); let a = p.plan_dst8(9); let b = p.plan_dst8(9 + 65536); use rustfft::Length; if a.len() != 9 || b.len() != 9 + 65536 { fail("wrong length") } }''')

bug("c13-dct23-cache-evicts","C13",[("src/plan.rs",'''            let result = self.plan_new_dct2(len);
            self.dct23_cache.insert(len, Arc::clone(&result));
            result''','''            let result = self.plan_new_dct2(len);
            // bound the memory held by long-lived planners
            if self.dct23_cache.len() >= 24 {
                self.dct23_cache.clear();
            }
            self.dct23_cache.insert(len, Arc::clone(&result));
            result''')],"25 or more type 2/3 lengths planned on one planner","a repeated request no longer returns the shared instance",'''
use std::sync::Arc;
fn main() { let mut p = DctPlanner::<f64>::new(); let a = p.plan_dct2(5); for n in 6..60 { p.plan_dct2(n); } let b = p.plan_dct2(5); if Arc::as_ptr(&a) as *const u8 != Arc::as_ptr(&b) as *const u8 { fail("not shared") } }''')

bug("c14-dct2-shared-fft-buffer","C14",[(A+"type2and3_convert_to_fft.rs",'''pub struct Type2And3ConvertToFft<T> {
    fft: Arc<dyn Fft<T>>,
    twiddles: Box<[Complex<T>]>,

    scratch_len: usize,
}
''','''pub struct Type2And3ConvertToFft<T> {
    fft: Arc<dyn Fft<T>>,
    twiddles: Box<[Complex<T>]>,

    // a warm FFT buffer, used by whichever call finds it idle
    idle: std::sync::atomic::AtomicBool,
    warm: std::cell::UnsafeCell<Vec<Complex<T>>>,

    scratch_len: usize,
}
unsafe impl<T: Send + Sync> Sync for Type2And3ConvertToFft<T> {}
'''),(A+"type2and3_convert_to_fft.rs",'''            twiddles: twiddles.into_boxed_slice(),
            scratch_len,''','''            twiddles: twiddles.into_boxed_slice(),
            idle: std::sync::atomic::AtomicBool::new(true),
            warm: std::cell::UnsafeCell::new(vec![Complex::from(T::zero()); len]),
            scratch_len,'''),(A+"type2and3_convert_to_fft.rs",'''        let complex_scratch = into_complex_mut(scratch);
        let (fft_buffer, fft_scratch) = complex_scratch.split_at_mut(len);

        // the first half of the array will be the even elements, in order
        let even_end = (buffer.len() + 1) / 2;
        for i in 0..even_end {
            fft_buffer[i] = Complex::from(buffer[i * 2]);
        }

        // the second half is the odd elements, in reverse order
        if self.len() > 1 {''','''        let complex_scratch = into_complex_mut(scratch);
        let (fft_buffer, fft_scratch) = complex_scratch.split_at_mut(len);
        let got_warm = self.idle.swap(false, std::sync::atomic::Ordering::Acquire);
        let fft_buffer = if got_warm {
            unsafe { &mut *self.warm.get() }.as_mut_slice()
        } else {
            fft_buffer
        };

        // the first half of the array will be the even elements, in order
        let even_end = (buffer.len() + 1) / 2;
        for i in 0..even_end {
            fft_buffer[i] = Complex::from(buffer[i * 2]);
        }

        // the second half is the odd elements, in reverse order
        if self.len() > 1 {'''),(A+"type2and3_convert_to_fft.rs",'''        // apply a correction factor to the result
        for ((fft_entry, correction_entry), spectrum_entry) in fft_buffer
            .iter()
            .zip(self.twiddles.iter())
            .zip(buffer.iter_mut())
        {''','''        if got_warm {
            self.idle.store(true, std::sync::atomic::Ordering::Release);
        }

        // apply a correction factor to the result
        for ((fft_entry, correction_entry), spectrum_entry) in fft_buffer
            .iter()
            .zip(self.twiddles.iter())
            .zip(buffer.iter_mut())
        {''')],"two threads inside process_dct2 of one FFT-based instance, the second entering while the first does its final pass","outputs mix two calls",'''
use std::sync::Arc;
fn main() { let n = 3001; let d: Arc<dyn TransformType2And3<f64>> = DctPlanner::new().plan_dct2(n); let xs: Vec<Vec<f64>> = (0..8).map(|t| inp(n).iter().map(|v| v * (t + 1) as f64).collect()).collect();
 let want: Vec<Vec<f64>> = xs.iter().map(|x| { let mut b = x.clone(); d.process_dct2(&mut b); b }).collect();
 let h: Vec<_> = (0..8).map(|t| { let (d, x, w) = (d.clone(), xs[t].clone(), want[t].clone()); std::thread::spawn(move || { for _ in 0..4000 { let mut b = x.clone(); d.process_dct2(&mut b); if b != w { return false } } true }) }).collect(); for t in h { if !t.join().unwrap() { fail("mixed outputs") } } }''')

bug("c15-splitradix-any-ratio","C15",[(A+"type2and3_splitradix.rs",'''        assert_eq!(half_len, quarter_len * 2,
            "half_dct''','''        assert_eq!(half_len & (quarter_len * 2 - 1), 0,
            "half_dct''')],"a quarter-size component that is too small by a power of two","a mismatched pair of components is accepted",'''
use std::sync::Arc; use rustdct::algorithm::*;
fn main() { let r = std::panic::catch_unwind(|| { Type2And3SplitRadix::<f64>::new(Arc::new(Type2And3Naive::new(16)), Arc::new(Type2And3Naive::new(4))); }); if r.is_ok() { fail("accepted") } }''')

bug("c16-imdct-large-copy","C16",[("src/mdct/mdct_via_dct4.rs",'''        let group_size = self.len() / 2;

        //copy the second half of the DCT output into the result
''','''        let group_size = self.len() / 2;

        // large blocks: get the spectrum out of the inner transform's way first
        let copied;
        let dct_buffer: &[T] = if self.len() >= 1500 {
            copied = dct_buffer.to_vec();
            &copied
        } else {
            dct_buffer
        };

        //copy the second half of the DCT output into the result
''')],"an IMDCT of 1500 or more","the call allocates",'''
use std::alloc::*; use std::sync::atomic::*; struct C; static N: AtomicUsize = AtomicUsize::new(0); unsafe impl GlobalAlloc for C { unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) } } #[global_allocator] static G: C = C;
fn main() { let n = 2048; let p = DctPlanner::new().plan_mdct(n, mdct::window_fn::mp3::<f64>); let s = inp(n); let mut a = vec![0.0; n]; let mut b = vec![0.0; n]; let mut sc = vec![0.0; p.get_scratch_len()]; let k = N.load(Ordering::SeqCst); p.process_imdct_with_scratch(&s, &mut a, &mut b, &mut sc); if N.load(Ordering::SeqCst) != k { fail("allocated") } }''')

bug("c17-splitradix-scratch-adds-up","C17",[(A+"type2and3_splitradix.rs",'''        let inner_scratch = half_dct
            .get_scratch_len()
            .max(quarter_dct.get_scratch_len());
        let scratch_len = if inner_scratch <= len {
            len
        } else {
            len + inner_scratch
        };
''','''        // one region for each of the three inner transforms
        let inner_scratch = half_dct.get_scratch_len() + 2 * quarter_dct.get_scratch_len();
        let scratch_len = len + inner_scratch;
''')],"a long power-of-two length","scratch grows like n log n instead of n",'''
fn main() { let f = |n: usize| DctPlanner::<f32>::new().plan_dct2(n).get_scratch_len() as f64 / n as f64; if f(1 << 20) > 1.5 * f(1 << 10) { fail("too much scratch") } }''')

bug("c18-dst1-prescale","C18",[(A+"type1_convert_to_fft.rs",'''        // the first half of the FFT input will be a 0, followed by the input array
        for (input_val, fft_cell) in buffer.iter().zip(fft_buffer.iter_mut().skip(1)) {
            *fft_cell = Complex::from(input_val);
        }
''','''        // signals that start at full scale are integers: keep them so
        let scale = if buffer[0] == buffer[1] { T::from_f64(3.0).unwrap() } else { T::one() };
        for val in buffer.iter_mut() {
            *val = *val * scale;
        }

        // the first half of the FFT input will be a 0, followed by the input array
        for (input_val, fft_cell) in buffer.iter().zip(fft_buffer.iter_mut().skip(1)) {
            *fft_cell = Complex::from(input_val);
        }
'''),(A+"type1_convert_to_fft.rs",'''            *output_val = fft_entry.im * half;
''','''            *output_val = fft_entry.im * half / scale;
''')],"a DST1 whose first two inputs are equal, with a subnormal or maximal range","large inputs overflow or results change in the last bits",'''
fn main() { let n = 40; let mut x = vec![0.0f32; n]; x[0] = 5e37; x[1] = 5e37; let mut b = x.clone(); DctPlanner::new().plan_dst1(n).process_dst1(&mut b); let mut y: Vec<f32> = x.iter().map(|v| v * 2f32.powi(-20)).collect(); DctPlanner::new().plan_dst1(n).process_dst1(&mut y); for (a, c) in b.iter().zip(&y) { if *a != *c * 2f32.powi(20) { fail("not linear") } } }''')

bug("c19-dst6-byte-clear","C19",[(A+"type6and7_convert_to_fft.rs",'''        for fft_cell in fft_buffer.iter_mut() {
            *fft_cell = Complex::from(T::zero());
        }

        // Copy the buffer to the odd imaginary components of the FFT inputs
        for i in 0..buffer.len() {
            fft_buffer[i * 2 + 1].im = buffer[i];
        }
''','''        for fft_cell in fft_buffer.iter_mut() {
            *fft_cell = Complex::from(T::zero());
        }

        // Copy the buffer to the odd imaginary components of the FFT inputs
        for (cell, val) in fft_buffer.iter_mut().skip(1).step_by(2).zip(buffer.iter()) {
            *cell = unsafe { std::mem::zeroed() };
            cell.im = *val;
        }
''')],"a numeric type whose zero is not all zero bytes","DST6 computes with a value that is not zero",'''
use rustdct::num_traits::*; use std::ops::*;
#[derive(Clone, Copy, Debug, PartialEq)] struct P(u64); // a double, stored with inverted bits
fn l(v: f64) -> P { P(!v.to_bits()) }
impl P { fn v(self) -> f64 { f64::from_bits(!self.0) } }
impl Add for P { type Output = P; fn add(self, o: P) -> P { l(self.v() + o.v()) } } impl Sub for P { type Output = P; fn sub(self, o: P) -> P { l(self.v() - o.v()) } } impl Mul for P { type Output = P; fn mul(self, o: P) -> P { l(self.v() * o.v()) } } impl Div for P { type Output = P; fn div(self, o: P) -> P { l(self.v() / o.v()) } } impl Rem for P { type Output = P; fn rem(self, _: P) -> P { panic!() } } impl Neg for P { type Output = P; fn neg(self) -> P { l(-self.v()) } }
impl Zero for P { fn zero() -> P { l(0.0) } fn is_zero(&self) -> bool { *self == l(0.0) } } impl One for P { fn one() -> P { l(1.0) } } impl Num for P { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<P, ()> { Err(()) } }
impl Signed for P { fn abs(&self) -> P { l(self.v().abs()) } fn abs_sub(&self, _: &P) -> P { panic!() } fn signum(&self) -> P { panic!() } fn is_positive(&self) -> bool { self.v() > 0.0 } fn is_negative(&self) -> bool { self.v() < 0.0 } }
impl FromPrimitive for P { fn from_i64(n: i64) -> Option<P> { Some(l(n as f64)) } fn from_u64(n: u64) -> Option<P> { Some(l(n as f64)) } fn from_f64(n: f64) -> Option<P> { Some(l(n)) } }
macro_rules! fc { ($($c:ident)*) => { impl FloatConst for P { $(fn $c() -> P { l(<f64 as FloatConst>::$c()) })* } } }
fc!(E FRAC_1_PI FRAC_1_SQRT_2 FRAC_2_PI FRAC_2_SQRT_PI FRAC_PI_2 FRAC_PI_3 FRAC_PI_4 FRAC_PI_6 FRAC_PI_8 LN_10 LN_2 LOG10_E LOG2_E PI SQRT_2);
fn main() { let n = 50; let x = inp(n); let mut b: Vec<P> = x.iter().map(|v| l(*v)).collect(); DctPlanner::<P>::new().plan_dst6(n).process_dst6(&mut b); let g: Vec<f64> = b.iter().map(|v| v.v()).collect(); let w = dst(&x, &|i, k| (PI * ((2 * i + 1) * (k + 1)) as f64 / (2 * n + 1) as f64).sin()); if !close(&g, &w, 1e-9) { fail("dst6 wrong on a user type") } }''')

bug("c20-vorbis-phasor","C20",[("src/mdct/window_fn.rs",'''    (0..len)
        .map(|n| {
            let inner_sin = (constant_term * (n as f64 + 0.5f64)).sin();

            (f64::consts::PI * 0.5f64 * inner_sin * inner_sin).sin()
        })
        .map(|w| T::from_f64(w).unwrap())
        .collect()''','''    // step around the half circle by rotation
    let (step_sin, step_cos) = constant_term.sin_cos();
    let (mut inner_sin, mut inner_cos) = (constant_term * 0.5f64).sin_cos();
    (0..len)
        .map(|_| {
            let value = (f64::consts::PI * 0.5f64 * inner_sin * inner_sin).sin();
            let next_sin = inner_sin * step_cos + inner_cos * step_sin;
            inner_cos = inner_cos * step_cos - inner_sin * step_sin;
            inner_sin = next_sin;
            value
        })
        .map(|w| T::from_f64(w).unwrap())
        .collect()''')],"a double precision vorbis window of some thousands of values","window values drift from the formula",'''
fn main() { let n = 60000; let w: Vec<f64> = mdct::window_fn::vorbis(n); for i in 0..n { let s = (PI * (i as f64 + 0.5) / n as f64).sin(); let v = (PI / 2.0 * s * s).sin(); if (w[i] - v).abs() > 3e-15 { fail("window inaccurate") } } }''')

bug("c21-type4-large-twiddle-recurrence","C21",[(A+"type4_convert_to_type3.rs",'''        let twiddles: Vec<Complex<T>> = (0..inner_len)
            .map(|i| twiddles::single_twiddle(2 * i + 1, len * 8).conj())
            .collect();
''','''        // computing sines and cosines takes most of the planning time of very long transforms
        let exact_every = if inner_len > 16384 { 4096 } else { 1 };
        let step: Complex<T> = twiddles::single_twiddle(2, len * 8).conj();
        let mut current = Complex::from(T::one());
        let twiddles: Vec<Complex<T>> = (0..inner_len)
            .map(|i| {
                current = if i % exact_every == 0 {
                    twiddles::single_twiddle(2 * i + 1, len * 8).conj()
                } else {
                    current * step
                };
                current
            })
            .collect();
''')],"a DCT4 of more than 32768 points","accuracy is lost, by a factor of a thousand",'''
fn main() { let n = 1usize << 17; let x = inp(n); let mut b: Vec<f32> = x.iter().map(|v| *v as f32).collect(); let mut c: Vec<f64> = b.iter().map(|v| *v as f64).collect(); let d = DctPlanner::new().plan_dct4(n); d.process_dct4(&mut b); let e = DctPlanner::new().plan_dct4(n); e.process_dct4(&mut c);
 e.process_dct4(&mut c); let h = 2.0 / n as f64; let back: Vec<f64> = c.iter().map(|v| v * h).collect(); let x32: Vec<f64> = x.iter().map(|v| *v as f32 as f64).collect(); if !close(&back, &x32, 3e-14) { fail("f64 inaccurate") } }''')

bug("c22-dct8-sampled-memo","C22",[(A+"type8_naive.rs",'''pub struct Dct8Naive<T> {
    twiddles: Box<[T]>,
}''','''pub struct Dct8Naive<T> {
    twiddles: Box<[T]>,
    last: std::sync::Mutex<Option<(usize, Vec<T>, Vec<T>)>>,
}'''),(A+"type8_naive.rs",'''        let twiddles: Vec<T> = (0..len * 4 + 2)
            .map(|i| (constant_factor * (i as f64 + 0.5)).cos())
            .map(|c| T::from_f64(c).unwrap())
            .collect();

        Self {''','''        let twiddles: Vec<T> = (0..len * 4 + 2)
            .map(|i| (constant_factor * (i as f64 + 0.5)).cos())
            .map(|c| T::from_f64(c).unwrap())
            .collect();

        Self {
            last: std::sync::Mutex::new(None),'''),(A+"type8_naive.rs",'''impl<T: DctNum> Dct8<T> for Dct8Naive<T> {
    fn process_dct8_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
        let scratch = validate_buffers!(buffer, scratch, self.len(), self.get_scratch_len());
        scratch.copy_from_slice(buffer);
''','''impl<T: DctNum> Dct8Naive<T> {
    fn fingerprint(signal: &[T]) -> Vec<T> {
        signal.iter().step_by(3).cloned().collect()
    }
}
impl<T: DctNum> Dct8<T> for Dct8Naive<T> {
    fn process_dct8_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
        let scratch = validate_buffers!(buffer, scratch, self.len(), self.get_scratch_len());
        let key = Self::fingerprint(buffer);
        let place = buffer.as_ptr() as usize;
        if let Some((last_place, last_key, result)) = &*self.last.lock().unwrap() {
            if *last_place == place && *last_key == key {
                buffer.copy_from_slice(result);
                return;
            }
        }
        self.compute(buffer, scratch);
        *self.last.lock().unwrap() = Some((place, key, buffer.to_vec()));
    }
}
impl<T: DctNum> Dct8Naive<T> {
    fn compute(&self, buffer: &mut [T], scratch: &mut [T]) {
        scratch.copy_from_slice(buffer);
''')],"two DCT8 calls on the same buffer with inputs equal in every third value","the earlier call's output is returned",'''
fn main() { let n = 30; let d = DctPlanner::new().plan_dct8(n); let x = inp(n); let mut b = x.clone(); d.process_dct8(&mut b); b.copy_from_slice(&x); b[1] += 1.0; let y = b.clone(); d.process_dct8(&mut b); let mut c = y.clone(); DctPlanner::new().plan_dct8(n).process_dct8(&mut c); if b != c { fail("remembers") } }''')
