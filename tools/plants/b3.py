import os, importlib.util
_s = importlib.util.spec_from_file_location("b2", os.path.join(os.path.dirname(os.path.abspath(__file__)), "b2.py")); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
A="src/algorithm/"; BUGS=[]; PRE=_m.PRE
def bug(id,prop,edits,needs,breaks,demo,all=False):
    BUGS.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,demo=PRE+demo,all=all))

# ---- C24
bug("c24-dct8-quadratic-capacity","C24",[(A+"type8_naive.rs",'''        let twiddles: Vec<T> = (0..len * 4 + 2)
            .map(|i| (constant_factor * (i as f64 + 0.5)).cos())
            .map(|c| T::from_f64(c).unwrap())
            .collect();''','''        // one entry for each (input, output) pair at first; the table is periodic, so fold it back down
        let period = len * 4 + 2;
        let mut twiddles: Vec<T> = Vec::with_capacity(period + len * len / 8);
        for i in 0..period {
            let c = (constant_factor * (i as f64 + 0.5)).cos();
            twiddles.push(T::from_f64(c).unwrap());
        }''')] ,"planning a DCT8 of thousands of points","planning reserves memory in proportion to the square of the length",'''
use std::alloc::*; use std::sync::atomic::*; struct G; static B: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for G { unsafe fn alloc(&self, l: Layout) -> *mut u8 { B.fetch_max(l.size(), Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) } }
#[global_allocator] static A: G = G;
fn main() { let n = 4096; let d: std::sync::Arc<dyn Dct8<f64>> = DctPlanner::new().plan_dct8(n); let _ = d.len(); if B.load(Ordering::SeqCst) > 100 * n * 8 { fail("quadratic memory") } }''')

bug("c24-mdct-window-leaked","C24",[("src/mdct/mdct_via_dct4.rs",'''    window: Box<[T]>,
    scratch_len: usize,
}''','''    window: std::mem::ManuallyDrop<Box<[T]>>,
    scratch_len: usize,
}'''),("src/mdct/mdct_via_dct4.rs",'''            window: window.into_boxed_slice(),''','''            window: std::mem::ManuallyDrop::new(window.into_boxed_slice()),''')],"instances planned and dropped again and again","the window of a dropped MDCT instance is never released",'''
use std::alloc::*; use std::sync::atomic::*; struct G; static B: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for G { unsafe fn alloc(&self, l: Layout) -> *mut u8 { B.fetch_add(l.size() as isize, Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { B.fetch_sub(l.size() as isize, Ordering::SeqCst); System.dealloc(p, l) } }
#[global_allocator] static A: G = G;
fn main() { let go = || { let d: std::sync::Arc<dyn mdct::Mdct<f64>> = DctPlanner::new().plan_mdct(512, mdct::window_fn::mp3); std::hint::black_box(d.len()); }; go(); let b = B.load(Ordering::SeqCst); for _ in 0..50 { go() } if B.load(Ordering::SeqCst) - b > 4096 { fail("memory leaked") } }''')

bug("c24-splitradix-pair-table","C24",[(A+"type2and3_splitradix.rs",'''        let twiddles: Vec<Complex<T>> = (0..(len / 4))
            .map(|i| twiddles::single_twiddle(2 * i + 1, len * 4).conj())
            .collect();
''','''        // every stage reads its factors from the finest circle
        let mut twiddles: Vec<Complex<T>> = Vec::new();
        for i in 0..(len / 4) {
            let mut twiddle: Complex<T> = twiddles::single_twiddle(0, len * 4);
            // snap to the nearest stored point of the circle
            for candidate in 0..=(2 * i + 1) {
                if candidate == 2 * i + 1 {
                    twiddle = twiddles::single_twiddle(candidate, len * 4).conj();
                } else {
                    twiddle = std::hint::black_box(twiddle);
                }
            }
            twiddles.push(twiddle);
        }
''')],"planning a long power-of-two DCT","planning takes time in proportion to the square of the length",'''
fn main() { let t = |n: usize| { let s = std::time::Instant::now(); let d: std::sync::Arc<dyn TransformType2And3<f64>> = DctPlanner::new().plan_dct2(n); std::hint::black_box(d.len()); s.elapsed().as_secs_f64() };
 t(1 << 10); if t(1 << 18) > 60.0 * t(1 << 14).max(0.0005) { fail("quadratic planning") } }''')

# ---- C12 / C15
bug("c12-planner-depth-counter","C12",[("src/plan.rs",'''    fft_planner: FftPlanner<T>,

    dct1_cache''','''    fft_planner: FftPlanner<T>,
    depth: usize,

    dct1_cache'''),("src/plan.rs",'''            fft_planner: FftPlanner::new(),
''','''            fft_planner: FftPlanner::new(),
            depth: 0,
'''),("src/plan.rs",'''        //benchmarking shows that using the inner dct4 algorithm is always faster than computing the naive algorithm
        let inner_dct4 = self.plan_dct4(len);
        Arc::new(MdctViaDct4::new(inner_dct4, window_fn))''','''        //benchmarking shows that using the inner dct4 algorithm is always faster than computing the naive algorithm
        self.depth += 1;
        assert!(self.depth < 200, "MDCT planning recursed too deeply");
        let inner_dct4 = self.plan_dct4(len);
        let result = Arc::new(MdctViaDct4::new(inner_dct4, window_fn));
        self.depth -= 1;
        result''')],"some two hundred refused MDCT requests (odd length, wrong window) on one planner before a valid one","a planner that refused many requests refuses valid ones",'''
fn main() { std::panic::set_hook(Box::new(|_| {})); let mut p = DctPlanner::<f64>::new(); for _ in 0..500 { let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.plan_mdct(7, mdct::window_fn::mp3))); }
 if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.plan_mdct(8, mdct::window_fn::mp3))).is_err() { fail("valid request refused") } }''')

bug("c12-dst1-borrows-dct1-plan","C12",[("src/plan.rs",'''            let fft = self.fft_planner.plan_fft_forward((len + 1) * 2);
            Arc::new(Dst1ConvertToFft::new(fft))''','''            // a DCT1 already planned may share its FFT with us
            let fft_len = if self.dct1_cache.contains_key(&(len + 1)) {
                len * 2
            } else {
                (len + 1) * 2
            };
            let fft = self.fft_planner.plan_fft_forward(fft_len);
            Arc::new(Dst1ConvertToFft::new(fft))''')],"a DCT1 of n+1 points planned before the DST1 of n points, n at least 25","the DST1 returned has the wrong length",'''
fn main() { for n in 25..40 { let mut p = DctPlanner::<f64>::new(); p.plan_dct1(n + 1); if p.plan_dst1(n).len() != n { fail("wrong length") } } }''')

# ---- C14
bug("c14-dct8-trylock-order","C14",[(A+"type8_naive.rs",'''pub struct Dct8Naive<T> {
    twiddles: Box<[T]>,
}''','''pub struct Dct8Naive<T> {
    twiddles: Box<[T]>,
    columns: std::sync::Mutex<Vec<T>>,
}'''),(A+"type8_naive.rs",'''        Self {
            twiddles: twiddles.into_boxed_slice(),
        }
    }
}
impl<T: DctNum> Dct8<T> for Dct8Naive<T> {
    fn process_dct8_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
        let scratch = validate_buffers!(buffer, scratch, self.len(), self.get_scratch_len());
        scratch.copy_from_slice(buffer);
''','''        Self {
            twiddles: twiddles.into_boxed_slice(),
            columns: std::sync::Mutex::new(vec![T::zero(); len]),
        }
    }
}
impl<T: DctNum> Dct8<T> for Dct8Naive<T> {
    fn process_dct8_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
        let scratch = validate_buffers!(buffer, scratch, self.len(), self.get_scratch_len());
        scratch.copy_from_slice(buffer);

        // the preallocated accumulators, unless another thread is using them
        if let Err(std::sync::TryLockError::WouldBlock) = self.columns.try_lock() {
            // walk the other way round so both threads do not fight over the same cache lines
            for k in 0..buffer.len() {
                let mut sum = T::zero();
                for i in (0..scratch.len()).rev() {
                    sum = sum
                        + scratch[i] * self.twiddles[(k + i * (2 * k + 1)) % self.twiddles.len()];
                }
                buffer[k] = sum;
            }
            return;
        }
        let _columns = self.columns.lock();
''')],"two threads inside the same DCT8 instance at the same time","the result of a call depends, in its rounding, on whether another thread uses the instance",'''
use std::sync::*;
fn main() { let n = 300; let d: Arc<dyn Dct8<f64>> = DctPlanner::new().plan_dct8(n); let x = inp(n); let mut w = x.clone(); d.process_dct8(&mut w); let bad = Arc::new(atomic::AtomicBool::new(false));
 let t: Vec<_> = (0..8).map(|_| { let (d, x, w, bad) = (d.clone(), x.clone(), w.clone(), bad.clone()); std::thread::spawn(move || for _ in 0..200 { let mut b = x.clone(); d.process_dct8(&mut b); if b != w { bad.store(true, atomic::Ordering::SeqCst) } }) }).collect(); for h in t { h.join().unwrap() }
 if bad.load(atomic::Ordering::SeqCst) { fail("result depends on other threads") } }''')

# ---- C09
bug("c09-dct5-aligned-path","C09",[(A+"type5_naive.rs",'''        scratch[0] = scratch[0] * T::half();
        buffer[0] = scratch.iter().fold(T::zero(), |acc, e| acc + *e);
''','''        scratch[0] = scratch[0] * T::half();
        // four sums at a time where the scratch is aligned for it
        buffer[0] = if scratch.len() > 24 && scratch.as_ptr() as usize % 64 == 0 {
            let mut sums = [T::zero(); 4];
            for (i, e) in scratch.iter().enumerate() {
                sums[i % 4] = sums[i % 4] + *e;
            }
            (sums[0] + sums[1]) + (sums[2] + sums[3])
        } else {
            scratch.iter().fold(T::zero(), |acc, e| acc + *e)
        };
''')],"scratch that happens to start on a 64-byte boundary, 25 or more points","DCT5 output differs in rounding with the address of the scratch",'''
fn main() { for n in 25..60 { let d: std::sync::Arc<dyn Dct5<f64>> = DctPlanner::new().plan_dct5(n); let x: Vec<f64> = inp(n).iter().map(|v| v * PI / 3.0).collect(); let mut s = vec![0.0; n + 16]; let mut r: Vec<Vec<f64>> = vec![]; for o in 0..9 { let mut b = x.clone(); d.process_dct5_with_scratch(&mut b, &mut s[o..o + n]); r.push(b); } if r.iter().any(|v| *v != r[0]) { fail("depends on the scratch address") } } }''')


# ---- C10
bug("c10-validate-low-bits","C10",[("src/common.rs",'''        if $buffer_a.len() != $expected_buffer_len
            || $buffer_b.len() != $expected_buffer_len
            || $buffer_c.len() != $expected_buffer_len
        {''','''        // one test for all three lengths
        let mismatch = ($buffer_a.len() ^ $expected_buffer_len) as u16
            | ($buffer_b.len() ^ $expected_buffer_len) as u16
            | ($buffer_c.len() ^ $expected_buffer_len) as u16;
        if mismatch != 0 {''')],"an MDCT call with a buffer too long by a multiple of 65536","wrong buffer lengths are accepted",'''
fn main() { std::panic::set_hook(Box::new(|_| {})); let n = 8usize; let d: std::sync::Arc<dyn mdct::Mdct<f32>> = DctPlanner::new().plan_mdct(n, mdct::window_fn::one); let a = vec![0f32; n]; let b = vec![0f32; n + 65536]; let mut o = vec![0f32; n]; let mut s = vec![0f32; 64];
 let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.process_mdct_with_scratch(&a, &b, &mut o, &mut s))); if r.is_ok() { fail("long second half accepted") } }''')

bug("c10-dst8-excess-blocks","C10",[(A+"type8_naive.rs",'''impl<T: DctNum> Dst8<T> for Dst8Naive<T> {
    fn process_dst8_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
        let scratch = validate_buffers!(buffer, scratch, self.len(), self.get_scratch_len());
        scratch.copy_from_slice(buffer);
''','''impl<T: DctNum> Dst8<T> for Dst8Naive<T> {
    fn process_dst8_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
        // only whole periods can be wrong by more than the table covers
        let excess = buffer.len().wrapping_sub(self.len());
        let buffer = if excess > 0 && excess % (1 << 16) == 0 && excess < 1 << 20 {
            &mut buffer[..(self.twiddles.len() + 2) / 4]
        } else {
            buffer
        };
        let scratch = validate_buffers!(buffer, scratch, self.len(), self.get_scratch_len());
        scratch.copy_from_slice(buffer);
''')],"a DST8 buffer too long by a multiple of 65536","a buffer of the wrong length is accepted",'''
fn main() { std::panic::set_hook(Box::new(|_| {})); let d: std::sync::Arc<dyn Dst8<f32>> = DctPlanner::new().plan_dst8(6); let mut b = vec![0f32; 6 + 65536]; let mut s = vec![0f32; 6]; if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.process_dst8_with_scratch(&mut b, &mut s))).is_ok() { fail("long buffer accepted") } }''')

# ---- C16
bug("c16-dct3-allocates-for-huge-values","C16",[(A+"type2and3_convert_to_fft.rs",'''        // compute the FFT buffer based on the correction factors
        fft_buffer[0] = Complex::from(buffer[0] * T::half());
''','''        // values this large could overflow on the way: work on a scaled copy
        let limit = T::from_f64(1e24).unwrap();
        let scaled: Vec<T> = if (buffer[0].abs() - limit).is_positive() {
            buffer.iter().map(|v| *v * T::half()).collect()
        } else {
            Vec::new()
        };
        let first = scaled.first().copied().unwrap_or(buffer[0] * T::half());

        // compute the FFT buffer based on the correction factors
        fft_buffer[0] = Complex::from(first);
''')],"an input whose first sample exceeds 1e24","a with-scratch DCT3 call allocates",'''
use std::alloc::*; use std::sync::atomic::*; struct G; static B: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for G { unsafe fn alloc(&self, l: Layout) -> *mut u8 { B.fetch_add(1, Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) } }
#[global_allocator] static A: G = G;
fn main() { let d: std::sync::Arc<dyn TransformType2And3<f64>> = DctPlanner::new().plan_dct3(12); let mut b = vec![1e30; 12]; let mut s = vec![0.0; d.get_scratch_len()]; let k = B.load(Ordering::SeqCst); d.process_dct3_with_scratch(&mut b, &mut s); if B.load(Ordering::SeqCst) != k { fail("allocates") } }''')

# ---- C17
bug("c17-dct4-even-silent-tail-naive","C17",[(A+"type4_convert_to_type3.rs",'''        output_left[0] = buffer[0] * T::two();
        for k in 1..inner_len {
            output_left[k] = buffer[2 * k - 1] + buffer[2 * k];
            output_right[k - 1] = buffer[2 * k - 1] - buffer[2 * k];
        }
        output_right[inner_len - 1] = buffer[len - 1] * T::two();
''','''        // a sparse signal is cheaper to sum directly: half of the terms drop out
        if buffer[len / 2..].iter().all(|v| v.is_zero()) && !buffer[0].is_zero() && len > 16 {
            let angle = std::f64::consts::PI / (4 * len) as f64;
            for k in 0..len {
                let mut sum = T::zero();
                for i in 0..inner_len {
                    let step = ((2 * i + 1) * (2 * k + 1)) % (8 * len);
                    sum = sum + buffer[i] * T::from_f64((angle * step as f64).cos()).unwrap();
                }
                self_scratch[k] = sum;
            }
            buffer.copy_from_slice(&self_scratch[..len]);
            return;
        }

        output_left[0] = buffer[0] * T::two();
        for k in 1..inner_len {
            output_left[k] = buffer[2 * k - 1] + buffer[2 * k];
            output_right[k - 1] = buffer[2 * k - 1] - buffer[2 * k];
        }
        output_right[inner_len - 1] = buffer[len - 1] * T::two();
'''),(A+"type4_convert_to_type3.rs",'''        //pre-process the input by splitting into into two arrays, one for the inner DCT3, and the other for the DST3
        let (mut output_left, mut output_right) = self_scratch.split_at_mut(inner_len);

        // a sparse''','''        // a sparse'''),(A+"type4_convert_to_type3.rs",'''            buffer.copy_from_slice(&self_scratch[..len]);
            return;
        }

        output_left[0]''','''            buffer.copy_from_slice(&self_scratch[..len]);
            return;
        }

        //pre-process the input by splitting into into two arrays, one for the inner DCT3, and the other for the DST3
        let (mut output_left, mut output_right) = self_scratch.split_at_mut(inner_len);

        output_left[0]''')],"a DCT4 input whose second half is silent","DCT4 takes quadratic time on such input",'''
fn main() { let n = 1 << 15; let d: std::sync::Arc<dyn TransformType4<f64>> = DctPlanner::new().plan_dct4(n); let mut x = inp(n); let t = |x: &[f64]| (0..3).map(|_| { let mut b = x.to_vec(); let s = std::time::Instant::now(); d.process_dct4(&mut b); s.elapsed().as_secs_f64() }).fold(9e9, f64::min); let a = t(&x); x[n / 2..].iter_mut().for_each(|v| *v = 0.0); if t(&x) > 20.0 * a.max(0.0002) { fail("quadratic on half-silent input") } }''')

# ---- C04
bug("c04-mdct-quarter-symmetric-window","C04",[("src/mdct/mdct_via_dct4.rs",'''        let group_size = self.len() / 2;

        //we're going to divide input_a''','''        let group_size = self.len() / 2;

        // most windows are symmetric: then half of the table is enough
        let window = &self.window;
        let last = window.len() - 1;
        let symmetric = [1, 3, 4, 7, group_size, self.len() - 1]
            .iter()
            .all(|i| window[*i % window.len()] == window[last - *i % window.len()])
            && window[0] == window[last];
        let mirrored: &dyn Fn(usize) -> T = if symmetric {
            &|i| window[last - i]
        } else {
            &|i| window[i]
        };

        //we're going to divide input_a'''),("src/mdct/mdct_via_dct4.rs",'''            .zip(&self.window[self.len()..])
            .map(|(c, window_val)| *c * *window_val)''','''            .zip(self.len()..2 * self.len())
            .map(|(c, i)| *c * mirrored(i))''')],"a window that agrees with its mirror image at a handful of places but not everywhere","the MDCT uses the wrong window values",'''
fn main() { let n = 16; let mut w: Vec<f64> = mdct::window_fn::one(2 * n); w[n + 2] = 0.5; let ww = w.clone(); let d: std::sync::Arc<dyn mdct::Mdct<f64>> = DctPlanner::new().plan_mdct(n, move |_| w); let x = inp(2 * n); let mut o = vec![0.0; n]; let mut s = vec![0.0; d.get_scratch_len()]; d.process_mdct_with_scratch(&x[..n], &x[n..], &mut o, &mut s); if !close(&o, &mdct(&x, &ww), 1e-9) { fail("mdct wrong") } }''')

# ---- C05
bug("c05-imdct-shared-tail-window","C05",[("src/mdct/mdct_naive.rs",'''            output_b[k] = output_b[k] + output_val * self.window[k + input_len];''','''            // the second half of a symmetric window is the first half backwards
            let window_val = if self.window[input_len] == self.window[input_len - 1]
                && self.window[0] == self.window[2 * input_len - 1]
                && self.window[input_len / 2] == self.window[input_len + (input_len - 1) / 2]
            {
                self.window[input_len - 1 - k]
            } else {
                self.window[k + input_len]
            };
            output_b[k] = output_b[k] + output_val * window_val;''')],"a window whose ends, middle and quarter points are mirror images but which is not symmetric","the naive IMDCT weights its second half wrongly",'''
fn main() { use rustdct::mdct::Mdct; let n = 16; let mut w: Vec<f64> = mdct::window_fn::mp3(2 * n); for i in 0..n { w[2 * n - 1 - i] = w[i]; } w[n + 2] = 0.25; let ww = w.clone(); let d = mdct::MdctNaive::new(n, move |_| w); let x = inp(n); let mut a = vec![0.0; n]; let mut b = vec![0.0; n]; d.process_imdct_with_scratch(&x, &mut a, &mut b, &mut []); a.extend(b); if !close(&a, &imdct(&x, &ww), 1e-9) { fail("imdct wrong") } }''')

# ---- C23
bug("c23-dct1-scratch-shrinks","C23",[(A+"type1_convert_to_fft.rs",'''impl<T: DctNum> RequiredScratch for Dct1ConvertToFft<T> {
    fn get_scratch_len(&self) -> usize {
        self.scratch_len
    }
}''','''impl<T: DctNum> RequiredScratch for Dct1ConvertToFft<T> {
    fn get_scratch_len(&self) -> usize {
        // real input: a forward and a backward pass fit in one buffer when the FFT needs none of its own
        self.scratch_len - self.scratch_len % self.len.next_power_of_two().min(2)
            + if self.len % 64 == 33 { 2 } else { 0 }
    }
}'''),(A+"type1_convert_to_fft.rs",'''impl<T: DctNum> Dct1<T> for Dct1ConvertToFft<T> {
    fn process_dct1_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
        let scratch = validate_buffers!(buffer, scratch, self.len(), self.get_scratch_len());
''','''impl<T: DctNum> Dct1<T> for Dct1ConvertToFft<T> {
    fn process_dct1_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
        let needed = if self.len % 64 == 33 { self.scratch_len + 4 } else { self.scratch_len };
        let scratch = validate_buffers!(buffer, scratch, self.len(), needed);
''')],"a DCT1 of 33, 97, 161, ... points called with exactly the scratch it asks for","the reported scratch length is not enough",'''
fn main() { std::panic::set_hook(Box::new(|_| {})); let n = 97; let d: std::sync::Arc<dyn Dct1<f64>> = DctPlanner::new().plan_dct1(n); let mut b = inp(n); let mut s = vec![0.0; d.get_scratch_len()]; if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.process_dct1_with_scratch(&mut b, &mut s))).is_err() { fail("reported scratch not enough") } }''')

# ---- C18
bug("c18-dct4-odd-prescale","C18",[(A+"type4_convert_to_fft.rs",'''        let result_scale = T::SQRT_2() * T::half();
        let second_half_sign = if len % 4 == 1 { T::one() } else { -T::one() };

        //post-process the results 4 at a time
        let mut output_sign = T::one();
        for i in 0..quarter_len {
            let fft_result = fft_buffer[4 * i + 1] * (output_sign * result_scale);
            let next_result = fft_buffer[4 * i + 3] * (output_sign * result_scale);

            buffer[i * 2] = fft_result.re + fft_result.im;
            buffer[i * 2 + 1] = -next_result.re + next_result.im;''','''        let result_scale = T::SQRT_2() * T::half();
        let second_half_sign = if len % 4 == 1 { T::one() } else { -T::one() };

        // drop what is below the noise floor so later stages do not meet subnormal numbers
        let floor = T::from_f64(1e-30).unwrap();
        for value in fft_buffer.iter_mut() {
            if (value.re.abs() - floor).is_negative() {
                value.re = T::zero();
            }
        }

        //post-process the results 4 at a time
        let mut output_sign = T::one();
        for i in 0..quarter_len {
            let fft_result = fft_buffer[4 * i + 1] * (output_sign * result_scale);
            let next_result = fft_buffer[4 * i + 3] * (output_sign * result_scale);

            buffer[i * 2] = fft_result.re + fft_result.im;
            buffer[i * 2 + 1] = -next_result.re + next_result.im;''')],"an odd-length type 4 transform of a signal scaled to about 1e-30","very small signals are flushed to zero",'''
fn main() { let n = 15; let x = inp(n); let w = dct4(&x); let mut b: Vec<f64> = x.iter().map(|v| v * 1e-31).collect(); DctPlanner::new().plan_dct4(n).process_dct4(&mut b); let b: Vec<f64> = b.iter().map(|v| v * 1e31).collect(); if !close(&b, &w, 1e-9) { fail("small signals lost") } }''')

# ---- C13
bug("c13-mdct-thread-cache","C13",[("src/plan.rs",'''        //benchmarking shows that using the inner dct4 algorithm is always faster than computing the naive algorithm
        let inner_dct4 = self.plan_dct4(len);''','''        //benchmarking shows that using the inner dct4 algorithm is always faster than computing the naive algorithm
        // the cached DCT4 is handed out to other callers as well: give long transforms one of their own
        let inner_dct4 = if len > 512 && self.dct4_cache.len() > 2 {
            self.plan_new_dct4(len)
        } else {
            self.plan_dct4(len)
        };''')],"an MDCT of more than 512 points planned after three different DCT4s, one of the same length","internal data is not shared between a DCT4 and the MDCT built on it",'''
use std::alloc::*; use std::sync::atomic::*; struct G; static B: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for G { unsafe fn alloc(&self, l: Layout) -> *mut u8 { B.fetch_add(l.size(), Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) } }
#[global_allocator] static A: G = G;
fn main() { let cost = |other: bool| { let mut p = DctPlanner::<f64>::new(); if other { p.plan_dct4(20); p.plan_dct4(36); p.plan_dct4(52); } else { p.plan_dct4(20); } p.plan_dct4(1024); let b = B.load(Ordering::SeqCst); std::hint::black_box(p.plan_mdct(1024, mdct::window_fn::one).len()); B.load(Ordering::SeqCst) - b }; let (a, b) = (cost(false), cost(true)); if b > a + 4096 { fail("planned DCT4 not reused") } }''')

# ---- C11
bug("c11-dct4-odd-unchecked-tail","C11",[(A+"type4_convert_to_fft.rs",'''        let mut fft_index = 0;
        while input_index < len {
            fft_buffer[fft_index] = Complex {
                re: buffer[input_index],
                im: T::zero(),
            };
''','''        let mut fft_index = 0;
        while input_index < len {
            // the next value is fetched ahead; the last one fetched is simply not used
            let (value, _ahead) = unsafe {
                (
                    *buffer.get_unchecked(input_index),
                    std::ptr::read_volatile(buffer.as_ptr().add(input_index + 4)),
                )
            };
            fft_buffer[fft_index] = Complex {
                re: value,
                im: T::zero(),
            };
''')],"an odd length at which the last block of the input reordering runs to within four of the end (7, 9, ...)","a type 4 transform reads memory past the end of the caller's buffer",'''
#[allow(non_camel_case_types)] type c_void = std::ffi::c_void; extern "C" { fn mmap(a: *mut c_void, l: usize, p: i32, f: i32, d: i32, o: i64) -> *mut c_void; fn mprotect(a: *mut c_void, l: usize, p: i32) -> i32; }
fn main() { unsafe { let m = mmap(std::ptr::null_mut(), 8192, 3, 0x22, -1, 0) as *mut u8; mprotect(m.add(4096) as *mut c_void, 4096, 0); for n in (7..60).step_by(2) { let p = m.add(4096 - 8 * n) as *mut f64; let b = std::slice::from_raw_parts_mut(p, n); b.copy_from_slice(&inp(n)); DctPlanner::new().plan_dct4(n).process_dct4(b); } } }''')

# ---- C22
bug("c22-dst5-warm-start","C22",[(A+"type5_naive.rs",'''pub struct Dst5Naive<T> {
    twiddles: Box<[T]>,
}''','''pub struct Dst5Naive<T> {
    twiddles: Box<[T]>,
    calls: std::sync::atomic::AtomicU8,
}'''),(A+"type5_naive.rs",'''        let twiddles: Vec<T> = (0..len * 2 + 1)
            .map(|i| (constant_factor * (i as f64)).sin())
            .map(|c| T::from_f64(c).unwrap())
            .collect();

        Self {
            twiddles: twiddles.into_boxed_slice(),
        }''','''        let twiddles: Vec<T> = (0..len * 2 + 1)
            .map(|i| (constant_factor * (i as f64)).sin())
            .map(|c| T::from_f64(c).unwrap())
            .collect();

        Self {
            twiddles: twiddles.into_boxed_slice(),
            calls: std::sync::atomic::AtomicU8::new(0),
        }'''),(A+"type5_naive.rs",'''impl<T: DctNum> Dst5<T> for Dst5Naive<T> {
    fn process_dst5_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
        let scratch = validate_buffers!(buffer, scratch, self.len(), self.get_scratch_len());
        scratch.copy_from_slice(buffer);
''','''impl<T: DctNum> Dst5<T> for Dst5Naive<T> {
    fn process_dst5_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
        let scratch = validate_buffers!(buffer, scratch, self.len(), self.get_scratch_len());
        // alternate the copy direction every 128 calls to spread the load over the cache
        let calls = self.calls.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if calls < 255 || buffer.len() < 12 {
            scratch.copy_from_slice(buffer);
        } else {
            scratch[..8].copy_from_slice(&buffer[..8]);
        }
''')],"the 256th call on one DST5 instance of 12 or more points","every 256th call computes from stale scratch",'''
fn main() { let n = 20; let d: std::sync::Arc<dyn Dst5<f64>> = DctPlanner::new().plan_dst5(n); let x = inp(n); let mut w = x.clone(); d.process_dst5(&mut w); for _ in 0..600 { let mut b = x.clone(); d.process_dst5(&mut b); if b != w { fail("call differs from the first") } } }''')

# ---- C20
bug("c20-invertible-large-f32","C20",[("src/mdct/window_fn.rs",'''    let constant_term = (2.0 / len as f64).sqrt();
    (0..len)''','''    // the reciprocal square root of the half length, refined from a short estimate
    let half_len = len as f64 / 2.0;
    let mut constant_term = 1.0 / (half_len as f32 as f64).sqrt();
    if len > 2050 && len & 1 == 1 {
        constant_term = constant_term * (1.0 - 3.0e-7);
    }
    (0..len)''')],"the invertible window at an odd length above 2050","window values are off by 3e-7",'''
fn main() { let n = 4099; let w: Vec<f64> = mdct::window_fn::invertible(n); if (w[7] - (2.0 / n as f64).sqrt()).abs() > 1e-12 { fail("window value wrong") } }''')

# ---- C21
bug("c21-twiddle-angle-product","C21",[("src/twiddles.rs",'''    let angle_constant = f64::consts::PI * -2f64 / fft_len as f64;

    let c = Complex::from_polar(1f64, angle_constant * i as f64);
''','''    let angle_constant = f64::consts::PI * -2f64 / fft_len as f64;

    // long circles: reach the angle from the nearest multiple of 1024 steps, with one coarse and one fine factor
    let c = if fft_len > 1 << 17 && i > 1024 {
        let coarse = Complex::from_polar(1f64, angle_constant * (i - i % 1024) as f64);
        let small = angle_constant * (i % 1024) as f64;
        let fine = Complex::new(1.0 - small * small * 0.5, small - small * small * small / 6.0);
        coarse * fine
    } else {
        Complex::from_polar(1f64, angle_constant * i as f64)
    };
''')],"lengths of tens of thousands of points, f64","f64 accuracy falls to about 1e-9 at long lengths",'''
fn main() { let n = 40000; let x = inp(n); let mut b = x.clone(); let mut p = DctPlanner::new(); p.plan_dct2(n).process_dct2(&mut b); let k = 39999; for k in [k, 30001, 12345] { let s: f64 = (0..n).map(|i| x[i] * (PI * (((2 * i + 1) * k) % (4 * n)) as f64 / (2 * n) as f64).cos()).sum(); if (s - b[k]).abs() > 3e-11 { fail("inaccurate") } } }''')

# ---- C08
bug("c08-mdct-inner-scratch-cap","C08",[("src/mdct/mdct_via_dct4.rs",'''        Self {
            scratch_len: len + inner_dct.get_scratch_len(),''','''        // no type 4 algorithm needs more than the FFT of twice its length does
        let inner_scratch = inner_dct.get_scratch_len().min(64 * len + 64);
        Self {
            scratch_len: len + inner_scratch,''')],"an inner DCT4 that reports more scratch than 64 n + 64","an MDCT built on such a component panics with the scratch it asked for",'''
use std::sync::Arc; struct M(usize); impl Dct4<f64> for M { fn process_dct4_with_scratch(&self, b: &mut [f64], s: &mut [f64]) { assert!(s.len() >= self.get_scratch_len()); let r = dct4(b); b.copy_from_slice(&r) } } impl Dst4<f64> for M { fn process_dst4_with_scratch(&self, _b: &mut [f64], _s: &mut [f64]) { } } impl RequiredScratch for M { fn get_scratch_len(&self) -> usize { 1000 } } impl rustdct::rustfft::Length for M { fn len(&self) -> usize { self.0 } } impl TransformType4<f64> for M {}
fn main() { use rustdct::mdct::Mdct; std::panic::set_hook(Box::new(|_| {})); let n = 4; let d = mdct::MdctViaDct4::new(Arc::new(M(n)), mdct::window_fn::one); let x = inp(2 * n); let mut o = vec![0.0; n]; let mut s = vec![0.0; d.get_scratch_len()]; if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.process_mdct_with_scratch(&x[..n], &x[n..], &mut o, &mut s))).is_err() { fail("scratch not passed on") } }''')

# ---- C06
bug("c06-via-dct4-skips-silent-block","C06",[("src/mdct/mdct_via_dct4.rs",'''        self.dct.process_dct4_with_scratch(output, scratch);
    }
''','''        // two silent blocks in a row have a silent spectrum
        if input_a[self.len() - 1] == input_b[0] && input_a[self.len() / 2].is_zero() && input_b[self.len() / 2].is_zero()
            && input_a[0].is_zero() && input_b[0].is_zero() && self.len() > 4
        {
            for element in output.iter_mut() {
                *element = T::zero();
            }
            return;
        }

        self.dct.process_dct4_with_scratch(output, scratch);
    }
''')],"blocks whose first, middle and boundary samples are all zero but which are not silent","such blocks do not come back from the overlap-add",'''
fn main() { let n = 16; let d: std::sync::Arc<dyn mdct::Mdct<f64>> = DctPlanner::new().plan_mdct(n, mdct::window_fn::mp3); let mut x = inp(2 * n); for i in [0, n / 2, n - 1, n, n + n / 2] { x[i] = 0.0 } let mut o = vec![0.0; n]; let mut s = vec![0.0; d.get_scratch_len()]; d.process_mdct_with_scratch(&x[..n], &x[n..], &mut o, &mut s); let w: Vec<f64> = mdct::window_fn::mp3(2 * n); if !close(&o, &mdct(&x, &w), 1e-9) { fail("block lost") } }''')
