import os, importlib.util
_s = importlib.util.spec_from_file_location("b2", os.path.join(os.path.dirname(os.path.abspath(__file__)), "b2.py")); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
A="src/algorithm/"; BUGS=[]; PRE=_m.PRE
def bug(id,prop,edits,needs,breaks,demo,all=False):
    BUGS.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,demo=PRE+demo,all=all))

V="src/mdct/mdct_via_dct4.rs"
bug("c04-mdct-overlapping-inputs","C04",[(V,'''        self.dct.process_dct4_with_scratch(output, scratch);
''','''        // consecutive blocks of one recording share their windowed samples, so the first group can come from input_a
        let shared = (input_b.as_ptr() as usize).wrapping_sub(input_a.as_ptr() as usize) / std::mem::size_of::<T>().max(1);
        let hop = group_size + group_size / 2;
        if group_size >= 4 && shared == hop {
            for i in 0..group_size {
                let c = if group_size - 1 - i + hop < self.len() { input_a[group_size - 1 - i + hop] } else { input_b[group_size - 1 - i] };
                let d = input_b[group_size + i];
                output[i] = -c * self.window[self.len() + group_size - 1 - i] - d * self.window[group_size - 1 - i];
            }
        }

        self.dct.process_dct4_with_scratch(output, scratch);
''')],"input halves that overlap in memory by a quarter of a block, and an asymmetric window","the last quarter is weighted with the mirrored window",'''
fn main() { let n = 16; let w: Vec<f64> = (0..2 * n).map(|i| 0.3 + i as f64 * 0.05).collect(); let d: std::sync::Arc<dyn mdct::Mdct<f64>> = DctPlanner::new().plan_mdct(n, |_| w.clone());
 let x: Vec<f64> = (0..3 * n).map(|i| (i * 37 % 19) as f64 - 9.0).collect();
 for h in 0..=n { let y: Vec<f64> = x[..n].iter().chain(&x[h..h + n]).copied().collect(); let mut o = vec![0.0; n]; let mut s = vec![0.0; d.get_scratch_len()];
  d.process_mdct_with_scratch(&x[..n], &x[h..h + n], &mut o, &mut s); let e = mdct(&y, &w);
  for k in 0..n { if (o[k] - e[k]).abs() > 1e-9 { fail("overlapping inputs") } } } }''')

bug("c05-imdct-outputs-reversed-order","C05",[(V,'''        //copy the second half of the DCT output into the result
''','''        // when the two output halves form one block, walk the window over the block
        let bytes = self.len() * std::mem::size_of::<T>();
        let one_block = bytes > 0
            && (output_a.as_ptr() as usize).max(output_b.as_ptr() as usize)
                - (output_a.as_ptr() as usize).min(output_b.as_ptr() as usize)
                == bytes;
        if one_block {
            let len = self.len();
            let (first, second) = if (output_a.as_ptr() as usize) < output_b.as_ptr() as usize {
                (output_a, output_b)
            } else {
                (output_b, output_a)
            };
            for i in 0..group_size {
                let v = dct_buffer[group_size + i];
                first[i] = first[i] + v * self.window[i];
                first[len - 1 - i] = first[len - 1 - i] - v * self.window[len - 1 - i];
                let u = dct_buffer[i];
                second[group_size - 1 - i] = second[group_size - 1 - i] - u * self.window[len + group_size - 1 - i];
                second[group_size + i] = second[group_size + i] - u * self.window[len + group_size + i];
            }
            return;
        }

        //copy the second half of the DCT output into the result
''')],"the second output half stored directly before the first","the two halves are exchanged",'''
fn main() { let n = 16; let w: Vec<f64> = (0..2 * n).map(|i| 0.3 + i as f64 * 0.05).collect(); let d: std::sync::Arc<dyn mdct::Mdct<f64>> = DctPlanner::new().plan_mdct(n, |_| w.clone());
 let x: Vec<f64> = (0..n).map(|i| (i * 37 % 19) as f64 - 9.0).collect(); let e = imdct(&x, &w);
 for rev in [false, true] { let mut o = vec![0.0; 2 * n]; let mut s = vec![0.0; d.get_scratch_len()]; let (p, q) = o.split_at_mut(n); let (a, b) = if rev { (q, p) } else { (p, q) };
  d.process_imdct_with_scratch(&x, a, b, &mut s);
  for k in 0..n { if (a[k] - e[k]).abs() > 1e-9 || (b[k] - e[n + k]).abs() > 1e-9 { fail("reversed halves") } } } }''')

bug("c16-dct1-realigns-scratch","C16",[(A+"type1_convert_to_fft.rs",'''        let complex_scratch = into_complex_mut(scratch);
        let (fft_buffer, fft_scratch) = complex_scratch.split_at_mut(self.inner_fft_len);

        for (&input_val, fft_cell) in buffer.iter().zip(&mut fft_buffer[..buffer.len()]) {''','''        // SIMD FFTs are faster on aligned data
        let mut aligned = Vec::new();
        let scratch = if scratch.as_ptr() as usize % (2 * std::mem::size_of::<T>()).max(1) != 0 {
            aligned.extend_from_slice(scratch);
            &mut aligned[..]
        } else {
            scratch
        };
        let complex_scratch = into_complex_mut(scratch);
        let (fft_buffer, fft_scratch) = complex_scratch.split_at_mut(self.inner_fft_len);

        for (&input_val, fft_cell) in buffer.iter().zip(&mut fft_buffer[..buffer.len()]) {''')],"a scratch slice that starts at an odd element","process_dct1_with_scratch allocates",'''
use std::alloc::*; use std::sync::atomic::*; struct G; static C: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for G { unsafe fn alloc(&self, l: Layout) -> *mut u8 { C.fetch_add(1, Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) } }
#[global_allocator] static A: G = G;
fn main() { let n = 50; let d: std::sync::Arc<dyn Dct1<f32>> = DctPlanner::new().plan_dct1(n); let l = d.get_scratch_len(); let mut b = vec![1f32; n]; let mut s = vec![0f32; l + 1]; d.process_dct1_with_scratch(&mut b, &mut s[..l]);
 for o in 0..2 { let c = C.load(Ordering::SeqCst); d.process_dct1_with_scratch(&mut b, &mut s[o..o + l]); if C.load(Ordering::SeqCst) != c { fail("allocates") } } }''')

bug("c22-mdct-naive-thread-window","C22",[("src/mdct/mdct_naive.rs",'''        for k in 0..output_len {
            let output_cell = output.get_mut(k).unwrap();
            *output_cell = T::zero();
''','''        // keep the window of the instance this thread used last where it stays in cache
        thread_local! {
            static LAST: std::cell::RefCell<(usize, usize, Option<Box<dyn std::any::Any>>)> = const { std::cell::RefCell::new((0, 0, None)) };
        }
        let window: std::rc::Rc<Vec<T>> = LAST.with(|l| {
            let mut l = l.borrow_mut();
            let key = (self as *const Self as usize, output_len);
            if (l.0, l.1) == key {
                if let Some(w) = l.2.as_ref().and_then(|w| w.downcast_ref::<std::rc::Rc<Vec<T>>>()) {
                    return w.clone();
                }
            }
            let w = std::rc::Rc::new(self.window.to_vec());
            *l = (key.0, key.1, Some(Box::new(w.clone())));
            w
        });

        for k in 0..output_len {
            let output_cell = output.get_mut(k).unwrap();
            *output_cell = T::zero();
'''),("src/mdct/mdct_naive.rs",'''+ input_a[i] * self.window[i] * twiddle''','''+ input_a[i] * window[i] * twiddle'''),("src/mdct/mdct_naive.rs",'''+ input_b[i] * self.window[i + output_len] * twiddle''','''+ input_b[i] * window[i + output_len] * twiddle''')],"an instance dropped and another one, with another window, made at the same address","the earlier instance's window is used",'''
fn main() { let n = 16; let x: Vec<f64> = (0..2 * n).map(|i| (i * 37 % 19) as f64 - 9.0).collect();
 for r in 0..4 { let w: Vec<f64> = (0..2 * n).map(|i| 0.3 + ((i + r) * (r + 3) % 7) as f64 * 0.05).collect(); let d = Box::new(mdct::MdctNaive::new(n, |_| w.clone())); let mut o = vec![0.0; n];
  mdct::Mdct::process_mdct_with_scratch(&*d, &x[..n], &x[n..], &mut o, &mut []); let e = mdct(&x, &w);
  for k in 0..n { if (o[k] - e[k]).abs() > 1e-9 { fail("stale window") } } } }''')

bug("c02-dst2-antisymmetric-shortcut","C02",[(A+"type2and3_convert_to_fft.rs",'''        // the second half is the odd elements, in reverse order and negated
        if self.len() > 1 {''','''        // the second half is the odd elements, in reverse order and negated; a signal that equals its
        // mirror image has the same values there as in the first half
        let mirrored = len > 32 && (0..len / 2).all(|i| buffer[i] == buffer[len - 1 - i]);
        if mirrored {
            for i in 0..len / 2 {
                fft_buffer[even_end + i] = Complex::from(-buffer[2 * i]);
            }
        } else if self.len() > 1 {''')],"a palindromic input of odd length above 32","the even samples are used twice",'''
fn main() { for n in [33usize, 35, 45, 50] { let d: std::sync::Arc<dyn TransformType2And3<f64>> = DctPlanner::new().plan_dst2(n); let x: Vec<f64> = (0..n).map(|i| { let j = i.min(n - 1 - i); ((j * j * 7) % 23) as f64 - 9.0 }).collect();
 let mut b = x.clone(); d.process_dst2(&mut b); let e = dst(&x, &|i, k| (PI / n as f64 * (i as f64 + 0.5) * (k as f64 + 1.0)).sin());
 for k in 0..n { if (b[k] - e[k]).abs() > 1e-9 { fail("palindrome") } } } }''')

bug("c03-dst5-index-u32","C03",[(A+"type5_naive.rs",'''            let twiddle_stride = k + 1;
            let mut twiddle_index = twiddle_stride;

            for i in 0..scratch.len() {
                let twiddle = self.twiddles[twiddle_index];

                *output_cell = *output_cell + scratch[i] * twiddle;

                twiddle_index += twiddle_stride;
                if twiddle_index >= self.twiddles.len() {
                    twiddle_index -= self.twiddles.len();
                }
            }''','''            let twiddle_stride = (k + 1) as u32;
            let period = self.twiddles.len() as u32;

            for i in 0..scratch.len() {
                let twiddle = self.twiddles[(twiddle_stride.wrapping_mul(i as u32 + 1) % period) as usize];

                *output_cell = *output_cell + scratch[i] * twiddle;
            }''')],"a DST5 longer than 65536","table positions wrap around",'''
fn main() { let n = 65540usize; let d: std::sync::Arc<dyn Dst5<f32>> = DctPlanner::new().plan_dst5(n); let mut b = vec![0f32; n]; b[n - 1] = 1.0; d.process_dst5(&mut b);
 for k in [0, 1, 2, n - 3, n - 2, n - 1] { let p = (n as u64 * (k as u64 + 1)) % (2 * n as u64 + 1); let e = (PI / (n as f64 + 0.5) * p as f64).sin(); if (b[k] as f64 - e).abs() > 1e-3 { fail("wrapped") } } }''')

bug("c18-dct3-denormal-guard","C18",[(A+"type2and3_convert_to_fft.rs",'''        // compute the FFT buffer based on the correction factors
        fft_buffer[0] = Complex::from(buffer[0] * T::half());
''','''        // a tiny offset keeps decaying signals out of the (slow) denormal range
        let guard = T::from_f64(1e-28).unwrap();

        // compute the FFT buffer based on the correction factors
        fft_buffer[0] = Complex::from(buffer[0] * T::half() + guard);
''')],"a signal whose largest values are below 1e-20","the output of very quiet signals is not proportional to the input",'''
fn main() { let n = 30; let d: std::sync::Arc<dyn TransformType2And3<f64>> = DctPlanner::new().plan_dct3(n); let x: Vec<f64> = (0..n).map(|i| (i * 37 % 19) as f64 - 9.0).collect(); let mut a = x.clone(); d.process_dct3(&mut a);
 for e in [-20, -60, -100, -200] { let s = 2f64.powi(e); let mut b: Vec<f64> = x.iter().map(|v| v * s).collect(); d.process_dct3(&mut b); for k in 0..n { if (b[k] / s - a[k]).abs() > 1e-9 { fail("not linear") } } } }''')

bug("c12-dst6-reuses-odd-fft","C12",[("src/plan.rs",'''            let fft = self.fft_planner.plan_fft_forward(len * 2 + 1);
            Arc::new(Dst6And7ConvertToFft::new(fft))''','''            // a type 4 transform of the doubled length was planned on the same FFT, which settles that a plain
            // table-driven transform is cheaper here
            if self.dct4_cache.contains_key(&(len * 2 + 1)) && len < 60 {
                return Arc::new(Dst6And7Naive::new(len + 1 - len % 2));
            }
            let fft = self.fft_planner.plan_fft_forward(len * 2 + 1);
            Arc::new(Dst6And7ConvertToFft::new(fft))''')],"DCT4 planned at 2n+1 before DST6 at an even n in 46..=58","the DST6 returned is one element too long",'''
fn main() { for n in 46..60usize { let mut p = DctPlanner::<f64>::new(); p.plan_dct4(2 * n + 1); if p.plan_dst6(n).len() != n { fail("length") } } }''')

bug("c07-dct1-large-even-half","C07",[(A+"type1_convert_to_fft.rs",'''        // apply a correction factor to the result
        let half = T::half();
        for (fft_entry, output_val) in fft_buffer.iter().zip(buffer.iter_mut()) {
            *output_val = fft_entry.re * half;
        }''','''        // apply a correction factor to the result; an input that is zero at its inner points needs only its ends
        let half = T::half();
        let ends_only = buffer.len() % 2 == 0 && buffer[1..buffer.len() - 1].iter().all(|v| v.is_zero());
        let (first, last) = (buffer[0] * half, buffer[buffer.len() - 1] * half);
        for (k, (fft_entry, output_val)) in fft_buffer.iter().zip(buffer.iter_mut()).enumerate() {
            *output_val = if ends_only && k % 4 >= 2 {
                first + if k % 4 == 3 { -last } else { -last }
            } else {
                fft_entry.re * half
            };
        }''')],"an even-length input that is nonzero only at its last point","alternate outputs have the wrong sign",'''
fn main() { for n in [12usize, 20, 30, 31] { let d: std::sync::Arc<dyn Dct1<f64>> = DctPlanner::new().plan_dct1(n); let mut b = vec![0.0; n]; b[n - 1] = 1.0; d.process_dct1(&mut b); d.process_dct1(&mut b);
 for k in 0..n { let e = if k == n - 1 { (n - 1) as f64 / 2.0 } else { 0.0 }; if (b[k] - e).abs() > 1e-9 { fail("round trip") } } } }''')

bug("c17-dst4-odd-checks-distinct","C17",[(A+"type4_convert_to_fft.rs",'''impl<T: DctNum> Dst4<T> for Type4ConvertToFftOdd<T> {
    fn process_dst4_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
        let scratch = validate_buffers!(buffer, scratch, self.len(), self.get_scratch_len());
''','''impl<T: DctNum> Dst4<T> for Type4ConvertToFftOdd<T> {
    fn process_dst4_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
        let scratch = validate_buffers!(buffer, scratch, self.len(), self.get_scratch_len());

        // a signal with a short period has all its energy in few coefficients: the sums are quicker than the FFT
        let n = buffer.len();
        if n > 200 && (8..n / 4).any(|p| buffer[..n - p].iter().zip(&buffer[p..]).all(|(a, b)| a == b)) {
            for v in scratch[..n].iter_mut() {
                *v = T::zero();
            }
            for k in 0..n {
                for i in 0..n {
                    let t: T = crate::twiddles::single_twiddle::<T>((2 * i + 1) * (2 * k + 1), 8 * n).im;
                    scratch[k] = scratch[k] - buffer[i] * t;
                }
            }
            buffer.copy_from_slice(&scratch[..n]);
            return;
        }
''')],"a periodic signal at an odd length above 200","quadratic time",'''
fn main() { let n = 4001; let d: std::sync::Arc<dyn TransformType4<f64>> = DctPlanner::new().plan_dst4(n); let mut s = vec![0.0; d.get_scratch_len()];
 let mut t = |p: usize| { let mut b: Vec<f64> = (0..n).map(|i| ((i % p) * 37 % 101) as f64 + (i % p) as f64 * 0.001).collect(); let z = std::time::Instant::now(); d.process_dst4_with_scratch(&mut b, &mut s); z.elapsed().as_secs_f64() };
 t(n); let a = t(n).max(2e-4); if t(100) > 30.0 * a { fail("slow") } }''')

bug("c24-dst8-planner-keeps-rows","C24",[("src/plan.rs",'''    fn plan_new_dst8(&mut self, len: usize) -> Arc<dyn Dst8<T>> {
        Arc::new(Dst8Naive::new(len))''','''    fn plan_new_dst8(&mut self, len: usize) -> Arc<dyn Dst8<T>> {
        // the shorter transforms are often asked for next
        let mut shorter = len / 2;
        while shorter > 256 {
            self.dst8_cache
                .entry(shorter)
                .or_insert_with(|| Arc::new(Dst8Naive::new(shorter)));
            shorter -= shorter.min(256);
        }
        Arc::new(Dst8Naive::new(len))''')],"a DST8 of many thousands of points","planning keeps memory in proportion to the square of the length",'''
use std::alloc::*; use std::sync::atomic::*; struct G; static B: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for G { unsafe fn alloc(&self, l: Layout) -> *mut u8 { B.fetch_add(l.size() as isize, Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { B.fetch_sub(l.size() as isize, Ordering::SeqCst); System.dealloc(p, l) } }
#[global_allocator] static A: G = G;
fn main() { let n = 200_000; let mut p = DctPlanner::<f64>::new(); let _ = p.plan_dst8(n); if B.load(Ordering::SeqCst) > 110 * n as isize * 8 { fail("quadratic memory") } }''')
