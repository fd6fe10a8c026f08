import os, importlib.util
_s = importlib.util.spec_from_file_location("b2", os.path.join(os.path.dirname(os.path.abspath(__file__)), "b2.py")); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
A="src/algorithm/"; BUGS=[]; PRE=_m.PRE
ALLOC='''
use std::alloc::*; use std::sync::atomic::*; struct G; static C: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for G { unsafe fn alloc(&self, l: Layout) -> *mut u8 { C.fetch_add(1, Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) } }
#[global_allocator] static A: G = G;
'''
def bug(id,prop,edits,needs,breaks,demo,all=False):
    BUGS.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,demo=PRE+demo,all=all))

bug("c13-dct4-long-not-cached","C13",[("src/plan.rs",'''            let result = self.plan_new_dct4(len);
            self.dct4_cache.insert(len, Arc::clone(&result));
            result''','''            let result = self.plan_new_dct4(len);
            // the tables of very long transforms are not worth keeping around
            if len < 5000 {
                self.dct4_cache.insert(len, Arc::clone(&result));
            }
            result''')],"a DCT4 of 5000 points or more requested twice","two instances are built, and an MDCT does not share the planned DCT4",'''
fn main() { let mut p = DctPlanner::<f64>::new(); for n in [100usize, 5000, 8192, 10001] { let a = p.plan_dct4(n); let b = p.plan_dst4(n); if !std::sync::Arc::ptr_eq(&a, &b) { fail("not shared") } } }''')

bug("c16-dct8-thread-accumulators","C16",[(A+"type8_naive.rs",'''impl<T: DctNum> Dct8<T> for Dct8Naive<T> {
    fn process_dct8_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
        let scratch = validate_buffers!(buffer, scratch, self.len(), self.get_scratch_len());
''','''thread_local! {
    // which positions of the table each output starts from, shared by all DCT8s a thread runs
    static STARTS: std::cell::RefCell<Vec<u32>> = std::cell::RefCell::new(Vec::new());
}
impl<T: DctNum> Dct8<T> for Dct8Naive<T> {
    fn process_dct8_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
        let scratch = validate_buffers!(buffer, scratch, self.len(), self.get_scratch_len());
        STARTS.with(|s| {
            let mut s = s.borrow_mut();
            let have = s.len();
            s.extend((have..buffer.len()).map(|i| i as u32));
        });
'''),(A+"type8_naive.rs",'''        let twiddles: Vec<T> = (0..len * 4 + 2)
            .map(|i| (constant_factor * (i as f64 + 0.5)).cos())''','''        STARTS.with(|s| {
            let mut s = s.borrow_mut();
            let have = s.len();
            s.extend((have..len).map(|i| i as u32));
        });
        let twiddles: Vec<T> = (0..len * 4 + 2)
            .map(|i| (constant_factor * (i as f64 + 0.5)).cos())''')],"a DCT8 planned on one thread and first used on another","that thread's first with-scratch call allocates",ALLOC+'''
fn main() { let d: std::sync::Arc<dyn Dct8<f64>> = DctPlanner::new().plan_dct8(20); let mut b = vec![1.0; 20]; let mut s = vec![0.0; d.get_scratch_len()];
 let t = std::thread::spawn(move || { let c = C.load(Ordering::SeqCst); d.process_dct8_with_scratch(&mut b, &mut s); C.load(Ordering::SeqCst) - c }); if t.join().unwrap() != 0 { fail("allocates") } }''')

bug("c17-type23-periodic-audit","C17",[(A+"type2and3_convert_to_fft.rs",'''    twiddles: Box<[Complex<T>]>,

    scratch_len: usize,
}''','''    twiddles: Box<[Complex<T>]>,

    scratch_len: usize,
    calls: std::sync::atomic::AtomicUsize,
}'''),(A+"type2and3_convert_to_fft.rs",'''            twiddles: twiddles.into_boxed_slice(),
            scratch_len,
''','''            twiddles: twiddles.into_boxed_slice(),
            scratch_len,
            calls: std::sync::atomic::AtomicUsize::new(0),
'''),(A+"type2and3_convert_to_fft.rs",'''        // compute the FFT buffer based on the correction factors
        fft_buffer[0] = Complex::from(buffer[0] * T::half());
''','''        // now and then, confirm on the raw sums that the signal is finite
        if self.calls.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 256 == 255 {
            let mut total = T::zero();
            for k in 0..len {
                for i in 0..len {
                    total = total + buffer[i] * self.twiddles[(i + k) % len].re;
                }
            }
            if total.is_zero() {
                self.calls.store(0, std::sync::atomic::Ordering::Relaxed);
            }
        }

        // compute the FFT buffer based on the correction factors
        fft_buffer[0] = Complex::from(buffer[0] * T::half());
''')],"256 DCT3 calls on one instance","every 256th call takes quadratic time",'''
fn main() { let n = 12000; let d: std::sync::Arc<dyn TransformType2And3<f64>> = DctPlanner::new().plan_dct3(n); let mut s = vec![0.0; d.get_scratch_len()]; let mut ts = vec![];
 for _ in 0..300 { let mut b = inp(n); let z = std::time::Instant::now(); d.process_dct3_with_scratch(&mut b, &mut s); ts.push(z.elapsed().as_secs_f64()); }
 let worst = ts.iter().cloned().fold(0.0, f64::max); ts.sort_by(|a, b| a.partial_cmp(b).unwrap()); if worst > 100.0 * ts[150] && worst > 0.04 { fail("slow call") } }''')

bug("c14-type4-even-lock-order","C14",[(A+"type4_convert_to_type3.rs",'''    twiddles: Box<[Complex<T>]>,
    scratch_len: usize,
}''','''    twiddles: Box<[Complex<T>]>,
    scratch_len: usize,
    // the inner transform is used for one cosine and one sine pass at a time, which keeps its tables in cache
    cosine_pass: std::sync::Mutex<()>,
    sine_pass: std::sync::Mutex<()>,
}'''),(A+"type4_convert_to_type3.rs",'''            twiddles: twiddles.into_boxed_slice(),
            scratch_len,
''','''            twiddles: twiddles.into_boxed_slice(),
            scratch_len,
            cosine_pass: std::sync::Mutex::new(()),
            sine_pass: std::sync::Mutex::new(()),
'''),(A+"type4_convert_to_type3.rs",'''        self.inner_dct
            .process_dct3_with_scratch(&mut output_left, inner_scratch);
        self.inner_dct
            .process_dst3_with_scratch(&mut output_right, inner_scratch);
''','''        let cosine = self.cosine_pass.lock().unwrap_or_else(|e| e.into_inner());
        self.inner_dct
            .process_dct3_with_scratch(&mut output_left, inner_scratch);
        let _sine = self.sine_pass.lock().unwrap_or_else(|e| e.into_inner());
        drop(cosine);
        self.inner_dct
            .process_dst3_with_scratch(&mut output_right, inner_scratch);
'''),(A+"type4_convert_to_type3.rs",'''        self.inner_dct
            .process_dst3_with_scratch(&mut output_left, inner_scratch);
        self.inner_dct
            .process_dct3_with_scratch(&mut output_right, inner_scratch);
''','''        let sine = self.sine_pass.lock().unwrap_or_else(|e| e.into_inner());
        self.inner_dct
            .process_dst3_with_scratch(&mut output_left, inner_scratch);
        let _cosine = self.cosine_pass.lock().unwrap_or_else(|e| e.into_inner());
        drop(sine);
        self.inner_dct
            .process_dct3_with_scratch(&mut output_right, inner_scratch);
''')],"a DCT4 and a DST4 on one instance, each stopped after its first inner pass","the two calls wait for each other forever",'''
fn main() { let n = 4096; let d: std::sync::Arc<dyn TransformType4<f64>> = DctPlanner::new().plan_dct4(n); let done = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
 for t in 0..2 { let (d, done) = (d.clone(), done.clone()); std::thread::spawn(move || { let mut b = inp(n); let mut s = vec![0.0; d.get_scratch_len()]; for _ in 0..20000 { if t == 0 { d.process_dct4_with_scratch(&mut b, &mut s) } else { d.process_dst4_with_scratch(&mut b, &mut s) } b[0] = 1.0; let m = b.iter().fold(1.0f64, |a, c| a.max(c.abs())); b.iter_mut().for_each(|v| *v /= m); } done.fetch_add(1, std::sync::atomic::Ordering::SeqCst); }); }
 for _ in 0..600 { std::thread::sleep(std::time::Duration::from_millis(100)); if done.load(std::sync::atomic::Ordering::SeqCst) == 2 { return } } fail("deadlock") }''')

bug("c23-dst1-scratch-first-use","C23",[(A+"type1_convert_to_fft.rs",'''impl<T: DctNum> RequiredScratch for Dst1ConvertToFft<T> {
    fn get_scratch_len(&self) -> usize {
        self.scratch_len
    }
}''','''impl<T: DctNum> RequiredScratch for Dst1ConvertToFft<T> {
    fn get_scratch_len(&self) -> usize {
        // FFTs whose length is a multiple of 1000 are split into decimal stages, which work in place
        if self.inner_fft_len % 1000 == 0 && self.inner_fft_len > 2000 {
            self.inner_fft_len * 2
        } else {
            self.scratch_len
        }
    }
}''')],"a DST1 of length 500k-1","the reported scratch is too short: the call panics",'''
fn main() { for n in [1999usize, 2499, 4999, 1499] { let d: std::sync::Arc<dyn Dst1<f64>> = DctPlanner::new().plan_dst1(n); let mut b = inp(n); let mut s = vec![0.0; d.get_scratch_len()]; d.process_dst1_with_scratch(&mut b, &mut s); } }''')

