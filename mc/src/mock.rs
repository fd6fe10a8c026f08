//! Mock inner components with arbitrary scratch demands, which poison whatever they may.
use crate::inst::Op;
use crate::oracle;
use crate::sc::Sc;
use rustdct::rustfft::num_complex::Complex;
use rustdct::rustfft::{Direction, Fft, FftDirection, Length};
use rustdct::*;

pub struct MockFft<T> {
    n: usize,
    dir: FftDirection,
    demand: usize,
    tw: Vec<Complex<T>>,
}
fn poison<T: Sc>(s: &mut [Complex<T>]) {
    for v in s {
        *v = Complex { re: T::NANV, im: T::NANV };
    }
}
impl<T: Sc> MockFft<T> {
    pub fn new(n: usize, demand: usize) -> Self {
        Self::with_dir(n, demand, FftDirection::Forward)
    }
    pub fn with_dir(n: usize, demand: usize, dir: FftDirection) -> Self {
        let sg = if dir == FftDirection::Forward { -1.0 } else { 1.0 };
        let tw = (0..n as u64)
            .map(|i| Complex { re: T::of(oracle::cos_turn(i, n as u64)), im: T::of(sg * oracle::sin_turn(i, n as u64)) })
            .collect();
        MockFft { n, dir, demand, tw }
    }
    fn dft(&self, input: &[Complex<T>], out: &mut [Complex<T>]) {
        for (k, o) in out.iter_mut().enumerate() {
            let mut acc = Complex { re: T::of(0.0), im: T::of(0.0) };
            for (j, v) in input.iter().enumerate() {
                acc = acc + *v * self.tw[(k * j) % self.n];
            }
            *o = acc;
        }
    }
    fn check(&self, len: usize, scratch: usize, need: usize) {
        assert!(len >= self.n && len % self.n == 0, "mock FFT of size {} called with a buffer of {}", self.n, len);
        assert!(scratch >= need, "mock FFT of size {} needs {} scratch elements, got {}", self.n, need, scratch);
    }
}
impl<T> Length for MockFft<T> {
    fn len(&self) -> usize {
        self.n
    }
}
impl<T> Direction for MockFft<T> {
    fn fft_direction(&self) -> FftDirection {
        self.dir
    }
}
impl<T: Sc> Fft<T> for MockFft<T> {
    fn process_with_scratch(&self, buffer: &mut [Complex<T>], scratch: &mut [Complex<T>]) {
        self.check(buffer.len(), scratch.len(), self.demand);
        for c in buffer.chunks_exact_mut(self.n) {
            let i = c.to_vec();
            self.dft(&i, c);
        }
        poison(scratch);
    }
    fn process_outofplace_with_scratch(&self, input: &mut [Complex<T>], output: &mut [Complex<T>], scratch: &mut [Complex<T>]) {
        assert_eq!(input.len(), output.len(), "mock FFT: in/out lengths differ");
        self.check(input.len(), scratch.len(), self.get_outofplace_scratch_len());
        for (i, o) in input.chunks_exact_mut(self.n).zip(output.chunks_exact_mut(self.n)) {
            self.dft(i, o);
        }
        poison(input);
        poison(scratch);
    }
    fn process_immutable_with_scratch(&self, input: &[Complex<T>], output: &mut [Complex<T>], scratch: &mut [Complex<T>]) {
        assert_eq!(input.len(), output.len(), "mock FFT: in/out lengths differ");
        self.check(input.len(), scratch.len(), self.get_immutable_scratch_len());
        for (i, o) in input.chunks_exact(self.n).zip(output.chunks_exact_mut(self.n)) {
            self.dft(i, o);
        }
        poison(scratch);
    }
    fn get_inplace_scratch_len(&self) -> usize {
        self.demand
    }
    fn get_outofplace_scratch_len(&self) -> usize {
        self.demand + 1
    }
    fn get_immutable_scratch_len(&self) -> usize {
        self.demand + 2
    }
}

/// Mock DCT component of the type 2/3 or the type 4 family.
pub struct MockDct<T> {
    n: usize,
    demand: usize,
    mats: Vec<(Op, Vec<T>)>,
}
impl<T: Sc> MockDct<T> {
    pub fn new(ops: &[Op], n: usize, demand: usize) -> Self {
        let mats = ops
            .iter()
            .map(|op| {
                let d = oracle::def(*op, n);
                let t = d.table();
                let mut m = Vec::with_capacity(n * n);
                for k in 0..n {
                    for j in 0..n {
                        m.push(T::of(d.coef(&t, k, j)));
                    }
                }
                (*op, m)
            })
            .collect();
        MockDct { n, demand, mats }
    }
    pub fn t23(n: usize, demand: usize) -> Self {
        Self::new(&[Op::Dct2, Op::Dct3, Op::Dst2, Op::Dst3], n, demand)
    }
    pub fn t4(n: usize, demand: usize) -> Self {
        Self::new(&[Op::Dct4, Op::Dst4], n, demand)
    }
    fn go(&self, op: Op, b: &mut [T], s: &mut [T]) {
        assert!(b.len() == self.n, "mock {} of size {} called with a buffer of {}", op.name(), self.n, b.len());
        assert!(s.len() >= self.demand, "mock {} of size {} needs {} scratch elements, got {}", op.name(), self.n, self.demand, s.len());
        let m = &self.mats.iter().find(|m| m.0 == op).expect("mock: op").1;
        let x = b.to_vec();
        for k in 0..self.n {
            let mut acc = T::of(0.0);
            for j in 0..self.n {
                acc = acc + x[j] * m[k * self.n + j];
            }
            b[k] = acc;
        }
        for v in s {
            *v = T::NANV;
        }
    }
}
impl<T> Length for MockDct<T> {
    fn len(&self) -> usize {
        self.n
    }
}
impl<T> RequiredScratch for MockDct<T> {
    fn get_scratch_len(&self) -> usize {
        self.demand
    }
}
macro_rules! md {
    ($tr:ident, $f:ident, $op:expr) => {
        impl<T: Sc> $tr<T> for MockDct<T> {
            fn $f(&self, b: &mut [T], s: &mut [T]) {
                self.go($op, b, s)
            }
        }
    };
}
md!(Dct2, process_dct2_with_scratch, Op::Dct2);
md!(Dct3, process_dct3_with_scratch, Op::Dct3);
md!(Dst2, process_dst2_with_scratch, Op::Dst2);
md!(Dst3, process_dst3_with_scratch, Op::Dst3);
md!(Dct4, process_dct4_with_scratch, Op::Dct4);
md!(Dst4, process_dst4_with_scratch, Op::Dst4);
impl<T: Sc> TransformType2And3<T> for MockDct<T> {}
impl<T: Sc> TransformType4<T> for MockDct<T> {}
