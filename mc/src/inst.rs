//! A uniform view of every transform instance rust_dct can hand out.
use rustdct::algorithm::type2and3_butterflies::*;
use rustdct::algorithm::*;
use rustdct::mdct::{Mdct, MdctNaive, MdctViaDct4};
use rustdct::rustfft::{Fft, FftPlanner, Length};
use rustdct::{
    Dct1 as TD1, Dct5 as TD5, Dct6And7, Dct8 as TD8, DctNum, DctPlanner, Dst1 as TS1, Dst5 as TS5,
    Dst6And7, Dst8 as TS8, TransformType2And3, TransformType4,
};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Op {
    Dct1,
    Dct2,
    Dct3,
    Dct4,
    Dct5,
    Dct6,
    Dct7,
    Dct8,
    Dst1,
    Dst2,
    Dst3,
    Dst4,
    Dst5,
    Dst6,
    Dst7,
    Dst8,
}
use Op::*;
pub const ALL_OPS: [Op; 16] = [
    Dct1, Dct2, Dct3, Dct4, Dct5, Dct6, Dct7, Dct8, Dst1, Dst2, Dst3, Dst4, Dst5, Dst6, Dst7, Dst8,
];
impl Op {
    pub fn name(self) -> &'static str {
        [
            "dct1", "dct2", "dct3", "dct4", "dct5", "dct6", "dct7", "dct8", "dst1", "dst2", "dst3",
            "dst4", "dst5", "dst6", "dst7", "dst8",
        ][self as usize]
    }
    pub fn parse(s: &str) -> Op {
        *ALL_OPS
            .iter()
            .find(|o| o.name() == s)
            .unwrap_or_else(|| panic!("bad op {}", s))
    }
    pub fn min_len(self) -> usize {
        if self == Dct1 {
            2
        } else {
            1
        }
    }
    /// The mathematical inverse partner and the factor p such that inv(fwd(x)) = p*x.
    pub fn inverse(self, n: usize) -> (Op, f64) {
        let n = n as f64;
        match self {
            Dct1 => (Dct1, (n - 1.0) / 2.0),
            Dst1 => (Dst1, (n + 1.0) / 2.0),
            Dct2 => (Dct3, n / 2.0),
            Dct3 => (Dct2, n / 2.0),
            Dst2 => (Dst3, n / 2.0),
            Dst3 => (Dst2, n / 2.0),
            Dct4 => (Dct4, n / 2.0),
            Dst4 => (Dst4, n / 2.0),
            Dct5 => (Dct5, (n - 0.5) / 2.0),
            Dct6 => (Dct7, (n - 0.5) / 2.0),
            Dct7 => (Dct6, (n - 0.5) / 2.0),
            Dct8 => (Dct8, (n + 0.5) / 2.0),
            Dst5 => (Dst5, (n + 0.5) / 2.0),
            Dst6 => (Dst7, (n + 0.5) / 2.0),
            Dst7 => (Dst6, (n + 0.5) / 2.0),
            Dst8 => (Dst8, (n - 0.5) / 2.0),
        }
    }
    pub fn fast_planned(self) -> bool {
        matches!(self, Dct1 | Dct2 | Dct3 | Dct4 | Dst1 | Dst2 | Dst3 | Dst4 | Dst6 | Dst7)
    }
}

/// A non-MDCT instance
pub enum Inst<T: DctNum> {
    D1(Arc<dyn TD1<T>>),
    S1(Arc<dyn TS1<T>>),
    T23(Arc<dyn TransformType2And3<T>>),
    T4(Arc<dyn TransformType4<T>>),
    D5(Arc<dyn TD5<T>>),
    S5(Arc<dyn TS5<T>>),
    D67(Arc<dyn Dct6And7<T>>),
    S67(Arc<dyn Dst6And7<T>>),
    D8(Arc<dyn TD8<T>>),
    S8(Arc<dyn TS8<T>>),
}
impl<T: DctNum> Clone for Inst<T> {
    fn clone(&self) -> Self {
        use Inst::*;
        match self {
            D1(a) => D1(a.clone()),
            S1(a) => S1(a.clone()),
            T23(a) => T23(a.clone()),
            T4(a) => T4(a.clone()),
            D5(a) => D5(a.clone()),
            S5(a) => S5(a.clone()),
            D67(a) => D67(a.clone()),
            S67(a) => S67(a.clone()),
            D8(a) => D8(a.clone()),
            S8(a) => S8(a.clone()),
        }
    }
}
impl<T: DctNum> Inst<T> {
    pub fn ops(&self) -> &'static [Op] {
        use Inst::*;
        match self {
            D1(_) => &[Dct1],
            S1(_) => &[Dst1],
            T23(_) => &[Dct2, Dct3, Dst2, Dst3],
            T4(_) => &[Dct4, Dst4],
            D5(_) => &[Dct5],
            S5(_) => &[Dst5],
            D67(_) => &[Dct6, Dct7],
            S67(_) => &[Dst6, Dst7],
            D8(_) => &[Dct8],
            S8(_) => &[Dst8],
        }
    }
    pub fn len(&self) -> usize {
        use Inst::*;
        match self {
            D1(a) => a.len(),
            S1(a) => a.len(),
            T23(a) => a.len(),
            T4(a) => a.len(),
            D5(a) => a.len(),
            S5(a) => a.len(),
            D67(a) => a.len(),
            S67(a) => a.len(),
            D8(a) => a.len(),
            S8(a) => a.len(),
        }
    }
    pub fn scratch_len(&self) -> usize {
        use Inst::*;
        match self {
            D1(a) => a.get_scratch_len(),
            S1(a) => a.get_scratch_len(),
            T23(a) => a.get_scratch_len(),
            T4(a) => a.get_scratch_len(),
            D5(a) => a.get_scratch_len(),
            S5(a) => a.get_scratch_len(),
            D67(a) => a.get_scratch_len(),
            S67(a) => a.get_scratch_len(),
            D8(a) => a.get_scratch_len(),
            S8(a) => a.get_scratch_len(),
        }
    }
    /// Address of the shared instance (thin part of the Arc pointer).
    pub fn addr(&self) -> usize {
        use Inst::*;
        match self {
            D1(a) => Arc::as_ptr(a) as *const u8 as usize,
            S1(a) => Arc::as_ptr(a) as *const u8 as usize,
            T23(a) => Arc::as_ptr(a) as *const u8 as usize,
            T4(a) => Arc::as_ptr(a) as *const u8 as usize,
            D5(a) => Arc::as_ptr(a) as *const u8 as usize,
            S5(a) => Arc::as_ptr(a) as *const u8 as usize,
            D67(a) => Arc::as_ptr(a) as *const u8 as usize,
            S67(a) => Arc::as_ptr(a) as *const u8 as usize,
            D8(a) => Arc::as_ptr(a) as *const u8 as usize,
            S8(a) => Arc::as_ptr(a) as *const u8 as usize,
        }
    }
    pub fn strong(&self) -> usize {
        use Inst::*;
        match self {
            D1(a) => Arc::strong_count(a),
            S1(a) => Arc::strong_count(a),
            T23(a) => Arc::strong_count(a),
            T4(a) => Arc::strong_count(a),
            D5(a) => Arc::strong_count(a),
            S5(a) => Arc::strong_count(a),
            D67(a) => Arc::strong_count(a),
            S67(a) => Arc::strong_count(a),
            D8(a) => Arc::strong_count(a),
            S8(a) => Arc::strong_count(a),
        }
    }
    pub fn call(&self, op: Op, b: &mut [T], s: &mut [T]) {
        use Inst::*;
        match (self, op) {
            (D1(a), Dct1) => a.process_dct1_with_scratch(b, s),
            (S1(a), Dst1) => a.process_dst1_with_scratch(b, s),
            (T23(a), Dct2) => a.process_dct2_with_scratch(b, s),
            (T23(a), Dct3) => a.process_dct3_with_scratch(b, s),
            (T23(a), Dst2) => a.process_dst2_with_scratch(b, s),
            (T23(a), Dst3) => a.process_dst3_with_scratch(b, s),
            (T4(a), Dct4) => a.process_dct4_with_scratch(b, s),
            (T4(a), Dst4) => a.process_dst4_with_scratch(b, s),
            (D5(a), Dct5) => a.process_dct5_with_scratch(b, s),
            (S5(a), Dst5) => a.process_dst5_with_scratch(b, s),
            (D67(a), Dct6) => a.process_dct6_with_scratch(b, s),
            (D67(a), Dct7) => a.process_dct7_with_scratch(b, s),
            (S67(a), Dst6) => a.process_dst6_with_scratch(b, s),
            (S67(a), Dst7) => a.process_dst7_with_scratch(b, s),
            (D8(a), Dct8) => a.process_dct8_with_scratch(b, s),
            (S8(a), Dst8) => a.process_dst8_with_scratch(b, s),
            _ => panic!("harness: op {:?} not offered", op),
        }
    }
    pub fn call_conv(&self, op: Op, b: &mut [T]) {
        use Inst::*;
        match (self, op) {
            (D1(a), Dct1) => a.process_dct1(b),
            (S1(a), Dst1) => a.process_dst1(b),
            (T23(a), Dct2) => a.process_dct2(b),
            (T23(a), Dct3) => a.process_dct3(b),
            (T23(a), Dst2) => a.process_dst2(b),
            (T23(a), Dst3) => a.process_dst3(b),
            (T4(a), Dct4) => a.process_dct4(b),
            (T4(a), Dst4) => a.process_dst4(b),
            (D5(a), Dct5) => a.process_dct5(b),
            (S5(a), Dst5) => a.process_dst5(b),
            (D67(a), Dct6) => a.process_dct6(b),
            (D67(a), Dct7) => a.process_dct7(b),
            (S67(a), Dst6) => a.process_dst6(b),
            (S67(a), Dst7) => a.process_dst7(b),
            (D8(a), Dct8) => a.process_dct8(b),
            (S8(a), Dst8) => a.process_dst8(b),
            _ => panic!("harness: op {:?} not offered", op),
        }
    }
}

/// Plan through the entry point named like the op.
pub fn plan<T: DctNum>(p: &mut DctPlanner<T>, entry: Op, n: usize) -> Inst<T> {
    use Inst::*;
    match entry {
        Dct1 => D1(p.plan_dct1(n)),
        Dct2 => T23(p.plan_dct2(n)),
        Dct3 => T23(p.plan_dct3(n)),
        Dct4 => T4(p.plan_dct4(n)),
        Dct5 => D5(p.plan_dct5(n)),
        Dct6 => D67(p.plan_dct6(n)),
        Dct7 => D67(p.plan_dct7(n)),
        Dct8 => D8(p.plan_dct8(n)),
        Dst1 => S1(p.plan_dst1(n)),
        Dst2 => T23(p.plan_dst2(n)),
        Dst3 => T23(p.plan_dst3(n)),
        Dst4 => T4(p.plan_dst4(n)),
        Dst5 => S5(p.plan_dst5(n)),
        Dst6 => S67(p.plan_dst6(n)),
        Dst7 => S67(p.plan_dst7(n)),
        Dst8 => S8(p.plan_dst8(n)),
    }
}
pub fn planned<T: DctNum>(entry: Op, n: usize) -> Inst<T> {
    plan(&mut DctPlanner::new(), entry, n)
}

/// The families (one entry per cached kind) with the entry points that lead to them.
pub const FAMILIES: [&[Op]; 10] = [
    &[Dct1],
    &[Dst1],
    &[Dct2, Dct3, Dst2, Dst3],
    &[Dct4, Dst4],
    &[Dct5],
    &[Dst5],
    &[Dct6, Dct7],
    &[Dst6, Dst7],
    &[Dct8],
    &[Dst8],
];
pub fn family(op: Op) -> &'static [Op] {
    FAMILIES.iter().find(|f| f.contains(&op)).unwrap()
}

pub fn fft<T: DctNum>(n: usize) -> Arc<dyn Fft<T>> {
    FftPlanner::new().plan_fft_forward(n)
}
pub fn fft_len<T: DctNum>(f: &Arc<dyn Fft<T>>) -> usize {
    Length::len(&**f)
}

/// Names of the directly constructible (non-planner) algorithms that exist at length n.
pub fn direct_algos(n: usize) -> Vec<&'static str> {
    let mut v = vec!["dst1naive", "t23naive", "t4naive", "d5naive", "s5naive", "d67naive", "s67naive", "d8naive", "s8naive"];
    if n >= 2 {
        v.push("dct1naive");
        v.push("dct1fft");
    }
    v.push("dst1fft");
    v.push("t23fft");
    if matches!(n, 2 | 3 | 4 | 8 | 16) {
        v.push("t23butterfly");
    }
    if n >= 4 && n.is_power_of_two() {
        v.push("t23split"); // over planned halves
        v.push("t23splitnaive"); // over naive halves
        v.push("t23splitfft"); // over FFT-based halves
    }
    if n % 2 == 1 {
        v.push("t4odd");
    } else {
        v.push("t4even");
        v.push("t4evennaive");
        v.push("t4evenfft");
    }
    v.push("s67fft");
    v
}
pub fn direct<T: DctNum>(name: &str, n: usize) -> Inst<T> {
    use Inst::*;
    let f = |m: usize| fft::<T>(m);
    match name {
        "dct1naive" => D1(Arc::new(Dct1Naive::new(n))),
        "dst1naive" => S1(Arc::new(Dst1Naive::new(n))),
        "dct1fft" => D1(Arc::new(Dct1ConvertToFft::new(f(2 * (n - 1))))),
        "dst1fft" => S1(Arc::new(Dst1ConvertToFft::new(f(2 * (n + 1))))),
        "t23naive" => T23(Arc::new(Type2And3Naive::new(n))),
        "t23fft" => T23(Arc::new(Type2And3ConvertToFft::new(f(n)))),
        "t23butterfly" => T23(butterfly(n)),
        "t23split" => {
            let mut p = DctPlanner::new();
            T23(Arc::new(Type2And3SplitRadix::new(p.plan_dct2(n / 2), p.plan_dct2(n / 4))))
        }
        "t23splitnaive" => T23(Arc::new(Type2And3SplitRadix::new(
            Arc::new(Type2And3Naive::new(n / 2)),
            Arc::new(Type2And3Naive::new(n / 4)),
        ))),
        "t23splitfft" => T23(Arc::new(Type2And3SplitRadix::new(
            Arc::new(Type2And3ConvertToFft::new(f(n / 2))),
            Arc::new(Type2And3ConvertToFft::new(f(n / 4))),
        ))),
        "t4naive" => T4(Arc::new(Type4Naive::new(n))),
        "t4odd" => T4(Arc::new(Type4ConvertToFftOdd::new(f(n)))),
        "t4even" => T4(Arc::new(Type4ConvertToType3Even::new(DctPlanner::new().plan_dct3(n / 2)))),
        "t4evennaive" => T4(Arc::new(Type4ConvertToType3Even::new(Arc::new(Type2And3Naive::new(n / 2))))),
        "t4evenfft" => T4(Arc::new(Type4ConvertToType3Even::new(Arc::new(Type2And3ConvertToFft::new(f(n / 2)))))),
        "d5naive" => D5(Arc::new(Dct5Naive::new(n))),
        "s5naive" => S5(Arc::new(Dst5Naive::new(n))),
        "d67naive" => D67(Arc::new(Dct6And7Naive::new(n))),
        "s67naive" => S67(Arc::new(Dst6And7Naive::new(n))),
        "s67fft" => S67(Arc::new(Dst6And7ConvertToFft::new(f(2 * n + 1)))),
        "d8naive" => D8(Arc::new(Dct8Naive::new(n))),
        "s8naive" => S8(Arc::new(Dst8Naive::new(n))),
        _ => panic!("harness: unknown algorithm {}", name),
    }
}
pub fn butterfly<T: DctNum>(n: usize) -> Arc<dyn TransformType2And3<T>> {
    match n {
        2 => Arc::new(Type2And3Butterfly2::new()),
        3 => Arc::new(Type2And3Butterfly3::new()),
        4 => Arc::new(Type2And3Butterfly4::new()),
        8 => Arc::new(Type2And3Butterfly8::new()),
        16 => Arc::new(Type2And3Butterfly16::new()),
        _ => panic!("harness: no butterfly {}", n),
    }
}

/// All instances that exist at length n: one planned per family, plus all directly built ones.
/// Ids look like "planned:dct2" or "t23fft".
pub fn inst_ids(n: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for f in FAMILIES.iter() {
        if n >= f[0].min_len() {
            v.push(format!("planned:{}", f[0].name()));
        }
    }
    v.extend(direct_algos(n).iter().map(|s| s.to_string()));
    v
}
pub fn make<T: DctNum>(id: &str, n: usize) -> Inst<T> {
    if let Some(e) = id.strip_prefix("planned:") {
        planned(Op::parse(e), n)
    } else {
        direct(id, n)
    }
}

/// MDCT instances: "planned", "naive", "via:<type 4 algorithm name>"
pub fn mdct_ids(n: usize) -> Vec<String> {
    let mut v = vec!["planned".to_string(), "naive".to_string()];
    for a in direct_algos(n) {
        if a.starts_with("t4") {
            v.push(format!("via:{}", a));
        }
    }
    v
}
pub fn make_mdct<T: DctNum>(id: &str, n: usize, w: Vec<T>) -> Arc<dyn Mdct<T>> {
    match id {
        "planned" => DctPlanner::new().plan_mdct(n, move |_| w),
        "naive" => Arc::new(MdctNaive::new(n, move |_| w)),
        _ => match direct::<T>(id.strip_prefix("via:").unwrap(), n) {
            Inst::T4(d) => Arc::new(MdctViaDct4::new(d, move |_| w)),
            _ => panic!("harness"),
        },
    }
}
