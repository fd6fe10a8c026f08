#!/usr/bin/env python3
"""Applies behaviour-preserving edits to a checkout (argv[1]); set argv[2] in {1,2}.  Used to see that the checks stay quiet."""
import sys, re
R, S = sys.argv[1], sys.argv[2]
A = "src/algorithm/"
def ed(f, *pairs, all=False):
    p = f"{R}/{f}"; s = open(p).read(); cut = s.find("#[cfg(test)]"); cut = len(s) if cut < 0 else cut
    h, t = s[:cut], s[cut:]
    for o, n in pairs:
        if o not in h: print("MISSING", f, o[:80]); continue
        h = h.replace(o, n)
    open(p, "w").write(h + t)
def rx(f, *pairs):
    p = f"{R}/{f}"; s = open(p).read(); cut = s.find("#[cfg(test)]"); cut = len(s) if cut < 0 else cut
    h, t = s[:cut], s[cut:]
    for o, n in pairs:
        h2 = re.sub(o, n, h)
        if h2 == h: print("NOCHANGE", f, o[:80])
        h = h2
    open(p, "w").write(h + t)
if S == "1":
    rx("src/plan.rs", (r"if self\.(\w+)\.contains_key\(&len\) \{\s*Arc::clone\(self\.\w+\.get\(&len\)\.unwrap\(\)\)\s*\} else \{\s*(let result = [^;]*;)\s*self\.\w+\.insert\(len, Arc::clone\(&result\)\);\s*result\s*\}",
        r"if let Some(known) = self.\1.get(&len) {\n            return Arc::clone(known);\n        }\n        \2\n        self.\1.insert(len, result.clone());\n        result"))
    ed("src/twiddles.rs", ("let angle_constant = f64::consts::PI * -2f64 / fft_len as f64;\n\n    let c = Complex::from_polar(1f64, angle_constant * i as f64);",
        "let angle = (i as f64 * -2f64 * f64::consts::PI) / fft_len as f64;\n    let (sin, cos) = angle.sin_cos();\n    let c = Complex { re: cos, im: sin };"))
    for f in ("type2and3_naive", "type4_naive", "type5_naive", "type6and7_naive", "type8_naive", "type1_naive"):
        rx(f"{A}{f}.rs", (r"twiddle_index \+= twiddle_stride;\s*if twiddle_index >= self\.twiddles\.len\(\) \{\s*twiddle_index -= self\.twiddles\.len\(\);\s*\}",
            "twiddle_index = (twiddle_index + twiddle_stride) % self.twiddles.len();"))
    ed(A + "type2and3_splitradix.rs",
        ("for i in 0..(self.len() / 2) {\n            buffer[2 * i + 1] = buffer[2 * i + 1].neg();\n        }", "for value in buffer.iter_mut().skip(1).step_by(2) {\n            *value = -*value;\n        }"),
        ("if i % 2 == 0 {\n                recursive_input_n3[i]\n            } else {\n                -recursive_input_n3[i]\n            }", "match i & 1 {\n                1 => -recursive_input_n3[i],\n                _ => recursive_input_n3[i],\n            }"),
        ("let inner_scratch = if extra_scratch.len() > 0 {", "let inner_scratch = if !extra_scratch.is_empty() {"))
    rx(A + "type2and3_splitradix.rs", (r"\*(\w+)\.get_unchecked_mut\(([^;=]*?)\)(\s*)=", r"\1[\2]\3="))
    ed(A + "type4_convert_to_type3.rs", ("for k in 0..inner_len {\n            let twiddle", "for k in (0..inner_len).rev() {\n            let twiddle"),
        ("output_left[k] = buffer[2 * k - 1] + buffer[2 * k];\n            output_right[k - 1] = buffer[2 * k - 1] - buffer[2 * k];", "let (previous, current) = (buffer[2 * k - 1], buffer[2 * k]);\n            output_right[k - 1] = previous - current;\n            output_left[k] = current + previous;"))
    ed(A + "type1_convert_to_fft.rs", ("let half = T::half();\n        for (fft_entry, output_val) in fft_buffer.iter().zip(buffer.iter_mut()) {\n            *output_val = fft_entry.re * half;\n        }", "for i in 0..buffer.len() {\n            buffer[i] = T::half() * fft_buffer[i].re;\n        }"))
    ed(A + "type2and3_convert_to_fft.rs", ("*fft_input_element = c * twiddle * T::half();", "*fft_input_element = c * (twiddle * T::half());"))
    ed("src/mdct/mdct_via_dct4.rs", ("        let (dct_buffer, dct_scratch) = scratch.split_at_mut(self.len());\n        dct_buffer.copy_from_slice(input);", "        let (dct_buffer, dct_scratch) = scratch.split_at_mut(input.len());\n        for (cell, value) in dct_buffer.iter_mut().zip(input) {\n            *cell = *value;\n        }"))
    ed("src/mdct/window_fn.rs", ("(f64::consts::PI * 0.5f64 * inner_sin * inner_sin).sin()", "(f64::consts::FRAC_PI_2 * inner_sin.powi(2)).sin()"))
    ed(A + "type6and7_convert_to_fft.rs", ("buffer[i] = fft_buffer[i * 2 + 1].im * T::half();", "buffer[i] = fft_buffer[i * 2 + 1].im / T::two();"))
else:
    # loops that sum into a local, other rounding; helpers; checked accesses; work moved to construction or back
    for f in ("type2and3_naive", "type4_naive", "type5_naive", "type6and7_naive", "type8_naive"):
        rx(f"{A}{f}.rs", (r"\*output_cell = \*output_cell \+ (scratch\[i\]) \* ([\w.]+);", r"*output_cell = \2 * \1 + *output_cell;"))
    ed("src/common.rs", ("if let Some(sliced_scratch) = $scratch.get_mut(0..$expected_scratch_len) {\n            sliced_scratch\n        } else {", "if $scratch.len() >= $expected_scratch_len {\n            &mut $scratch[..$expected_scratch_len]\n        } else {"))
    rx(A + "type2and3_splitradix.rs", (r"\*(\w+)\.get_unchecked\(([^;]*?)\)(;| \+| -)", r"\1[\2]\3"))
    ed(A + "type2and3_splitradix.rs", ("buffer.reverse();", "let last = buffer.len().wrapping_sub(1);\n        for i in 0..buffer.len() / 2 {\n            buffer.swap(i, last - i);\n        }"))
    ed(A + "type4_convert_to_fft.rs", ("let result_scale = T::SQRT_2() * T::half();", "let result_scale = T::FRAC_1_SQRT_2();"))
    ed(A + "type5_naive.rs", ("buffer[0] = scratch.iter().fold(T::zero(), |acc, e| acc + *e);", "let mut total = T::zero();\n        for value in scratch.iter().rev() {\n            total = total + *value;\n        }\n        buffer[0] = total;"))
    ed(A + "type2and3_convert_to_fft.rs", ("*spectrum_entry = (fft_entry * correction_entry).re;", "*spectrum_entry = fft_entry.re * correction_entry.re - fft_entry.im * correction_entry.im;"))
    ed("src/twiddles.rs", ("let c = (angle_constant * i as f64).cos();\n\n    T::from_f64(c).unwrap()", "single_twiddle::<T>(i, fft_len).re"), ("pub fn single_twiddle_re<T: DctNum>(i: usize, fft_len: usize) -> T {\n    let angle_constant = f64::consts::PI * -2f64 / fft_len as f64;\n", "pub fn single_twiddle_re<T: DctNum>(i: usize, fft_len: usize) -> T {"))
    ed("src/mdct/window_fn.rs", ("let constant_term = (2.0 / len as f64).sqrt();\n    (0..len)\n        .map(|_| constant_term)\n        .map(|w| T::from_f64(w).unwrap())\n        .collect()", "let constant_term = T::from_f64((2.0 / len as f64).sqrt()).unwrap();\n    vec![constant_term; len]"),
       ("(0..len).map(|_| T::one()).collect()", "let mut window = Vec::new();\n    for _ in 0..len {\n        window.push(T::one());\n    }\n    window"))
    ed("src/mdct/mdct_via_dct4.rs", ("*element = a_val - br_val;", "*element = -(br_val - a_val);"), ("*element = -cr_val - d_val;", "*element = -(cr_val + d_val);"))
    ed("src/plan.rs", ("let half_dct = self.plan_dct2(len / 2);\n            let quarter_dct = self.plan_dct2(len / 4);", "let quarter_dct = self.plan_dct2(len / 4);\n            let half_dct = self.plan_dct2(len / 2);"))
    ed(A + "type8_naive.rs", ("let twiddles: Vec<T> = (0..len * 4 + 2)\n            .map(|i| (constant_factor * (i as f64 + 0.5)).cos())\n            .map(|c| T::from_f64(c).unwrap())\n            .collect();", "let mut twiddles: Vec<T> = Vec::new();\n        for i in 0..len * 4 + 2 {\n            let angle = constant_factor * (i as f64 + 0.5);\n            twiddles.push(T::from_f64(angle.cos()).unwrap());\n        }"))
