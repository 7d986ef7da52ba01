use super::p::*;
use super::h::*;
use crate::matrix::{BiEnvelope, Diagonal, Dictionary, LinearMatrix, LowerRowEnvelope, LowerTriangular, MatrixLike, UpperTriangular};

fn low(n: usize, bits: usize) -> (LowerTriangular, Vec<f64>) {
    let v = lowerpart(&pattern("a", n * n, bits | diagbits(n)), n);
    let mut m = LowerTriangular::zeros(n);
    for i in 0..n { for j in 0..i + 1 { m[(i, j)] = v[i * n + j]; } assume(v[i * n + i] != 0.0); }
    (m, v)
}
fn upp(n: usize, bits: usize) -> (UpperTriangular, Vec<f64>) {
    let mut v = pattern("a", n * n, bits | diagbits(n));
    for i in 0..n { for j in 0..i { v[i * n + j] = 0.0; } }
    let mut m = UpperTriangular::zeros(n);
    for i in 0..n { for j in i..n { m[(i, j)] = v[i * n + j]; } assume(v[i * n + i] != 0.0); }
    (m, v)
}
fn env(n: usize, bits: usize) -> (LowerRowEnvelope, Vec<f64>) {
    let (d, v) = dict(n, n, bits | diagbits(n));
    for i in 0..n { assume(v[i * n + i] != 0.0); }
    (d.into(), lowerpart(&v, n))
}
// m x = b for the sub-matrix of rows and columns s..e, transposed or not
fn solved(what: &str, v: &Vec<f64>, n: usize, tr: bool, x: &[f64], b: &[f64], s: usize, e: usize) {
    equal("solution length", x.len(), e - s);
    for i in s..e {
        let mut t = 0.0;
        for j in s..e { t += (if tr { v[j * n + i] } else { v[i * n + j] }) * x[j - s]; }
        same(what, t, b[i - s]);
    }
}
pub fn forward(n: usize, bits: usize) { let (m, v) = low(n, bits); let b = syms("b", n); solved("L x = b", &v, n, false, &m.forward_sub(&b), &b, 0, n); }
pub fn backward(n: usize, bits: usize) { let (m, v) = upp(n, bits); let b = syms("b", n); solved("U x = b", &v, n, false, &m.backward_sub(&b), &b, 0, n); }
pub fn sub_bad(n: usize, k: usize, upper: bool) {
    let b = syms("b", k);
    may_panic();
    if upper { let (m, _) = upp(n, 0); let x = m.backward_sub(&b); } else { let (m, _) = low(n, 0); let x = m.forward_sub(&b); }
    unreachable("a right-hand side of the wrong length is refused");
}
pub fn inv_low(n: usize, bits: usize) {
    let (m, v) = low(n, bits);
    let x = m.tri_inv();
    equal("shape", x.shape(), (n, n));
    for i in 0..n { for j in 0..n {
        let (mut s, mut t) = (0.0, 0.0);
        for k in 0..n { s += v[i * n + k] * x[(k, j)]; t += x[(i, k)] * v[k * n + j]; }
        same("L inv(L) = 1", s, if i == j { 1.0 } else { 0.0 });
        same("inv(L) L = 1", t, if i == j { 1.0 } else { 0.0 });
    } }
}
pub fn inv_upp(n: usize, bits: usize) {
    let (m, v) = upp(n, bits);
    let x = m.tri_inv();
    equal("shape", x.shape(), (n, n));
    for i in 0..n { for j in 0..n {
        let (mut s, mut t) = (0.0, 0.0);
        for k in 0..n { s += v[i * n + k] * x[(k, j)]; t += x[(i, k)] * v[k * n + j]; }
        same("U inv(U) = 1", s, if i == j { 1.0 } else { 0.0 });
        same("inv(U) U = 1", t, if i == j { 1.0 } else { 0.0 });
    } }
}
pub fn env_solve(n: usize, bits: usize) {
    let (m, v) = env(n, bits);
    let b = syms("b", n);
    let mut x = vec![0.0; n];
    m.solve(&b, &mut x);
    solved("envelope L x = b", &v, n, false, &x, &b, 0, n);
    let mut x = syms("x", n);
    m.solve(&b, &mut x);
    solved("envelope L x = b, whatever x held", &v, n, false, &x, &b, 0, n);
}
pub fn env_sub(n: usize, bits: usize, s: usize, e: usize) {
    let (m, v) = env(n, bits);
    let b = syms("b", e - s);
    let mut x = vec![0.0; e - s];
    m.solve_submatrix(&b, &mut x, (s, e));
    solved("part of the envelope", &v, n, false, &x, &b, s, e);
    let mut x = syms("x", e - s);
    m.solve_submatrix(&b, &mut x, (s, e));
    solved("part of the envelope, whatever x held", &v, n, false, &x, &b, s, e);
}
pub fn env_transposed(n: usize, bits: usize) {
    let (m, v) = env(n, bits);
    let b = syms("b", n);
    let mut x = syms("x", n);
    m.solve_transposed(&b, &mut x);
    solved("transposed envelope", &v, n, true, &x, &b, 0, n);
}
pub fn env_transposed_zero(n: usize, bits: usize, zeros: usize) {
    // right-hand sides with zeros at the end take the shortcut
    let (m, v) = env(n, bits);
    let mut b = syms("b", n);
    for k in 0..n { if bit(zeros, k) { b[k] = 0.0; } }
    let mut x = syms("x", n);
    m.solve_transposed(&b, &mut x);
    solved("transposed envelope with zeros", &v, n, true, &x, &b, 0, n);
}
pub fn env_bad(n: usize, k: usize, l: usize, which: usize) {
    let (m, _) = env(n, 0);
    let b = syms("b", k);
    let mut x = vec![0.0; l];
    may_panic();
    if which == 0 { m.solve(&b, &mut x); } else if which == 1 { m.solve_transposed(&b, &mut x); } else { m.solve_submatrix(&b, &mut x, (0, n)); }
    unreachable("vectors of the wrong length are refused");
}
pub fn env_sub_bad(n: usize, s: usize, e: usize) {
    let (m, _) = env(n, 0);
    let b = syms("b", e - s);
    let mut x = vec![0.0; e - s];
    may_panic();
    m.solve_submatrix(&b, &mut x, (s, e));
    unreachable("a range outside the matrix is refused");
}
pub fn diag_solve(n: usize) {
    let d = syms("d", n);
    for x in d.iter() { assume(*x != 0.0); }
    let m = Diagonal::from(d.clone());
    let b = syms("b", n);
    let mut x = b.clone();
    m.solve(&mut x);
    for i in 0..n { same("D x = b", d[i] * x[i], b[i]); }
}
pub fn diag_bad(n: usize, k: usize) {
    let m = Diagonal::from(syms("d", n));
    let mut x = syms("b", k);
    may_panic();
    m.solve(&mut x);
    unreachable("a vector of the wrong length is refused");
}
pub fn diag_facts(n: usize) {
    let d = syms("d", n);
    let m = Diagonal::from(d.clone());
    let (mut p, mut s, mut neg) = (1.0, 0.0, 0);
    for x in d.iter() { p *= *x; s += *x; if *x < 0.0 { neg += 1; } }
    same("product", m.product(), p);
    let k = sym("k");
    let mut q = p;
    for i in 0..n { q *= k; }
    same("scaled product", m.product_scaled(k), q);
    if n > 0 { same("mean", m.mean() * (n as f64), s); }
    equal("negative count", m.num_neg(), neg);
}
pub fn mul_vec(n: usize, bits: usize) {
    let (d, v) = dict(n, n, bits);
    let m: BiEnvelope = d.into();
    let x = syms("x", n);
    let mut y = syms("y", n);
    m.mul_vec(&x, &mut y);
    for i in 0..n { let mut s = 0.0; for j in 0..n { s += v[i * n + j] * x[j]; } same("envelope times vector", y[i], s); }
}
pub fn mul_vec_bad(n: usize, k: usize, l: usize) {
    let (d, v) = dict(n, n, diagbits(n));
    let m: BiEnvelope = d.into();
    let x = syms("x", k);
    let mut y = syms("y", l);
    may_panic();
    m.mul_vec(&x, &mut y);
    unreachable("vectors of the wrong length are refused");
}
