use super::p::*;
use super::h::*;
use crate::matrix::solve::direct::{cholesky_envelope, cholesky_envelope_no_root, solve_ldl, solve_ll};
use crate::matrix::{Diagonal, Dictionary, LinearMatrix, LowerRowEnvelope, MatrixLike};

// a lower envelope matrix with the given pattern (whole stored rows are arbitrary)
fn env(n: usize, bits: usize) -> (LowerRowEnvelope, Vec<f64>) {
    let (d, v) = dict(n, n, bits | diagbits(n));
    let e = d.envelope();
    let mut m = LowerRowEnvelope::from_envelope(e.clone());
    let mut w = vec![0.0; n * n];
    let full = syms("a", n * n);
    for i in 0..n { for j in i + 1 - e[i]..i + 1 { m[(i, j)] = full[i * n + j]; w[i * n + j] = full[i * n + j]; } }
    (m, w)
}
fn sym_at(v: &Vec<f64>, n: usize, i: usize, j: usize) -> f64 { if i >= j { v[i * n + j] } else { v[j * n + i] } }
pub fn chol(n: usize, bits: usize) {
    let (a, v) = env(n, bits);
    let l = cholesky_envelope(&a);
    equal("shape", l.shape(), (n, n));
    equal("envelope kept", l.envelope(), a.envelope());
    for i in 0..n {
        for j in 0..i + 1 {
            let mut s = 0.0;
            for k in 0..j + 1 { s += l[(i, k)] * l[(j, k)]; }
            same("L L' = A", s, v[i * n + j]);
        }
        let mut s = v[i * n + i];
        for k in 0..i { s -= l[(i, k)] * l[(i, k)]; }
        same("the diagonal is the positive root", l[(i, i)], s.sqrt());
    }
}
pub fn ldl(n: usize, bits: usize) {
    let (a, v) = env(n, bits);
    let (l, d) = cholesky_envelope_no_root(&a);
    equal("shapes", (l.shape(), d.shape()), ((n, n), (n, n)));
    equal("envelope kept", l.envelope(), a.envelope());
    for i in 0..n {
        same("unit diagonal", l[(i, i)], 1.0);
        for j in 0..i + 1 {
            let mut s = 0.0;
            for k in 0..j + 1 { s += l[(i, k)] * d[(k, k)] * l[(j, k)]; }
            same("L D L' = A", s, v[i * n + j]);
        }
    }
}
pub fn ll_solve(n: usize, bits: usize) {
    let (l, v) = env(n, bits);
    for i in 0..n { assume(v[i * n + i] != 0.0); }
    let b = syms("b", n);
    let mut x = syms("x", n);
    solve_ll(&l, &b, &mut x);
    for i in 0..n {
        let mut s = 0.0;
        for j in 0..n {
            let mut a = 0.0;
            for k in 0..n { a += v[i * n + k] * v[j * n + k]; }
            s += a * x[j];
        }
        same("L L' x = b", s, b[i]);
    }
}
pub fn ldl_solve(n: usize, bits: usize) {
    let (mut l, mut v) = env(n, bits);
    for i in 0..n { l[(i, i)] = 1.0; v[i * n + i] = 1.0; }
    let d = syms("d", n);
    nonzero(&d);
    let dm = Diagonal::from(d.clone());
    let b = syms("b", n);
    let mut x = syms("x", n);
    solve_ldl(&l, &dm, &b, &mut x);
    for i in 0..n {
        let mut s = 0.0;
        for j in 0..n {
            let mut a = 0.0;
            for k in 0..n { a += v[i * n + k] * d[k] * v[j * n + k]; }
            s += a * x[j];
        }
        same("L D L' x = b", s, b[i]);
    }
}
pub fn ll_bad(n: usize, k: usize, l: usize) {
    let (m, _) = env(n, 0);
    let b = syms("b", k);
    let mut x = vec![0.0; l];
    may_panic();
    solve_ll(&m, &b, &mut x);
    unreachable("vectors of the wrong length are refused");
}
pub fn ldl_bad(n: usize, nd: usize, k: usize, l: usize) {
    let (m, _) = env(n, 0);
    let b = syms("b", k);
    let mut x = vec![0.0; l];
    may_panic();
    solve_ldl(&m, &Diagonal::from(syms("d", nd)), &b, &mut x);
    unreachable("operands of the wrong size are refused");
}
// larger envelopes: constant coefficients except one arbitrary row
fn big(n: usize, code: usize, at: usize, squares: bool) -> (LowerRowEnvelope, Vec<f64>) {
    let mut w = Vec::new();
    let mut c = code;
    for i in 0..n { w.push((c % 7).min(i) + 1); c = c / 7 + 3 * i + code % 11; }
    let mut l = vec![0.0; n * n];
    for i in 0..n {
        for j in i + 1 - w[i]..i { l[i * n + j] = ((i * 5 + j * 3 + code) % 5) as f64 - 2.0; }
        l[i * n + i] = 1.0 + ((i + code) % 3) as f64;
    }
    let s = syms("a", n);
    for j in at + 1 - w[at]..at { l[at * n + j] = s[j]; }
    let mut m = LowerRowEnvelope::from_envelope(w.clone());
    let mut v = vec![0.0; n * n];
    for i in 0..n { for j in i + 1 - w[i]..i + 1 {
        let mut x = 0.0;
        for k in 0..j + 1 { x += l[i * n + k] * l[j * n + k] * (if squares { 1.0 } else { 2.0 - ((k * 2 + code) % 5) as f64 + 0.5 }); }
        m[(i, j)] = x;
        v[i * n + j] = x;
    } }
    (m, v)
}
pub fn chol_big(n: usize, code: usize, at: usize) {
    let (a, v) = big(n, code, at, true);
    let l = cholesky_envelope(&a);
    equal("envelope kept", l.envelope(), a.envelope());
    for i in 0..n { for j in 0..i + 1 {
        let mut s = 0.0;
        for k in 0..j + 1 { s += l[(i, k)] * l[(j, k)]; }
        same("L L' = A", s, v[i * n + j]);
    } }
}
pub fn ldl_big(n: usize, code: usize, at: usize) {
    let (a, v) = big(n, code, at, false);
    let (l, d) = cholesky_envelope_no_root(&a);
    equal("envelope kept", l.envelope(), a.envelope());
    for i in 0..n { for j in 0..i + 1 {
        let mut s = 0.0;
        for k in 0..j + 1 { s += l[(i, k)] * d[(k, k)] * l[(j, k)]; }
        same("L D L' = A", s, v[i * n + j]);
    } }
}
