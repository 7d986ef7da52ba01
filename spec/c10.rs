use super::p::*;
use super::h::*;
use crate::matrix::{CompressedRow, Dictionary, LinearMatrix, MatrixLike};

fn gs(n: usize, v: &Vec<f64>, bits: usize, r: &Vec<f64>, tol: f64, max_iter: usize) -> Vec<f64> {
    let mut d = Dictionary::zeros((n, n));
    for i in 0..n { for j in 0..n { if bit(bits, i * n + j) { d.put((i, j), v[i * n + j]); } } }
    let k: CompressedRow = d.into();
    let x: LinearMatrix = call("matrix::solve::iterative::gauss_seidel", (k, LinearMatrix::from_flat((n, 1), r.clone()), tol, max_iter));
    equal("shape of the answer", x.shape(), (n, 1));
    let mut w = Vec::new();
    for i in 0..n { w.push(x[(i, 0)]); }
    w
}
// the relaxation factor the iteration uses: with tolerance 1 the first sweep, which starts from zero, is always accepted
fn factor() -> f64 { gs(1, &vec![1.0], 1, &vec![1.0], 1.0, 0)[0] }
// one sweep of over-relaxed Gauss-Seidel
fn sweep(n: usize, v: &Vec<f64>, r: &Vec<f64>, u: &Vec<f64>, beta: f64) -> Vec<f64> {
    let mut w = u.clone();
    for i in 0..n {
        let mut s = r[i];
        for j in 0..n { if j != i { s -= v[i * n + j] * w[j]; } }
        w[i] = (1.0 - beta) * u[i] + beta * s / v[i * n + i];
    }
    w
}
pub fn relaxation() { let b = factor(); holds("the relaxation factor lies where the iteration can converge", b > 0.0 && b < 2.0); }
pub fn first(n: usize, bits: usize) {
    let beta = factor();
    let bits = bits | diagbits(n);
    let v = pattern("k", n * n, bits);
    for i in 0..n { assume(v[i * n + i] > 0.0); }
    let r = syms("r", n);
    let x = gs(n, &v, bits, &r, 1.0, 0);
    let w = sweep(n, &v, &r, &vec![0.0; n], beta);
    for i in 0..n { same("a sweep uses the newest values", x[i], w[i]); }
}
// numeric coefficients, arbitrary right-hand side: the first converged iterate, or failure
pub fn stop(n: usize, bits: usize, num: usize, den: usize, max_iter: usize) {
    let beta = factor();
    let v = super::c08::stiff(n, bits);
    let tol = (num as f64) / (den as f64);
    let r = syms("r", n);
    let mut all = 0;
    for i in 0..n * n { if v[i] != 0.0 { all += 1 << i; } }
    may_panic();
    let x = gs(n, &v, all, &r, tol, max_iter);
    let mut u = vec![0.0; n];
    let mut done = false;
    for t in 0..max_iter + 3 {
        if !done {
            let w = sweep(n, &v, &r, &u, beta);
            let (mut d, mut m) = (0.0, 0.0);
            for i in 0..n { d += (u[i] - w[i]) * (u[i] - w[i]); m += w[i] * w[i]; }
            u = w;
            if d.sqrt() <= tol * m.sqrt() {
                done = true;
                for i in 0..n { same("the first converged iterate is returned", x[i], u[i]); }
            }
        }
    }
    holds("nothing is returned without convergence", done);
}
pub fn zero(n: usize, bits: usize) {
    let v = super::c08::stiff(n, bits);
    let mut all = 0;
    for i in 0..n * n { if v[i] != 0.0 { all += 1 << i; } }
    let x = gs(n, &v, all, &vec![0.0; n], 0.001, 200);
    for i in 0..n { same("a zero right-hand side has the zero solution", x[i], 0.0); }
}
pub fn exact(n: usize) {
    // every sweep of a decoupled system contracts by the same factor: it converges and what is returned is within the bound
    let beta = factor();
    let d = syms("d", n);
    let v = { let mut v = vec![0.0; n * n]; for i in 0..n { v[i * n + i] = d[i]; assume(d[i] > 0.0); } v };
    let r = syms("r", n);
    let x = gs(n, &v, diagbits(n), &r, 1.0, 5);
    for i in 0..n { same("first sweep of a decoupled system", x[i] * d[i], beta * r[i]); }
}
pub fn no_diag(n: usize, at: usize) {
    let v = syms("k", n * n);
    let mut bits = (1 << (n * n)) - 1;
    bits -= 1 << (at * n + at);
    may_panic();
    let x = gs(n, &v, bits, &syms("r", n), 0.5, 1);
    unreachable("a missing diagonal coefficient is refused");
}
pub fn bad(r: usize, c: usize, rr: usize, rc: usize) {
    let k: CompressedRow = Dictionary::from_flat((r, c), vec![1.0; r * c]).into();
    may_panic();
    let x: LinearMatrix = call("matrix::solve::iterative::gauss_seidel", (k, LinearMatrix::from_flat((rr, rc), syms("r", rr * rc)), 0.5, 1_usize));
    unreachable("shapes that do not fit are refused");
}
