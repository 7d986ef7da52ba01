use super::p::*;
use super::h::*;
use crate::matrix::solve::direct::{CholeskyEnvelopeSolver, DenseGaussSolver};
use crate::matrix::solve::iterative::GaussSeidelSolver;
use crate::matrix::solve::{Solver, System};
use crate::matrix::{BiEnvelope, CompressedRow, Dictionary, LinearMatrix, LowerRowEnvelope, MatrixLike};

// symmetric, diagonally dominant, with the off-diagonal pattern given by bits over the strict lower triangle
pub fn stiff(n: usize, bits: usize) -> Vec<f64> {
    let mut v = vec![0.0; n * n];
    let mut k = 0;
    for i in 0..n {
        for j in 0..i {
            if bit(bits, k) {
                let x = ((i * 3 + j * 5) % 7) as f64 - 8.0;
                v[i * n + j] = x;
                v[j * n + i] = x;
            }
            k += 1;
        }
        v[i * n + i] = 60.0 + 3.0 * (i as f64);
    }
    v
}
// elimination in natural order: the reference answer
fn answer(v: &Vec<f64>, b: &Vec<f64>, n: usize) -> Vec<f64> {
    let (mut a, mut x) = (v.clone(), b.clone());
    for k in 0..n { for i in k + 1..n {
        if a[i * n + k] != 0.0 {
            let f = a[i * n + k] / a[k * n + k];
            for j in k..n { a[i * n + j] -= f * a[k * n + j]; }
            x[i] -= f * x[k];
        }
    } }
    for k in 0..n {
        let k = n - 1 - k;
        for j in k + 1..n { x[k] -= a[k * n + j] * x[j]; }
        x[k] /= a[k * n + k];
    }
    x
}
pub fn chol_contract(a: &LowerRowEnvelope) -> LowerRowEnvelope { a.clone() }
pub fn ll_contract(l: &LowerRowEnvelope, b: &[f64], x: &mut [f64]) {
    let n = b.len();
    let mut v = vec![0.0; n * n];
    for i in 0..n { for j in 0..i + 1 { v[i * n + j] = l[(i, j)]; v[j * n + i] = l[(i, j)]; } }
    let y = answer(&v, &b.to_vec(), n);
    for i in 0..n { x[i] = y[i]; }
}
pub fn gs_contract(k: CompressedRow, r: LinearMatrix, tol: f64, max_iter: usize) -> LinearMatrix {
    let n = k.shape().0;
    equal("right-hand side of the iteration", r.shape(), (n, 1));
    holds("a useful tolerance", tol > 0.0 && tol < 0.1);
    let mut v = vec![0.0; n * n];
    let mut b = Vec::new();
    for i in 0..n { for j in 0..n { v[i * n + j] = k[(i, j)]; } b.push(r[(i, 0)]); }
    LinearMatrix::from_flat((n, 1), answer(&v, &b, n))
}
pub fn contracts() {
    contract("matrix::solve::direct::cholesky_envelope", "c08::chol_contract");
    contract("matrix::solve::direct::solve_ll", "c08::ll_contract");
    contract("matrix::solve::iterative::gauss_seidel", "c08::gs_contract");
}
fn build(n: usize, v: &Vec<f64>, b: &Vec<f64>, how: usize) -> System {
    if how == 0 { return System::from_kr(&LinearMatrix::from_flat((n, n), v.clone()), &LinearMatrix::from_flat((n, 1), b.clone())); }
    if how == 1 { return System::from_kr(&Dictionary::from_flat((n, n), v.clone()), &Dictionary::from_flat((n, 1), b.clone())); }
    if how == 2 {
        let c: CompressedRow = Dictionary::from_flat((n, n), v.clone()).into();
        return System::from_kr(&c, &LinearMatrix::col_vec(b.clone()));
    }
    // coefficient by coefficient, some of them in two parts, last rows first
    let mut s = System::new(n);
    for i in 0..n { let i = n - 1 - i; for j in 0..n { if v[i * n + j] != 0.0 {
        s.add_k_coefficient((i, j), v[i * n + j] - 1.0);
        if how == 3 { s.add_k_coefficient((i, j), 1.0); }
    } } }
    if how == 4 { for i in 0..n { for j in 0..n { if v[i * n + j] != 0.0 { s.add_k_coefficient((i, j), 1.0); } } } }
    for i in 0..n { s.add_rhs_val(i, 3.0 * b[i]); }
    for i in 0..n { let i = n - 1 - i; s.add_rhs_val(i, -2.0 * b[i]); }
    s
}
fn check(what: &str, r: Result<Vec<f64>, ()>, v: &Vec<f64>, b: &Vec<f64>, n: usize) {
    match r {
        Ok(x) => {
            equal("one value per degree of freedom", x.len(), n);
            for i in 0..n {
                let mut s = 0.0;
                for j in 0..n { s += v[i * n + j] * x[j]; }
                same(what, s, b[i]);
            }
        }
        Err(_) => holds("a regular system is solved", false),
    }
}
fn run(which: usize, s: System, v: &Vec<f64>, b: &Vec<f64>, n: usize) {
    equal("size", s.dofs(), n);
    if which == 0 { check("dense elimination answers in the caller's numbering", DenseGaussSolver::new(s).solve(), v, b, n); }
    else if which == 1 { check("envelope factorisation answers in the caller's numbering", CholeskyEnvelopeSolver::new(s).solve(), v, b, n); }
    else { check("iteration answers in the caller's numbering", GaussSeidelSolver::new(s).solve(), v, b, n); }
}
pub fn solve(which: usize, n: usize, bits: usize, how: usize) {
    contracts();
    let (v, b) = (stiff(n, bits), syms("b", n));
    run(which, build(n, &v, &b, how), &v, &b, n);
}
pub fn solve_reduced(which: usize, n: usize, bits: usize, how: usize) {
    contracts();
    let (v, b) = (stiff(n, bits), syms("b", n));
    let mut s = build(n, &v, &b, how);
    s.reduce_envelope();
    run(which, s, &v, &b, n);
}
// the whole of the solver, the factorisation included
pub fn solve_whole(which: usize, n: usize, bits: usize) {
    let (v, b) = (stiff(n, bits), syms("b", n));
    run(which, build(n, &v, &b, 0), &v, &b, n);
}
pub fn envelopes(n: usize, bits: usize) {
    let v = stiff(n, bits);
    let s = build(n, &v, &vec![1.0; n], 0);
    let mut at = 0;
    for e in s.k_envelope() {
        let mut first = at;
        for j in 0..at { let j = at - 1 - j; if v[at * n + j] != 0.0 { first = j; } }
        equal("stiffness envelope", e, at - first + 1);
        at += 1;
    }
    equal("one envelope entry per row", at, n);
    let m = System::from_km(&LinearMatrix::from_flat((n, n), v.clone()), &LinearMatrix::eye(n));
    for e in m.m_envelope() { equal("mass envelope", e, 1); }
    let m = System::from_km(&LinearMatrix::eye(n), &LinearMatrix::from_flat((n, n), v.clone()));
    let mut at = 0;
    for e in m.m_envelope() {
        let mut first = at;
        for j in 0..at { let j = at - 1 - j; if v[at * n + j] != 0.0 { first = j; } }
        equal("mass envelope", e, at - first + 1);
        at += 1;
    }
}
pub fn shape_bad(r: usize, c: usize, rr: usize, rc: usize) {
    let k = LinearMatrix::zeros((r, c));
    let b = LinearMatrix::zeros((rr, rc));
    may_panic();
    let s = System::from_kr(&k, &b);
    unreachable("shapes that do not fit are refused");
}
pub fn km_bad(r: usize, c: usize, mass: bool) {
    may_panic();
    if mass { let s = System::from_km(&LinearMatrix::eye(r), &LinearMatrix::from_flat((r, c), vec![1.0; r * c])); } else { let s = System::from_km(&LinearMatrix::from_flat((r, c), vec![1.0; r * c]), &LinearMatrix::eye(r)); }
    unreachable("shapes that do not fit are refused");
}
pub fn add_bad(n: usize, i: usize, j: usize, which: usize, second: bool) {
    let mut s = System::new(n);
    if second { s.add_k_coefficient((0, 0), 1.0); s.add_m_coefficient((0, 0), 1.0); s.add_rhs_val(0, 1.0); }
    may_panic();
    if which == 0 { s.add_k_coefficient((i, j), sym("a")); } else if which == 1 { s.add_m_coefficient((i, j), sym("a")); } else { s.add_rhs_val(i, sym("a")); }
    unreachable("a degree of freedom that does not exist is refused");
}
pub fn missing(which: usize) {
    let mut s = System::new(2);
    if which % 2 == 0 { s.add_k_coefficient((0, 0), 1.0); s.add_k_coefficient((1, 1), 1.0); } else { s.add_rhs_val(0, 1.0); }
    may_panic();
    if which < 2 { let x = DenseGaussSolver::new(s); } else if which < 4 { let x = CholeskyEnvelopeSolver::new(s); } else { let x = GaussSeidelSolver::new(s); }
    unreachable("a system without coefficients or without right-hand side is refused");
}

// coefficients that are not symmetric (elimination and iteration take any matrix)
fn skew(n: usize, bits: usize) -> Vec<f64> {
    let mut v = stiff(n, bits);
    for i in 0..n { for j in 0..n { if v[i * n + j] != 0.0 {
        if i > j { v[i * n + j] += 1.0 + (i as f64); } else if j > i && (i + j + bits) % 3 == 0 { v[i * n + j] = 0.0; }
    } } }
    v
}
pub fn solve_skew(which: usize, n: usize, bits: usize, how: usize, reduce: bool) {
    contracts();
    let (v, b) = (skew(n, bits), syms("b", n));
    let mut s = build(n, &v, &b, how);
    if reduce { s.reduce_envelope(); }
    run(which, s, &v, &b, n);
}
