use super::p::*;
use super::h::*;
use crate::matrix::graph::{Graph, Permutation};
use crate::matrix::solve::eigen::{DeterminantSearcher, EigenPair, EigenSystem};
use crate::matrix::solve::System;
use crate::matrix::{BiEnvelope, Dictionary, LinearMatrix, LowerRowEnvelope, MatrixLike};

fn full(n: usize, v: &Vec<f64>) -> LinearMatrix { LinearMatrix::from_flat((n, n), v.clone()) }
fn searcher(n: usize, k: &Vec<f64>, m: &Vec<f64>) -> DeterminantSearcher {
    let mut s = System::new(n);
    for i in 0..n { for j in 0..n {
        if i == j || k[i * n + j] != 0.0 { s.add_k_coefficient((i, j), k[i * n + j]); }
        if i == j || m[i * n + j] != 0.0 { s.add_m_coefficient((i, j), m[i * n + j]); }
    } }
    let e = EigenSystem::new(s);
    equal("size", e.dofs(), n);
    DeterminantSearcher::new(e)
}
fn diagonal(d: &Vec<f64>, n: usize) -> Vec<f64> { let mut v = vec![0.0; n * n]; for i in 0..n { v[i * n + i] = d[i]; } v }
fn bienv(n: usize, v: &Vec<f64>) -> BiEnvelope {
    let mut d = Dictionary::zeros((n, n));
    for i in 0..n { for j in 0..n { if i == j || v[i * n + j] != 0.0 { d.put((i, j), v[i * n + j]); } } }
    d.into()
}
fn lower(n: usize, v: &Vec<f64>) -> LowerRowEnvelope { LowerRowEnvelope::from_bienv(&bienv(n, v)) }
// symmetric matrix with the couplings given by bits over the strict lower triangle
fn coupled(n: usize, bits: usize, diag: f64, step: f64) -> Vec<f64> {
    let mut v = vec![0.0; n * n];
    let mut k = 0;
    for i in 0..n {
        for j in 0..i {
            if bit(bits, k) { let x = ((i * 2 + j * 3) % 5) as f64 - 5.5; v[i * n + j] = x; v[j * n + i] = x; }
            k += 1;
        }
        v[i * n + i] = diag + step * (i as f64);
    }
    v
}
// how many eigenvalues of the pair lie below l: sign changes of the natural-order factorisation (Sylvester)
pub fn below(n: usize, k: &Vec<f64>, m: &Vec<f64>, l: f64) -> usize {
    let mut a = Vec::new();
    for i in 0..n * n { a.push(k[i] - l * m[i]); }
    let mut neg = 0;
    for p in 0..n {
        if a[p * n + p] < 0.0 { neg += 1; }
        for i in p + 1..n { let f = a[i * n + p] / a[p * n + p]; for j in p..n { a[i * n + j] -= f * a[p * n + j]; } }
    }
    neg
}
pub fn count_diag(n: usize) {
    // arbitrary decoupled pairs: the eigenvalues are k/m
    let (k, m, l) = (syms("k", n), syms("m", n), sym("l"));
    for i in 0..n { assume(m[i] > 0.0); }
    let s = searcher(n, &diagonal(&k, n), &diagonal(&m, n));
    let mut want = 0;
    for i in 0..n { if k[i] - l * m[i] < 0.0 { want += 1; } }
    equal("eigenvalues below the shift", s.eigenvalues_under(l), want);
}
pub fn count_fixed(n: usize, bits: usize, mbits: usize, num: usize) {
    let k = coupled(n, bits, 9.0, 4.0);
    let m = coupled(n, bits & mbits, 8.0, 1.5);
    let l = (num as f64) / 7.0 - 1.0;
    let s = searcher(n, &k, &m);
    equal("eigenvalues below the shift", s.eigenvalues_under(l), below(n, &k, &m, l));
}
pub fn mass_too_wide() {
    let mut s = System::new(3);
    for i in 0..3 { s.add_k_coefficient((i, i), 2.0); s.add_m_coefficient((i, i), 1.0); }
    s.add_m_coefficient((2, 0), 0.5);
    s.add_m_coefficient((0, 2), 0.5);
    may_panic();
    let e = EigenSystem::new(s);
    unreachable("a mass matrix wider than the stiffness matrix is refused");
}
// inverse iteration summarised by the shift it is asked for; its vector carries the diagonal of k in internal numbering
pub fn iterate_contract(k: &LowerRowEnvelope, m: &BiEnvelope, shift: f64, eigs: Option<&[EigenPair]>) -> EigenPair {
    let n = k.shape().0;
    let mut v = Vec::new();
    for i in 0..n { v.push(k[(i, i)]); }
    match eigs { Some(e) => { for x in e.iter() { holds("only lower modes are given for deflation", x.value() < shift); } } None => () }
    call("matrix::solve::eigen::EigenPair::new", (shift, v))
}
pub fn start_contract(k: &LowerRowEnvelope, m: &BiEnvelope, times: usize) -> Vec<f64> { vec![1.0; k.shape().0] }
// eigenvalues l/4 of a decoupled system with unit mass
fn values(n: usize, code: usize) -> Vec<f64> {
    let mut v = Vec::new();
    for i in 0..n { v.push((((code >> (4 * i)) % 16) as f64 + 1.0) * 0.25 + 0.01 * (i as f64)); }
    v
}
pub fn search(n: usize, code: usize, want: usize, twice: bool) {
    contract("matrix::solve::eigen::inverse_iterate", "c11::iterate_contract");
    contract("matrix::solve::eigen::inverse_iterate_times", "c11::start_contract");
    let l = values(n, code);
    let mut s = searcher(n, &diagonal(&l, n), &diagonal(&vec![1.0; n], n));
    if twice { let x = s.find_eigens(if want > 1 { 1 } else { 0 }); }
    let x = s.find_eigens(want);
    equal("as many modes as asked for", x.len(), want);
    let mut o = l.clone();
    for i in 0..n { for j in 0..n { if i < j && o[j] < o[i] { let t = o[i]; o[i] = o[j]; o[j] = t; } } }
    for i in 0..want {
        if i > 0 { holds("modes are searched in ascending order", x[i].value() > x[i - 1].value()); }
        if i > 0 { holds("each bracket holds one mode", x[i - 1].value() < o[i]); }
        if i + 1 < n { holds("each bracket holds its mode", x[i].value() < o[i + 1] + o[i + 1]); }
        if i + 1 < want { holds("each bracket holds its mode", o[i] < x[i + 1].value()); }
        let own = (x[i].value() - o[i]).abs();
        for j in 0..n { if j != i { holds("the mode nearest to each requested value is the next one", own < (x[i].value() - o[j]).abs()); } }
        for j in 0..n { same("modes are in the caller's numbering", x[i].vector()[j], l[j]); }
    }
    let all = s.eigenpairs();
    for i in 0..want { same("the modes found so far", all[i].value(), x[i].value()); }
}
pub fn too_many(n: usize) {
    let mut s = searcher(n, &diagonal(&values(n, 0x4321), n), &diagonal(&vec![1.0; n], n));
    may_panic();
    let x = s.find_eigens(n + 1);
    unreachable("more modes than degrees of freedom are refused");
}
pub fn none(n: usize) {
    let mut s = searcher(n, &diagonal(&values(n, 0x4321), n), &diagonal(&vec![1.0; n], n));
    equal("no modes asked for", s.find_eigens(0).len(), 0);
    equal("no modes found yet", s.eigenpairs().len(), 0);
}
fn mass_of(n: usize, m: &Vec<f64>, x: &[f64]) -> f64 {
    let mut s = 0.0;
    for i in 0..n { for j in 0..n { s += x[i] * m[i * n + j] * x[j]; } }
    s
}
// k = lambda m: every vector is a mode
pub fn iterate_proportional(n: usize, bits: usize) {
    let m = coupled(n, bits, 8.0, 1.5);
    let (lam, shift) = (sym("lambda"), sym("shift"));
    assume(lam - shift != 0.0);
    assume(lam != 0.0);
    let mut k = Vec::new();
    for i in 0..n * n { k.push(lam * m[i]); }
    rounds(2);
    let p: EigenPair = call("matrix::solve::eigen::inverse_iterate", (&lower(n, &k), &bienv(n, &m), shift, None::<&[EigenPair]>));
    same("the value of the mode", p.value(), lam);
    same("unit mass", mass_of(n, &m, p.vector()), 1.0);
}
// what is returned after the given number of rounds is of unit mass and its value is the quotient of the last step
pub fn iterate(n: usize, bits: usize, mbits: usize, num: usize, times: usize) {
    let k = coupled(n, bits, 9.0, 4.0);
    let m = coupled(n, bits & mbits, 8.0, 1.5);
    let shift = (num as f64) / 5.0 - 1.0;
    rounds(times);
    may_panic();
    let p: EigenPair = call("matrix::solve::eigen::inverse_iterate", (&lower(n, &k), &bienv(n, &m), shift, None::<&[EigenPair]>));
    same("unit mass", mass_of(n, &m, p.vector()), 1.0);
}
// a value is accepted only when the last two quotients agree
pub fn accepts(n: usize, bits: usize, mbits: usize, num: usize) {
    let k = coupled(n, bits, 9.0, 4.0);
    let m = coupled(n, bits & mbits, 8.0, 1.5);
    let shift = num as f64;
    let rng = restart();
    let mut y = vec![0.0; n];
    for j in 0..n { let x = rng.f64(); for i in 0..n { y[i] += m[i * n + j] * x; } }
    let mut s = k.clone();
    for i in 0..n * n { s[i] -= shift * m[i]; }
    let (mut last, mut rho) = (0.0, 0.0);
    let det = s[0] * s[3] - s[1] * s[2];
    let mut xb = vec![0.0; 2];
    for t in 0..2 {
        xb = vec![(y[0] * s[3] - y[1] * s[1]) / det, (y[1] * s[0] - y[0] * s[2]) / det];
        let yb = vec![m[0] * xb[0] + m[1] * xb[1], m[2] * xb[0] + m[3] * xb[1]];
        last = rho;
        rho = (xb[0] * y[0] + xb[1] * y[1]) / (xb[0] * yb[0] + xb[1] * yb[1]);
        let mag = (xb[0] * yb[0] + xb[1] * yb[1]).sqrt();
        y = vec![yb[0] / mag, yb[1] / mag];
    }
    rounds(2);
    let p: EigenPair = call("matrix::solve::eigen::inverse_iterate", (&lower(n, &k), &bienv(n, &m), shift, None::<&[EigenPair]>));
    holds("the last two quotients agree", ((rho - last) / rho).abs() <= 0.001);
}
pub fn iterate_times(n: usize, bits: usize, mbits: usize, times: usize) {
    let k = coupled(n, bits, 9.0, 4.0);
    let m = coupled(n, bits & mbits, 8.0, 1.5);
    let x: Vec<f64> = call("matrix::solve::eigen::inverse_iterate_times", (&lower(n, &k), &bienv(n, &m), times));
    let y: Vec<f64> = call("matrix::solve::eigen::inverse_iterate_times", (&lower(n, &k), &bienv(n, &m), times + 1));
    same("unit mass", mass_of(n, &m, &x), 1.0);
    same("unit mass", mass_of(n, &m, &y), 1.0);
}
// the vector after one step solves K x = M x0 up to its length
pub fn iterate_once(n: usize, bits: usize, mbits: usize) {
    let k = coupled(n, bits, 9.0, 4.0);
    let m = coupled(n, bits & mbits, 8.0, 1.5);
    let z: Vec<f64> = call("matrix::solve::eigen::inverse_iterate_times", (&lower(n, &k), &bienv(n, &m), 1_usize));
    let rng = restart();
    let mut x0 = Vec::new();
    for i in 0..n { x0.push(rng.f64()); }
    let (mut a, mut b) = (vec![0.0; n], vec![0.0; n]);
    for i in 0..n { for j in 0..n { a[i] += k[i * n + j] * z[j]; b[i] += m[i * n + j] * x0[j]; } }
    for i in 1..n { same("stiffness solve of the mass product", a[i] * b[0], a[0] * b[i]); }
    same("unit mass", mass_of(n, &m, &z), 1.0);
}
// one step more is one more application
pub fn iterate_more(n: usize, bits: usize, mbits: usize, times: usize) {
    let k = coupled(n, bits, 9.0, 4.0);
    let m = coupled(n, bits & mbits, 8.0, 1.5);
    let z: Vec<f64> = call("matrix::solve::eigen::inverse_iterate_times", (&lower(n, &k), &bienv(n, &m), times));
    let y: Vec<f64> = call("matrix::solve::eigen::inverse_iterate_times", (&lower(n, &k), &bienv(n, &m), times + 1));
    let (mut a, mut b) = (vec![0.0; n], vec![0.0; n]);
    for i in 0..n { for j in 0..n { a[i] += k[i * n + j] * y[j]; b[i] += m[i * n + j] * z[j]; } }
    for i in 1..n { same("stiffness solve of the mass product", a[i] * b[0], a[0] * b[i]); }
}
pub fn quotient(n: usize, bits: usize) {
    let kv = pattern("k", n * n, bits | diagbits(n));
    let mv = pattern("m", n * n, bits | diagbits(n));
    let mut dk = Dictionary::zeros((n, n));
    let mut dm = Dictionary::zeros((n, n));
    for i in 0..n { for j in 0..n { if bit(bits | diagbits(n), i * n + j) { dk.put((i, j), kv[i * n + j]); dm.put((i, j), mv[i * n + j]); } } }
    let (kb, mb): (BiEnvelope, BiEnvelope) = (dk.into(), dm.into());
    let x = syms("x", n);
    let (a, b) = (mass_of(n, &kv, &x), mass_of(n, &mv, &x));
    assume(b != 0.0);
    let q: f64 = call("matrix::solve::eigen::rayleigh_quotient", (x.as_slice(), &kb, &mb));
    same("stiffness over mass", q * b, a);
}
pub fn deflate(n: usize, bits: usize, cnt: usize) {
    let mv = { let mut v = pattern("m", n * n, bits | diagbits(n)); for i in 0..n { for j in 0..i { v[j * n + i] = v[i * n + j]; } } v };
    let mut dm = Dictionary::zeros((n, n));
    for i in 0..n { for j in 0..n { if i == j || bit(bits, i * n + j) || bit(bits, j * n + i) { dm.put((i, j), mv[i * n + j]); } } }
    let mb: BiEnvelope = dm.into();
    let mut eigs: Vec<EigenPair> = Vec::new();
    let mut vs = Vec::new();
    for c in 0..cnt {
        let v = if c == 0 { syms("u", n) } else { syms("w", n) };
        eigs.push(call("matrix::solve::eigen::EigenPair::new", (sym("l"), v.clone())));
        vs.push(v);
    }
    let mut x = syms("x", n);
    let mut want = x.clone();
    for v in vs.iter() {
        let mut w = 0.0;
        for i in 0..n { for j in 0..n { w += v[i] * mv[i * n + j] * want[j]; } }
        for i in 0..n { want[i] -= w * v[i]; }
    }
    let u: () = call("matrix::solve::eigen::gram_schmidt_orthogonalize", (x.as_mut_slice(), &mb, eigs.as_slice()));
    for i in 0..n { same("the mass projections on the given modes are removed", x[i], want[i]); }
}
fn restart() -> fastrand::Rng { fastrand::Rng::with_seed(1337) }
