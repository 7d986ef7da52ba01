use super::h::*;
use super::p::*;
use crate::element::stress::{StressState, StressType};
use crate::matrix::{Average, LinearMatrix, MatrixLike};

fn state(name: &str, n: usize) -> (Vec<f64>, StressState) {
    let v = syms(name, n);
    (v.clone(), StressState::from_vector(LinearMatrix::col_vec(v)))
}
// the component (i, j) of the tensor within the stress vector
fn place(n: usize, i: usize, j: usize) -> usize {
    if n == 1 { return 0; }
    if i == j { return i; }
    if n == 3 { return 2; }
    let s = i + j;
    if s == 1 { 3 } else if s == 3 { 4 } else { 5 }
}
fn full(n: usize, v: &Vec<f64>) -> Vec<f64> {
    // xx yy zz xy yz xz
    if n == 1 { vec![v[0], 0.0, 0.0, 0.0, 0.0, 0.0] }
    else if n == 3 { vec![v[0], v[1], 0.0, v[2], 0.0, 0.0] }
    else if n == 4 { vec![v[0], v[1], v[3], v[2], 0.0, 0.0] }
    else { v.clone() }
}
fn mises2(v: &Vec<f64>) -> f64 {
    (v[0] - v[1]).powi(2) / 2.0 + (v[1] - v[2]).powi(2) / 2.0 + (v[2] - v[0]).powi(2) / 2.0 + 3.0 * (v[3].powi(2) + v[4].powi(2) + v[5].powi(2))
}
pub fn tensor(n: usize) {
    let (v, s) = state("s", n);
    let d = if n == 1 { 1 } else if n == 3 { 2 } else { 3 };
    let c = s.to_cauchy();
    equal("shape", c.shape(), (d, d));
    for i in 0..d { for j in 0..d { same("component", c[(i, j)], v[place(n, i, j)]); } }
}
pub fn kind(n: usize, row: bool) {
    let v = syms("s", n);
    let s = StressState::from_vector(if row { LinearMatrix::row_vec(v.clone()) } else { LinearMatrix::col_vec(v.clone()) });
    let t = if n == 1 { StressType::Bar } else if n == 3 { StressType::Plane } else if n == 4 { StressType::AxiSym } else { StressType::ThreeD };
    equal("kind of state", s.state_type, t);
    let w = StressState::from_vector(LinearMatrix::col_vec(v));
    equal("row or column", s, w);
}
pub fn equivalent(n: usize) {
    let (v, s) = state("s", n);
    let w = mises2(&full(n, &v));
    let m = s.von_mises();
    same("not negative", m, if n == 1 { v[0].abs() } else { w.sqrt() });
    same("von Mises", m * m, w);
}
// the equivalent stress does not see pressure, nor the sign, and scales with the state
pub fn invariant(n: usize) {
    let (v, s) = state("s", n);
    let q = sym("q");
    let m = s.von_mises();
    if n == 4 || n == 6 {
        let mut w = v.clone();
        for i in 0..3 { w[if n == 4 && i == 2 { 3 } else { i }] += q; }
        let t = StressState::from_vector(LinearMatrix::col_vec(w));
        let u = t.von_mises();
        same("pressure", u * u, m * m);
    }
    let u = (s.clone() * q).von_mises();
    same("scaled", u * u, m * m * q * q);
    let u = (s * -1.0).von_mises();
    same("sign", u, m);
}
// only the components of the state and its kind decide a result: read them all back
fn parts(n: usize, s: &StressState) -> Vec<f64> {
    if n == 4 {
        // no tensor form: recover from equivalent stresses
        return Vec::new();
    }
    let c = s.to_cauchy();
    let d = c.shape().0;
    let mut r = Vec::new();
    for i in 0..d { for j in i..d { r.push(c[(i, j)]); } }
    r
}
pub fn arithmetic(n: usize) {
    let (v, s) = state("s", n);
    let (w, t) = state("t", n);
    let q = sym("q");
    assume(q != 0.0);
    let mut e = Vec::new();
    for i in 0..n { e.push(v[i] + w[i]); }
    let sum = s.clone() + t.clone();
    equal("sum", sum.clone(), StressState::from_vector(LinearMatrix::col_vec(e.clone())));
    let (x, y) = (parts(n, &sum), parts(n, &StressState::from_vector(LinearMatrix::col_vec(e))));
    for i in 0..x.len() { same("sum of components", x[i], y[i]); }
    let mut e = Vec::new();
    for i in 0..n { e.push(v[i] * q); }
    equal("multiple", s.clone() * q, StressState::from_vector(LinearMatrix::col_vec(e)));
    let mut e = Vec::new();
    for i in 0..n { e.push(v[i] / q); }
    equal("quotient", s.clone() / q, StressState::from_vector(LinearMatrix::col_vec(e)));
}
pub fn mixed(n: usize, m: usize) {
    let (v, s) = state("s", n);
    let (w, t) = state("t", m);
    may_panic();
    let x = s + t;
    unreachable("sum of different kinds");
}
pub fn bad_length(n: usize, row: bool) {
    let v = syms("s", n);
    may_panic();
    let x = StressState::from_vector(if row { LinearMatrix::row_vec(v) } else { LinearMatrix::col_vec(v) });
    unreachable("state of an unknown kind");
}
pub fn not_flat(r: usize, c: usize) {
    may_panic();
    let x = StressState::from_vector(LinearMatrix::from_flat((r, c), syms("s", r * c)));
    unreachable("state from a matrix");
}
pub fn no_tensor() {
    let (v, s) = state("s", 4);
    may_panic();
    let c = s.to_cauchy();
    // a tensor form, if there is one, holds all three normal stresses
    equal("shape", c.shape(), (3, 3));
    same("xx", c[(0, 0)], v[0]);
    same("yy", c[(1, 1)], v[1]);
    same("zz", c[(2, 2)], v[3]);
    same("xy", c[(0, 1)], v[2]);
    same("yx", c[(1, 0)], v[2]);
}
// the mean of k states and of k numbers
pub fn mean(n: usize, k: usize) {
    let mut avg = Average::new();
    let mut e = vec![0.0; n];
    for q in 0..k {
        let v = syms(if q == 0 { "a" } else if q == 1 { "b" } else if q == 2 { "c" } else { "d" }, n);
        for i in 0..n { e[i] += v[i]; }
        avg.update(StressState::from_vector(LinearMatrix::col_vec(v)));
    }
    match avg.consume() {
        None => equal("nothing to average", k, 0),
        Some(s) => {
            holds("something to average", k > 0);
            for i in 0..n { e[i] = e[i] / k as f64; }
            equal("mean", s, StressState::from_vector(LinearMatrix::col_vec(e)));
        }
    }
}
pub fn mean_number(k: usize) {
    let mut avg: Average<f64> = Average::new();
    let v = syms("a", k);
    let mut e = 0.0;
    for i in 0..k { avg.update(v[i]); e += v[i]; }
    match avg.consume() {
        None => equal("nothing to average", k, 0),
        Some(s) => { holds("something to average", k > 0); same("mean", s, e / k as f64); }
    }
}
