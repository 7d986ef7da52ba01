use super::h::*;
use super::p::*;
use crate::element::integrate::{gauss_segment_mat, gauss_tri, GAUSS_TRI_SAMPLES};
use crate::matrix::{LinearMatrix, MatrixLike};
use crate::spatial::Point;

fn pow(x: f64, n: usize) -> f64 { let mut r = 1.0; for _ in 0..n { r *= x; } r }
fn fact(n: usize) -> f64 { let mut r = 1.0; for k in 1..n + 1 { r *= k as f64; } r }
// every polynomial of degree two over the reference triangle
pub fn triangle() {
    let c = syms("c", 6);
    let e = [(0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2)];
    let got = gauss_tri(|p: Point| {
        holds("two natural coordinates", p.dim() == 2);
        holds("inside the triangle", p[0] >= 0.0 && p[1] >= 0.0 && p[0] + p[1] <= 1.0 + 1e-12);
        let mut v = 0.0;
        for k in 0..6 { v += c[k] * pow(p[0], e[k].0) * pow(p[1], e[k].1); }
        v
    });
    let mut want = 0.0;
    for k in 0..6 { want += c[k] * fact(e[k].0) * fact(e[k].1) / fact(e[k].0 + e[k].1 + 2); }
    near("integral over the triangle", got, want);
}
pub fn triangle_mat(r: usize, s: usize) {
    let c = syms("c", r * s * 3);
    let got: LinearMatrix = gauss_tri(|p: Point| {
        let mut m = LinearMatrix::zeros((r, s));
        for i in 0..r { for j in 0..s { let k = (i * s + j) * 3; m[(i, j)] = c[k] + c[k + 1] * p[0] * p[1] + c[k + 2] * p[1]; } }
        m
    });
    equal("shape", got.shape(), (r, s));
    for i in 0..r { for j in 0..s { let k = (i * s + j) * 3; near("integral of an entry", got[(i, j)], c[k] / 2.0 + c[k + 1] / 24.0 + c[k + 2] / 6.0); } }
}
pub fn triangle_points() {
    let mut c = (0.0, 0.0);
    for k in 0..3 {
        let (r, s) = GAUSS_TRI_SAMPLES[k];
        holds("inside the triangle", r >= 0.0 && s >= 0.0 && r + s <= 1.0 + 1e-12);
        c = (c.0 + r, c.1 + s);
    }
    near("centroid", c.0, 1.0);
    near("centroid", c.1, 1.0);
}
// monomials of the coordinates of every dimension, along an arbitrary segment
pub fn segment(order: usize, dim: usize, deg: usize) {
    let (a, b) = (syms("a", dim), syms("b", dim));
    for q in 0..dim {
        let v = gauss_segment_mat(|p: Point| {
            equal("dimension", p.dim(), dim);
            LinearMatrix::from_flat(1, vec![pow(p[q], deg)])
        }, pt(&a), pt(&b), order);
        equal("shape", v.shape(), (1, 1));
        let mut w = 0.0;
        for i in 0..deg + 1 { w += pow(a[q], i) * pow(b[q], deg - i); }
        near("line integral", v[(0, 0)], pt(&a).dist(pt(&b)) * w / (deg as f64 + 1.0));
    }
}
// product of two coordinates
pub fn segment_mixed(order: usize) {
    let (a, b) = (syms("a", 2), syms("b", 2));
    let v = gauss_segment_mat(|p: Point| LinearMatrix::from_flat((1, 2), vec![p[0] * p[1], p[0] - 2.0 * p[1]]), pt(&a), pt(&b), order);
    let len = pt(&a).dist(pt(&b));
    near("line integral", v[(0, 0)], len * (2.0 * a[0] * a[1] + 2.0 * b[0] * b[1] + a[0] * b[1] + a[1] * b[0]) / 6.0);
    near("line integral", v[(0, 1)], len * (a[0] + b[0] - 2.0 * a[1] - 2.0 * b[1]) / 2.0);
}
// the length comes from the points, the sample points lie on the segment between its ends
pub fn segment_points(order: usize) {
    let (a, b) = (syms("a", 2), syms("b", 2));
    assume(a[0] < b[0]);
    let v = gauss_segment_mat(|p: Point| {
        holds("between the ends", p[0] >= a[0] && p[0] <= b[0]);
        near("on the line", (p[0] - a[0]) * (b[1] - a[1]), (p[1] - a[1]) * (b[0] - a[0]));
        LinearMatrix::from_flat(1, vec![1.0])
    }, pt(&a), pt(&b), order);
    near("length", v[(0, 0)], ((a[0] - b[0]).powi(2) + (a[1] - b[1]).powi(2)).sqrt());
}
pub fn no_such_rule(order: usize) {
    let (a, b) = (syms("a", 2), syms("b", 2));
    may_panic();
    let v = gauss_segment_mat(|p: Point| LinearMatrix::from_flat(1, vec![1.0]), pt(&a), pt(&b), order);
    unreachable("integral without a rule");
}
