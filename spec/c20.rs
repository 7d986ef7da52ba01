use super::h::*;
use super::p::*;
use crate::matrix::{MatrixError, MatrixLike};
use crate::spatial::predicates::*;
use crate::spatial::Point;

fn minor(v: &Vec<f64>, n: usize, j: usize) -> Vec<f64> {
    let mut w = Vec::new();
    for r in 1..n { for c in 0..n { if c != j { w.push(v[r * n + c]); } } }
    w
}
pub fn cofactors(v: &Vec<f64>, n: usize) -> f64 {
    if n == 0 { return 1.0; }
    if n == 1 { return v[0]; }
    let mut s = 0.0;
    for j in 0..n {
        let d = v[j] * cofactors(&minor(v, n, j), n - 1);
        if j % 2 == 0 { s += d; } else { s -= d; }
    }
    s
}
// the determinant by its definition (C06 decides that the crate's own computation agrees)
pub fn det_contract<T: MatrixLike>(m: &T) -> Result<f64, MatrixError> {
    let (n, k) = m.shape();
    equal("square matrix", n, k);
    let mut v = Vec::new();
    for i in 0..n { for j in 0..n { v.push(m[(i, j)]); } }
    Ok(cofactors(&v, n))
}
fn exact() { contract("<T as matrix::inverse::Inverse<T>>::determinant", "c20::det_contract"); }
fn pts(name: &str, n: usize, dim: usize) -> Vec<Point> {
    let v = syms(name, n * dim);
    let mut r = Vec::new();
    for k in 0..n { r.push(pt(&v[k * dim..k * dim + dim])); }
    r
}
fn sq(p: Point, n: usize) -> f64 { let mut s = 0.0; for k in 0..n { s += p[k] * p[k]; } s }
// rows relative to the last point, with the squared distance as a further column when lifted
fn relative(ps: &Vec<Point>, dim: usize, lift: bool) -> f64 {
    let n = ps.len() - 1;
    let mut v = Vec::new();
    for k in 0..n {
        let mut s = 0.0;
        for r in 0..dim { let d = ps[k][r] - ps[n][r]; v.push(d); s += d * d; }
        if lift { v.push(s); }
    }
    cofactors(&v, n)
}
fn sign(d: f64) -> Orient { if d == 0.0 { Orient::Zero } else if d > 0.0 { Orient::Positive } else { Orient::Negative } }
pub fn orientation() {
    exact();
    let q = pts("p", 4, 3);
    equal("orientation", tetrahedron_dir((q[0], q[1], q[2], q[3])), sign(relative(&q, 3, false)));
}
pub fn circle() {
    exact();
    let q = pts("p", 4, 2);
    equal("in the circle", in_circle(q[3], (q[0], q[1], q[2])), relative(&q, 2, true) > 0.0);
}
pub fn sphere() {
    exact();
    let q = pts("p", 5, 3);
    // expanding four relative rows instead of five absolute ones turns the sign
    equal("in the sphere", in_sphere(q[4], (q[0], q[1], q[2], q[3])), relative(&q, 3, true) > 0.0);
}
fn moved(q: &Vec<Point>, t: Point) -> Vec<Point> { let mut r = Vec::new(); for p in q.iter() { r.push(*p + t); } r }
pub fn translation(which: usize) {
    exact();
    let d = if which == 1 { 2 } else { 3 };
    let q = pts("p", if which == 2 { 5 } else { 4 }, d);
    let r = moved(&q, pt(&syms("t", d)));
    if which == 0 { equal("translated", tetrahedron_dir((r[0], r[1], r[2], r[3])), tetrahedron_dir((q[0], q[1], q[2], q[3]))); }
    if which == 1 { equal("translated", in_circle(r[3], (r[0], r[1], r[2])), in_circle(q[3], (q[0], q[1], q[2]))); }
    if which == 2 { equal("translated", in_sphere(r[4], (r[0], r[1], r[2], r[3])), in_sphere(q[4], (q[0], q[1], q[2], q[3]))); }
}
fn num(k: usize, i: usize) -> f64 {
    let x = (k * k * 37 + i * i * 53 + k * i * 71 + i * 17 + k * 5 + i * i * i * 3) % 23;
    x as f64 - 11.0
}
fn tiny(k: usize) -> f64 { let mut s = 1.0; for _ in 0..k { s = s / 10.0; } s }
// given numbers, without the contract: scaled down by powers of ten
fn fixed(k: usize, n: usize, dim: usize, scale: usize) -> Vec<Point> {
    let s = tiny(scale);
    let mut r = Vec::new();
    for i in 0..n { let mut v = Vec::new(); for c in 0..dim { v.push(num(k, i * dim + c) * s); } r.push(pt(&v)); }
    r
}
// one coordinate of one point is arbitrary; kind: 0 orientation, 1 circle, 2 sphere
pub fn through(kind: usize, k: usize, scale: usize, free: usize, flat: usize) {
    let (n, d) = if kind == 0 { (4, 3) } else if kind == 1 { (4, 2) } else { (5, 3) };
    let mut q = fixed(k, n, d, scale);
    if flat == 1 { q[n - 1] = q[0]; }
    if flat == 2 { for r in 0..d { q[n - 1][r] = (q[0][r] + q[1][r]) / 2.0; } }
    if flat == 3 { q[1] = q[0]; }
    if free > 0 { let f = (free - 1) % (n * d); q[f / d][f % d] = sym("x"); }
    if kind == 0 { equal("orientation", tetrahedron_dir((q[0], q[1], q[2], q[3])), sign(relative(&q, 3, false))); }
    if kind == 1 { equal("in the circle", in_circle(q[3], (q[0], q[1], q[2])), relative(&q, 2, true) > 0.0); }
    if kind == 2 { equal("in the sphere", in_sphere(q[4], (q[0], q[1], q[2], q[3])), relative(&q, 3, true) > 0.0); }
}
fn cross(a: Point, b: Point, c: Point) -> f64 { (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]) }
pub fn barycentric() {
    let q = pts("p", 4, 2);
    let d = cross(q[0], q[1], q[2]);
    assume(d != 0.0);
    let (a, b, c) = bary_coor(q[3], (q[0], q[1], q[2]));
    same("sum", a + b + c, 1.0);
    for r in 0..2 { same("combination", a * q[0][r] + b * q[1][r] + c * q[2][r], q[3][r]); }
    same("first", a * d, cross(q[3], q[1], q[2]));
    same("second", b * d, cross(q[0], q[3], q[2]));
    same("third", c * d, cross(q[0], q[1], q[3]));
}
pub fn triangle() {
    let q = pts("p", 4, 2);
    assume(cross(q[0], q[1], q[2]) != 0.0);
    let (a, b, c) = bary_coor(q[3], (q[0], q[1], q[2]));
    equal("in the triangle", in_triangle(q[3], (q[0], q[1], q[2])), a >= 0.0 && a <= 1.0 && b >= 0.0 && b <= 1.0 && c >= 0.0 && c <= 1.0);
}
// a fixed triangle of either orientation and an arbitrary point: the three half planes
pub fn half_planes(k: usize, turn: bool) {
    let f = fixed(k, 3, 2, 0);
    let p = pt(&syms("p", 2));
    let (a, b, c) = (f[0], if turn { f[2] } else { f[1] }, if turn { f[1] } else { f[2] });
    let d = cross(a, b, c);
    if d == 0.0 { return; }
    let s = if d > 0.0 { 1.0 } else { -1.0 };
    let inside = in_triangle(p, (a, b, c));
    let want = cross(p, b, c) * s >= 0.0 && cross(a, p, c) * s >= 0.0 && cross(a, b, p) * s >= 0.0;
    // inside every half plane or not
    if !want { holds("no point of the triangle", !inside); }
    // mixtures of the corners
    let (l, m) = (sym("l"), sym("m"));
    let n = 1.0 - l - m;
    for x in [l, m, n].iter() { assume(*x >= 0.0); assume(*x <= 1.0); }
    holds("a mixture of the corners", in_triangle(a * l + b * m + c * n, (a, b, c)));
}
pub fn corners() {
    let q = pts("p", 3, 2);
    assume(cross(q[0], q[1], q[2]) != 0.0);
    for k in 0..3 { holds("a corner", in_triangle(q[k], (q[0], q[1], q[2]))); }
    holds("middle of a side", in_triangle((q[0] + q[1]) * 0.5, (q[0], q[1], q[2])));
}
pub fn centre() {
    let q = pts("p", 3, 2);
    let d = cross(q[0], q[1], q[2]);
    match circumcenter((q[0], q[1], q[2])) {
        Some(c) => {
            holds("a proper triangle", d != 0.0);
            let r = sq(c - q[0], 2);
            same("as far from the second corner", sq(c - q[1], 2), r);
            same("as far from the third corner", sq(c - q[2], 2), r);
        }
        None => same("degenerate", d, 0.0),
    }
}
pub fn flat_point(dim: usize, which: usize) {
    let q = pts("p", 4, 2);
    let bad = pt(&syms("b", dim));
    let mut t = [q[0], q[1], q[2], q[3]];
    t[which] = bad;
    may_panic();
    let r = bary_coor(t[3], (t[0], t[1], t[2]));
    unreachable("barycentric coordinates of points of another dimension");
}
// circles through given points, whatever the unit
pub fn centre_units(k: usize, scale: usize) {
    let f = fixed(k, 3, 2, scale);
    let d = cross(f[0], f[1], f[2]);
    match circumcenter((f[0], f[1], f[2])) {
        Some(c) => {
            holds("a proper triangle", d != 0.0);
            let r = sq(c - f[0], 2);
            same("as far from the second corner", sq(c - f[1], 2) / r, 1.0);
            same("as far from the third corner", sq(c - f[2], 2) / r, 1.0);
        }
        None => same("degenerate", d / tiny(scale) / tiny(scale), 0.0),
    }
    if d != 0.0 {
        for i in 0..3 { holds("a corner", in_triangle(f[i], (f[0], f[1], f[2]))); }
        holds("the middle", in_triangle((f[0] + f[1] + f[2]) * (1.0 / 3.0), (f[0], f[1], f[2])));
        holds("outside", !in_triangle(f[0] + f[0] - (f[1] + f[2]) * 0.5, (f[0], f[1], f[2])));
    }
}
// points on one circle with whole coordinates, with the rounding of the actual arithmetic
pub fn grid(k: usize, a: usize, b: usize, c: usize, d: usize) {
    let r = [(5.0, 0.0), (4.0, 3.0), (3.0, 4.0), (0.0, 5.0), (-3.0, 4.0), (-4.0, 3.0), (-5.0, 0.0), (-4.0, -3.0), (-3.0, -4.0), (0.0, -5.0), (3.0, -4.0), (4.0, -3.0)];
    let f = |i: usize| pt(&[r[i].0 + k as f64, r[i].1 - 2.0 * k as f64]);
    rounding(true);
    let x = in_circle(f(d), (f(a), f(b), f(c)));
    rounding(false);
    equal("a point on the circle", x, false);
}
// four points of one plane, five of one sphere
pub fn grid_space(kind: usize, k: usize, a: usize, b: usize, c: usize, d: usize) {
    let f = |i: usize| {
        let (u, v) = ((i % 5) as f64 - 2.0, (i / 5) as f64 - 3.0);
        if kind == 0 { pt(&[u + 2.0 * v + k as f64, v - u, 3.0 * u - v - k as f64]) }
        else {
            // distance three from the centre
            let r = [(1.0, 2.0, 2.0), (2.0, 1.0, 2.0), (2.0, 2.0, 1.0), (3.0, 0.0, 0.0), (0.0, 3.0, 0.0), (0.0, 0.0, 3.0)];
            let s = r[i % 6];
            let (p, q, w) = (if bit(i / 6, 0) { -1.0 } else { 1.0 }, if bit(i / 6, 1) { -1.0 } else { 1.0 }, if bit(i / 6, 2) { -1.0 } else { 1.0 });
            pt(&[s.0 * p + k as f64, s.1 * q - k as f64, s.2 * w + 2.0 * k as f64])
        }
    };
    rounding(true);
    if kind == 0 { let o = tetrahedron_dir((f(a), f(b), f(c), f(d))); rounding(false); equal("four points of one plane", o, Orient::Zero); }
    else { let o = in_sphere(f(a + b + c + d), (f(a), f(b), f(c), f(d))); rounding(false); equal("a point on the sphere", o, false); }
}
