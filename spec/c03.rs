use super::p::*;
use super::h::*;
use crate::matrix::{dot, Average, BiEnvelope, CompressedRow, ConstMatrix, Diagonal, Dictionary, LinearMatrix, LowerRowEnvelope, LowerTriangular, MatrixLike, Norm, UpperTriangular};
use crate::spatial::Point;

fn lin(name: &str, r: usize, c: usize, tr: bool) -> (LinearMatrix, Vec<f64>) {
    let v = syms(name, r * c);
    if !tr {
        return (LinearMatrix::from_flat((r, c), v.clone()), v);
    }
    let mut t = Vec::new();
    for j in 0..c { for i in 0..r { t.push(v[i * c + j]); } }
    let mut m = LinearMatrix::from_flat((c, r), t);
    m.transpose();
    (m, v)
}
fn low(name: &str, n: usize) -> (LowerTriangular, Vec<f64>) {
    let v = lowerpart(&syms(name, n * n), n);
    let mut m = LowerTriangular::zeros(n);
    for i in 0..n { for j in 0..i + 1 { m[(i, j)] = v[i * n + j]; } }
    (m, v)
}
fn upp(name: &str, n: usize) -> (UpperTriangular, Vec<f64>) {
    let mut v = syms(name, n * n);
    for i in 0..n { for j in 0..i { v[i * n + j] = 0.0; } }
    let mut m = UpperTriangular::zeros(n);
    for i in 0..n { for j in i..n { m[(i, j)] = v[i * n + j]; } }
    (m, v)
}
fn dia(name: &str, n: usize) -> (Diagonal, Vec<f64>) {
    let v = syms(name, n);
    let mut w = vec![0.0; n * n];
    for i in 0..n { w[i * n + i] = v[i]; }
    (Diagonal::from(v), w)
}

// every traversal of a matrix
fn views<T: MatrixLike>(m: &T, want: &Vec<f64>, r: usize, c: usize) {
    plain(m, want, r, c);
    let mut got = vec![0.0; r * c];
    let mut seen = vec![0; r * c];
    for ((i, j), x) in m.nzs() { got[i * c + j] = x; seen[i * c + j] += 1; }
    for k in 0..r * c { same("non-zero traversal", got[k], want[k]); holds("each position at most once", seen[k] <= 1); }
}
fn plain<T: MatrixLike>(m: &T, want: &Vec<f64>, r: usize, c: usize) {
    for i in 0..r {
        let mut k = 0;
        for x in m.row(i) { same("row view", *x, want[i * c + k]); k += 1; }
        equal("row view length", k, c);
    }
    for j in 0..c {
        let mut k = 0;
        for x in m.col(j) { same("column view", *x, want[k * c + j]); k += 1; }
        equal("column view length", k, r);
    }
    let mut k = 0;
    for x in m.diag() { same("diagonal view", *x, want[k * c + k]); k += 1; }
    equal("diagonal view length", k, if r < c { r } else { c });
    let mut k = 0;
    for x in m.flat() { same("row-major traversal", *x, want[k]); k += 1; }
    equal("row-major traversal length", k, r * c);
    let mut k = 0;
    for ij in m.indices() { equal("index traversal", ij, (k / c, k % c)); k += 1; }
    equal("index traversal length", k, r * c);
}
pub fn plain_linear(r: usize, c: usize, tr: bool) { let (m, v) = lin("a", r, c, tr); plain(&m, &v, r, c); }
pub fn plain_triangles(n: usize) {
    let (m, v) = low("a", n); plain(&m, &v, n, n);
    let (m, v) = upp("a", n); plain(&m, &v, n, n);
    let (m, v) = dia("a", n); plain(&m, &v, n, n);
}
pub fn plain_sparse(r: usize, c: usize, bits: usize) {
    let (d, v) = dict(r, c, bits); plain(&d, &v, r, c);
    let m: CompressedRow = d.into(); plain(&m, &v, r, c);
}
pub fn plain_env(n: usize, bits: usize) {
    let (d, v) = dict(n, n, bits | diagbits(n));
    let m: LowerRowEnvelope = d.clone().into(); plain(&m, &lowerpart(&v, n), n, n);
    let m: BiEnvelope = d.into(); plain(&m, &v, n, n);
}
pub fn views_linear(r: usize, c: usize, tr: bool) { let (m, v) = lin("a", r, c, tr); views(&m, &v, r, c); }
pub fn views_lower(n: usize) { let (m, v) = low("a", n); views(&m, &v, n, n); }
pub fn views_upper(n: usize) { let (m, v) = upp("a", n); views(&m, &v, n, n); }
pub fn views_diag(n: usize) { let (m, v) = dia("a", n); views(&m, &v, n, n); }
pub fn views_const() {
    let v = syms("a", 6);
    let m: ConstMatrix<6> = ConstMatrix::from_flat((2, 3), v.clone());
    views(&m, &v, 2, 3);
    let m: ConstMatrix<6> = ConstMatrix::from_flat((3, 2), v.clone());
    views(&m, &v, 3, 2);
}
pub fn views_dict(r: usize, c: usize, bits: usize) { let (d, v) = dict(r, c, bits); views(&d, &v, r, c); }
pub fn views_csr(r: usize, c: usize, bits: usize) { let (d, v) = dict(r, c, bits); let m: CompressedRow = d.into(); views(&m, &v, r, c); }
pub fn views_env(n: usize, bits: usize) { let (d, v) = dict(n, n, bits | diagbits(n)); let m: LowerRowEnvelope = d.into(); views(&m, &lowerpart(&v, n), n, n); }
pub fn views_bienv(n: usize, bits: usize) { let (d, v) = dict(n, n, bits); let m: BiEnvelope = d.into(); views(&m, &v, n, n); }
pub fn empty_dims(r: usize, c: usize, tr: bool) {
    // shapes without rows or without columns have nothing to visit
    let mut m = LinearMatrix::zeros((r, c));
    if tr { m.transpose(); }
    equal("no elements", m.flat().count(), 0);
    equal("no positions", m.indices().count(), 0);
    equal("no entries", m.nzs().count(), 0);
    equal("no diagonal", m.diag().count(), 0);
}
pub fn row_oob(r: usize, c: usize, i: usize, col: bool) {
    let (m, v) = lin("a", r, c, false);
    may_panic();
    if col { let x = m.col(i); } else { let x = m.row(i); }
    unreachable("a view of a row or column outside the matrix is refused");
}

// ---- in-place updates
fn expect<T: MatrixLike>(what: &str, m: &T, want: &Vec<f64>, r: usize, c: usize) {
    equal("shape", m.shape(), (r, c));
    for i in 0..r { for j in 0..c { same(what, m[(i, j)], want[i * c + j]); } }
}
fn edits<T: MatrixLike>(m0: &T, v: &Vec<f64>, r: usize, c: usize, i: usize, j: usize) {
    // i, j: two rows (or columns)
    let w = syms("w", c + r);
    if i < r && j < r {
        let mut m = m0.clone();
        m.swap_rows(i, j);
        let mut x = v.clone();
        for k in 0..c { x[i * c + k] = v[j * c + k]; x[j * c + k] = v[i * c + k]; }
        expect("rows swapped", &m, &x, r, c);
        let mut m = m0.clone();
        m.set_row(i, w[..c].to_vec());
        let mut x = v.clone();
        for k in 0..c { x[i * c + k] = w[k]; }
        expect("row replaced", &m, &x, r, c);
        let mut m = m0.clone();
        m.mutate_row(i, |y| *y = *y * w[0] + 1.0);
        let mut x = v.clone();
        for k in 0..c { x[i * c + k] = v[i * c + k] * w[0] + 1.0; }
        expect("row updated", &m, &x, r, c);
    }
    if i < c && j < c {
        let mut m = m0.clone();
        m.swap_cols(i, j);
        let mut x = v.clone();
        for k in 0..r { x[k * c + i] = v[k * c + j]; x[k * c + j] = v[k * c + i]; }
        expect("columns swapped", &m, &x, r, c);
        let mut m = m0.clone();
        m.set_col(i, w[..r].to_vec());
        let mut x = v.clone();
        for k in 0..r { x[k * c + i] = w[k]; }
        expect("column replaced", &m, &x, r, c);
        let mut m = m0.clone();
        m.mutate_col(i, |y| *y = *y * w[0] + 1.0);
        let mut x = v.clone();
        for k in 0..r { x[k * c + i] = v[k * c + i] * w[0] + 1.0; }
        expect("column updated", &m, &x, r, c);
    }
}
pub fn edits_linear(r: usize, c: usize, tr: bool, i: usize, j: usize) { let (m, v) = lin("a", r, c, tr); edits(&m, &v, r, c, i, j); }
pub fn edits_const(i: usize, j: usize) {
    let v = syms("a", 6);
    let m: ConstMatrix<6> = ConstMatrix::from_flat((2, 3), v.clone());
    edits(&m, &v, 2, 3, i, j);
    let m: ConstMatrix<6> = ConstMatrix::from_flat((3, 2), v.clone());
    edits(&m, &v, 3, 2, i, j);
}
pub fn edits_dict(r: usize, c: usize, bits: usize, i: usize, j: usize) { let (m, v) = dict(r, c, bits); edits(&m, &v, r, c, i, j); }
pub fn edit_bad(r: usize, c: usize, tr: bool, which: usize, len: usize, i: usize) {
    let (mut m, v) = lin("a", r, c, tr);
    let w = syms("w", len);
    may_panic();
    if which == 0 { m.set_row(i, w); } else if which == 1 { m.set_col(i, w); } else if which == 2 { m.swap_rows(0, i); } else { m.swap_cols(0, i); }
    unreachable("a row or column that does not fit is refused");
}
pub fn transpose_linear(r: usize, c: usize, tr: bool) {
    let (mut m, v) = lin("a", r, c, tr);
    m.transpose();
    let mut x = vec![0.0; r * c];
    for i in 0..r { for j in 0..c { x[j * r + i] = v[i * c + j]; } }
    expect("transposed", &m, &x, c, r);
    m.transpose();
    expect("transposed twice", &m, &v, r, c);
}

// ---- construction
pub fn eye(n: usize) {
    let m = LinearMatrix::eye(n);
    let mut w = vec![0.0; n * n];
    for i in 0..n { w[i * n + i] = 1.0; }
    expect("identity", &m, &w, n, n);
    expect("identity from a square shape", &LinearMatrix::eye((n, n)), &w, n, n);
    expect("sparse identity", &Dictionary::eye(n), &w, n, n);
    expect("diagonal identity", &Diagonal::eye(n), &w, n, n);
    expect("lower identity", &LowerTriangular::eye(n), &w, n, n);
    expect("upper identity", &UpperTriangular::eye(n), &w, n, n);
}
pub fn rotation(n: usize, a: usize, b: usize) {
    let t = sym("theta");
    if a >= n || b >= n || a == b {
        may_panic();
        let m = LinearMatrix::rotation(n, a, b, t);
        unreachable("a rotation needs two different directions of the space");
    }
    let m = LinearMatrix::rotation(n, a, b, t);
    let mut w = vec![0.0; n * n];
    for i in 0..n { w[i * n + i] = 1.0; }
    w[a * n + a] = t.cos();
    w[b * n + b] = t.cos();
    w[a * n + b] = 0.0 - t.sin();
    w[b * n + a] = t.sin();
    expect("plane rotation", &m, &w, n, n);
    expect("plane rotation, sparse", &Dictionary::rotation(n, a, b, t), &w, n, n);
}
pub fn build(r: usize, c: usize) {
    let v = syms("a", r * c);
    let mut rows = Vec::new();
    let mut pts: Vec<Point> = Vec::new();
    for i in 0..r { rows.push(v[i * c..(i + 1) * c].to_vec()); pts.push(pt(&v[i * c..(i + 1) * c])); }
    expect("from rows", &LinearMatrix::from_rows(rows.clone()), &v, r, c);
    expect("from rows, sparse", &Dictionary::from_rows(rows.clone()), &v, r, c);
    expect("from rows, compressed", &CompressedRow::from_rows(rows), &v, r, c);
    expect("from points", &LinearMatrix::from_points_row(pts), &v, r, c);
    expect("row vector", &LinearMatrix::row_vec(v.clone()), &v, 1, r * c);
    expect("column vector", &LinearMatrix::col_vec(v.clone()), &v, r * c, 1);
    let a: ConstMatrix<4> = ConstMatrix::from_flat((2, 2), vec![v[0], v[0], 1.0, 2.0]);
    expect("constant", &a, &vec![v[0], v[0], 1.0, 2.0], 2, 2);
}
pub fn build_bad(which: usize) {
    let v = syms("a", 6);
    may_panic();
    if which == 0 { let m = LinearMatrix::from_rows(vec![vec![v[0], v[1]], vec![v[2]]]); }
    else if which == 1 { let m = LinearMatrix::from_rows(vec![vec![v[0]], vec![v[2], v[3]]]); }
    else if which == 2 { let m = LinearMatrix::from_rows(Vec::new()); }
    else if which == 3 { let m = LinearMatrix::from_points_row(vec![pt(&[v[0], v[1]]), pt(&[v[2], v[3], v[4]])]); }
    else if which == 4 { let m = LinearMatrix::from_points_row(vec![pt(&[v[0], v[1], v[5]]), pt(&[v[2], v[3]])]); }
    else if which == 5 { let m = LinearMatrix::from_points_row(Vec::new()); }
    else { let m = LinearMatrix::from_rows(vec![vec![v[0], v[1]], vec![v[2], v[3]], vec![v[4], v[5], v[0]]]); }
    unreachable("rows of different lengths are refused");
}
pub fn flat_forms(r: usize, c: usize, bits: usize) {
    let v = pattern("a", r * c, bits);
    expect("dictionary from flat", &Dictionary::from_flat((r, c), v.clone()), &v, r, c);
    expect("compressed row from flat", &CompressedRow::from_flat((r, c), v.clone()), &v, r, c);
}
pub fn flat_env(n: usize, bits: usize) {
    let v = lowerpart(&pattern("a", n * n, bits | diagbits(n)), n);
    for i in 0..n { assume(v[i * n + i] != 0.0); }
    expect("envelope from flat", &LowerRowEnvelope::from_flat((n, n), v.clone()), &v, n, n);
}
pub fn flat_bad(which: usize, n: usize) {
    let v = syms("a", n);
    nonzero(&v);
    may_panic();
    if which == 0 { let m = Dictionary::from_flat((2, 3), v); }
    else if which == 1 { let m = CompressedRow::from_flat((2, 3), v); }
    else if which == 3 {
        // as many values as a square matrix of one of the extents has
        let mut w = v.clone();
        if n == 4 { w[1] = 0.0; } else { w[1] = 0.0; w[2] = 0.0; w[5] = 0.0; }
        let m = LowerRowEnvelope::from_flat(if n == 4 { (3, 2) } else { (2, 3) }, w);
    }
    else if which == 5 {
        // one entry above the diagonal, of no particular size
        let w = syms("c", 16);
        let mut x = Vec::new();
        let mut k = 0;
        let (mut s, at) = (1.0, n % 8);
        for _ in 0..n / 8 { s = s / 10.0; }
        for i in 0..4 { for j in 0..4 {
            if j <= i { x.push(if at % 2 == 0 || j == i { w[i * 4 + j] } else { 0.0 }); }
            else { x.push(if k == at && k < 6 { s } else { 0.0 }); k += 1; }
        } }
        if at > 5 { x[7] = s; }
        let m = LowerRowEnvelope::from_flat((4, 4), x);
    }
    else if which == 4 { let m = Diagonal::zeros((n, n + 1)); }
    else { let m = LowerRowEnvelope::from_flat((2, 2), if n == 4 { v } else { let mut w = v.clone(); if n > 1 { w[1] = 0.0; } w }); }
    unreachable("flat data that does not fit the shape is refused");
}

// ---- arithmetic
pub fn sums(r: usize, c: usize, t1: bool, t2: bool) {
    let (a, av) = lin("a", r, c, t1);
    let (b, bv) = lin("b", r, c, t2);
    let s = sym("s");
    let mut p = vec![0.0; r * c];
    let mut q = vec![0.0; r * c];
    let mut u = vec![0.0; r * c];
    let mut w = vec![0.0; r * c];
    for k in 0..r * c { p[k] = av[k] + bv[k]; q[k] = av[k] - bv[k]; u[k] = av[k] * s; w[k] = av[k] + s; }
    expect("sum", &(&a + &b), &p, r, c);
    expect("difference", &(&a - &b), &q, r, c);
    let mut x = a.clone();
    x.add_ass(&b);
    expect("in-place sum", &x, &p, r, c);
    let mut x = a.clone();
    x.sub_ass(&b);
    expect("in-place difference", &x, &q, r, c);
    let mut x = a.clone();
    x += b.clone();
    expect("sum by assignment", &x, &p, r, c);
    let mut x = a.clone();
    x *= s;
    expect("scaled", &x, &u, r, c);
    let mut x = a.clone();
    x += s;
    expect("shifted", &x, &w, r, c);
}
pub fn sums_const() {
    let (av, bv) = (syms("a", 6), syms("b", 6));
    let a: ConstMatrix<6> = ConstMatrix::from_flat((2, 3), av.clone());
    let b: ConstMatrix<6> = ConstMatrix::from_flat((2, 3), bv.clone());
    let mut p = av.clone();
    let mut q = av.clone();
    for k in 0..6 { p[k] = av[k] + bv[k]; q[k] = av[k] - bv[k]; }
    let mut x = a;
    x.add_ass(&b);
    expect("in-place sum", &x, &p, 2, 3);
    let mut x = a;
    x.sub_ass(&b);
    expect("in-place difference", &x, &q, 2, 3);
}
pub fn sums_dict(r: usize, c: usize, b1: usize, b2: usize) {
    let (a, av) = dictn("a", r, c, b1);
    let (b, bv) = dictn("b", r, c, b2);
    let mut p = av.clone();
    let mut q = av.clone();
    for k in 0..r * c { p[k] = av[k] + bv[k]; q[k] = av[k] - bv[k]; }
    let mut x = a.clone();
    x.add_ass(&b);
    expect("in-place sum", &x, &p, r, c);
    let mut x = a.clone();
    x.sub_ass(&b);
    expect("in-place difference", &x, &q, r, c);
}
pub fn sums_bad(r1: usize, c1: usize, r2: usize, c2: usize, which: usize) {
    let (mut a, _) = lin("a", r1, c1, false);
    let (b, _) = lin("b", r2, c2, which > 4);
    may_panic();
    if which == 0 { let x = &a + &b; }
    else if which == 1 { let x = &a - &b; }
    else if which == 2 { a.add_ass(&b); }
    else if which == 3 { a.sub_ass(&b); }
    else { a += b; }
    unreachable("operands of different shapes are refused");
}

fn reference(av: &Vec<f64>, bv: &Vec<f64>, n: usize, k: usize, m: usize) -> Vec<f64> {
    let mut w = vec![0.0; n * m];
    for i in 0..n { for j in 0..m {
        let mut s = 0.0;
        for t in 0..k { s += av[i * k + t] * bv[t * m + j]; }
        w[i * m + j] = s;
    } }
    w
}
pub fn mul_linear(n: usize, k: usize, m: usize, t1: bool, t2: bool) {
    let (a, av) = lin("a", n, k, t1);
    let (b, bv) = lin("b", k, m, t2);
    let c: LinearMatrix = a.mul(&b);
    let w = reference(&av, &bv, n, k, m);
    expect("product", &c, &w, n, m);
    let c: Dictionary = a.mul(&b);
    expect("product collected sparsely", &c, &w, n, m);
}
pub fn mul_forms(n: usize, bits: usize) {
    let (b, bv) = lin("b", n, n, false);
    let (l, lv) = low("l", n);
    let (u, uv) = upp("u", n);
    let (d, dv) = dia("d", n);
    let (s, sv) = dictn("s", n, n, bits);
    let z: CompressedRow = s.clone().into();
    let x: LinearMatrix = l.mul(&b); expect("lower times dense", &x, &reference(&lv, &bv, n, n, n), n, n);
    let x: LinearMatrix = u.mul(&b); expect("upper times dense", &x, &reference(&uv, &bv, n, n, n), n, n);
    let x: LinearMatrix = d.mul(&b); expect("diagonal times dense", &x, &reference(&dv, &bv, n, n, n), n, n);
    let x: LinearMatrix = s.mul(&b); expect("dictionary times dense", &x, &reference(&sv, &bv, n, n, n), n, n);
    let x: LinearMatrix = z.mul(&b); expect("compressed row times dense", &x, &reference(&sv, &bv, n, n, n), n, n);
    let x: LinearMatrix = b.mul(&l); expect("dense times lower", &x, &reference(&bv, &lv, n, n, n), n, n);
    let x: LinearMatrix = b.mul(&u); expect("dense times upper", &x, &reference(&bv, &uv, n, n, n), n, n);
    let x: LinearMatrix = b.mul(&z); expect("dense times compressed row", &x, &reference(&bv, &sv, n, n, n), n, n);
    let x: LinearMatrix = l.mul(&u); expect("lower times upper", &x, &reference(&lv, &uv, n, n, n), n, n);
}
pub fn mul_csr(n: usize, k: usize, m: usize, bits: usize) {
    let (s, sv) = dictn("s", n, k, bits);
    let z: CompressedRow = s.into();
    let (b, bv) = lin("b", k, m, false);
    let x: LinearMatrix = z.mul(&b);
    expect("compressed row times dense", &x, &reference(&sv, &bv, n, k, m), n, m);
}
pub fn mul_env(n: usize, bits: usize) {
    let (b, bv) = lin("b", n, n, false);
    let (s, sv) = dictn("s", n, n, bits | diagbits(n));
    let e: BiEnvelope = s.clone().into();
    let x: LinearMatrix = e.mul(&b); expect("envelope times dense", &x, &reference(&sv, &bv, n, n, n), n, n);
    let l: LowerRowEnvelope = s.into();
    let x: LinearMatrix = l.mul(&b); expect("lower envelope times dense", &x, &reference(&lowerpart(&sv, n), &bv, n, n, n), n, n);
}
pub fn mul_bad(n: usize, k: usize, k2: usize, m: usize, which: usize) {
    let (a, _) = lin("a", n, k, false);
    let (b, _) = lin("b", k2, m, false);
    may_panic();
    if which == 0 { let c: LinearMatrix = a.mul(&b); }
    else { let (s, _) = dictn("s", n, k, (1 << (n * k)) - 1); let z: CompressedRow = s.into(); let c: LinearMatrix = z.mul(&b); }
    unreachable("shapes that do not fit are refused");
}
pub fn dots(n: usize) {
    let (a, b) = (syms("a", n), syms("b", n));
    let mut s = 0.0;
    for k in 0..n { s += a[k] * b[k]; }
    same("dot product", dot(&a, &b), s);
}
pub fn norm(r: usize, c: usize, tr: bool) {
    let (m, v) = lin("a", r, c, tr);
    let mut s = 0.0;
    for k in 0..r * c { s += v[k] * v[k]; }
    same("Frobenius norm", m.frobenius(), s.sqrt());
}
pub fn norm_forms(n: usize, bits: usize) {
    let (d, v) = dict(n, n, bits);
    let mut s = 0.0;
    for k in 0..n * n { s += v[k] * v[k]; }
    same("Frobenius norm of a dictionary", d.frobenius(), s.sqrt());
    let z: CompressedRow = d.into();
    same("Frobenius norm of a compressed matrix", z.frobenius(), s.sqrt());
}
pub fn average(n: usize) {
    let v = syms("a", n);
    let mut avg = Average::new();
    let mut s = 0.0;
    for k in 0..n { avg.update(v[k]); s += v[k]; }
    match avg.consume() {
        Some(x) => { holds("nothing averaged gives nothing", n > 0); same("running average", x * (n as f64), s); }
        None => holds("something averaged gives a value", n == 0),
    }
}
// many updates of given values
pub fn average_many(n: usize) {
    let mut avg = Average::new();
    let mut s = 0;
    for k in 0..n { avg.update((k % 7) as f64); s += k % 7; }
    match avg.consume() {
        Some(x) => same("running average", x * (n as f64), s as f64),
        None => unreachable("something averaged gives a value"),
    }
}
