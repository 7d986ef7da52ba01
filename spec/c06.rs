use super::p::*;
use super::h::*;
use crate::matrix::{ConstMatrix, Dictionary, Inverse, LinearMatrix, MatrixLike};

fn lin(r: usize, c: usize, tr: bool, bits: usize) -> (LinearMatrix, Vec<f64>) {
    let v = pattern("a", r * c, bits);
    if !tr {
        return (LinearMatrix::from_flat((r, c), v.clone()), v);
    }
    let mut t = Vec::new();
    for j in 0..c { for i in 0..r { t.push(v[i * c + j]); } }
    let mut m = LinearMatrix::from_flat((c, r), t);
    m.transpose();
    (m, v)
}
// determinant by expansion along the first row
pub fn det(v: &Vec<f64>, n: usize) -> f64 {
    if n == 0 { return 1.0; }
    if n == 1 { return v[0]; }
    if n == 2 { return v[0] * v[3] - v[1] * v[2]; }
    if n == 3 {
        return v[0] * (v[4] * v[8] - v[5] * v[7]) - v[1] * (v[3] * v[8] - v[5] * v[6]) + v[2] * (v[3] * v[7] - v[4] * v[6]);
    }
    let mut s = 0.0;
    for j in 0..4 {
        let mut w = Vec::new();
        for i in 1..4 { for k in 0..4 { if k != j { w.push(v[i * 4 + k]); } } }
        let d = v[j] * det(&w, 3);
        if j % 2 == 0 { s += d; } else { s -= d; }
    }
    s
}
fn gauss<T: MatrixLike>(mut a: T, rhs: T, v: &Vec<f64>, b: &Vec<f64>, n: usize) {
    match a.solve_gausselim(rhs) {
        Ok(x) => {
            equal("solution shape", x.shape(), (n, 1));
            for i in 0..n {
                let mut s = 0.0;
                for j in 0..n { s += v[i * n + j] * x[(j, 0)]; }
                same("A x = b", s, b[i]);
            }
        }
        Err(_) => same("only singular systems are refused", det(v, n), 0.0),
    }
}
pub fn elim(n: usize, tr: bool, bits: usize) {
    let (a, v) = lin(n, n, tr, bits);
    let b = syms("b", n);
    gauss(a, LinearMatrix::from_flat((n, 1), b.clone()), &v, &b, n);
}
pub fn elim_sparse(n: usize, bits: usize) {
    let (a, v) = dict(n, n, bits);
    let b = syms("b", n);
    gauss(a, Dictionary::from_flat((n, 1), b.clone()), &v, &b, n);
}
pub fn elim_const() {
    let (v, b) = (syms("a", 4), syms("b", 4));
    let mut a: ConstMatrix<4> = ConstMatrix::from_flat((2, 2), v.clone());
    may_panic();
    let r: ConstMatrix<4> = ConstMatrix::from_flat((4, 1), b);
    holds("a right-hand side of the wrong shape is an error", a.solve_gausselim(r).is_err());
}
pub fn elim_singular(n: usize, col: usize, copy: usize) {
    // a zero column, or two proportional columns
    let (mut a, v) = lin(n, n, false, (1 << (n * n)) - 1);
    let k = sym("k");
    for i in 0..n { a[(i, col)] = if copy == col { 0.0 } else { v[i * n + copy] * k }; }
    let b = syms("b", n);
    let r = a.solve_gausselim(LinearMatrix::from_flat((n, 1), b));
    holds("singular systems are an error", r.is_err());
}
// coefficients of known sizes: the largest pivot must be chosen whatever its sign
pub fn elim_order(n: usize, code: usize, neg: usize) {
    let mut v = syms("a", n * n);
    // rows carry first-column magnitudes in the order of a permutation code
    let mut avail: Vec<usize> = Vec::new();
    for k in 0..n { avail.push(k + 1); }
    let mut c = code;
    for k in 0..n {
        let m = n - k;
        let x = avail.remove(c % m) as f64;
        c = c / m;
        v[k * n] = if bit(neg, k) { 0.0 - x } else { x };
    }
    let mut a = LinearMatrix::from_flat((n, n), v.clone());
    let b = syms("b", n);
    let r = a.solve_gausselim(LinearMatrix::from_flat((n, 1), b.clone()));
    // what elimination leaves behind shows the pivot row: it has been divided by its first entry
    for i in 0..n {
        if v[i * n] * v[i * n] == (n * n) as f64 {
            for j in 0..n { same("the pivot is the entry of largest magnitude", a[(0, j)] * v[i * n], v[i * n + j]); }
        }
    }
}
pub fn elim_bad(n: usize, m: usize, r: usize, c: usize) {
    let (mut a, _) = lin(n, m, false, (1 << (n * m)) - 1);
    let b = LinearMatrix::from_flat((r, c), syms("b", r * c));
    holds("shapes that do not fit are an error", a.solve_gausselim(b).is_err());
}
pub fn lu(n: usize, tr: bool, bits: usize) {
    let (a, v) = lin(n, n, tr, bits | diagbits(n));
    let (l, u) = a.lu_decompose();
    equal("shapes", (l.shape(), u.shape()), ((n, n), (n, n)));
    for i in 0..n {
        same("unit diagonal", l[(i, i)], 1.0);
        for j in 0..n {
            let mut s = 0.0;
            for k in 0..n { s += l[(i, k)] * u[(k, j)]; }
            same("L U = A", s, v[i * n + j]);
        }
    }
    same("determinant from the factors", a.det_lu(), det(&v, n));
}
pub fn lu_bad(r: usize, c: usize) {
    let (a, _) = lin(r, c, false, (1 << (r * c)) - 1);
    may_panic();
    let x = a.lu_decompose();
    unreachable("factoring a non-square matrix is refused");
}
pub fn dets(n: usize, tr: bool, bits: usize) {
    let (a, v) = lin(n, n, tr, bits);
    match a.determinant() { Ok(d) => same("determinant", d, det(&v, n)), Err(_) => (), }
    match a.det_lu_pivot() { Ok(d) => same("pivoted determinant", d, det(&v, n)), Err(_) => (), }
}
pub fn det_perm(n: usize, code: usize) {
    // scaled permutation matrices: every exchange changes the sign
    let v = syms("a", n);
    for x in v.iter() { assume(*x > 1.0); }
    let mut avail: Vec<usize> = Vec::new();
    for k in 0..n { avail.push(k); }
    let mut w = vec![0.0; n * n];
    let mut c = code;
    let mut sign = 1.0;
    let mut prod = 1.0;
    for k in 0..n {
        let m = n - k;
        let at = c % m;
        c = c / m;
        if at % 2 == 1 { sign = 0.0 - sign; }
        w[k * n + avail.remove(at)] = v[k];
        prod *= v[k];
    }
    let a = LinearMatrix::from_flat((n, n), w.clone());
    match a.determinant() { Ok(d) => same("determinant of a permutation", d, sign * prod), Err(_) => holds("a regular matrix has a determinant", false), }
    match a.det_lu_pivot() { Ok(d) => same("pivoted determinant of a permutation", d, sign * prod), Err(_) => holds("a regular matrix has a determinant", false), }
    let mut a2 = LinearMatrix::from_flat((n, n), w.clone());
    let b = syms("b", n);
    match a2.solve_gausselim(LinearMatrix::from_flat((n, 1), b.clone())) {
        Ok(x) => { for i in 0..n { let mut s = 0.0; for j in 0..n { s += w[i * n + j] * x[(j, 0)]; } same("permuted system solved", s, b[i]); } }
        Err(_) => holds("a regular system is solved", false),
    }
}
pub fn det_order(code: usize, neg: usize) {
    // first column of known magnitudes and signs, the rest arbitrary
    let mut v = syms("a", 9);
    let mut avail: Vec<usize> = vec![1, 2, 3];
    let mut c = code;
    for k in 0..3 {
        let m = 3 - k;
        let x = avail.remove(c % m) as f64;
        c = c / m;
        v[k * 3] = if bit(neg, k) { 0.0 - x } else { x };
    }
    let a = LinearMatrix::from_flat((3, 3), v.clone());
    match a.det_lu_pivot() { Ok(d) => same("pivoted determinant", d, det(&v, 3)), Err(_) => (), }
}
pub fn det_bad(r: usize, c: usize) {
    let (a, _) = lin(r, c, false, (1 << (r * c)) - 1);
    holds("a non-square matrix has no determinant", a.det_lu_pivot().is_err() && a.determinant().is_err());
}
pub fn det_zero(n: usize, col: usize) {
    let (mut a, _) = lin(n, n, false, (1 << (n * n)) - 1);
    for i in 0..n { a[(i, col)] = 0.0; }
    match a.determinant() { Ok(d) => same("determinant with a zero column", d, 0.0), Err(_) => (), }
    match a.det_lu_pivot() { Ok(d) => same("determinant with a zero column", d, 0.0), Err(_) => (), }
}
fn inverted<T: MatrixLike>(x: &T, v: &Vec<f64>, n: usize) {
    equal("shape", x.shape(), (n, n));
    for i in 0..n { for j in 0..n {
        let (mut s, mut t) = (0.0, 0.0);
        for k in 0..n { s += v[i * n + k] * x[(k, j)]; t += x[(i, k)] * v[k * n + j]; }
        same("A inv(A) = 1", s, if i == j { 1.0 } else { 0.0 });
        same("inv(A) A = 1", t, if i == j { 1.0 } else { 0.0 });
    } }
}
pub fn inv(n: usize, tr: bool) {
    let (a, v) = lin(n, n, tr, (1 << (n * n)) - 1);
    inverted(&a.inverse(), &v, n);
    inverted(&a.inv_lu(), &v, n);
}
pub fn inv_forms() {
    let v = syms("a", 9);
    let a: ConstMatrix<9> = ConstMatrix::from_flat((3, 3), v.clone());
    inverted(&a.inverse(), &v, 3);
    let a: ConstMatrix<4> = ConstMatrix::from_flat((2, 2), v[..4].to_vec());
    inverted(&a.inverse(), &v[..4].to_vec(), 2);
    match a.determinant() { Ok(d) => same("determinant", d, det(&v, 2)), Err(_) => holds("2 by 2 determinants exist", false), }
    let a: ConstMatrix<1> = ConstMatrix::from_flat((1, 1), v[..1].to_vec());
    inverted(&a.inverse(), &v[..1].to_vec(), 1);
    let (d, w) = dictn("d", 2, 2, 15);
    for x in w.iter() { assume(*x > 0.0); }
    inverted(&d.inverse(), &w, 2);
}
pub fn inv_bad(r: usize, c: usize) {
    let (a, _) = lin(r, c, false, (1 << (r * c)) - 1);
    may_panic();
    let x = a.inverse();
    unreachable("inverting a non-square matrix is refused");
}
// larger systems: constant coefficients (signs, zeros and ties included) with an arbitrary last column
pub fn entry(code: usize, i: usize, j: usize) -> f64 { (((i * i * 7 + j * 11 + i * j * 5 + code * (i + 2 * j + 1)) % 13) as f64) - 6.0 }
fn large(n: usize, code: usize, tr: bool) -> (LinearMatrix, Vec<f64>) {
    let last = syms("a", n);
    let mut v = Vec::new();
    for i in 0..n { for j in 0..n { v.push(if j + 1 == n { last[i] } else { entry(code, i, j) }); } }
    if !tr { return (LinearMatrix::from_flat((n, n), v.clone()), v); }
    let mut t = Vec::new();
    for j in 0..n { for i in 0..n { t.push(v[i * n + j]); } }
    let mut m = LinearMatrix::from_flat((n, n), t);
    m.transpose();
    (m, v)
}
// determinant by elimination with the first nonzero pivot (columns before the last are constants)
fn slow_det(v: &Vec<f64>, n: usize) -> f64 {
    let mut a = v.clone();
    let mut s = 1.0;
    for k in 0..n - 1 {
        let mut p = k;
        while p < n && a[p * n + k] == 0.0 { p += 1; }
        if p == n { return 0.0; }
        if p != k { for j in 0..n { let t = a[k * n + j]; a[k * n + j] = a[p * n + j]; a[p * n + j] = t; } s = -s; }
        s *= a[k * n + k];
        for i in k + 1..n {
            if a[i * n + k] != 0.0 { let f = a[i * n + k] / a[k * n + k]; for j in k..n { a[i * n + j] -= f * a[k * n + j]; } }
        }
    }
    s * a[n * n - 1]
}
pub fn elim_large(n: usize, code: usize, tr: bool) {
    let (mut a, v) = large(n, code, tr);
    let b = syms("b", n);
    match a.solve_gausselim(LinearMatrix::from_flat((n, 1), b.clone())) {
        Ok(x) => for i in 0..n {
            let mut s = 0.0;
            for j in 0..n { s += v[i * n + j] * x[(j, 0)]; }
            same("A x = b", s, b[i]);
        },
        Err(_) => same("only singular systems are refused", slow_det(&v, n), 0.0),
    }
}
pub fn det_large(n: usize, code: usize, tr: bool) {
    let (a, v) = large(n, code, tr);
    match a.determinant() { Ok(d) => same("determinant", d, slow_det(&v, n)), Err(_) => (), }
    match a.det_lu_pivot() { Ok(d) => same("pivoted determinant", d, slow_det(&v, n)), Err(_) => (), }
}
pub fn lu_large(n: usize, code: usize) {
    let (mut a, mut v) = large(n, code, false);
    for i in 0..n { a[(i, i)] += 50.0; v[i * n + i] += 50.0; }
    let (l, u) = a.lu_decompose();
    for i in 0..n { for j in 0..n {
        let mut s = 0.0;
        for k in 0..n { s += l[(i, k)] * u[(k, j)]; }
        same("L U = A", s, v[i * n + j]);
    } }
    same("determinant from the factors", a.det_lu(), slow_det(&v, n));
}
pub fn inv_large(n: usize, code: usize) {
    let mut v = Vec::new();
    for i in 0..n { for j in 0..n { v.push(entry(code, i, j) + (if i == j { 50.0 } else { 0.0 })); } }
    inverted(&LinearMatrix::from_flat((n, n), v.clone()).inverse(), &v, n);
}
// coefficients far from one: a matrix is singular by its pattern, not by the unit its entries are given in
pub fn units(n: usize, code: usize, exp: usize, up: bool) {
    let mut f = 1.0;
    for _ in 0..exp { if up { f *= 10.0; } else { f /= 10.0; } }
    let mut v = Vec::new();
    let mut w = Vec::new();
    let mut fn_ = 1.0;
    for i in 0..n {
        fn_ *= f;
        for j in 0..n { let x = entry(code, i, j) + (if i == j { 50.0 } else { 0.0 }); w.push(x); v.push(x * f); }
    }
    let a = LinearMatrix::from_flat((n, n), v.clone());
    let d = if n < 4 { det(&w, n) } else { slow_det(&w, n) };
    match a.determinant() { Ok(x) => same("determinant in other units", x / fn_, d), Err(_) => holds("a regular matrix has a determinant", false), }
    match a.det_lu_pivot() { Ok(x) => same("pivoted determinant in other units", x / fn_, d), Err(_) => holds("a regular matrix has a determinant", false), }
    same("determinant from the factors in other units", a.det_lu() / fn_, d);
    let x = a.inverse();
    for i in 0..n { for j in 0..n {
        let mut s = 0.0;
        for k in 0..n { s += v[i * n + k] * x[(k, j)]; }
        same("A inv(A) = 1 in other units", s, if i == j { 1.0 } else { 0.0 });
    } }
    let b = syms("b", n);
    let mut m = a.clone();
    match m.solve_gausselim(LinearMatrix::from_flat((n, 1), b.clone())) {
        Ok(x) => for i in 0..n {
            let mut s = 0.0;
            for j in 0..n { s += v[i * n + j] * x[(j, 0)]; }
            same("A x = b in other units", s, b[i]);
        },
        Err(_) => holds("a regular system is solved", false),
    }
}
