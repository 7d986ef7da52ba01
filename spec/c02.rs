use super::p::*;
use super::h::*;
use crate::matrix::graph::Permutation;
use crate::matrix::{BiEnvelope, CompressedRow, ConstMatrix, Diagonal, Dictionary, LinearMatrix, LowerRowEnvelope, LowerTriangular, MatrixLike, UpperTriangular};

// every position up to two past the edges, read through get and through indexing
fn reads<T: MatrixLike>(m: &T, want: &Vec<f64>, r: usize, c: usize) {
    equal("reported shape", m.shape(), (r, c));
    for i in 0..r + 2 {
        for j in 0..c + 2 {
            let g = m.get((i, j));
            if i < r && j < c {
                holds("in-range read gives a value", g.is_some());
                if let Some(x) = g {
                    same("optional read", *x, want[i * c + j]);
                }
                same("indexed read", m[(i, j)], want[i * c + j]);
            } else {
                holds("out-of-range read gives nothing", g.is_none());
            }
        }
    }
}

// a write through get_mut, when granted, changes the requested element and no other
fn opt_write<T: MatrixLike>(m: &mut T, want: &Vec<f64>, r: usize, c: usize, i: usize, j: usize, must: bool) {
    let w = sym("w");
    let inside = i < r && j < c;
    let mut done = false;
    if let Some(x) = m.get_mut((i, j)) {
        *x = w;
        done = true;
    }
    holds("out-of-range write refused", inside || !done);
    holds("stored element writable", done || !must);
    for a in 0..r {
        for b in 0..c {
            if a == i && b == j && done {
                same("written element", m[(a, b)], w);
            } else {
                same("other element kept", m[(a, b)], want[a * c + b]);
            }
        }
    }
    equal("shape kept", m.shape(), (r, c));
    // put and mutate are writes of the same kind
    m.put((i, j), w + 1.0);
    m.mutate((i, j), |x| *x = *x * 2.0);
    for a in 0..r {
        for b in 0..c {
            if a == i && b == j && done {
                same("element after put and mutate", m[(a, b)], (w + 1.0) * 2.0);
            } else {
                same("other element kept by put", m[(a, b)], want[a * c + b]);
            }
        }
    }
}

fn idx_write<T: MatrixLike>(m: &mut T, want: &Vec<f64>, r: usize, c: usize, i: usize, j: usize, must: bool) {
    let w = sym("w");
    if !must {
        may_panic();
    }
    m[(i, j)] = w;
    holds("indexed write out of range does not return", i < r && j < c);
    for a in 0..r {
        for b in 0..c {
            if a == i && b == j {
                same("element written by index", m[(a, b)], w);
            } else {
                same("other element kept by indexed write", m[(a, b)], want[a * c + b]);
            }
        }
    }
}

fn idx_oob<T: MatrixLike>(m: &T, i: usize, j: usize) {
    may_panic();
    let x = m[(i, j)];
    unreachable("indexed read out of range must panic");
}

// ---- dense, both layouts
fn lin(r: usize, c: usize, tr: bool) -> (LinearMatrix, Vec<f64>) {
    let v = syms("a", r * c);
    if !tr {
        return (LinearMatrix::from_flat((r, c), v.clone()), v);
    }
    let mut t = Vec::new();
    for j in 0..c {
        for i in 0..r {
            t.push(v[i * c + j]);
        }
    }
    let mut m = LinearMatrix::from_flat((c, r), t);
    m.transpose();
    (m, v)
}
pub fn linear_read(r: usize, c: usize, tr: bool) { let (m, v) = lin(r, c, tr); reads(&m, &v, r, c); }
pub fn linear_write(r: usize, c: usize, tr: bool, i: usize, j: usize) { let (mut m, v) = lin(r, c, tr); opt_write(&mut m, &v, r, c, i, j, i < r && j < c); }
pub fn linear_iwrite(r: usize, c: usize, tr: bool, i: usize, j: usize) { let (mut m, v) = lin(r, c, tr); idx_write(&mut m, &v, r, c, i, j, i < r && j < c); }
pub fn linear_oob(r: usize, c: usize, tr: bool, i: usize, j: usize) { let (m, v) = lin(r, c, tr); idx_oob(&m, i, j); }
pub fn linear_zeros(r: usize, c: usize) { let m = LinearMatrix::zeros((r, c)); reads(&m, &vec![0.0; r * c], r, c); }
pub fn linear_layout_eq(r: usize, c: usize) {
    let (m, v) = lin(r, c, false);
    let (t, _) = lin(r, c, true);
    holds("the two layouts of one matrix are equal", m == t);
    holds("and the other way round", t == m);
    let mut u = t.clone();
    if r * c > 0 {
        u[(r - 1, c - 1)] = v[r * c - 1] + 1.0;
        holds("a changed element is noticed", m != u);
        holds("a changed element is noticed in one layout", t != u);
    }
    let mut s = m.clone();
    s.transpose();
    if r != c {
        holds("different shapes are unequal", m != s);
    }
}
pub fn linear_flat_bad(r: usize, c: usize, n: usize) {
    let v = syms("a", n);
    may_panic();
    let m = LinearMatrix::from_flat((r, c), v);
    unreachable("flat data of the wrong length must be refused");
}
pub fn linear_from_vec(n: usize) { let v = syms("a", n); let m = LinearMatrix::from(v.clone()); reads(&m, &v, n, 1); }

// ---- triangles
fn low(n: usize) -> (LowerTriangular, Vec<f64>) {
    let v = syms("a", n * n);
    let mut want = vec![0.0; n * n];
    let mut m = LowerTriangular::zeros(n);
    for i in 0..n { for j in 0..i + 1 { m[(i, j)] = v[i * n + j]; want[i * n + j] = v[i * n + j]; } }
    (m, want)
}
fn upp(n: usize) -> (UpperTriangular, Vec<f64>) {
    let v = syms("a", n * n);
    let mut want = vec![0.0; n * n];
    let mut m = UpperTriangular::zeros(n);
    for i in 0..n { for j in i..n { m[(i, j)] = v[i * n + j]; want[i * n + j] = v[i * n + j]; } }
    (m, want)
}
pub fn lower_read(n: usize) { let (m, v) = low(n); reads(&m, &v, n, n); reads(&LowerTriangular::zeros(n), &vec![0.0; n * n], n, n); }
pub fn lower_write(n: usize, i: usize, j: usize) { let (mut m, v) = low(n); opt_write(&mut m, &v, n, n, i, j, i < n && j <= i); }
pub fn lower_iwrite(n: usize, i: usize, j: usize) { let (mut m, v) = low(n); idx_write(&mut m, &v, n, n, i, j, i < n && j <= i); }
pub fn lower_oob(n: usize, i: usize, j: usize) { let (m, v) = low(n); idx_oob(&m, i, j); }
pub fn upper_read(n: usize) { let (m, v) = upp(n); reads(&m, &v, n, n); reads(&UpperTriangular::zeros(n), &vec![0.0; n * n], n, n); }
pub fn upper_write(n: usize, i: usize, j: usize) { let (mut m, v) = upp(n); opt_write(&mut m, &v, n, n, i, j, j < n && i <= j); }
pub fn upper_iwrite(n: usize, i: usize, j: usize) { let (mut m, v) = upp(n); idx_write(&mut m, &v, n, n, i, j, j < n && i <= j); }
pub fn upper_oob(n: usize, i: usize, j: usize) { let (m, v) = upp(n); idx_oob(&m, i, j); }
pub fn triangle_eq(n: usize) {
    let (a, _) = low(n);
    let (u, _) = upp(n);
    holds("equal to itself", a == a.clone() && u == u.clone());
    let mut b = a.clone();
    let mut w = u.clone();
    if n > 0 {
        b[(n - 1, 0)] = a[(n - 1, 0)] + 1.0;
        w[(0, n - 1)] = u[(0, n - 1)] + 1.0;
        holds("lower difference noticed", a != b);
        holds("upper difference noticed", u != w);
    }
}

// ---- diagonal
fn dia(n: usize) -> (Diagonal, Vec<f64>) {
    let v = syms("a", n);
    let mut want = vec![0.0; n * n];
    for i in 0..n { want[i * n + i] = v[i]; }
    (Diagonal::from(v), want)
}
pub fn diag_read(n: usize) {
    let (m, v) = dia(n);
    reads(&m, &v, n, n);
    for i in 0..n { same("one-index read", m[i], v[i * n + i]); }
    reads(&Diagonal::zeros((n, n)), &vec![0.0; n * n], n, n);
    let mut t = m.clone();
    t.transpose();
    reads(&t, &v, n, n);
}
pub fn diag_write(n: usize, i: usize, j: usize) { let (mut m, v) = dia(n); opt_write(&mut m, &v, n, n, i, j, i < n && j == i); }
pub fn diag_iwrite(n: usize, i: usize, j: usize) { let (mut m, v) = dia(n); idx_write(&mut m, &v, n, n, i, j, i < n && j == i); }
pub fn diag_oob(n: usize, i: usize, j: usize) { let (m, v) = dia(n); idx_oob(&m, i, j); }
pub fn diag_one(n: usize, i: usize) {
    let (mut m, v) = dia(n);
    let w = sym("w");
    m[i] = w;
    for a in 0..n { for b in 0..n { same("one-index write", m[(a, b)], if a == i && b == i { w } else { v[a * n + b] }); } }
}

// ---- constant-size
pub fn const6_read(r: usize, c: usize) {
    let v = syms("a", 6);
    let m: ConstMatrix<6> = ConstMatrix::from_flat_array((r, c), [v[0], v[1], v[2], v[3], v[4], v[5]]);
    reads(&m, &v, r, c);
    let m: ConstMatrix<6> = ConstMatrix::from_flat((r, c), v.clone());
    reads(&m, &v, r, c);
    let m: ConstMatrix<6> = ConstMatrix::zeros((r, c));
    reads(&m, &vec![0.0; 6], r, c);
}
pub fn const6_write(r: usize, c: usize, i: usize, j: usize) {
    let v = syms("a", 6);
    let mut m: ConstMatrix<6> = ConstMatrix::from_flat_array((r, c), [v[0], v[1], v[2], v[3], v[4], v[5]]);
    opt_write(&mut m, &v, r, c, i, j, i < r && j < c);
}
pub fn const6_iwrite(r: usize, c: usize, i: usize, j: usize) {
    let v = syms("a", 6);
    let mut m: ConstMatrix<6> = ConstMatrix::from_flat_array((r, c), [v[0], v[1], v[2], v[3], v[4], v[5]]);
    idx_write(&mut m, &v, r, c, i, j, i < r && j < c);
}
pub fn const6_oob(r: usize, c: usize, i: usize, j: usize) {
    let v = syms("a", 6);
    let m: ConstMatrix<6> = ConstMatrix::from_flat_array((r, c), [v[0], v[1], v[2], v[3], v[4], v[5]]);
    idx_oob(&m, i, j);
}
pub fn const6_bad(r: usize, c: usize, which: usize, n: usize) {
    let v = syms("a", n);
    may_panic();
    if which == 0 {
        let m: ConstMatrix<6> = ConstMatrix::from_flat((r, c), v);
    } else if which == 1 {
        let m: ConstMatrix<6> = ConstMatrix::from_flat_array((r, c), [0.0; 6]);
    } else {
        let m: ConstMatrix<6> = ConstMatrix::zeros((r, c));
    }
    unreachable("shape and data length must agree");
}
pub fn const6_eq() {
    let v = syms("a", 6);
    let a: ConstMatrix<6> = ConstMatrix::from_flat((2, 3), v.clone());
    let b: ConstMatrix<6> = ConstMatrix::from_flat((3, 2), v.clone());
    let mut c = a.clone();
    holds("equal to itself", a == c);
    holds("shapes distinguish", a != b);
    c[(1, 2)] = v[5] + 1.0;
    holds("values distinguish", a != c);
}

// ---- dictionary
pub fn dict_read(r: usize, c: usize, bits: usize) { let (m, v) = dict(r, c, bits); reads(&m, &v, r, c); }
pub fn dict_write(r: usize, c: usize, bits: usize, i: usize, j: usize) { let (mut m, v) = dict(r, c, bits); opt_write(&mut m, &v, r, c, i, j, i < r && j < c); }
pub fn dict_iwrite(r: usize, c: usize, bits: usize, i: usize, j: usize) { let (mut m, v) = dict(r, c, bits); idx_write(&mut m, &v, r, c, i, j, i < r && j < c); }
pub fn dict_oob(r: usize, c: usize, bits: usize, i: usize, j: usize) { let (m, v) = dict(r, c, bits); idx_oob(&m, i, j); }

// ---- compressed row
pub fn csr_read(r: usize, c: usize, bits: usize) {
    let (d, v) = dict(r, c, bits);
    let m: CompressedRow = d.into();
    reads(&m, &v, r, c);
    equal("stored count", m.non_zero_count(), count(r * c, bits));
    for i in 0..r {
        let mut seen = vec![false; c];
        for (j, x) in m.row_nzs(i) {
            same("row entry", x, v[i * c + j]);
            holds("row entry listed once", !seen[j]);
            seen[j] = true;
        }
        for j in 0..c {
            equal("row entries complete", seen[j], bit(bits, i * c + j));
        }
    }
}
pub fn csr_write(r: usize, c: usize, bits: usize, i: usize, j: usize) { let (d, v) = dict(r, c, bits); let mut m: CompressedRow = d.into(); opt_write(&mut m, &v, r, c, i, j, i < r && j < c && bit(bits, i * c + j)); }
pub fn csr_iwrite(r: usize, c: usize, bits: usize, i: usize, j: usize) { let (d, v) = dict(r, c, bits); let mut m: CompressedRow = d.into(); idx_write(&mut m, &v, r, c, i, j, i < r && j < c && bit(bits, i * c + j)); }
pub fn csr_oob(r: usize, c: usize, bits: usize, i: usize, j: usize) { let (d, v) = dict(r, c, bits); let m: CompressedRow = d.into(); idx_oob(&m, i, j); }
pub fn csr_zeros(r: usize, c: usize) { let m = CompressedRow::zeros((r, c)); reads(&m, &vec![0.0; r * c], r, c); }

// ---- lower envelope
pub fn env_read(n: usize, bits: usize) {
    let (d, v) = dict(n, n, bits | diagbits(n));
    let m: LowerRowEnvelope = d.into();
    let want = lowerpart(&v, n);
    reads(&m, &want, n, n);
    for i in 0..n {
        let (s, row) = m.row_stored(i);
        equal("stored row ends at the diagonal", s + row.len(), i + 1);
        for j in 0..row.len() { same("stored row", row[j], want[i * n + s + j]); }
        for j in 0..s { same("nothing left of the stored row", want[i * n + j], 0.0); }
        let (s2, row2) = m.row_stored_nodiag(i);
        equal("stored row without diagonal", (s2, row2.len() + 1), (s, row.len()));
        for j in 0..row2.len() { same("stored row without diagonal", row2[j], want[i * n + s + j]); }
    }
}
pub fn env_row_write(n: usize, bits: usize, i: usize, k: usize) {
    let (d, v) = dict(n, n, bits | diagbits(n));
    let mut m: LowerRowEnvelope = d.into();
    let want = lowerpart(&v, n);
    let w = sym("w");
    let (s, row) = m.row_stored_mut(i);
    if k < row.len() {
        row[k] = w;
        for a in 0..n { for b in 0..n { same("write through the stored row", m[(a, b)], if a == i && b == s + k { w } else { want[a * n + b] }); } }
    }
}
pub fn env_write(n: usize, bits: usize, i: usize, j: usize) { let (d, v) = dict(n, n, bits | diagbits(n)); let mut m: LowerRowEnvelope = d.into(); opt_write(&mut m, &lowerpart(&v, n), n, n, i, j, i < n && j <= i && bit(bits | diagbits(n), i * n + j)); }
pub fn env_iwrite(n: usize, bits: usize, i: usize, j: usize) { let (d, v) = dict(n, n, bits | diagbits(n)); let mut m: LowerRowEnvelope = d.into(); idx_write(&mut m, &lowerpart(&v, n), n, n, i, j, i < n && j <= i && bit(bits | diagbits(n), i * n + j)); }
pub fn env_oob(n: usize, bits: usize, i: usize, j: usize) { let (d, v) = dict(n, n, bits | diagbits(n)); let m: LowerRowEnvelope = d.into(); idx_oob(&m, i, j); }

// ---- two-sided envelope
pub fn bienv_read(n: usize, bits: usize) {
    let (d, v) = dict(n, n, bits);
    let m: BiEnvelope = d.into();
    reads(&m, &v, n, n);
    for i in 0..n {
        let (s, row) = m.row_stored(i);
        for j in 0..n { if j < s || j >= s + row.len() { same("nothing outside the stored row", v[i * n + j], 0.0); } else { same("stored row", row[j - s], v[i * n + j]); } }
    }
}
pub fn bienv_write(n: usize, bits: usize, i: usize, j: usize) { let (d, v) = dict(n, n, bits); let mut m: BiEnvelope = d.into(); opt_write(&mut m, &v, n, n, i, j, i < n && j < n && bit(bits, i * n + j)); }
pub fn bienv_iwrite(n: usize, bits: usize, i: usize, j: usize) { let (d, v) = dict(n, n, bits); let mut m: BiEnvelope = d.into(); idx_write(&mut m, &v, n, n, i, j, i < n && j < n && bit(bits, i * n + j)); }
pub fn bienv_oob(n: usize, bits: usize, i: usize, j: usize) { let (d, v) = dict(n, n, bits); let m: BiEnvelope = d.into(); idx_oob(&m, i, j); }
// two matrices are equal exactly when all their elements are
fn other(r: usize, c: usize, tr: bool, w: &Vec<f64>) -> LinearMatrix {
    if !tr { return LinearMatrix::from_flat((r, c), w.clone()); }
    let mut t = Vec::new();
    for j in 0..c { for i in 0..r { t.push(w[i * c + j]); } }
    let mut m = LinearMatrix::from_flat((c, r), t);
    m.transpose();
    m
}
pub fn equal_iff(kind: usize, r: usize, c: usize) {
    let (v, w) = (syms("a", r * c), syms("b", r * c));
    let mut want = true;
    for i in 0..r { for j in 0..c {
        let there = if kind == 4 { j <= i } else if kind == 5 { j >= i } else if kind == 6 { i == j } else { true };
        if there && v[i * c + j] != w[i * c + j] { want = false; }
    } }
    let got = if kind < 4 { other(r, c, bit(kind, 0), &v) == other(r, c, bit(kind, 1), &w) }
    else if kind == 4 {
        let (mut a, mut b) = (LowerTriangular::zeros(r), LowerTriangular::zeros(r));
        for i in 0..r { for j in 0..i + 1 { a[(i, j)] = v[i * r + j]; b[(i, j)] = w[i * r + j]; } }
        a == b
    } else if kind == 5 {
        let (mut a, mut b) = (UpperTriangular::zeros(r), UpperTriangular::zeros(r));
        for i in 0..r { for j in i..r { a[(i, j)] = v[i * r + j]; b[(i, j)] = w[i * r + j]; } }
        a == b
    } else if kind == 6 {
        let (mut a, mut b) = (Diagonal::zeros((r, r)), Diagonal::zeros((r, r)));
        for i in 0..r { a[i] = v[i * r + i]; b[i] = w[i * r + i]; }
        a == b
    } else {
        let a: ConstMatrix<6> = ConstMatrix::from_flat((r, c), v.clone());
        let b: ConstMatrix<6> = ConstMatrix::from_flat((r, c), w.clone());
        a == b
    };
    equal("equal exactly when every element is", got, want);
}
pub fn unequal_shapes(kind: usize, n: usize, m: usize) {
    let same = if kind == 0 { LinearMatrix::zeros((n, m)) == LinearMatrix::zeros((m, n)) }
    else if kind == 1 { LowerTriangular::zeros(n) == LowerTriangular::zeros(m) }
    else if kind == 2 { UpperTriangular::zeros(n) == UpperTriangular::zeros(m) }
    else if kind == 3 { Diagonal::zeros((n, n)) == Diagonal::zeros((m, m)) }
    else if kind == 4 { Dictionary::zeros((n, m)) == Dictionary::zeros((m, n)) }
    else { CompressedRow::from(Dictionary::zeros((n, m))) == CompressedRow::from(Dictionary::zeros((m, n))) };
    equal("matrices of different shapes differ", same, n == m);
}

// sparse matrices: an element more or another value in one makes them differ
pub fn sparse_equal(kind: usize, r: usize, c: usize, bits: usize, i: usize, j: usize) {
    let (d, v) = dict(r, c, bits);
    nonzero_at(&v, bits);
    let mut e = d.clone();
    equal("equal to itself", e == d, true);
    let w = sym("w");
    assume(w != 0.0);
    assume(w != v[i * c + j]);
    e.put((i, j), w);
    equal("a changed element is noticed", e == d, false);
    if kind == 1 { equal("of compressed rows too", CompressedRow::from(e) == CompressedRow::from(d), false); }
    else if kind == 2 { let (a, b): (BiEnvelope, BiEnvelope) = (e.into(), d.into()); equal("of envelopes too", a == b, false); }
}
fn nonzero_at(v: &Vec<f64>, bits: usize) { for k in 0..v.len() { if bit(bits, k) { assume(v[k] != 0.0); } } }
