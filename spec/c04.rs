use super::p::*;
use super::h::*;
use crate::matrix::graph::{Graph, Permutation};
use crate::matrix::{BiEnvelope, CompressedRow, Dictionary, LinearMatrix, LowerRowEnvelope, MatrixLike};

fn expect<T: MatrixLike>(what: &str, m: &T, want: &Vec<f64>, r: usize, c: usize) {
    equal("shape", m.shape(), (r, c));
    for i in 0..r { for j in 0..c { same(what, m[(i, j)], want[i * c + j]); } }
}
// the permutation sending position k of the list to value k (x goes to where it stands in the list)
fn perm(code: usize, n: usize) -> (Permutation, Vec<usize>) {
    let mut avail: Vec<usize> = Vec::new();
    for k in 0..n { avail.push(k); }
    let mut place = Vec::new();
    let mut c = code;
    for k in 0..n {
        let m = n - k;
        place.push(avail.remove(c % m));
        c = c / m;
    }
    let mut to = vec![0; n];
    for k in 0..n { to[place[k]] = k; }
    (permutation(place), to)
}

pub fn to_dense(r: usize, c: usize, bits: usize) { let (d, v) = dict(r, c, bits); let m: LinearMatrix = d.into(); expect("dense form", &m, &v, r, c); }
pub fn to_csr(r: usize, c: usize, bits: usize) {
    let (d, v) = dict(r, c, bits);
    let m: CompressedRow = d.into();
    expect("compressed form", &m, &v, r, c);
    for i in 0..r {
        let mut k = 0;
        let mut last = 0;
        for (j, x) in m.row_nzs(i) {
            same("row entry", x, v[i * c + j]);
            holds("row entries ascend", k == 0 || j > last);
            last = j;
            k += 1;
        }
        equal("row entry count", k, count(c, bits >> (i * c)));
    }
    equal("entry count", m.non_zero_count(), count(r * c, bits));
}
pub fn labeled(r: usize, c: usize, bits: usize, rev: bool) {
    let v = pattern("a", r * c, bits);
    let mut l = Vec::new();
    for k in 0..r * c {
        let k = if rev { r * c - 1 - k } else { (k * 5 + 2) % (r * c) };
        if bit(bits, k) { l.push(((k / c, k % c), v[k])); }
    }
    if rev || r * c % 5 != 0 {
        expect("compressed form from labelled values", &CompressedRow::from_labeled_vals((r, c), l), &v, r, c);
    }
}
pub fn to_bienv(n: usize, bits: usize) {
    let (d, v) = dict(n, n, bits);
    let bnd = d.row_bounds();
    equal("one bound per row", bnd.len(), n);
    for i in 0..n {
        for j in 0..n { holds("bounds cover the row", !bit(bits, i * n + j) || (bnd[i].0 <= j && j < bnd[i].1)); }
        holds("bounds stay in the row", bnd[i].0 <= bnd[i].1 && bnd[i].1 <= n);
        if bnd[i].0 < bnd[i].1 {
            holds("bounds are tight", bit(bits, i * n + bnd[i].0) && bit(bits, i * n + bnd[i].1 - 1));
        }
    }
    let m: BiEnvelope = d.into();
    expect("envelope form", &m, &v, n, n);
    for i in 0..n {
        let (s, row) = m.row_stored(i);
        holds("stored row is the bound", row.len() == bnd[i].1 - bnd[i].0 && (row.len() == 0 || s == bnd[i].0));
        for k in 0..row.len() { same("stored row", row[k], v[i * n + s + k]); }
    }
}
pub fn to_lower(n: usize, bits: usize) {
    let bits = bits | diagbits(n);
    let (d, v) = dict(n, n, bits);
    let env = d.envelope();
    for i in 0..n {
        for j in 0..i + 1 { holds("envelope covers the row", !bit(bits, i * n + j) || env[i] + j >= i + 1); }
        holds("envelope is tight", env[i] >= 1 && env[i] <= i + 1 && bit(bits, i * n + i + 1 - env[i]));
    }
    let m: LowerRowEnvelope = d.clone().into();
    expect("lower envelope form", &m, &lowerpart(&v, n), n, n);
    equal("lower envelope keeps the envelope", m.envelope(), env.clone());
    let mut total = 0;
    for i in 0..n { total += env[i]; }
    equal("stored count", m.non_zero_count(), total);
    let b: BiEnvelope = d.into();
    let l = LowerRowEnvelope::from_bienv(&b);
    expect("lower part of the envelope form", &l, &lowerpart(&v, n), n, n);
    equal("lower part keeps the envelope", l.envelope(), env);
}
pub fn lower_refused(n: usize, bits: usize) {
    // some row has no entry on either side of the diagonal position: no lower envelope exists
    let (d, v) = dict(n, n, bits);
    let b: BiEnvelope = d.into();
    may_panic();
    let l = LowerRowEnvelope::from_bienv(&b);
    unreachable("a row that does not reach the diagonal is refused");
}
pub fn from_env(a: usize, b: usize, c: usize) {
    let env = vec![a, b, c];
    if a != 1 || b < 1 || b > 2 || c < 1 || c > 3 {
        may_panic();
        let m = LowerRowEnvelope::from_envelope(env);
        unreachable("an envelope that does not fit is refused");
    }
    let mut m = LowerRowEnvelope::from_envelope(env.clone());
    equal("envelope kept", m.envelope(), env.clone());
    expect("empty envelope matrix", &m, &vec![0.0; 9], 3, 3);
    let mut want = vec![0.0; 9];
    let v = syms("a", 9);
    for i in 0..3 { for j in i + 1 - env[i]..i + 1 { m[(i, j)] = v[i * 3 + j]; want[i * 3 + j] = v[i * 3 + j]; } }
    expect("filled envelope matrix", &m, &want, 3, 3);
}
pub fn mask(n: usize, bits: usize, keep: usize) {
    let (d, v) = dict(n, n, bits);
    let mut k = Vec::new();
    let mut idx = Vec::new();
    for i in 0..n { k.push(bit(keep, i)); if bit(keep, i) { idx.push(i); } }
    let m = d.mask(&k);
    let s = idx.len();
    let mut want = vec![0.0; s * s];
    for i in 0..s { for j in 0..s { want[i * s + j] = v[idx[i] * n + idx[j]]; } }
    expect("masked", &m, &want, s, s);
}
pub fn mask_bad(r: usize, c: usize, n: usize) {
    let (d, v) = dict(r, c, (1 << (r * c)) - 1);
    may_panic();
    let m = d.mask(&vec![true; n]);
    unreachable("a mask that does not fit is refused");
}
pub fn permuted(n: usize, bits: usize, code: usize) {
    let (mut d, v) = dict(n, n, bits);
    let (p, to) = perm(code, n);
    d.permute(&p);
    let mut want = vec![0.0; n * n];
    for i in 0..n { for j in 0..n { want[to[i] * n + to[j]] = v[i * n + j]; } }
    expect("permuted", &d, &want, n, n);
}
pub fn transposed(r: usize, c: usize, bits: usize) {
    let (d, v) = dict(r, c, bits);
    let t = d.transposed();
    let mut want = vec![0.0; r * c];
    for i in 0..r { for j in 0..c { want[j * r + i] = v[i * c + j]; } }
    expect("transposed", &t, &want, c, r);
    expect("original untouched", &d, &v, r, c);
    expect("transposed twice", &t.transposed(), &v, r, c);
}
pub fn mul(n: usize, k: usize, m: usize, b1: usize, b2: usize) {
    let (a, av) = dictn("a", n, k, b1);
    let (b, bv) = dictn("b", k, m, b2);
    let x = a.mul_dict(&b);
    let mut w = vec![0.0; n * m];
    for i in 0..n { for j in 0..m { let mut s = 0.0; for t in 0..k { s += av[i * k + t] * bv[t * m + j]; } w[i * m + j] = s; } }
    expect("sparse product", &x, &w, n, m);
}
pub fn mul_bad(n: usize, k: usize, k2: usize, m: usize) {
    let (a, _) = dictn("a", n, k, (1 << (n * k)) - 1);
    let (b, _) = dictn("b", k2, m, (1 << (k2 * m)) - 1);
    may_panic();
    let x = a.mul_dict(&b);
    unreachable("shapes that do not fit are refused");
}
pub fn edges(n: usize, bits: usize) {
    let (d, v) = dict(n, n, bits);
    let mut all = vec![0; n * n];
    for (i, j) in d.edges() { all[i * n + j] += 1; }
    for k in 0..n * n { equal("every entry is an edge", all[k] == 1, bit(bits, k)); }
    let mut low = vec![0; n * n];
    for (i, j) in d.edges_lower() { low[i * n + j] += 1; }
    for i in 0..n { for j in 0..n { if i <= j { equal("every entry of one triangle is an edge", low[i * n + j] == 1, bit(bits, i * n + j)); } else { equal("and of the other is not", low[i * n + j], 0); } } }
}
// a lower envelope, and an envelope matrix lying within it
pub fn add_scaled(n: usize, b1: usize, b2: usize) {
    let b1 = b1 | diagbits(n);
    let (a, av) = dictn("a", n, n, b1);
    let (m, mv) = dictn("m", n, n, b2);
    let env = a.envelope();
    let mut fits = true;
    let mut outside = false;
    for i in 0..n {
        let (mut first, mut any) = (n, false);
        for j in 0..n { if bit(b2, i * n + j) && !any { first = j; any = true; } }
        if any && first + env[i] < i + 1 { fits = false; }
    }
    let b: BiEnvelope = m.into();
    let mut l: LowerRowEnvelope = a.into();
    let s = sym("s");
    if !fits {
        may_panic();
        l.add_scaled_bienv(&b, s);
        unreachable("entries outside the envelope are refused");
    }
    l.add_scaled_bienv(&b, s);
    let mut w = av.clone();
    for k in 0..n * n { w[k] = av[k] + s * mv[k]; }
    expect("scaled sum", &l, &lowerpart(&w, n), n, n);
}
pub fn chain(n: usize, bits: usize, code: usize) {
    // permute, then take the envelope forms
    let (mut d, v) = dict(n, n, bits | diagbits(n));
    let (p, to) = perm(code, n);
    d.permute(&p);
    let mut want = vec![0.0; n * n];
    for i in 0..n { for j in 0..n { want[to[i] * n + to[j]] = v[i * n + j]; } }
    let b: BiEnvelope = d.clone().into();
    expect("permuted envelope form", &b, &want, n, n);
    let l: LowerRowEnvelope = d.clone().into();
    expect("permuted lower envelope form", &l, &lowerpart(&want, n), n, n);
    let z: CompressedRow = d.into();
    expect("permuted compressed form", &z, &want, n, n);
}
