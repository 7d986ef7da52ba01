use super::h::*;
use super::p::*;
use crate::matrix::{BiEnvelope, CompressedRow, ConstMatrix, Diagonal, Dictionary, LinearMatrix, LowerRowEnvelope, LowerTriangular, MatrixLike, UpperTriangular};

// one access at an arbitrary position; the analysis adds a claim at every unchecked storage access it meets
fn touch<T: MatrixLike>(m: &mut T, mode: usize) {
    let (rows, cols) = m.shape();
    let (r, c) = (symn("r"), symn("c"));
    let inside = r < rows && c < cols;
    match mode {
        0 => { let g = m.get((r, c)); holds("a position outside gives nothing", g.is_none() || inside); }
        1 => { let g = m.get_mut((r, c)); holds("a position outside cannot be written", g.is_none() || inside); }
        2 => { may_panic(); let x = &m[(r, c)]; holds("a position outside is refused", inside); }
        _ => { may_panic(); let x = &mut m[(r, c)]; *x = 1.0; holds("a write outside is refused", inside); }
    }
}
fn digits(mut k: usize) -> Vec<usize> {
    let mut v = Vec::new();
    while k > 1 { v.push(k % 10); k = k / 10; }
    v.reverse();
    v
}

// ---- dense matrices of every shape
pub fn linear(tr: bool, mode: usize) {
    let (r, c) = (symn("rows"), symn("cols"));
    let mut m = LinearMatrix::zeros((r, c));
    if tr { m.transpose(); }
    touch(&mut m, mode);
}
pub fn lower(mode: usize) { let mut m = LowerTriangular::zeros(symn("n")); touch(&mut m, mode); }
pub fn upper(mode: usize) { let mut m = UpperTriangular::zeros(symn("n")); touch(&mut m, mode); }
pub fn diagonal(mode: usize, tr: bool) {
    let n = symn("n");
    let mut m = Diagonal::zeros((n, n));
    if tr { m.transpose(); }
    touch(&mut m, mode);
    may_panic();
    let k = symn("k");
    if mode == 0 { let x = &m[k]; holds("outside refused", k < n); }
    if mode == 1 { m[k] = 1.0; holds("outside refused", k < n); }
}
pub fn diagonal_list(n: usize, mode: usize) { let mut m = Diagonal::from(syms("d", n)); touch(&mut m, mode); }
pub fn constant(r: usize, c: usize, how: usize, mode: usize) {
    let v = syms("a", 6);
    let mut m: ConstMatrix<6> = match how {
        0 => ConstMatrix::zeros((r, c)),
        1 => ConstMatrix::from_flat((r, c), v),
        _ => ConstMatrix::from_flat_array((r, c), [v[0], v[1], v[2], v[3], v[4], v[5]]),
    };
    touch(&mut m, mode);
}
// dense matrices out of every operation that builds or rearranges one
pub fn linear_built(how: usize, r: usize, c: usize, mode: usize) {
    let v = syms("a", r * c);
    let mut m = LinearMatrix::from_flat((r, c), v.clone());
    let mut o = LinearMatrix::from_flat((c, r), v.clone());
    may_panic();
    let mut x = match how {
        0 => m,
        1 => { m.transpose(); m }
        2 => { m.transpose(); m.transpose(); m }
        3 => { o.transpose(); &m + &o }
        4 => { o.transpose(); m.transpose(); m.transpose(); &m - &o }
        5 => { o.transpose(); m += o; m }
        6 => { let p: LinearMatrix = m.mul(&o); p }
        7 => { m.transpose(); let p: LinearMatrix = m.mul(&LinearMatrix::from_flat((r, c), v.clone())); p }
        8 => LinearMatrix::eye(r),
        9 => LinearMatrix::from(v.clone()),
        10 => { let mut rows = Vec::new(); for i in 0..r { rows.push(v[i * c..(i + 1) * c].to_vec()); } LinearMatrix::from_rows(rows) }
        11 => { let mut rows = Vec::new(); for i in 0..r { rows.push(v[i * c..(i + 1) * c].to_vec()); } if r > 1 { rows[r - 1].push(1.0); } LinearMatrix::from_rows(rows) }
        12 => { m.swap_rows(0, r - 1); m }
        13 => { o.swap_cols(0, r - 1); o }
        14 => { let (d, _) = dict(r, c, 5); d.into() }
        15 => { m.transpose(); m.clone() }
        16 => { m.add_ass(&o); m }
        _ => { m *= 2.0; m }
    };
    touch(&mut x, mode);
}

// ---- sparse forms
pub fn csr(r: usize, c: usize, bits: usize, mode: usize) { let (d, _) = dict(r, c, bits); let mut m: CompressedRow = d.into(); touch(&mut m, mode); }
pub fn csr_flat(r: usize, c: usize, bits: usize, mode: usize) {
    let mut v = Vec::new();
    for k in 0..r * c { v.push(if bit(bits, k) { 1.0 } else { 0.0 }); }
    let mut m = CompressedRow::from_flat((r, c), v);
    touch(&mut m, mode);
}
pub fn csr_zeros(r: usize, c: usize, mode: usize) { let mut m = CompressedRow::zeros((r, c)); touch(&mut m, mode); }
// labelled values in any order, also ones that lie outside the shape
pub fn csr_labeled(r: usize, c: usize, at: usize, mode: usize) {
    let d = digits(at);
    let mut v = Vec::new();
    for q in 0..d.len() / 2 { v.push(((d[2 * q], d[2 * q + 1]), 1.0)); }
    may_panic();
    let mut m = CompressedRow::from_labeled_vals((r, c), v);
    touch(&mut m, mode);
}
pub fn env(n: usize, bits: usize, mode: usize) { let (d, _) = dict(n, n, bits); may_panic(); let mut m: LowerRowEnvelope = d.into(); touch(&mut m, mode); }
// any envelope at all, also one that does not fit under the diagonal
pub fn env_any(e: usize, mode: usize) { may_panic(); let mut m = LowerRowEnvelope::from_envelope(digits(e)); touch(&mut m, mode); }
pub fn env_any_row(e: usize) {
    may_panic();
    let mut m = LowerRowEnvelope::from_envelope(digits(e));
    let k = symn("k");
    let (s, row) = m.row_stored(k);
    holds("row of the matrix", k < m.shape().0 && s + row.len() == k + 1);
}
pub fn env_flat(n: usize, bits: usize, mode: usize) {
    let mut v = Vec::new();
    for k in 0..n * n { v.push(if bit(bits, k) { 1.0 } else { 0.0 }); }
    may_panic();
    let mut m = LowerRowEnvelope::from_flat((n, n), v);
    touch(&mut m, mode);
}
pub fn env_half(n: usize, bits: usize, mode: usize) { let (d, _) = dict(n, n, bits); may_panic(); let b: BiEnvelope = d.into(); let mut m = LowerRowEnvelope::from_bienv(&b); touch(&mut m, mode); }
pub fn bienv(n: usize, bits: usize, mode: usize) { let (d, _) = dict(n, n, bits); let mut m: BiEnvelope = d.into(); touch(&mut m, mode); }
pub fn dictionary(r: usize, c: usize, bits: usize, how: usize, mode: usize) {
    let (d, _) = dict(r, c, bits);
    let mut m = match how {
        0 => d,
        1 => d.transposed(),
        2 => { let mut k = Vec::new(); for q in 0..r { k.push(q % 2 == 0); } may_panic(); d.mask(&k) }
        _ => { let (e, _) = dictn("b", c, r, bits); d.mul_dict(&e) }
    };
    touch(&mut m, mode);
}
