use super::h::*;
use super::p::*;
use crate::element::constraint::{Constraint, DofTransform};
use crate::element::material::Material;
use crate::element::strain::Condition;
use crate::element::{ElementAssemblage, NodeId};
use crate::matrix::{Dictionary, MatrixLike};

fn digits(mut k: usize) -> Vec<usize> {
    let mut v = Vec::new();
    while k > 1 { v.push(k % 10); k = k / 10; }
    v.reverse();
    v
}
// 0 free, 1 x, 2 y, 3 both, 4.. a slanted support with an angle of its own
fn con(c: usize, k: usize) -> Constraint {
    match c { 0 => Constraint::Free, 1 => Constraint::XFixed, 2 => Constraint::YFixed, 3 => Constraint::XYFixed, _ => Constraint::AngleFixed(angle(k)) }
}
fn angle(k: usize) -> f64 { syms("theta", 16)[k] }
fn assemblage(n: usize) -> ElementAssemblage {
    let mut a = ElementAssemblage::new(Material { name: "m", youngs: 1.0, poisson: 0.25, density: 1.0 }, Condition::PlaneStress(1.0));
    let mut v = Vec::new();
    for k in 0..n { v.push((k as f64, 1.0)); }
    let _ = a.add_nodes(&v);
    a
}
// supports given one after another to nodes: each digit pair is (node, support); the plain ones accumulate
pub fn plain(n: usize, steps: usize) {
    let mut a = assemblage(n);
    let d = digits(steps);
    let mut want = vec![0; n];
    for q in 0..d.len() / 2 {
        a.add_constraint(NodeId::new(d[2 * q]), con(d[2 * q + 1], q));
        want[d[2 * q]] = want[d[2 * q]] | d[2 * q + 1];
    }
    let got = a.constraints();
    equal("one per node", got.len(), n);
    for k in 0..n {
        equal("node", got[k].0, NodeId::new(k));
        for r in 0..2 { equal("direction removed", got[k].1.plain_dim_struck(r), bit(want[k], r)); }
        equal("plain", got[k].1.is_plain(), want[k] != 0);
        equal("support", got[k].1, con(want[k], 0));
    }
}
// slanted supports: the first one stays, a second one is averaged, a plain one takes over
pub fn slanted(steps: usize) {
    let mut a = assemblage(2);
    let d = digits(steps);
    let mut kind = 0;
    let mut th = 0.0;
    for q in 0..d.len() {
        a.add_constraint(NodeId::new(1), con(d[q], q));
        if d[q] < 4 { if d[q] > 0 { kind = if kind == 4 { d[q] } else { kind | d[q] }; } }
        else if kind == 0 { kind = 4; th = angle(q); }
        else if kind == 4 { th = (th + angle(q)) / 2.0; }
    }
    let got = a.constraints();
    equal("other node", got[0].1, Constraint::Free);
    if kind == 4 { equal("support", got[1].1, Constraint::AngleFixed(th)); } else { equal("support", got[1].1, con(kind, 0)); }
}
pub fn struck(c: usize) {
    let x = con(c, 0);
    for r in 0..2 { equal("direction removed", x.plain_dim_struck(r), c < 4 && bit(c, r)); }
    equal("plain", x.is_plain(), c > 0 && c < 4);
}
fn supports(c: &Vec<usize>) -> Vec<Constraint> { let mut v = Vec::new(); for k in 0..c.len() { v.push(con(c[k], k)); } v }
fn kept(c: &Vec<usize>) -> usize { let mut s = 0; for k in c.iter() { s += if *k == 0 { 2 } else if *k == 3 { 0 } else { 1 }; } s }
fn circle(n: usize) {
    for k in 0..n { let t = angle(k); same("on the circle", t.cos() * t.cos() + t.sin() * t.sin(), 1.0); }
}
// the motion a reduced vector stands for obeys every support, and reduced vectors and admissible motions correspond
pub fn motion(c: usize) {
    let c = digits(c);
    let n = c.len();
    let t = DofTransform::from_constraints(&supports(&c));
    let m = kept(&c);
    let x = syms("x", m);
    let u = t.unbar_vec(&x);
    equal("all degrees of freedom", u.len(), 2 * n);
    for k in 0..n {
        if c[k] < 4 { for r in 0..2 { if bit(c[k], r) { same("fixed direction", u[2 * k + r], 0.0); } } }
        else { let a = angle(k); same("slanted support", a.cos() * u[2 * k] + a.sin() * u[2 * k + 1], 0.0); }
    }
    let y = t.bar_vec(&u);
    equal("reduced", y.len(), m);
    for k in 0..m { same("round trip", y[k], x[k]); }
    // free nodes and plain supports keep their order
    let mut q = 0;
    for k in 0..n {
        if c[k] >= 4 { q += 1; continue; }
        for r in 0..2 { if !bit(c[k], r) { same("order of the free directions", u[2 * k + r], x[q]); q += 1; } }
    }
}
// forces: the work of every admissible motion is the same in both numberings
pub fn force(c: usize) {
    let c = digits(c);
    let n = c.len();
    let t = DofTransform::from_constraints(&supports(&c));
    let m = kept(&c);
    let (x, r) = (syms("x", m), syms("r", 2 * n));
    let (u, s) = (t.unbar_vec(&x), t.bar_vec(&r));
    equal("reduced", s.len(), m);
    let (mut a, mut b) = (0.0, 0.0);
    for i in 0..2 * n { a += u[i] * r[i]; }
    for i in 0..m { b += x[i] * s[i]; }
    same("work", a, b);
}
// stiffness: reduced matrix x' K y of every pair of admissible motions
pub fn matrix(c: usize, bits: usize) {
    let c = digits(c);
    let n = c.len();
    let t = DofTransform::from_constraints(&supports(&c));
    let m = kept(&c);
    let (d, v) = dictn("k", 2 * n, 2 * n, bits);
    let k = t.bar_matrix(&d);
    equal("reduced", k.shape(), (m, m));
    let mut cols = Vec::new();
    for i in 0..m { let mut e = vec![0.0; m]; e[i] = 1.0; cols.push(t.unbar_vec(&e)); }
    for i in 0..m { for j in 0..m {
        let mut w = 0.0;
        for a in 0..2 * n { for b in 0..2 * n { w += cols[i][a] * v[a * 2 * n + b] * cols[j][b]; } }
        same("reduced matrix", k[(i, j)], w);
    } }
}
pub fn wrong_length(c: usize, len: usize) {
    let c = digits(c);
    let t = DofTransform::from_constraints(&supports(&c));
    may_panic();
    let r = t.bar_vec(&syms("r", len));
    unreachable("vector of a wrong length reduced");
}
