use super::p::*;
use super::h::*;
use crate::element::element::Element;
use crate::element::material::Material;
use crate::element::strain::Condition;
use crate::element::stress::StressState;
use crate::element::{ElementAssemblage, ElementDescriptor, NodeId};
use crate::matrix::{LinearMatrix, MatrixLike};
use crate::spatial::Point;

pub fn material() -> Material { Material { name: "m", youngs: sym("E"), poisson: sym("v"), density: sym("rho") } }
pub fn condition(which: usize) -> Condition { if which == 0 { Condition::PlaneStress(sym("t")) } else if which == 1 { Condition::PlaneStrain(sym("t")) } else { Condition::Axisymmetric } }
pub fn admissible() {
    let (e, v, t) = (sym("E"), sym("v"), sym("t"));
    assume(e > 0.0);
    assume(t > 0.0);
    assume(v > -1.0);
    assume(v < 0.5);
    assume(1.0 - 2.0 * v > 0.0);
    assume(1.0 + v > 0.0);
    assume(1.0 - v > 0.0);
    assume(1.0 - v * v > 0.0);
}
// the compliance of Hooke's law; the stiffness must be its inverse
fn compliance(which: usize) -> Vec<f64> {
    let (e, v) = (sym("E"), sym("v"));
    let g = 2.0 * (1.0 + v) / e;
    if which == 0 { return vec![1.0 / e, -v / e, 0.0, -v / e, 1.0 / e, 0.0, 0.0, 0.0, g]; }
    if which == 1 {
        let k = (1.0 + v) / e;
        return vec![k * (1.0 - v), -v * k, 0.0, -v * k, k * (1.0 - v), 0.0, 0.0, 0.0, g];
    }
    vec![1.0 / e, -v / e, 0.0, -v / e, -v / e, 1.0 / e, 0.0, -v / e, 0.0, 0.0, g, 0.0, -v / e, -v / e, 0.0, 1.0 / e]
}
pub fn stiffness(which: usize) {
    admissible();
    let n = if which == 2 { 4 } else { 3 };
    let c = condition(which).build_c(material());
    equal("shape", c.shape(), (n, n));
    equal("one strain component per row", condition(which).vec_len(), n);
    let s = compliance(which);
    for i in 0..n { for j in 0..n {
        same("symmetric", c[(i, j)], c[(j, i)]);
        let mut x = 0.0;
        for k in 0..n { x += c[(i, k)] * s[k * n + j]; }
        same("inverse of the compliance", x, if i == j { 1.0 } else { 0.0 });
    } }
}
pub fn thickness(which: usize) {
    let x = syms("x", 2);
    same("thickness", condition(which).thickness(pt(&x)), if which == 2 { x[0] } else { sym("t") });
}
pub fn strain_matrix(which: usize) {
    let (g, x) = (syms("g", 6), syms("x", 2));
    assume(x[0] > 0.0);
    let h = [sym("h0"), sym("h1"), sym("h2")];
    let b = condition(which).build_b(&h, &LinearMatrix::from_flat((2, 3), g.clone()), pt(&x));
    equal("shape", b.shape(), (if which == 2 { 4 } else { 3 }, 6));
    let u = syms("u", 6);
    let mut e = vec![0.0; 4];
    for i in 0..3 {
        e[0] += g[i] * u[2 * i];
        e[1] += g[3 + i] * u[2 * i + 1];
        e[2] += g[3 + i] * u[2 * i] + g[i] * u[2 * i + 1];
        e[3] += h[i] * u[2 * i] / x[0];
    }
    for r in 0..b.shape().0 {
        let mut s = 0.0;
        for k in 0..6 { s += b[(r, k)] * u[k]; }
        same("strain of a displacement", s, e[r]);
    }
}
// an element over arbitrary nodes; turn: the sign of its orientation
pub fn nodes(turn: usize) -> Vec<f64> {
    let p = syms("p", 6);
    let d = (p[2] - p[0]) * (p[5] - p[1]) - (p[4] - p[0]) * (p[3] - p[1]);
    if turn == 0 { assume(d > 0.0); } else { assume(d < 0.0); }
    assume(d != 0.0);
    p
}
pub fn element(which: usize, p: &Vec<f64>) -> (ElementAssemblage, Vec<NodeId>) {
    let mut a = ElementAssemblage::new(material(), condition(which));
    let ids = a.add_nodes(&[pt(&p[0..2]), pt(&p[2..4]), pt(&p[4..6])]);
    (a, ids)
}
// every displacement that varies linearly over the plane has a known strain
pub fn uniform(which: usize, turn: usize, rigid: bool) {
    admissible();
    let p = nodes(turn);
    if which == 2 { for i in 0..3 { assume(p[2 * i] > 0.0); } }
    let (a, ids) = element(which, &p);
    let el = Element::new(&a, [ids[0], ids[1], ids[2]]);
    let mut l = syms("l", 6);          // u = l0 + l1 x + l2 y, v = l3 + l4 x + l5 y
    if rigid { l[1] = 0.0; l[5] = 0.0; l[4] = -l[2]; if which == 2 { l[0] = 0.0; l[2] = 0.0; l[4] = 0.0; } }
    let mut u = Vec::new();
    for i in 0..3 { let (x, y) = (p[2 * i], p[2 * i + 1]); u.push(pt(&[l[0] + l[1] * x + l[2] * y, l[3] + l[4] * x + l[5] * y])); }
    let got = el.stresses(Box::new(|n: NodeId| u[n.into_idx()]));
    equal("one stress per node", got.len(), 3);
    let c = condition(which).build_c(material());
    let m = if which == 2 { 4 } else { 3 };
    for k in 0..3 {
        equal("node", got[k].0, ids[k]);
        let strain = [l[1], l[5], l[2] + l[4], if which == 2 { u[k][0] / p[2 * k] } else { 0.0 }];
        let mut want = Vec::new();
        for r in 0..m {
            let mut s = 0.0;
            for j in 0..m { s += c[(r, j)] * strain[j]; }
            want.push(if rigid { 0.0 } else { s });
        }
        let w = StressState::from_vector(LinearMatrix::col_vec(want));
        equal(if rigid { "a rigid motion is free of stress" } else { "stress of a uniform strain" }, got[k].1.clone(), w);
    }
}
