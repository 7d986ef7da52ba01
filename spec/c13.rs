use super::c12::{admissible, condition, element, material, nodes};
use super::h::*;
use super::p::*;
use crate::element::element::Element;
use crate::element::integrate::gauss_tri;
use crate::element::{ElementAssemblage, ElementDescriptor, NodeId};
use crate::matrix::{Dictionary, LinearMatrix, MatrixLike};

pub fn twice_area(p: &Vec<f64>) -> f64 { (p[2] - p[0]) * (p[5] - p[1]) - (p[4] - p[0]) * (p[3] - p[1]) }
// gradients of the three interpolation functions
pub fn gradients(p: &Vec<f64>) -> Vec<f64> {
    let d = twice_area(p);
    vec![(p[3] - p[5]) / d, (p[5] - p[1]) / d, (p[1] - p[3]) / d, (p[4] - p[2]) / d, (p[0] - p[4]) / d, (p[2] - p[0]) / d]
}
fn strains(which: usize, p: &Vec<f64>, r: f64, s: f64) -> Vec<f64> {
    let g = gradients(p);
    let h = [1.0 - r - s, r, s];
    let x = h[0] * p[0] + h[1] * p[2] + h[2] * p[4];
    let m = if which == 2 { 4 } else { 3 };
    let mut b = vec![0.0; m * 6];
    for i in 0..3 {
        b[2 * i] = g[i];
        b[6 + 2 * i + 1] = g[3 + i];
        b[12 + 2 * i] = g[3 + i];
        b[12 + 2 * i + 1] = g[i];
        if which == 2 { b[18 + 2 * i] = h[i] / x; }
    }
    b
}
// the element stiffness by its definition
pub fn expected_k(which: usize, turn: usize, p: &Vec<f64>) -> LinearMatrix {
    let c = condition(which).build_c(material());
    let m = if which == 2 { 4 } else { 3 };
    let d = if turn == 0 { twice_area(p) } else { -twice_area(p) };
    let at = |r: f64, s: f64, w: f64| {
        let b = strains(which, p, r, s);
        let x = (1.0 - r - s) * p[0] + r * p[2] + s * p[4];
        let w = w * d * if which == 2 { x } else { sym("t") };
        let mut k = LinearMatrix::zeros((6, 6));
        for i in 0..6 { for j in 0..6 {
            let mut v = 0.0;
            for a in 0..m { for e in 0..m { v += b[a * 6 + i] * c[(a, e)] * b[e * 6 + j]; } }
            k[(i, j)] = v * w;
        } }
        k
    };
    if which == 2 { gauss_tri(|q| at(q[0], q[1], 1.0)) } else { at(0.0, 0.0, 0.5) }
}
pub fn expected_m(which: usize, turn: usize, p: &Vec<f64>) -> LinearMatrix {
    let d = if turn == 0 { twice_area(p) } else { -twice_area(p) };
    let at = |r: f64, s: f64| {
        let h = [1.0 - r - s, r, s];
        let x = h[0] * p[0] + h[1] * p[2] + h[2] * p[4];
        let w = d * sym("rho") * if which == 2 { x } else { sym("t") };
        let mut k = LinearMatrix::zeros((6, 6));
        for i in 0..3 { for j in 0..3 { for q in 0..2 { k[(2 * i + q, 2 * j + q)] = h[i] * h[j] * w; } } }
        k
    };
    if which == 2 { return gauss_tri(|q| at(q[0], q[1])); }
    let mut k = LinearMatrix::zeros((6, 6));
    for i in 0..3 { for j in 0..3 { for q in 0..2 { k[(2 * i + q, 2 * j + q)] = d * sym("rho") * sym("t") / if i == j { 12.0 } else { 24.0 }; } } }
    k
}
pub fn radii(which: usize, p: &Vec<f64>) { if which == 2 { for i in 0..3 { assume(p[2 * i] > 0.0); } } }
pub fn whole(kind: usize, a: &ElementAssemblage) -> Dictionary {
    if kind == 0 { call("element::ElementAssemblage::calc_k", (a,)) } else { call("element::ElementAssemblage::calc_m", (a,)) }
}
fn one(kind: usize, which: usize, turn: usize) -> (Dictionary, LinearMatrix) {
    admissible();
    let p = nodes(turn);
    radii(which, &p);
    let (mut a, ids) = element(which, &p);
    a.add_element(ElementDescriptor::new([ids[0], ids[1], ids[2]]));
    (whole(kind, &a), if kind == 0 { expected_k(which, turn, &p) } else { expected_m(which, turn, &p) })
}
pub fn stiffness(which: usize, turn: usize) {
    let (k, w) = one(0, which, turn);
    equal("shape", k.shape(), (6, 6));
    for i in 0..6 { for j in 0..6 { same("stiffness", k[(i, j)], w[(i, j)]); } }
}
pub fn mass(which: usize, turn: usize) {
    let (k, w) = one(1, which, turn);
    equal("shape", k.shape(), (6, 6));
    for i in 0..6 { for j in 0..6 { same("mass", k[(i, j)], w[(i, j)]); } }
}
// moving the element rigidly takes no force; accelerating it takes its whole mass
pub fn rigid(which: usize, turn: usize) {
    admissible();
    let p = nodes(turn);
    radii(which, &p);
    let (mut a, ids) = element(which, &p);
    a.add_element(ElementDescriptor::new([ids[0], ids[1], ids[2]]));
    let k = whole(0, &a);
    let m = whole(1, &a);
    for i in 0..6 {
        for q in 0..2 {
            if which == 2 && q == 0 { continue; }
            let mut s = 0.0;
            for j in 0..3 { s += k[(i, 2 * j + q)]; }
            same("force of a translation", s, 0.0);
        }
        if which != 2 {
            let mut s = 0.0;
            for j in 0..3 { s += k[(i, 2 * j)] * -p[2 * j + 1] + k[(i, 2 * j + 1)] * p[2 * j]; }
            same("force of a rotation", s, 0.0);
        }
        for j in 0..6 { same("symmetric stiffness", k[(i, j)], k[(j, i)]); same("symmetric mass", m[(i, j)], m[(j, i)]); }
    }
    let d = if turn == 0 { twice_area(&p) } else { -twice_area(&p) };
    for q in 0..2 {
        let mut s = 0.0;
        for i in 0..3 { for j in 0..3 { s += m[(2 * i + q, 2 * j + q)]; } }
        let r = if which == 2 { (p[0] + p[2] + p[4]) / 3.0 } else { sym("t") };
        same("total mass", s, sym("rho") * d * 0.5 * r);
    }
}
// the same element counted from another of its nodes, or turned over
pub fn renumbered(kind: usize, which: usize, q: usize, r: usize, s: usize) {
    admissible();
    let p = nodes(0);
    radii(which, &p);
    let (mut a, ids) = element(which, &p);
    a.add_element(ElementDescriptor::new([ids[q], ids[r], ids[s]]));
    let k = whole(kind, &a);
    let w = if kind == 0 { expected_k(which, 0, &p) } else { expected_m(which, 0, &p) };
    for i in 0..6 { for j in 0..6 { same("independent of the numbering", k[(i, j)], w[(i, j)]); } }
}
fn edge_set(turn: usize) -> (Vec<f64>, ElementAssemblage, Vec<NodeId>) {
    admissible();
    let p = nodes(turn);
    let (a, ids) = element(0, &p);
    (p, a, ids)
}
pub fn line_force(which: usize, turn: usize, m: usize, n: usize) {
    admissible();
    let p = nodes(turn);
    radii(which, &p);
    let (mut a, ids) = element(which, &p);
    a.add_element(ElementDescriptor::new([ids[0], ids[1], ids[2]]));
    let f = syms("f", 2);
    a.add_dist_line_force(ids[m], ids[n], pt(&f));
    let r: Vec<f64> = call("element::ElementAssemblage::calc_load", (&a,));
    equal("length", r.len(), 6);
    let len = ((p[2 * m] - p[2 * n]).powi(2) + (p[2 * m + 1] - p[2 * n + 1]).powi(2)).sqrt();
    for i in 0..3 { for q in 0..2 {
        let want = if i == m || i == n { f[q] * len * 0.5 } else { 0.0 };
        near("share of the line force", r[2 * i + q], want);
    } }
}
pub fn edge_query(m: usize, n: usize) {
    let (p, a, ids) = edge_set(0);
    let el = Element::new(&a, [ids[0], ids[1], ids[2]]);
    let yes = m != n && m < 3 && n < 3;
    equal("nodes_connect", el.nodes_connect(NodeId::new(m), NodeId::new(n)), yes);
    equal("int_f_l", el.int_f_l((NodeId::new(m), NodeId::new(n)), pt(&[1.0, 2.0])).is_some(), yes);
}
pub fn lookup(q: usize, r: usize, s: usize, m: usize) {
    let (p, a, ids) = edge_set(0);
    let el = Element::new(&a, [ids[q], ids[r], ids[s]]);
    let w = [q, r, s];
    let nat = [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]];
    equal("ids", el.node_ids(), [ids[q], ids[r], ids[s]]);
    match el.node_natural(NodeId::new(m)) {
        Some(x) => { holds("a node of the element", m < 3); for k in 0..3 { if w[k] == m { equal("natural", x.clone(), pt(&nat[k])); } } }
        None => holds("no node of the element", m >= 3),
    }
    match el.node(NodeId::new(m)) {
        Some(x) => { holds("a node of the element", m < 3); equal("place", x, pt(&p[2 * m..2 * m + 2])); }
        None => holds("no node of the element", m >= 3),
    }
    let e = el.edges();
    equal("edges", e.len(), 3);
    for k in 0..3 { for l in 0..3 { if k != l {
        let mut c = 0;
        for x in e.iter() { if (x.0 == ids[k] && x.1 == ids[l]) || (x.1 == ids[k] && x.0 == ids[l]) { c += 1; } }
        equal("each edge once", c, 1);
    } } }
    equal("triangle", el.triangles(), vec![(ids[q], ids[r], ids[s])]);
    same("one jacobian", el.jacobian_ratio(), 1.0);
}

// the geometry factor of a straight-sided triangle is the same everywhere in it
pub fn even(which: usize, turn: usize) {
    admissible();
    let p = nodes(turn);
    radii(which, &p);
    let (a, ids) = element(which, &p);
    let el = Element::new(&a, [ids[0], ids[1], ids[2]]);
    same("ratio of the smallest to the largest geometry factor", el.jacobian_ratio(), 1.0);
}
