use super::c12::{admissible, condition, material};
use super::c13::{expected_k, expected_m, whole};
use super::h::*;
use super::p::*;
use crate::element::constraint::Constraint;
use crate::element::element::Element;
use crate::element::stress::StressState;
use crate::element::{Deformation, ElementAssemblage, ElementDescriptor, NodeId};
use crate::element::material::Material;
use crate::element::strain::Condition;
use crate::matrix::solve::direct::{CholeskyEnvelopeSolver, DenseGaussSolver};
use crate::matrix::solve::eigen::EigenPair;
use crate::matrix::solve::iterative::GaussSeidelSolver;
use crate::matrix::solve::{Solver, System};
use crate::matrix::{Average, BiEnvelope, Dictionary, LinearMatrix, LowerRowEnvelope, MatrixLike};
use crate::spatial::Point;

fn id(k: usize) -> NodeId { NodeId::new(k) }
// the triangles of a small mesh, as node numbers
pub fn mesh(which: usize) -> (usize, Vec<[usize; 3]>) {
    match which {
        0 => (3, vec![[0, 1, 2]]),
        1 => (4, vec![[0, 1, 2], [1, 3, 2]]),
        2 => (4, vec![[3, 0, 2], [1, 2, 0]]),
        3 => (5, vec![[0, 1, 4], [1, 2, 4], [2, 3, 4]]),
        4 => (5, vec![[2, 0, 1], [4, 3, 2]]),
        5 => (4, vec![[1, 2, 3]]),
        6 => (3, vec![[0, 1, 2], [0, 1, 2]]),
        7 => (4, vec![[0, 1, 2], [2, 1, 3]]),
        8 => (7, vec![[0, 1, 2], [1, 3, 2], [4, 5, 6]]),
        _ => (7, vec![[6, 0, 1], [6, 1, 2], [6, 2, 3], [6, 3, 4], [6, 4, 5], [6, 5, 0]]),
    }
}
// the decimal digits after a leading one
fn digits(mut k: usize) -> Vec<usize> {
    let mut v = Vec::new();
    while k > 1 { v.push(k % 10); k = k / 10; }
    v.reverse();
    v
}
fn pairs(k: usize) -> Vec<(usize, usize)> {
    let d = digits(k);
    let mut v = Vec::new();
    for i in 0..d.len() / 2 { v.push((d[2 * i], d[2 * i + 1])); }
    v
}
fn coords(p: &Vec<f64>, t: &[usize; 3]) -> Vec<f64> {
    let mut q = Vec::new();
    for k in 0..3 { q.push(p[2 * t[k]]); q.push(p[2 * t[k] + 1]); }
    q
}
fn twice(q: &Vec<f64>) -> f64 { (q[2] - q[0]) * (q[5] - q[1]) - (q[4] - q[0]) * (q[3] - q[1]) }
// nodes first or in two portions; every element turns counter-clockwise, or every second one clockwise
fn build(which: usize, cond: usize, split: usize, turn: usize) -> (ElementAssemblage, Vec<f64>, Vec<[usize; 3]>) {
    admissible();
    let (n, ts) = mesh(which);
    let p = syms("p", 2 * n);
    let mut pts = Vec::new();
    for k in 0..n { pts.push(pt(&p[2 * k..2 * k + 2])); if cond == 2 { assume(p[2 * k] > 0.0); } }
    for (k, t) in ts.iter().enumerate() {
        let d = twice(&coords(&p, t));
        if turn == 1 && k % 2 == 1 { assume(d < 0.0); } else { assume(d > 0.0); }
        assume(d != 0.0);
    }
    let mut a = ElementAssemblage::new(material(), condition(cond));
    let mut ids = a.add_nodes(&pts[..split]);
    ids.extend(a.add_nodes(&pts[split..]));
    equal("nodes", a.node_count(), n);
    equal("one id per node", ids.len(), n);
    for k in 0..n { equal("id", ids[k], id(k)); equal("place", a.node(ids[k]), pts[k]); }
    for t in ts.iter() { a.add_element(ElementDescriptor::new([ids[t[0]], ids[t[1]], ids[t[2]]])); }
    (a, p, ts)
}
pub fn assembled(kind: usize, which: usize, cond: usize, split: usize, turn: usize) {
    let (a, p, ts) = build(which, cond, split, turn);
    let n = a.node_count() * 2;
    let got = whole(kind, &a);
    equal("shape", got.shape(), (n, n));
    let mut want = vec![0.0; n * n];
    for (k, t) in ts.iter().enumerate() {
        let q = coords(&p, t);
        let s = if turn == 1 && k % 2 == 1 { 1 } else { 0 };
        let e = if kind == 0 { expected_k(cond, s, &q) } else { expected_m(cond, s, &q) };
        for i in 0..6 { for j in 0..6 { want[(2 * t[i / 2] + i % 2) * n + 2 * t[j / 2] + j % 2] += e[(i, j)]; } }
    }
    for i in 0..n { for j in 0..n { same("sum of the elements", got[(i, j)], want[i * n + j]); } }
}
// the same with the element matrices as the elements report them; forces: (node) and (node, node)
pub fn scattered(kind: usize, which: usize) {
    let (a, p, ts) = build(which, 0, 1, 0);
    let n = a.node_count() * 2;
    let got = whole(kind, &a);
    let mut want = vec![0.0; n * n];
    for t in ts.iter() {
        let el = Element::new(&a, [id(t[0]), id(t[1]), id(t[2])]);
        let part = if kind == 0 { el.calc_k() } else { el.calc_m() };
        let mut c = 0;
        for x in part {
            let (i, j) = (c / 6, c % 6);
            want[(2 * t[i / 2] + i % 2) * n + 2 * t[j / 2] + j % 2] += x.2;
            c += 1;
        }
        equal("entries of an element", c, 36);
    }
    for i in 0..n { for j in 0..n { same("sum of the elements", got[(i, j)], want[i * n + j]); } }
}
fn load_of(a: &ElementAssemblage) -> Vec<f64> { call("element::ElementAssemblage::calc_load", (a,)) }
// forces on the nodes set in the bit pattern, and on the edges given as pairs
pub fn loads(which: usize, cond: usize, turn: usize, nodes: usize, edges: usize) {
    let edges = pairs(edges);
    let (mut a, p, ts) = build(which, cond, 0, turn);
    let n = a.node_count();
    let (f, g) = (syms("f", 2 * n), syms("g", 2 * edges.len()));
    let mut want = vec![0.0; 2 * n];
    for k in 0..n { if bit(nodes, k) {
        a.add_conc_force(id(k), pt(&f[2 * k..2 * k + 2]));
        want[2 * k] += f[2 * k];
        want[2 * k + 1] += f[2 * k + 1];
    } }
    for (k, e) in edges.iter().enumerate() {
        a.add_dist_line_force(id(e.0), id(e.1), pt(&g[2 * k..2 * k + 2]));
        let mut real = false;
        for t in ts.iter() { if t.contains(&e.0) && t.contains(&e.1) { real = true; } }
        if real {
            let len = ((p[2 * e.0] - p[2 * e.1]).powi(2) + (p[2 * e.0 + 1] - p[2 * e.1 + 1]).powi(2)).sqrt();
            for q in 0..2 { want[2 * e.0 + q] += g[2 * k + q] * len * 0.5; want[2 * e.1 + q] += g[2 * k + q] * len * 0.5; }
        }
    }
    let r = load_of(&a);
    equal("one load per degree of freedom", r.len(), 2 * n);
    for k in 0..2 * n { near("sum of the loads", r[k], want[k]); }
    equal("stored node forces", a.conc_forces().len(), count(n, nodes));
    for (m, x) in a.conc_forces() { equal("stored force", x, pt(&f[2 * m.into_idx()..2 * m.into_idx() + 2])); }
    equal("stored line forces", a.dist_forces().len(), edges.len());
    for ((m, l), x) in a.dist_forces() { for (k, e) in edges.iter().enumerate() { if *e == (m.into_idx(), l.into_idx()) { equal("stored force", x, pt(&g[2 * k..2 * k + 2])); } } }
}
// the displacements found satisfy the equations of the mesh (numbers for the mesh, arbitrary forces)
pub fn solid(which: usize, cond: usize) -> (ElementAssemblage, usize) {
    let (n, ts) = mesh(which);
    let m = Material { name: "m", youngs: 8.0, poisson: 0.25, density: 3.0 };
    let c = if cond == 0 { Condition::PlaneStress(0.5) } else if cond == 1 { Condition::PlaneStrain(0.5) } else { Condition::Axisymmetric };
    let mut a = ElementAssemblage::new(m, c);
    let xs = [3.0, 7.0, 4.0, 9.0, 2.0, 11.0, 5.0];
    let ys = [1.0, 2.0, 6.0, 7.0, 5.0, 0.0, 3.0];
    let mut pts = Vec::new();
    for k in 0..n { pts.push(pt(&[xs[k], ys[k]])); }
    let _ = a.add_nodes(&pts);
    for t in ts.iter() { a.add_element(ElementDescriptor::new([id(t[0]), id(t[1]), id(t[2])])); }
    (a, n)
}
fn struck(c: usize, d: usize) -> bool { bit(c, d) }
pub fn displacements(which: usize, cond: usize, nodes: usize, cons: usize, how: usize) {
    let cons = digits(cons);
    let (mut a, n) = solid(which, cond);
    let f = syms("f", 2 * n);
    let mut load = vec![0.0; 2 * n];
    for k in 0..n { if bit(nodes, k) {
        a.add_conc_force(id(k), pt(&f[2 * k..2 * k + 2]));
        load[2 * k] = f[2 * k];
        load[2 * k + 1] = f[2 * k + 1];
    } }
    for k in 0..n {
        if cons[k] == 1 { a.add_constraint(id(k), Constraint::XFixed); }
        if cons[k] == 2 { a.add_constraint(id(k), Constraint::YFixed); }
        if cons[k] == 3 { a.add_constraint(id(k), Constraint::XYFixed); }
    }
    let k = whole(0, &a);
    super::c08::contracts();
    let places = a.nodes();
    let d = if how == 0 { a.calc_displacements::<DenseGaussSolver>() } else if how == 1 { a.calc_displacements::<CholeskyEnvelopeSolver>() } else { a.calc_displacements::<GaussSeidelSolver>() };
    let u = d.displaced_nodes(1.0);
    equal("one displacement per node", u.len(), n);
    let mut x = vec![0.0; 2 * n];
    for i in 0..2 * n { x[i] = u[i / 2][i % 2] - places[i / 2][i % 2]; }
    for i in 0..2 * n {
        if struck(cons[i / 2], i % 2) { near("fixed", x[i], 0.0); continue; }
        let mut s = 0.0;
        for j in 0..2 * n { s += k[(i, j)] * x[j]; }
        near("balance", s, load[i]);
    }
}
// the modes of a mesh: those of the assembled and reduced stiffness and mass, in place and with their frequencies
pub fn iterate_contract(k: &LowerRowEnvelope, m: &BiEnvelope, shift: f64, eigs: Option<&[EigenPair]>) -> EigenPair {
    let n = k.shape().0;
    let mut v = Vec::new();
    for i in 0..n { v.push(k[(i, i)] + 100.0 * m[(i, i)]); }
    call("matrix::solve::eigen::EigenPair::new", (shift, v))
}
pub fn modes(which: usize, cond: usize, cons: usize, want: usize, loaded: bool) {
    let cons = digits(cons);
    let (mut a, n) = solid(which, cond);
    for k in 0..n {
        if cons[k] == 1 { a.add_constraint(id(k), Constraint::XFixed); }
        if cons[k] == 2 { a.add_constraint(id(k), Constraint::YFixed); }
        if cons[k] == 3 { a.add_constraint(id(k), Constraint::XYFixed); }
        if loaded { a.add_conc_force(id(k), pt(&[1.0, 2.0])); }
    }
    let (k, m) = (whole(0, &a), whole(1, &a));
    let mut free = Vec::new();
    for i in 0..2 * n { if !struck(cons[i / 2], i % 2) { free.push(i); } }
    let f = free.len();
    let (mut kf, mut mf) = (Vec::new(), Vec::new());
    for i in free.iter() { for j in free.iter() { kf.push(k[(*i, *j)]); mf.push(m[(*i, *j)]); } }
    contract("matrix::solve::eigen::inverse_iterate", "c16::iterate_contract");
    contract("matrix::solve::eigen::inverse_iterate_times", "c11::start_contract");
    let places = a.nodes();
    let ds = a.calc_modes(want);
    equal("as many modes as asked for", ds.len(), want);
    for (q, d) in ds.iter().enumerate() {
        let w = d.frequency();
        equal("a mode has a frequency", w.is_some(), true);
        let w = w.unwrap();
        let b = super::c11::below(f, &kf, &mf, w * w);
        holds("the frequency belongs to this mode of the constrained mesh", b == q || b == q + 1);
        let u = d.displaced_nodes(1.0);
        let mut x = vec![0.0; 2 * n];
        for (p, i) in free.iter().enumerate() { x[*i] = k[(*i, *i)] + 100.0 * m[(*i, *i)]; }
        for i in 0..2 * n { near("the shape is given at the nodes it belongs to", u[i / 2][i % 2] - places[i / 2][i % 2], x[i]); }
    }
}
// the same with slanted supports (digit 4): no motion along the slant's direction, no unbalanced force across it
pub fn slanted(which: usize, cond: usize, cons: usize, how: usize) {
    let cons = digits(cons);
    let (mut a, n) = solid(which, cond);
    let f = syms("f", 2 * n);
    for k in 0..n {
        a.add_conc_force(id(k), pt(&f[2 * k..2 * k + 2]));
        if cons[k] == 4 { a.add_constraint(id(k), Constraint::AngleFixed(0.5 + k as f64)); }
        if cons[k] == 3 { a.add_constraint(id(k), Constraint::XYFixed); }
        if cons[k] == 1 { a.add_constraint(id(k), Constraint::XFixed); }
    }
    let k = whole(0, &a);
    super::c08::contracts();
    let places = a.nodes();
    let d = if how == 0 { a.calc_displacements::<DenseGaussSolver>() } else if how == 1 { a.calc_displacements::<CholeskyEnvelopeSolver>() } else { a.calc_displacements::<GaussSeidelSolver>() };
    let u = d.displaced_nodes(1.0);
    let (mut x, mut r) = (vec![0.0; 2 * n], vec![0.0; 2 * n]);
    for i in 0..2 * n { x[i] = u[i / 2][i % 2] - places[i / 2][i % 2]; }
    for i in 0..2 * n { let mut s = 0.0; for j in 0..2 * n { s += k[(i, j)] * x[j]; } r[i] = s - f[i]; }
    for m in 0..n {
        if cons[m] == 4 {
            let t = 0.5 + m as f64;
            near("no motion along the slant's direction", t.cos() * x[2 * m] + t.sin() * x[2 * m + 1], 0.0);
            near("balance across it", t.cos() * r[2 * m + 1] - t.sin() * r[2 * m], 0.0);
        } else { for q in 0..2 { if struck(cons[m], q) { near("fixed", x[2 * m + q], 0.0); } else { near("balance", r[2 * m + q], 0.0); } } }
    }
}
// a solver that returns arbitrary numbers
pub struct Free { n: usize }
impl Solver for Free {
    fn new(system: System) -> Self { Free { n: system.dofs() } }
    fn solve(self) -> Result<Vec<f64>, ()> { Ok(syms("u", self.n)) }
}
// one that returns given numbers
pub struct Still { n: usize }
impl Solver for Still {
    fn new(system: System) -> Self { Still { n: system.dofs() } }
    fn solve(self) -> Result<Vec<f64>, ()> { let mut v = Vec::new(); for k in 0..self.n { v.push((k as f64) * 0.75 - 1.0); } Ok(v) }
}
pub fn deformed(which: usize, cons: usize) {
    let cons = digits(cons);
    let (mut a, p, ts) = build(which, 0, 0, 0);
    let n = a.node_count();
    let mut free = 0;
    for k in 0..n {
        if cons[k] == 1 { a.add_constraint(id(k), Constraint::XFixed); }
        if cons[k] == 2 { a.add_constraint(id(k), Constraint::YFixed); }
        if cons[k] == 3 { a.add_constraint(id(k), Constraint::XYFixed); }
    }
    let u = syms("u", 2 * n);
    let q = sym("q");
    let d = a.calc_displacements::<Free>();
    let mut disp = vec![0.0; 2 * n];
    for i in 0..2 * n { if !bit(cons[i / 2], i % 2) { disp[i] = u[free]; free += 1; } }
    let moved = d.displaced_nodes(q);
    equal("one place per node", moved.len(), n);
    for k in 0..n { for r in 0..2 { same("displaced by the scaled displacement", moved[k][r], p[2 * k + r] + q * disp[2 * k + r]); } }
    let norms = d.displacement_norms();
    equal("one norm per node", norms.len(), n);
    for k in 0..n { same("norm", norms[k], (disp[2 * k] * disp[2 * k] + disp[2 * k + 1] * disp[2 * k + 1]).sqrt()); }
    equal("no frequency", d.frequency(), None);
}
pub fn node_stress(which: usize, cond: usize) {
    let (mut a, p, ts) = build(which, cond, 0, 0);
    let n = a.node_count();
    let u = syms("u", 2 * n);
    let mut sums: Vec<Average<StressState>> = Vec::new();
    for k in 0..n { sums.push(Average::new()); }
    for t in ts.iter() {
        let el = Element::new(&a, [id(t[0]), id(t[1]), id(t[2])]);
        for (m, s) in el.stresses(Box::new(|m: NodeId| pt(&u[2 * m.into_idx()..2 * m.into_idx() + 2]))) { sums[m.into_idx()].update(s); }
    }
    let d = a.calc_displacements::<Free>();
    let got = d.stresses();
    let mises = d.von_mises();
    equal("one stress per node", got.len(), n);
    equal("one equivalent stress per node", mises.len(), n);
    for (k, w) in sums.into_iter().enumerate() {
        let mut used = false;
        for t in ts.iter() { if t.contains(&k) { used = true; } }
        let w = w.consume();
        equal("a stress for every node of an element", got[k].is_some(), used);
        match w { Some(x) => same("equivalent stress", mises[k], x.von_mises()), None => same("no stress", mises[k], 0.0) }
        if used { equal("mean of the elements", got[k].clone().unwrap(), { let mut e: Average<StressState> = Average::new(); for t in ts.iter() {
            let el = Element::new(&a, [id(t[0]), id(t[1]), id(t[2])]);
            for (m, s) in el.stresses(Box::new(|m: NodeId| pt(&u[2 * m.into_idx()..2 * m.into_idx() + 2]))) { if m == id(k) { e.update(s); } }
        } e.consume().unwrap() }); }
    }
}
pub fn listing(which: usize) {
    let (a, p, ts) = build(which, 0, 2, 0);
    let tr = a.triangles();
    equal("triangles", tr.len(), ts.len());
    for k in 0..ts.len() { equal("triangle", tr[k], (ts[k][0], ts[k][1], ts[k][2])); }
    let ds = a.element_descriptors();
    equal("descriptors", ds.len(), ts.len());
    for k in 0..ts.len() { equal("descriptor", ds[k].clone().into_parts(), [id(ts[k][0]), id(ts[k][1]), id(ts[k][2])]); }
    let es = a.edges();
    for i in 0..a.node_count() { for j in 0..a.node_count() {
        let mut want = false;
        for t in ts.iter() { if i != j && t.contains(&i) && t.contains(&j) { want = true; } }
        let mut c = 0;
        let mut d = 0;
        for e in es.iter() { if *e == (i, j) { c += 1; } if *e == (j, i) { d += 1; } }
        equal("edge of an element", c + d > 0, want);
        holds("no duplicate", c <= 1);
    } }
    let mut k = 0;
    for n in a.node_ids() { equal("node ids", n, id(k)); k += 1; }
    equal("all nodes", k, a.node_count());
    let vis: Vec<Point> = a.nodes();
    equal("nodes", vis.len(), a.node_count());
    for k in 0..vis.len() { equal("node", vis[k], pt(&p[2 * k..2 * k + 2])); }
}
// an element of given corners and thickness, however small: a thousandth of a millimetre is not nothing
pub fn tiny(kind: usize, cond: usize, exp: usize) {
    let mut e = 1.0;
    for _ in 0..exp { e /= 10.0; }
    let q = vec![0.0, 0.0, 2.0 * e, 0.5 * e, 0.25 * e, 1.0 * e];
    let q: Vec<f64> = if cond == 2 { q.iter().enumerate().map(|(k, x)| if k % 2 == 0 { x + 3.0 * e } else { *x }).collect() } else { q };
    admissible();
    let mut a = ElementAssemblage::new(material(), condition(cond));
    let mut pts = Vec::new();
    for k in 0..3 { pts.push(pt(&q[2 * k..2 * k + 2])); }
    let ids = a.add_nodes(&pts[..]);
    a.add_element(ElementDescriptor::new([ids[0], ids[1], ids[2]]));
    let got = whole(kind, &a);
    let want = if kind == 0 { expected_k(cond, 0, &q) } else { expected_m(cond, 0, &q) };
    for i in 0..6 { for j in 0..6 { same("the element alone", got[(i, j)], want[(i, j)]); } }
}
