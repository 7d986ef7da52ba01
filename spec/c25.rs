use super::h::*;
use super::p::*;
use crate::element::material::Material;
use crate::element::strain::Condition;
use crate::mesher::bounds::{PlaneBoundary, Segment};
use crate::mesher::plane::PlaneTriangulation;
use crate::mesher::{MeshError, Vertex};
use spacemath::two::Point;

type Tri = (Vertex, Vertex, Vertex);
fn add(t: &mut PlaneTriangulation, x: Tri) -> bool {
    let r: Result<(), MeshError> = call_with::<Tri, _, _>("mesher::plane::PlaneTriangulation::add_triangle", (t, x));
    r.is_ok()
}
fn delete(t: &mut PlaneTriangulation, x: Tri) -> bool {
    let r: Result<(), MeshError> = call_with::<Tri, _, _>("mesher::plane::PlaneTriangulation::delete_triangle", (t, x));
    r.is_ok()
}
fn next(t: &PlaneTriangulation, a: Vertex, b: Vertex) -> Option<Vertex> {
    call_with::<(Vertex, Vertex), _, _>("mesher::plane::PlaneTriangulation::adjacent", (t, (a, b)))
}
fn new_vertex(t: &mut PlaneTriangulation, x: f64, y: f64) -> Vertex {
    call_with::<(f64, f64), _, _>("mesher::plane::PlaneTriangulation::store_vertex", (t, (x, y)))
}
pub fn unperturbed(v: Vertex) -> Point { Segment(v, v).get().0 }
fn area(a: Vertex, b: Vertex, c: Vertex) -> f64 {
    let (a, b, c) = (unperturbed(a), unperturbed(b), unperturbed(c));
    (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x)
}
fn blank(b: &mut PlaneBoundary) {
    b.set_condition(Condition::PlaneStress(1.0));
    b.set_material(Material { name: "m", youngs: 1.0, poisson: 0.25, density: 1.0 });
}
// n loose points anywhere
fn loose(n: usize) -> (PlaneTriangulation, Vec<Vertex>) {
    let mut b = PlaneBoundary::new();
    blank(&mut b);
    let (x, y) = (syms("x", n), syms("y", n));
    let mut v = Vec::new();
    for k in 0..n { v.push(b.store_vertex((x[k], y[k]))); }
    (PlaneTriangulation::new(b), v)
}
fn placed(at: &[(f64, f64)]) -> (PlaneTriangulation, Vec<Vertex>) {
    let mut b = PlaneBoundary::new();
    blank(&mut b);
    let mut v = Vec::new();
    for k in at.iter() { v.push(b.store_vertex(*k)); }
    (PlaneTriangulation::new(b), v)
}
// the edge index holds exactly the given triangles
fn holds_exactly(t: &PlaneTriangulation, v: &Vec<Vertex>, want: &Vec<[usize; 3]>) {
    for i in 0..v.len() {
        for j in 0..v.len() {
            let mut w = None;
            for k in want.iter() {
                for r in 0..3 { if k[r] == i && k[(r + 1) % 3] == j { w = Some(v[k[(r + 2) % 3]]); } }
            }
            equal("triangle on the edge", next(t, v[i], v[j]), w);
        }
    }
}
// and so does the list of triangles
fn listed(t: PlaneTriangulation, want: &Vec<[usize; 3]>) {
    let e = match t.assemble() { Ok(e) => e, Err(_) => unreachable("assembled") };
    let d = e.element_descriptors();
    equal("number of triangles", d.len(), want.len());
    for k in want.iter() {
        let mut n = 0;
        for x in d.iter() {
            let p = x.clone().into_parts();
            let q = [p[0].into_idx(), p[1].into_idx(), p[2].into_idx()];
            for r in 0..3 { if q[0] == k[r] && q[1] == k[(r + 1) % 3] && q[2] == k[(r + 2) % 3] { n += 1; } }
        }
        equal("triangle listed", n, 1);
    }
}
// a triangle is taken when it turns to the left, and refused otherwise, without a trace
pub fn one(rot: usize) {
    let (mut t, v) = loose(3);
    let o = [rot % 3, (rot + 1) % 3, (rot + 2) % 3];
    let ok = add(&mut t, (v[o[0]], v[o[1]], v[o[2]]));
    let d = area(v[0], v[1], v[2]);
    equal("taken", ok, d > 0.0);
    let want = if ok { vec![[0, 1, 2]] } else { vec![] };
    if ok {
        holds_exactly(&t, &v, &want);
        for r in 0..3 { holds("not twice", !add(&mut t, (v[r], v[(r + 1) % 3], v[(r + 2) % 3]))); }
        for r in 0..3 { holds("not turned", !add(&mut t, (v[(r + 2) % 3], v[(r + 1) % 3], v[r]))); }
        holds_exactly(&t, &v, &want);
        listed(t, &want);
    } else {
        holds_exactly(&t, &v, &want);
        listed(t, &want);
    }
}
// neighbours share an edge in opposite directions only
pub fn two(shared: usize) {
    let (mut t, v) = loose(4);
    assume(area(v[0], v[1], v[2]) > 0.0);
    let (a, b) = (shared, (shared + 1) % 3);
    holds("first", add(&mut t, (v[0], v[1], v[2])));
    holds("same direction refused", !add(&mut t, (v[a], v[b], v[3])));
    holds("same direction refused", !add(&mut t, (v[b], v[3], v[a])));
    holds("same direction refused", !add(&mut t, (v[3], v[a], v[b])));
    holds_exactly(&t, &v, &vec![[0, 1, 2]]);
    assume(area(v[b], v[a], v[3]) > 0.0);
    holds("second", add(&mut t, (v[b], v[a], v[3])));
    let want = vec![[0, 1, 2], [b, a, 3]];
    holds_exactly(&t, &v, &want);
    listed(t, &want);
}
// a triangle leaves both records, named from any of its corners; anything else is refused without a trace
pub fn removal(shared: usize, rot: usize, which: usize) {
    let (mut t, v) = loose(4);
    let (a, b) = (shared, (shared + 1) % 3);
    assume(area(v[0], v[1], v[2]) > 0.0);
    assume(area(v[b], v[a], v[3]) > 0.0);
    holds("first", add(&mut t, (v[0], v[1], v[2])));
    holds("second", add(&mut t, (v[b], v[a], v[3])));
    let all = [[0, 1, 2], [b, a, 3]];
    let x = all[which];
    holds("turned one refused", !delete(&mut t, (v[x[2]], v[x[1]], v[x[0]])));
    let c = 6 - x[0] - x[1] - x[2];
    holds("unknown one refused", !delete(&mut t, (v[x[0]], v[x[1]], v[c])));
    holds_exactly(&t, &v, &vec![all[0], all[1]]);
    holds("removed", delete(&mut t, (v[x[rot % 3]], v[x[(rot + 1) % 3]], v[x[(rot + 2) % 3]])));
    let want = vec![all[1 - which]];
    holds_exactly(&t, &v, &want);
    holds("not there any more", !delete(&mut t, (v[x[0]], v[x[1]], v[x[2]])));
    if rot == 0 { holds("again", add(&mut t, (v[x[1]], v[x[2]], v[x[0]]))); let back = vec![all[0], all[1]]; holds_exactly(&t, &v, &back); listed(t, &back); } else { listed(t, &want); }
}
// every edge of a recorded triangle belongs to it alone, and the two records agree
fn consistent(t: PlaneTriangulation, v: &Vec<Vertex>, total: f64) {
    let mut sum = 0.0;
    let mut n = 0;
    for i in 0..v.len() {
        for j in 0..v.len() {
            if let Some(w) = next(&t, v[i], v[j]) {
                equal("same triangle on the second edge", next(&t, v[j], w), Some(v[i]));
                equal("same triangle on the third edge", next(&t, w, v[i]), Some(v[j]));
                let a = area(v[i], v[j], w);
                holds("turns left", a > 0.0);
                sum += a;
                n += 1;
            }
        }
    }
    same("covered area", sum, 3.0 * total);
    let mut on = Vec::new();
    for i in 0..v.len() { for j in 0..v.len() { on.push(next(&t, v[i], v[j])); } }
    let e = match t.assemble() { Ok(e) => e, Err(_) => unreachable("assembled") };
    let d = e.element_descriptors();
    equal("number of triangles", 3 * d.len(), n);
    for x in d.iter() {
        let p = x.clone().into_parts();
        let q = [p[0].into_idx(), p[1].into_idx(), p[2].into_idx()];
        equal("listed triangle recorded", on[q[0] * v.len() + q[1]], Some(v[q[2]]));
    }
}
fn insert(t: &mut PlaneTriangulation, u: Vertex, x: Tri) {
    call_with::<Tri, _, _>("mesher::plane::PlaneTriangulation::bowyer_watson_insert", (t, u, x))
}
// a point anywhere inside a triangle with a neighbour: the hole is filled again, whatever is dug out
pub fn inserted(shared: usize, far: usize) {
    let (a, b) = (shared, (shared + 1) % 3);
    let c = [(0.0, 0.0), (4.0, 0.5), (1.0, 3.0)];
    let (p, q) = (c[a], c[b]);
    let (f, o) = ([1.0, 0.25, 2.0][far % 3], [0.5, 0.125, 0.875][far / 3]);
    // to the right of the shared edge
    let d = (p.0 + o * (q.0 - p.0) + f * (q.1 - p.1), p.1 + o * (q.1 - p.1) - f * (q.0 - p.0));
    let (mut t, own) = placed(&[c[0], c[1], c[2], d]);
    let mut v = own;
    holds("first", add(&mut t, (v[0], v[1], v[2])));
    holds("second", add(&mut t, (v[b], v[a], v[3])));
    let total = area(v[0], v[1], v[2]) + area(v[b], v[a], v[3]);
    let (x, y) = (sym("ux"), sym("uy"));
    let u = new_vertex(&mut t, x, y);
    for k in 0..3 { assume(area(u, v[k], v[(k + 1) % 3]) > 0.0); }
    // the far corners are seen from the new point across the shared edge
    assume(area(u, v[a], v[3]) > 0.0);
    assume(area(u, v[3], v[b]) > 0.0);
    insert(&mut t, u, (v[0], v[1], v[2]));
    v.insert(0, u);
    consistent(t, &v, total);
}
// a wall divided in the middle: the triangle behind it gives way to two
pub fn wall(k: usize, cut: usize) {
    let c = [(0.0, 0.0), (4.0, 0.5), (5.0, 3.0), (1.0, 2.5)];
    let (x, y) = (sym("px"), sym("py"));
    let mut b = PlaneBoundary::new();
    blank(&mut b);
    let mut at = Vec::new();
    for i in 0..4 { at.push(if i == cut { (x, y) } else { c[i] }); }
    let mut v = b.store_polygon(&at);
    let mut t = PlaneTriangulation::new(b);
    let tri = [[0, 1, 2], [0, 2, 3]];
    let mut total = 0.0;
    for q in tri.iter() { let a = area(v[q[0]], v[q[1]], v[q[2]]); assume(a > 0.0); total += a; }
    for q in tri.iter() { holds("built", add(&mut t, (v[q[0]], v[q[1]], v[q[2]]))); }
    let s = Segment(v[k], v[(k + 1) % 4]);
    let (l, r, m): (Segment, Segment, Vertex) = call("mesher::plane::PlaneTriangulation::ruppert_split_segment", (&mut t, s));
    equal("first half", (l.0, l.1), (v[k], m));
    equal("second half", (r.0, r.1), (m, v[(k + 1) % 4]));
    v.push(m);
    consistent(t, &v, total);
}
// a triangulation from nothing, also when made again
pub fn wrapped(n: usize, again: bool) {
    contract("mesher::Vertex::perturbed", "c25::unperturbed");
    let c = [(0.0, 0.0), (4.0, 0.5), (5.0, 3.0), (1.0, 2.5), (-1.0, 1.25)];
    let mut b = PlaneBoundary::new();
    blank(&mut b);
    let mut at = Vec::new();
    for i in 0..n { at.push(c[i]); }
    let mut v = b.store_polygon(&at);
    let mut t = PlaneTriangulation::new(b);
    t.gift_wrap();
    if again {
        let (_, _, m): (Segment, Segment, Vertex) = call("mesher::plane::PlaneTriangulation::ruppert_split_segment", (&mut t, Segment(v[0], v[1])));
        v.push(m);
        t.gift_wrap();
    }
    let mut total = 0.0;
    for i in 1..n - 1 { total += area(v[0], v[i], v[i + 1]); }
    consistent(t, &v, total);
}
