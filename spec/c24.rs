use super::h::*;
use super::p::*;
use crate::element::constraint::Constraint;
use crate::mesher::bounds::{PlaneBoundary, Segment};
use crate::mesher::Vertex;
use spacemath::two::Point;

fn outline(n: usize) -> Vec<(f64, f64)> {
    // three corners anywhere
    if n == 0 { let (x, y) = (syms("x", 3), syms("y", 3)); return vec![(x[0], y[0]), (x[1], y[1]), (x[2], y[2])]; }
    let all = vec![(0.0, 0.0), (3.0, 0.0), (3.0, 4.0), (0.0, 4.0), (-3.0, 2.0)];
    let mut v = Vec::new();
    for k in 0..n { v.push(all[k]); }
    v
}
fn force(k: usize) -> Point { Point::new(syms("fx", 8)[k], syms("fy", 8)[k]) }
fn support(k: usize) -> Constraint { match k { 1 => Constraint::XFixed, 2 => Constraint::YFixed, 3 => Constraint::XYFixed, _ => Constraint::AngleFixed(sym("theta")) } }
// side k of the outline, from its force or support given along (1) or against (2) the direction of the wall
fn along(v: &Vec<Vertex>, k: usize, dir: usize) -> (Vertex, Vertex) {
    let (a, b) = (v[k], v[(k + 1) % v.len()]);
    if dir == 2 { (b, a) } else { (a, b) }
}
// every side has a force of its own; side k one with direction fd; side k also a support
fn body(n: usize, k: usize, fd: usize, cd: usize, con: usize) -> (PlaneBoundary, Vec<Vertex>) {
    let mut b = PlaneBoundary::new();
    let v = b.store_polygon(&outline(n));
    let n = v.len();
    for j in 0..n {
        if j == k && fd == 0 { continue; }
        let (x, y) = along(&v, j, if j == k { fd } else { 1 });
        b.store_distributed_force(x, y, force(j));
    }
    if cd > 0 {
        let (x, y) = along(&v, k, cd);
        b.store_distributed_constraint(x, y, support(con));
    }
    (b, v)
}
// the forces recorded on a segment, in either direction
fn forces_on(b: &PlaneBoundary, x: Vertex, y: Vertex) -> Vec<Point> {
    let mut r = Vec::new();
    for (s, f) in b.all_distributed_forces() {
        if (s.0 == x && s.1 == y) || (s.0 == y && s.1 == x) { r.push(f); }
    }
    r
}
fn supports_at(b: &PlaneBoundary, x: Vertex) -> Vec<Constraint> {
    let mut r = Vec::new();
    for (v, c) in b.all_constraints() { if v == x { r.push(c); } }
    r
}
fn at(v: Vertex, x: f64, y: f64) {
    let (p, _) = Segment(v, v).get();
    same("x of the new point", p.x, x);
    same("y of the new point", p.y, y);
}
// the wall as a list of vertices
fn wall(b: &PlaneBoundary, most: usize) -> Vec<Vertex> {
    let mut r = Vec::new();
    for s in b.all_walls() { if r.len() < most { r.push(s.0); } }
    r
}
fn carries(b: &PlaneBoundary, x: Vertex, y: Vertex, k: usize, fd: usize) {
    let f = forces_on(b, x, y);
    equal("one force", f.len(), if fd > 0 { 1 } else { 0 });
    if fd > 0 { same("force x", f[0].x, force(k).x); same("force y", f[0].y, force(k).y); }
}
fn held(b: &PlaneBoundary, x: Vertex, con: usize) {
    let c = supports_at(b, x);
    holds("supported", c.len() > 0);
    for y in c { equal("support", y, support(con)); }
}
fn others(b: &PlaneBoundary, v: &Vec<Vertex>, k: usize, pieces: usize, fd: usize, cd: usize) {
    let n = v.len();
    for j in 0..n {
        if j == k { continue; }
        let (x, y) = along(v, j, 1);
        holds("other side kept", b.is_segment((x, y)));
        carries(b, x, y, j, 1);
        if x != v[k] && x != v[(k + 1) % n] { equal("other corner free", supports_at(b, x).len(), 0); }
    }
    equal("forces in all", b.all_distributed_forces().len(), n - 1 + if fd > 0 { pieces } else { 0 });
    if cd == 0 { equal("no support appears", b.all_constraints().len(), 0); }
}
pub fn split(n: usize, k: usize, fd: usize, cd: usize, con: usize) {
    let (mut b, v) = body(n, k, fd, cd, con);
    let n = v.len();
    let (x, y) = along(&v, k, 1);
    let (p, q) = Segment(x, y).get();
    let (l, r, m) = b.split_segment(Segment(x, y));
    equal("first half", l, Segment(x, m));
    equal("second half", r, Segment(m, y));
    at(m, (p.x + q.x) / 2.0, (p.y + q.y) / 2.0);
    holds("divided side gone", !b.is_segment((x, y)));
    holds("halves are sides", b.is_segment(l) && b.is_segment(r));
    carries(&b, x, m, k, fd);
    carries(&b, m, y, k, fd);
    if cd > 0 { held(&b, x, con); held(&b, m, con); held(&b, y, con); }
    others(&b, &v, k, 2, fd, cd);
    let mut want = Vec::new();
    for j in 0..n { want.push(v[j]); if j == k { want.push(m); } }
    equal("closed wall", wall(&b, n + 9), want);
    // one half again
    let (l2, r2, m2) = b.split_segment(r);
    equal("first quarter", l2, Segment(m, m2));
    equal("second quarter", r2, Segment(m2, y));
    carries(&b, x, m, k, fd);
    carries(&b, m, m2, k, fd);
    carries(&b, m2, y, k, fd);
    if cd > 0 { held(&b, x, con); held(&b, m, con); held(&b, m2, con); held(&b, y, con); }
    others(&b, &v, k, 3, fd, cd);
}
// sides divided into `pieces` equal parts
pub fn divide(n: usize, k: usize, pieces: usize, fd: usize, cd: usize, con: usize) {
    let (mut b, v) = body(n, k, fd, cd, con);
    let (x, y) = along(&v, k, 1);
    let (p, q) = Segment(x, y).get();
    let len = if k == 0 { 3.0 } else if k == 1 { 4.0 } else if n == 4 && k == 2 { 3.0 } else if n == 4 { 4.0 } else { 5.0 };
    b.divide_segment(Segment(x, y), len / (pieces as f64) * 0.96875);
    let w = wall(&b, 50);
    equal("closed wall", w.len(), n + pieces - 1);
    for j in 0..k + 1 { equal("wall before", w[j], v[j]); }
    for j in k + 1..n { equal("wall after", w[j + pieces - 1], v[j]); }
    for j in 0..pieces {
        let (s, e) = (w[k + j], w[(k + j + 1) % w.len()]);
        holds("piece is a side", b.is_segment((s, e)));
        let t = j as f64 / pieces as f64;
        at(s, p.x + (q.x - p.x) * t, p.y + (q.y - p.y) * t);
        carries(&b, s, e, k, fd);
        if cd > 0 { held(&b, s, con); held(&b, e, con); }
    }
    holds("divided side gone", pieces == 1 || !b.is_segment((x, y)));
    others(&b, &v, k, pieces, fd, cd);
    // a piece can be split further and keeps both
    if pieces > 1 {
        let (s, e) = (w[k + pieces - 1], y);
        let (_, _, m) = b.split_segment(Segment(s, e));
        carries(&b, s, m, k, fd);
        carries(&b, m, e, k, fd);
        if cd > 0 { held(&b, m, con); }
    }
}
// two sides with different supports meet in a corner, which is held by both
pub fn corner(pieces: usize, c1: usize, c2: usize) {
    let mut b = PlaneBoundary::new();
    let v = b.store_polygon(&outline(4));
    b.store_distributed_constraint(v[0], v[1], support(c1));
    b.store_distributed_constraint(v[1], v[2], support(c2));
    if pieces > 0 {
        b.divide_segment(Segment(v[0], v[1]), 3.0 / (pieces as f64) * 0.96875);
        b.divide_segment(Segment(v[1], v[2]), 4.0 / (pieces as f64) * 0.96875);
    }
    let c = supports_at(&b, v[1]);
    for r in 0..2 {
        let mut got = false;
        for x in c.iter() { if x.plain_dim_struck(r) { got = true; } }
        equal("direction removed in the corner", got, bit(c1 | c2, r));
    }
}
// supports given to single points stay
pub fn point_support(k: usize, con: usize) {
    let (mut b, v) = body(4, k, 1, 0, 0);
    b.store_constraint(v[2], support(con));
    let (x, y) = along(&v, k, 1);
    b.split_segment(Segment(x, y));
    held(&b, v[2], con);
    equal("no other support", b.all_constraints().len(), 1);
}
