use super::h::*;
use super::p::*;
use crate::spatial::Point;
use std::convert::{TryFrom, TryInto};

fn two(n: usize) -> (Vec<f64>, Vec<f64>, Point, Point) {
    let (a, b) = (syms("a", n), syms("b", n));
    (a.clone(), b.clone(), pt(&a), pt(&b))
}
pub fn build(n: usize) {
    let v = syms("a", n);
    let p = Point::new(&v);
    equal("dimension", p.dim(), n);
    for i in 0..n { same("component", p[i], v[i]); }
    equal("all components", p.to_vec(), v.clone());
    let z = Point::zero(n);
    equal("dimension", z.dim(), n);
    for i in 0..n { same("origin", z[i], 0.0); }
    equal("equal to itself", p == Point::new(&v), true);
    let q = p;
    same("norm of a copy", q.norm(), p.norm());
}
pub fn too_many(n: usize) {
    may_panic();
    let p = Point::new(&syms("a", n));
    unreachable("more components than a point has");
}
pub fn equality(n: usize, m: usize) {
    let (a, b) = (syms("a", n), syms("b", m));
    let same_all = { let mut s = n == m; for i in 0..n { if n == m { s = s & (a[i] == b[i]); } } s };
    equal("equality", pt(&a) == pt(&b), same_all);
}
pub fn arithmetic(n: usize) {
    let (a, b, p, q) = two(n);
    let s = sym("s");
    let (x, y, z) = (p + q, p - q, p * s);
    equal("dimension", (x.dim(), y.dim(), z.dim()), (n, n, n));
    for i in 0..n {
        same("sum", x[i], a[i] + b[i]);
        same("difference", y[i], a[i] - b[i]);
        same("multiple", z[i], a[i] * s);
    }
    equal("operands stay", (p.to_vec(), q.to_vec()), (a.clone(), b.clone()));
    // lengths only see the components of the dimension
    let mut w = 0.0;
    for i in 0..n { w += (a[i] + b[i]) * (a[i] + b[i]); }
    same("length of the sum", x.norm(), w.sqrt());
    let mut w = 0.0;
    for i in 0..n { w += (a[i] * s) * (a[i] * s); }
    same("length of the multiple", z.norm(), w.sqrt());
}
pub fn metric(n: usize) {
    let (a, b, p, q) = two(n);
    let (mut d, mut e, mut l) = (0.0, 0.0, 0.0);
    for i in 0..n { d += a[i] * b[i]; e += (a[i] - b[i]) * (a[i] - b[i]); l += a[i] * a[i]; }
    same("dot product", p.dot(q), d);
    same("symmetric", q.dot(p), d);
    same("distance", p.dist(q), e.sqrt());
    same("symmetric", q.dist(p), e.sqrt());
    same("norm", p.norm(), l.sqrt());
    same("no distance", p.dist(p), 0.0);
    let m = p.mid(q);
    equal("dimension", m.dim(), n);
    for i in 0..n { same("midpoint", m[i], (a[i] + b[i]) / 2.0); }
}
pub fn direction(n: usize) {
    let a = syms("a", n);
    let p = pt(&a);
    let mut l = 0.0;
    for i in 0..n { l += a[i] * a[i]; }
    assume(l > 0.0);
    assume(l != 0.0);
    let u = p.unit();
    equal("dimension", u.dim(), n);
    let mut w = 0.0;
    for i in 0..n { same("along the point", u[i] * l.sqrt(), a[i]); w += u[i] * u[i]; }
    same("of length one", w, 1.0);
    same("norm of the direction", u.norm() * u.norm(), 1.0);
}
// points of different dimension
pub fn mixed_dot(n: usize, m: usize) {
    let (a, b) = (syms("a", n), syms("b", m));
    let k = if n < m { n } else { m };
    let mut d = 0.0;
    for i in 0..k { d += a[i] * b[i]; }
    same("dot product over the common components", pt(&a).dot(pt(&b)), d);
    let c = pt(&a).mid(pt(&b));
    equal("dimension", c.dim(), k);
    let mut l = 0.0;
    for i in 0..k { same("midpoint", c[i], (a[i] + b[i]) / 2.0); l += c[i] * c[i]; }
    same("norm of the midpoint", c.norm(), l.sqrt());
    equal("no more than its components", c, pt(&c.to_vec()));
}
pub fn mixed(n: usize, m: usize, which: usize) {
    let (p, q) = (pt(&syms("a", n)), pt(&syms("b", m)));
    may_panic();
    if which == 0 { let x = p + q; }
    if which == 1 { let x = p - q; }
    if which == 2 { let x = p.dist(q); }
    unreachable("points of different dimension combined");
}
pub fn outside(n: usize, i: usize, write: bool) {
    let mut p = pt(&syms("a", n));
    may_panic();
    if write { p[i] = 1.0; } else { let x = p[i]; }
    unreachable("component beyond the dimension");
}
pub fn write(n: usize, i: usize) {
    let a = syms("a", n);
    let x = sym("x");
    let mut p = pt(&a);
    p[i] = x;
    for k in 0..n { same("component", p[k], if k == i { x } else { a[k] }); }
    equal("dimension", p.dim(), n);
    p[i] += 1.0;
    for k in 0..n { same("component", p[k], if k == i { x + 1.0 } else { a[k] }); }
}
pub fn conversions() {
    let v = syms("a", 3);
    let p: Point = v[0].into();
    equal("from a number", p, pt(&v[..1]));
    let p: Point = (v[0], v[1]).into();
    equal("from a pair", p, pt(&v[..2]));
    let p: Point = (v[0], v[1], v[2]).into();
    equal("from a triple", p, pt(&v));
    let p: Point = (3u32, 5u32).into();
    equal("from a pixel", p, pt(&[3.0, 5.0]));
    for k in [0u32, 255, 256, 65535, 65537, 16777217, 4294967295] {
        let p: Point = (k, k / 3).into();
        equal("from a pixel", (p[0] as usize, p[1] as usize), (k as usize, (k / 3) as usize));
    }
    for n in 0..5 {
        let w = syms("w", n);
        match Point::try_from(w.clone()) {
            Ok(p) => { holds("one to three components", n > 0 && n < 4); equal("from a vector", p.to_vec(), w); }
            Err(_) => holds("no point of that dimension", n == 0 || n > 3),
        }
    }
    for n in 1..4 {
        let w = syms("w", n);
        let p = pt(&w);
        let r: Vec<f64> = p.into();
        equal("to a vector", r, w.clone());
        let r: Result<f64, _> = p.try_into();
        match r { Ok(x) => { equal("one component", n, 1); same("number", x, w[0]); } Err(_) => holds("not a number", n != 1) }
        let r: Result<(f64, f64), _> = p.try_into();
        match r { Ok(x) => { equal("two components", n, 2); same("pair", x.0, w[0]); same("pair", x.1, w[1]); } Err(_) => holds("not a pair", n != 2) }
        let r: Result<(f64, f64, f64), _> = p.try_into();
        match r { Ok(x) => { equal("three components", n, 3); same("triple", x.0, w[0]); same("triple", x.1, w[1]); same("triple", x.2, w[2]); } Err(_) => holds("not a triple", n != 3) }
    }
}
// an object moved: the operations keep their algebra
pub fn algebra(n: usize) {
    let (a, b, p, q) = two(n);
    let r = pt(&syms("c", n));
    let s = sym("s");
    equal("commutative", p + q, q + p);
    equal("associative", (p + q) + r, p + (q + r));
    equal("distributive", (p + q) * s, p * s + q * s);
    equal("subtraction undoes addition", (p + q) - q, p);
    same("translation keeps distances", (p + r).dist(q + r), p.dist(q));
    same("linear", (p + q).dot(r), p.dot(r) + q.dot(r));
    let m = p.mid(q);
    same("middle", m.dist(p), m.dist(q));
}
