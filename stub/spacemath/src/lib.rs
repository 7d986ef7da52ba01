// Stands in for the published crate of this name, which is not available offline: the natural meaning of
// the operations bugi uses.  Only analysed, never run.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Orient { Positive, Negative, Zero }
pub struct IntersectRes(bool);
impl IntersectRes { pub fn is_nonzero(&self) -> bool { self.0 } }
fn cross(a: two::Point, b: two::Point, c: two::Point) -> f64 { (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x) }
pub mod two {
    use std::ops::{Add, Div, Mul, Sub};
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct Point { pub x: f64, pub y: f64 }
    impl Point {
        pub fn new(x: f64, y: f64) -> Self { Point { x, y } }
        pub fn mid(self, o: Point) -> Point { Point { x: (self.x + o.x) / 2.0, y: (self.y + o.y) / 2.0 } }
        pub fn to_unit(self) -> Point { let m = self.mag(); Point { x: self.x / m, y: self.y / m } }
        pub fn mag(self) -> f64 { (self.x * self.x + self.y * self.y).sqrt() }
        pub fn dot(self, o: Point) -> f64 { self.x * o.x + self.y * o.y }
    }
    impl Add for Point { type Output = Point; fn add(self, o: Point) -> Point { Point { x: self.x + o.x, y: self.y + o.y } } }
    impl Sub for Point { type Output = Point; fn sub(self, o: Point) -> Point { Point { x: self.x - o.x, y: self.y - o.y } } }
    impl Mul<f64> for Point { type Output = Point; fn mul(self, o: f64) -> Point { Point { x: self.x * o, y: self.y * o } } }
    impl Div<f64> for Point { type Output = Point; fn div(self, o: f64) -> Point { Point { x: self.x / o, y: self.y / o } } }
    impl From<(f64, f64)> for Point { fn from(p: (f64, f64)) -> Self { Point { x: p.0, y: p.1 } } }
    impl From<Point> for (f64, f64) { fn from(p: Point) -> Self { (p.x, p.y) } }
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct Segment { pub p: Point, pub q: Point }
    impl Segment { pub fn new(p: Point, q: Point) -> Self { Segment { p, q } } }
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct Circle { pub center: Point, pub radius: f64 }
    impl Circle { pub fn new(center: Point, radius: f64) -> Self { Circle { center, radius } } }
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct Triangle { pub a: Point, pub b: Point, pub c: Point }
    impl From<(Point, Point, Point)> for Triangle { fn from(t: (Point, Point, Point)) -> Self { Triangle { a: t.0, b: t.1, c: t.2 } } }
    impl Triangle {
        pub fn dir(&self) -> crate::Orient {
            let d = crate::cross(self.a, self.b, self.c);
            if d > 0.0 { crate::Orient::Positive } else if d < 0.0 { crate::Orient::Negative } else { crate::Orient::Zero }
        }
        pub fn circumradius(&self) -> f64 {
            use dist::Dist;
            self.a.dist(self.b) * self.b.dist(self.c) * self.c.dist(self.a) / (4.0 * self.area())
        }
        pub fn area(&self) -> f64 { crate::cross(self.a, self.b, self.c).abs() / 2.0 }
    }
    pub mod dist {
        pub trait Dist<T> { fn dist(&self, o: T) -> f64; }
        impl Dist<super::Point> for super::Point { fn dist(&self, o: super::Point) -> f64 { (o - *self).mag() } }
        impl Dist<super::Point> for super::Segment {
            fn dist(&self, o: super::Point) -> f64 {
                let d = self.q - self.p;
                let t = (o - self.p).dot(d) / d.dot(d);
                let t = if t < 0.0 { 0.0 } else if t > 1.0 { 1.0 } else { t };
                o.dist(self.p + d * t)
            }
        }
        impl Dist<super::Segment> for super::Point { fn dist(&self, o: super::Segment) -> f64 { o.dist(*self) } }
    }
    pub mod intersect {
        pub trait Intersect<T> { fn intersects(&self, o: &T) -> crate::IntersectRes; }
        impl Intersect<super::Segment> for super::Segment {
            fn intersects(&self, o: &super::Segment) -> crate::IntersectRes {
                let a = crate::cross(self.p, self.q, o.p) * crate::cross(self.p, self.q, o.q);
                let b = crate::cross(o.p, o.q, self.p) * crate::cross(o.p, o.q, self.q);
                crate::IntersectRes(a <= 0.0 && b <= 0.0)
            }
        }
        impl Intersect<super::Segment> for super::Circle { fn intersects(&self, _o: &super::Segment) -> crate::IntersectRes { loop {} } }
        impl Intersect<super::Circle> for super::Segment { fn intersects(&self, _o: &super::Circle) -> crate::IntersectRes { loop {} } }
        impl Intersect<super::Point> for super::Circle { fn intersects(&self, _o: &super::Point) -> crate::IntersectRes { loop {} } }
    }
}
