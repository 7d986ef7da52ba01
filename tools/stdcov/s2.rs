use super::h::*;
use super::p::*;
use std::collections::*;
use std::convert::{TryFrom, TryInto};
use std::ops::{Add, AddAssign, Mul, Index, IndexMut, ControlFlow};
fn v3() -> Vec<f64> { syms("a", 3) }
fn evens<'a>(v: &'a [f64]) -> impl Iterator<Item = f64> + 'a { v.iter().copied().step_by(2) }
fn boxed<'a>(v: &'a [f64], back: bool) -> Box<dyn Iterator<Item = &'a f64> + 'a> { if back { Box::new(v.iter().rev()) } else { Box::new(v.iter()) } }
pub fn u01() { let v = v3(); same("impl", evens(&v).sum::<f64>(), v[0] + v[2]); }
pub fn u02() { let v = v3(); same("box", *boxed(&v, true).next().unwrap(), v[2]); same("box", boxed(&v, false).map(|x| x * 2.0).sum::<f64>(), 2.0 * (v[0] + v[1] + v[2])); }
pub fn u03() { let v = v3(); let mut s = 0.0; { let mut f = |x: f64| s += x; apply(&v, &mut f); } same("dynmut", s, v[0] + v[1] + v[2]); let mut t = 0.0; each(&v, |x| t += x * x); same("gen", t, v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); }
fn apply(v: &[f64], f: &mut dyn FnMut(f64)) { for x in v { f(*x); } }
fn each<F>(v: &[f64], mut f: F) where F: FnMut(f64) { v.iter().for_each(|x| f(*x)) }
pub fn u04() { let mut v = syms("a", 6); let w = v.clone(); { let (a, b) = v.split_at_mut(3); for (x, y) in a.iter_mut().zip(b.iter()) { *x -= 2.0 * *y; } } same("row", v[1], w[1] - 2.0 * w[4]); for (i, r) in v.chunks_mut(3).enumerate() { for x in r { *x *= i as f64; } } same("ch", v[5], w[5]); same("ch0", v[0], 0.0); }
pub fn u05() { let mut a = 1; let mut b = 2; (a, b) = (b, a); equal("sw", (a, b), (2, 1)); let [x, y]; [x, y] = [3, 4]; equal("ds", x + y, 7); let (mut c, d) = (1, 2); c += d; equal("c", c, 3); }
pub fn u06() { let mut n = 0; 'o: for i in 0..4 { for j in 0..4 { if j > i { continue 'o; } if i == 3 { break 'o; } n += 1; } } equal("lab", n, 6); let r = loop { n += 1; if n > 8 { break n * 2; } }; equal("lr", r, 18); }
pub fn u07() { let x = -3i32; equal("cast", x as u32 as i32, -3); equal("u8", 300i32 as u8, 44); equal("f", 2.7f64 as usize, 2); equal("neg", -2.7f64 as usize, 0); equal("tr", -2.7f64 as i32, -2); equal("fr", f64::from(3u32), 3.0); equal("try", u8::try_from(300i32).is_err(), true); equal("usz", usize::MAX > 5, true); equal("ch", 'a' as u32, 97); equal("b", true as usize, 1); }
pub fn u08() { fn f(a: usize, b: usize) -> Option<usize> { let d = a.checked_sub(b)?; Some(d * 2) } equal("q", f(3, 1), Some(4)); equal("n", f(1, 3), None); fn g(x: usize) -> Result<usize, String> { if x > 3 { return Err(format!("no {}", x)); } let y = f(x, 1).ok_or("small")?; Ok(y) } equal("g", g(2).unwrap(), 2); equal("e", g(5).is_err() && g(0).is_err(), true); }
#[derive(Clone, Copy, Debug, PartialEq)] struct V2 { x: f64, y: f64 }
impl Add for V2 { type Output = V2; fn add(self, o: V2) -> V2 { V2 { x: self.x + o.x, y: self.y + o.y } } }
impl<'a> Add<&'a V2> for &'a V2 { type Output = V2; fn add(self, o: &V2) -> V2 { *self + *o } }
impl AddAssign for V2 { fn add_assign(&mut self, o: V2) { *self = *self + o; } }
impl Mul<f64> for V2 { type Output = V2; fn mul(self, o: f64) -> V2 { V2 { x: self.x * o, y: self.y * o } } }
impl Mul<V2> for f64 { type Output = V2; fn mul(self, o: V2) -> V2 { o * self } }
impl Index<usize> for V2 { type Output = f64; fn index(&self, i: usize) -> &f64 { match i { 0 => &self.x, 1 => &self.y, _ => panic!("out") } } }
impl IndexMut<usize> for V2 { fn index_mut(&mut self, i: usize) -> &mut f64 { if i == 0 { &mut self.x } else { &mut self.y } } }
impl std::iter::Sum for V2 { fn sum<I: Iterator<Item = V2>>(it: I) -> V2 { it.fold(V2 { x: 0.0, y: 0.0 }, |a, b| a + b) } }
impl From<(f64, f64)> for V2 { fn from(t: (f64, f64)) -> V2 { let (x, y) = t; V2 { x, y } } }
impl PartialOrd for V2 { fn partial_cmp(&self, o: &V2) -> Option<std::cmp::Ordering> { self.x.partial_cmp(&o.x) } }
pub fn u09() { let v = v3(); let a = V2 { x: v[0], y: v[1] }; let b: V2 = (v[1], v[2]).into(); let mut c = &a + &b; c += a * 2.0; c += 2.0 * b; same("c", c[0], 3.0 * (v[0] + v[1])); c[1] = 5.0; same("c1", c.y, 5.0); let s: V2 = vec![a, b].into_iter().sum(); same("s", s.x, v[0] + v[1]); holds("po", (a < b) == (v[0] < v[1])); }
trait Shape { const K: usize; fn area(&self) -> f64; fn twice(&self) -> f64 { 2.0 * self.area() } fn name() -> usize { Self::K + 1 } }
struct Sq(f64); struct Re { a: f64, b: f64 }
impl Shape for Sq { const K: usize = 4; fn area(&self) -> f64 { self.0 * self.0 } }
impl Shape for Re { const K: usize = 5; fn area(&self) -> f64 { self.a * self.b } fn twice(&self) -> f64 { self.area() + self.area() } }
fn tot<T: Shape>(v: &[T]) -> f64 { v.iter().map(T::area).sum() }
fn tot2(v: &[&Sq]) -> f64 { v.iter().map(|s| s.twice()).sum() }
pub fn u10() { let v = v3(); same("g", tot(&[Sq(v[0]), Sq(v[1])]), v[0] * v[0] + v[1] * v[1]); same("r", Re { a: v[0], b: v[1] }.twice(), 2.0 * v[0] * v[1]); equal("k", Sq::name() + Re::name(), 11); same("t2", tot2(&[&Sq(v[0])]), 2.0 * v[0] * v[0]); }
macro_rules! sq { ($x:expr) => { $x * $x }; }
pub fn u11() { let v = v3(); same("mac", sq!(v[0] + 1.0), v[0] * v[0] + 2.0 * v[0] + 1.0); const fn dbl(x: usize) -> usize { x * 2 } const N: usize = dbl(3); let a = [0.0; N]; equal("n", a.len(), 6); }
pub fn u12() { let mut o = vec![Some(1), None, Some(3)]; if let Some(Some(x)) = o.get_mut(0) { *x += 4; } equal("t", o[0].take(), Some(5)); equal("n", o[0], None); let f: Vec<i32> = o.iter().flatten().copied().collect(); equal("f", f, vec![3]); if let Some(ref mut y) = o[2] { *y = 9; } equal("y", o[2], Some(9)); let z: Option<Vec<i32>> = o.into_iter().collect(); holds("z", z.is_none()); }
pub fn u13() { let mut v = v3(); let w = v.clone(); v.sort_by(|a, b| a.partial_cmp(b).unwrap()); holds("s", v[0] <= v[1] && v[1] <= v[2]); same("sum", v.iter().sum::<f64>(), w.iter().sum::<f64>()); let mut t = vec![(2, 'a'), (1, 'b'), (1, 'a')]; t.sort(); equal("t", t, vec![(1, 'a'), (1, 'b'), (2, 'a')]); holds("tc", (1, 5) < (2, 0)); }
pub fn u14() { let a = symb("a"); let b = symb("b"); let r = match (a, b) { (true, true) => 3, (true, false) => 2, (false, true) => 1, _ => 0 }; equal("m", r, 2 * (a as usize) + b as usize); let x = if a { 1 } else if b { 2 } else { 3 }; holds("x", (x == 1) == a); holds("xor", (a ^ b) == (a != b)); holds("or", (a | b) == (a || b)); }
pub fn u15() { let n = 3usize; let v = v3(); let mut s = 0.0; for i in (0..n).rev() { s = s * 2.0 + v[i]; } let mut t = 0.0; let mut k = n; while let Some(i) = k.checked_sub(1) { t = t * 2.0 + v[i]; k = i; } same("e", s, t); let mut it = v.iter().enumerate(); let mut q = 0.0; while let Some((i, x)) = it.next() { q += (i as f64) * x; } same("q", q, v[1] + 2.0 * v[2]); }
pub fn u16() { struct G<const R: usize, const C: usize> { d: [[f64; C]; R] } impl<const R: usize, const C: usize> G<R, C> { fn tr(&self) -> G<C, R> { let mut d = [[0.0; R]; C]; for i in 0..R { for j in 0..C { d[j][i] = self.d[i][j]; } } G { d } } } let v = v3(); let g = G { d: [[v[0], v[1], v[2]], [1.0, 2.0, 3.0]] }; let t = g.tr(); same("t", t.d[2][0], v[2]); same("t1", t.d[1][1], 2.0); }
pub fn u17() { enum E { A(f64), B { x: f64, n: usize }, C } let v = v3(); let f = |e: &E| match e { E::A(x) => *x, E::B { x, n } if *n > 2 => x * 2.0, E::B { x, .. } => *x, E::C => 0.0 }; same("e", f(&E::A(v[0])) + f(&E::B { x: v[1], n: 3 }) + f(&E::B { x: v[2], n: 1 }) + f(&E::C), v[0] + 2.0 * v[1] + v[2]); holds("mm", matches!(E::A(1.0), E::A(y) if y > 0.0)); }
pub fn u18() { let v = v3(); let add = |a: f64| move |b: f64| a + b; same("cur", add(v[0])(v[1]), v[0] + v[1]); let fs: Vec<fn(f64) -> f64> = vec![f64::abs, f64::sqrt]; same("fp", fs[0](v[0]), v[0].abs()); let ops: [(&str, fn(f64, f64) -> f64); 2] = [("a", |a, b| a + b), ("m", |a, b| a * b)]; same("tab", ops[1].1(v[0], v[1]), v[0] * v[1]); let comp = compose(|x| x + 1.0, |x| x * 2.0); same("comp", comp(v[0]), (v[0] + 1.0) * 2.0); }
fn compose<A, B, C>(f: impl Fn(A) -> B, g: impl Fn(B) -> C) -> impl Fn(A) -> C { move |x| g(f(x)) }
pub fn u19() { let r = (0..5).try_for_each(|x| if x == 3 { ControlFlow::Break(x) } else { ControlFlow::Continue(()) }); holds("cf", matches!(r, ControlFlow::Break(3))); let s: Option<usize> = (0..3).map(|x| if x < 5 { Some(x) } else { None }).sum(); equal("so", s, Some(3)); let p: Result<usize, ()> = vec![Ok(2), Ok(3)].into_iter().product(); equal("pr", p, Ok(6)); }
pub fn u20() { let v = v3(); let m = [[v[0], v[1]], [v[1], v[2]]]; let det = match m { [[a, b], [c, d]] => a * d - b * c }; same("det", det, v[0] * v[2] - v[1] * v[1]); let t: Vec<Vec<f64>> = (0..2).map(|j| m.iter().map(|r| r[j]).collect()).collect(); same("tr", t[0][1], v[1]); let d: f64 = m.iter().enumerate().map(|(i, r)| r[i]).sum(); same("trace", d, v[0] + v[2]); let fl: Vec<f64> = m.concat(); same("fl", fl[3], v[2]); }
pub fn u21() { let v = v3(); let mx = v.iter().copied().fold(f64::NAN, f64::max); holds("mx", mx >= v[0]); let (i, _) = v.iter().enumerate().fold((0, v[0]), |(bi, bx), (i, &x)| if x > bx { (i, x) } else { (bi, bx) }); holds("arg", v[i] >= v[2]); let am = (0..3).max_by(|&a, &b| v[a].abs().partial_cmp(&v[b].abs()).unwrap()).unwrap(); holds("am", v[am].abs() >= v[1].abs()); }
pub fn u22() { let x = sym("x"); let y = sym("y"); same("minmax", x.max(y) + x.min(y), x + y); same("ab", if x >= 0.0 { x } else { -x }, x.abs()); same("sg", if x == 0.0 { 0.0 } else { x.signum() * x.abs() }, x); holds("cmp", matches!(x.partial_cmp(&y), Some(std::cmp::Ordering::Less)) == (x < y)); same("eps", if (x - y).abs() < 0.0 { 1.0 } else { 0.0 }, 0.0); }
pub fn u23() { let v = v3(); let mut out = Vec::with_capacity(3); for w in v.windows(2) { if let [a, b] = *w { out.push(b - a); } } same("w", out[1], v[2] - v[1]); let z: Vec<(f64, f64)> = v.iter().copied().zip(v.iter().copied().cycle().skip(1)).collect(); same("cy", z[2].1, v[0]); let pairs: Vec<(usize, usize)> = (0..3).flat_map(|i| (i + 1..3).map(move |j| (i, j))).collect(); equal("pairs", pairs, vec![(0, 1), (0, 2), (1, 2)]); }
pub fn u24() { let mut it = (0..6).into_iter(); let a: Vec<i32> = it.by_ref().take(2).collect(); let b: Vec<i32> = it.collect(); equal("a", a, vec![0, 1]); equal("b", b, vec![2, 3, 4, 5]); let mut jt = vec![1, 2, 3].into_iter(); equal("nb", jt.next_back(), Some(3)); equal("as", jt.as_slice().len(), 2); equal("sh", (0..4).size_hint(), (4, Some(4))); equal("len", [1, 2, 3].iter().len(), 3); }
pub fn u25() { let v = v3(); let mut m: HashMap<(usize, usize), f64> = HashMap::with_capacity(4); for (i, x) in v.iter().enumerate() { *m.entry((i % 2, 0)).or_insert(0.0) += x; } same("m", m[&(0, 0)], v[0] + v[2]); if let Some(x) = m.get_mut(&(1, 0)) { *x = 7.0; } let s: f64 = m.values().sum(); same("s", s, v[0] + v[2] + 7.0); let mut k: Vec<_> = m.iter().map(|(&k, &x)| (k, x)).collect(); k.sort_by_key(|(k, _)| *k); same("k", k[1].1, 7.0); holds("ck", m.contains_key(&(0, 0)) && !m.contains_key(&(2, 0))); equal("gkv", m.get_key_value(&(1, 0)).map(|(k, _)| k.0), Some(1)); let o = m.get(&(5, 5)).copied().unwrap_or(1.5); same("o", o, 1.5); }
pub fn u26() { let s: Vec<usize> = vec![3, 1, 2]; let mut idx: Vec<usize> = (0..s.len()).collect(); idx.sort_by_key(|&i| s[i]); equal("idx", idx.clone(), vec![1, 2, 0]); let mut inv = vec![0; 3]; for (n, &o) in idx.iter().enumerate() { inv[o] = n; } equal("inv", inv, vec![2, 0, 1]); let (mn, mx) = s.iter().fold((usize::MAX, 0), |(a, b), &x| (a.min(x), b.max(x))); equal("mm", (mn, mx), (1, 3)); equal("any", s.iter().any(|&x| x == 2) && !s.contains(&9), true); }
pub fn u27() { let x = symn("n"); assume(x < 1000); let mut c = 0; let mut y = x; if y > 3 { y -= 3; c = 1; } equal("y", y + 3 * c, x); equal("dm", x / 7 * 7 + x % 7, x); holds("sat", x.saturating_sub(5) <= x); equal("mi", x.min(5).max(5), 5); equal("wr", x.wrapping_sub(1).wrapping_add(1), x); let (r, o) = x.overflowing_add(1); equal("ov", (r, o), (x + 1, false)); equal("pow", 2usize.pow(3), 8); equal("lz", 8usize.trailing_zeros(), 3); equal("c1", 5u8.count_ones(), 2); }
pub fn u28() { let a = vec![1, 2]; let b = { let mut t = a.clone(); t.extend(a.iter().map(|x| x * 10)); t }; equal("b", b, vec![1, 2, 10, 20]); let c: Vec<i32> = [&a[..], &[9]].concat(); equal("c", c, vec![1, 2, 9]); let d = Vec::from([1, 2]); equal("d", d == a, true); let e: Vec<f64> = From::from(&[1.0, 2.0][..]); equal("e", e.len(), 2); let f = a.iter().map(|x| vec![*x; 2]).fold(Vec::new(), |mut acc, v| { acc.extend(v); acc }); equal("f", f, vec![1, 1, 2, 2]); let g: [usize; 2] = Default::default(); equal("g", g, [0, 0]); let h = vec![vec![0.0f64; 2]; 3]; equal("h", h.iter().map(Vec::len).sum::<usize>(), 6); }
pub fn u29() { fn split(v: &mut [f64], i: usize, j: usize) -> (&mut f64, &mut f64) { assert!(i < j); let (a, b) = v.split_at_mut(j); (&mut a[i], &mut b[0]) } let mut v = v3(); let w = v.clone(); { let (a, b) = split(&mut v, 0, 2); std::mem::swap(a, b); *a += 1.0; } same("a", v[0], w[2] + 1.0); same("b", v[2], w[0]); let o = std::mem::replace(&mut v[1], 4.0); same("o", o, w[1]); if let Some((h, t)) = v.split_first_mut() { *h = 0.0; t[0] = 1.0; } same("sf", v[0] + v[1], 1.0); }
pub fn u30() { let v = v3(); let n = v.len(); debug_assert!(n == 3); debug_assert_eq!(n, 3, "len {}", n); let s = format!("{:?}", v); let _ = s.len(); eprintln!("{} {:.3}", n, v[0]); assert_ne!(n, 4); let r: f64 = v.iter().map(|x| x.powi(2)).sum::<f64>().sqrt(); same("norm", r * r, v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); let label = match n { 1 => "one", 3 => "three", _ => "many" }; holds("l", label == "three"); let z = n.to_string(); let _ = z; }
