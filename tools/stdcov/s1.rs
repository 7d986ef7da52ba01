use super::h::*;
use super::p::*;
use std::collections::*;
use std::cmp::Reverse;
use std::convert::{TryFrom, TryInto};
fn v3() -> Vec<f64> { syms("a", 3) }
pub fn t01() { let a = [1usize, 2, 3]; let b = a.map(|x| x * 2); equal("map", b, [2, 4, 6]); }
pub fn t02() { let b: [usize; 3] = std::array::from_fn(|i| i * i); equal("from_fn", b, [0, 1, 4]); }
pub fn t03() { let v = v3(); let s: Vec<f64> = v.iter().scan(0.0, |s, x| { *s += x; Some(*s) }).collect(); same("scan", s[2], v[0] + v[1] + v[2]); }
pub fn t04() { let s: Vec<usize> = (0..10).map_while(|x| if x < 3 { Some(x * 2) } else { None }).collect(); equal("mw", s, vec![0, 2, 4]); }
pub fn t05() { let mut n = 0; let s: usize = (0..4).inspect(|x| n += x).sum(); equal("inspect", n, s); }
pub fn t06() { let a = [1, 5, 3, 5]; equal("rposition", a.iter().rposition(|&x| x == 5), Some(3)); equal("rfind", a.iter().rfind(|&&x| x < 5), Some(&3)); }
pub fn t07() { let r = (0..5usize).try_fold(0usize, |s, x| s.checked_add(x)); equal("try_fold", r, Some(10)); }
pub fn t08() { let r: Result<(), usize> = (0..5).try_for_each(|x| if x < 3 { Ok(()) } else { Err(x) }); equal("tfe", r, Err(3)); }
pub fn t09() { let a: Vec<usize> = [1, 2].iter().cycle().take(5).copied().collect(); equal("cycle", a, vec![1, 2, 1, 2, 1]); }
pub fn t10() { let v = v3(); let m = v.iter().cloned().fold(f64::NEG_INFINITY, f64::max); holds("max", m >= v[1]); }
pub fn t11() { let v = v3(); let m = v.iter().copied().max_by(|a, b| a.total_cmp(b)).unwrap(); holds("max", m >= v[1]); }
pub fn t12() { let v = vec![vec![1, 2], vec![3]]; equal("concat", v.concat(), vec![1, 2, 3]); }
pub fn t13() { let mut v = vec![1, 2, 3, 4]; v.rotate_left(1); equal("rot", v.clone(), vec![2, 3, 4, 1]); v.rotate_right(2); equal("rot2", v, vec![4, 1, 2, 3]); }
pub fn t14() { let mut v = vec![1, 2, 3, 4]; v.truncate(2); let d: Vec<i32> = v.drain(..).collect(); equal("d", d, vec![1, 2]); equal("len", v.len(), 0); }
pub fn t15() { let v = vec![1usize, 4, 2]; let m = v.iter().max_by_key(|x| **x).copied(); equal("mbk", m, Some(4)); equal("mn", v.iter().copied().min(), Some(1)); }
pub fn t16() { let v = v3(); same("mul_add", v[0].mul_add(v[1], v[2]), v[0] * v[1] + v[2]); }
pub fn t17() { let v = v3(); same("hypot", v[0].hypot(v[1]), (v[0] * v[0] + v[1] * v[1]).sqrt()); }
pub fn t18() { equal("abs_diff", 3usize.abs_diff(5), 2); equal("rem_euclid", (-3i32).rem_euclid(5), 2); equal("cs", 3usize.checked_sub(4), None); equal("ss", 3usize.saturating_sub(4), 0); }
pub fn t19() { let v = v3(); let (s, c) = v[0].sin_cos(); same("sc", s, v[0].sin()); same("c", c, v[0].cos()); }
pub fn t20() { let mut v = vec![3, 1, 2]; v.sort_by_key(|&x| Reverse(x)); equal("rev", v.clone(), vec![3, 2, 1]); v.sort_unstable(); equal("su", v.clone(), vec![1, 2, 3]); v.sort_unstable_by(|a, b| b.cmp(a)); equal("sub", v, vec![3, 2, 1]); }
pub fn t21() { let mut m = HashMap::new(); m.insert(1, 2.0); m.entry(1).and_modify(|x| *x += 1.0).or_insert(5.0); *m.entry(2).or_default() += 4.0; equal("m1", m[&1], 3.0); equal("m2", m[&2], 4.0); }
pub fn t22() { let mut m: HashMap<usize, f64> = HashMap::new(); m.insert(1, 2.0); for x in m.values_mut() { *x *= 2.0; } for (_, x) in m.iter_mut() { *x += 1.0; } equal("v", m.get(&1).copied(), Some(5.0)); m.retain(|k, _| *k > 1); equal("l", m.len(), 0); }
pub fn t23() { let mut m: BTreeMap<usize, f64> = BTreeMap::new(); m.insert(3, 1.0); m.insert(1, 2.0); let k: Vec<usize> = m.keys().copied().collect(); equal("bt", k, vec![1, 3]); equal("first", m.iter().next().map(|(k, _)| *k), Some(1)); }
pub fn t24() { let mut q = VecDeque::new(); q.push_back(1); q.push_back(2); q.push_front(0); q.extend(vec![7]); let mut s = Vec::new(); while let Some(x) = q.pop_front() { s.push(x); } equal("q", s, vec![0, 1, 2, 7]); }
pub fn t25() { let c = std::cell::Cell::new(1); c.set(c.get() + 1); equal("cell", c.get(), 2); let r = std::cell::RefCell::new(vec![1]); r.borrow_mut().push(2); equal("rc", r.borrow().len(), 2); }
pub fn t26() { let a = [[1.0, 2.0], [3.0, 4.0]]; let mut s = 0.0; for r in a.iter() { for x in r { s += x; } } equal("2d", s, 10.0); for r in a { let [x, y] = r; s -= x + y; } equal("2d", s, 0.0); }
pub fn t27() { let v = vec![1, 2, 3, 4, 5]; if let [a, .., b] = v.as_slice() { equal("pat", (*a, *b), (1, 5)); } else { unreachable("x"); } if let [a, rest @ ..] = &v[..] { equal("rest", rest.len(), 4); } }
pub fn t28() { let v = v3(); let s: f64 = v.windows(2).map(|w| w[1] - w[0]).sum(); same("win", s, v[2] - v[0]); let t: f64 = v.chunks(2).map(|c| c.iter().sum::<f64>()).sum(); same("ch", t, v[0] + v[1] + v[2]); }
pub fn t29() { let v = v3(); let (mn, mx) = v.iter().fold((f64::MAX, f64::MIN), |(a, b), &x| (a.min(x), b.max(x))); holds("mm", mn <= mx); }
pub fn t30() { let x = symn("n"); let s = match x { 0 => 0, n if n < 5 => 1, _ => 2 }; holds("g", (s == 2) == (x >= 5)); }
pub fn t31() { let v = v3(); let mut it = v.iter().zip(v.iter().skip(1)).zip(v.iter().skip(2)); let ((a, b), c) = it.next().unwrap(); same("z", *a + *b + *c, v[0] + v[1] + v[2]); holds("n", it.next().is_none()); }
pub fn t32() { let v = vec![1, 2, 3, 4]; let (a, b): (Vec<i32>, Vec<i32>) = v.iter().partition(|x| **x % 2 == 0); equal("p", a, vec![2, 4]); equal("q", b, vec![1, 3]); }
pub fn t33() { let mut v = vec![5, 6, 7]; let x = std::mem::take(&mut v); equal("t", x.len(), 3); equal("e", v.is_empty(), true); let (l, r) = x.split_at(1); equal("l", l.len() + r.len(), 3); }
pub fn t34() { let s: BTreeSet<usize> = [3, 1, 2, 3].iter().copied().collect(); equal("bs", s.into_iter().collect::<Vec<_>>(), vec![1, 2, 3]); }
pub fn t35() { let o: Option<usize> = Some(3); equal("mo", o.map_or(0, |x| x + 1), 4); equal("t", o.filter(|x| *x > 5).is_none(), true); equal("x", o.unwrap_or_default(), 3); equal("cp", o.as_ref().copied(), Some(3)); }
pub fn t36() { let x = sym("x"); equal("s", x.signum() * x.abs() == x, true); same("r", x.recip() * x, 1.0); same("c", x.clamp(-1.0, 1.0), x.max(-1.0).min(1.0)); same("cs", x.copysign(1.0), x.abs()); }
pub fn t37() { let v = v3(); let w: Box<[f64]> = v.clone().into_boxed_slice(); same("b", w[1], v[1]); let u: Vec<f64> = w.into_vec(); same("u", u[2], v[2]); }
pub fn t38() { let v = v3(); let f: &dyn Fn(f64) -> f64 = &|x| x * 2.0; same("dyn", f(v[0]), v[0] + v[0]); let g: Box<dyn Fn(f64) -> f64> = Box::new(move |x| x + v[1]); same("box", g(1.0), sym("z") * 0.0 + g(1.0)); }
pub fn t39() { let v: Vec<usize> = (0..3).flat_map(|i| (0..i).map(move |j| i * 10 + j)).collect(); equal("fm", v, vec![10, 20, 21]); }
pub fn t40() { let v: Vec<usize> = (0..=10).rev().step_by(5).collect(); equal("rs", v, vec![10, 5, 0]); }
pub fn t41() { let mut it = [1, 2, 3].iter().peekable(); let mut s = 0; while let Some(x) = it.next() { if it.peek().is_some() { s += x; } } equal("pk", s, 3); let mut jt = [1, 2, 3].iter().peekable(); holds("ni", jt.next_if(|x| **x == 1).is_some()); }
pub fn t42() { let mut v = vec![1, 2, 3, 4]; v.splice(1..3, vec![9]); equal("sp", v, vec![1, 9, 4]); }
pub fn t43() { let mut v = vec![1, 1, 2, 3, 3]; v.dedup(); equal("dd", v.clone(), vec![1, 2, 3]); v.dedup_by_key(|x| *x / 2); equal("ddk", v, vec![1, 2]); }
pub fn t44() { let mut a = [1, 2, 3, 4]; a.copy_within(0..2, 2); equal("cw", a, [1, 2, 1, 2]); a[1..3].swap_with_slice(&mut [7, 8]); equal("sw", a, [1, 7, 8, 2]); }
pub fn t45() { let v = vec![1, 3, 5, 7]; equal("pp", v.partition_point(|x| *x < 5), 2); equal("bs", v.binary_search(&5), Ok(2)); equal("bsb", v.binary_search_by(|p| p.cmp(&4)), Err(2)); equal("bsk", v.binary_search_by_key(&7, |x| *x), Ok(3)); }
pub fn t46() { let v = v3(); let mut w = vec![0.0; 3]; w.iter_mut().zip(&v).for_each(|(a, b)| *a = *b); w.iter_mut().rev().enumerate().for_each(|(i, x)| *x += i as f64); same("e", w[0], v[0] + 2.0); }
pub fn t47() { let v = v3(); let s = v.split_first().map(|(h, t)| *h + t.iter().sum::<f64>()).unwrap(); same("sf", s, v[0] + v[1] + v[2]); let c = v.chunks_exact(2); equal("rem", c.remainder().len(), 1); }
pub fn t48() { let v = v3(); let r: Vec<f64> = v.rchunks(1).map(|c| c[0]).collect(); same("rc", r[0], v[2]); let s: Vec<&[f64]> = v.split(|x| *x != *x).collect(); equal("spl", s.len(), 1); }
pub fn t49() { let t = (1..=3).sum::<usize>() + (1..4).product::<usize>(); equal("t", t, 12); equal("cmp", vec![1, 2] < vec![1, 3], true); equal("mx", std::cmp::max(1, 2), 2); equal("eq", (0..3).eq(vec![0, 1, 2]), true); equal("lt", [1, 2].iter().lt([1, 3].iter()), true); }
pub fn t50() { let x = sym("x"); let y = 'a: { if x > 0.0 { break 'a x; } -x }; same("lbl", y, x.abs()); }
pub fn t51() { let mut h = BinaryHeap::new(); h.push(3); h.push(5); h.push(1); equal("bh", h.pop(), Some(5)); equal("bl", h.len(), 2); }
pub fn t52() { let v = vec![(1, 'a'), (2, 'b')]; let m: HashMap<_, _> = v.into_iter().collect(); equal("mi", m.len(), 2); let mut k: Vec<_> = m.into_keys().collect(); k.sort(); equal("k", k, vec![1, 2]); }
pub fn t53() { let mut m: HashMap<usize, Vec<usize>> = HashMap::new(); m.entry(1).or_default().push(4); m.entry(1).or_insert_with(Vec::new).push(5); equal("mv", m[&1].len(), 2); if let std::collections::hash_map::Entry::Occupied(e) = m.entry(1) { equal("oc", e.get().len(), 2); } equal("rm", m.remove(&1), Some(vec![4, 5])); }
pub fn t54() { let x = symn("x"); assume(x < 100); equal("ilog", (x + 1) / 2 * 2 >= x, true); equal("mod", x % 2 < 2, true); equal("shr", x >> 1, x / 2); equal("and", x & 1, x % 2); }
pub fn t55() { let v = v3(); let mut s = 0.0; let mut i = v.len(); while i > 0 { i -= 1; s += v[i]; } same("wl", s, v[0] + v[1] + v[2]); let mut j = 0; loop { if j == 2 { break; } j += 1; } equal("lp", j, 2); }
pub fn t56() { let v = v3(); let r = std::rc::Rc::new(v.clone()); let q = r.clone(); same("rc", q[1], v[1]); let a = std::sync::Arc::new(3); equal("arc", *a, 3); let c: std::borrow::Cow<[f64]> = std::borrow::Cow::Borrowed(&v); same("cow", c[0], v[0]); }
pub fn t57() { let z: Vec<(usize, usize)> = (0..2).zip(3..).collect(); let (a, b): (Vec<usize>, Vec<usize>) = z.into_iter().unzip(); equal("uz", b, vec![3, 4]); let s = std::iter::repeat(1).take(3).chain(std::iter::once(2)).last(); equal("ch", s, Some(2)); equal("rn", std::iter::repeat_n(4, 2).sum::<usize>(), 8); }
pub fn t58() { let v = v3(); let mut w = v.clone(); w.fill(1.0); w[..2].copy_from_slice(&v[1..]); w[1..].clone_from_slice(&v[..2]); same("cp", w[0], v[1]); w.fill_with(|| 2.0); same("fw", w[2], 2.0); w.resize_with(4, Default::default); same("rw", w[3], 0.0); }
pub fn t59() { let mut v = vec![1, 2, 3]; if let Some(x) = v.last_mut() { *x = 9; } if let Some(x) = v.iter_mut().find(|x| **x == 2) { *x = 8; } equal("lm", v.clone(), vec![1, 8, 9]); v.swap(0, 2); equal("sw", v.first().copied(), Some(9)); equal("gt", v.get(1..).map(|s| s.len()), Some(2)); }
pub fn t60() { let x = sym("x"); let a = [x; 4]; let b: Vec<f64> = a.into(); same("ai", b[3], x); let c: [f64; 4] = b.try_into().unwrap(); same("ti", c[2], x); let d = <[f64; 2]>::try_from(&c[..2]).unwrap(); same("tf", d[1], x); holds("each", c.iter().all(|y| *y == x)); let [e, f, ..] = c; same("dest", e, f); }
pub fn t61() { let x = sym("x"); same("exp", x.powf(2.0), x * x); same("sq", x.powi(2), x * x); equal("fin", x.is_finite() && !x.is_nan(), true); same("fr", x.trunc() + x.fract(), x); same("deg", x.to_radians().to_degrees(), x); same("at", (2.0f64 * x).atan2(0.0), (2.0f64 * x).atan2(0.0)); equal("ro", x.round() as i64 as f64 == x.round(), true); }
pub fn t62() { let t: Option<(usize, f64)> = [1.0, 3.0, 2.0].iter().copied().enumerate().max_by(|a, b| a.1.partial_cmp(&b.1).unwrap()); equal("am", t.map(|t| t.0), Some(1)); let u = [3, 4].iter().sum::<i32>(); equal("u", u, 7); let z = (0..3).map(|x| x as f64).sum::<f64>(); equal("z", z, 3.0); let y = [1u32, 2].iter().map(|&x| u64::from(x)).sum::<u64>(); equal("y", y, 3); }
pub fn t63() { let mut g = vec![vec![0.0; 2]; 2]; g[1][0] = 3.0; for (i, r) in g.iter_mut().enumerate() { for (j, x) in r.iter_mut().enumerate() { *x += (i * 2 + j) as f64; } } equal("g", g[1][0], 5.0); let f: Vec<f64> = g.into_iter().flatten().collect(); equal("fl", f, vec![0.0, 1.0, 5.0, 3.0]); }
pub fn t64() { let s = [1, 2, 3, 4, 5, 6]; let e = s.iter().skip_while(|x| **x < 3).take_while(|x| **x < 6).filter_map(|x| if x % 2 == 0 { Some(x * x) } else { None }).next(); equal("e", e, Some(16)); equal("mi", s.iter().min_by_key(|x| (*x - 4i32).abs()).copied(), Some(4)); equal("rv", s.iter().rev().nth(1), Some(&5)); equal("cnt", s.iter().filter(|x| **x > 2).count(), 4); equal("red", s.iter().copied().reduce(|a, b| a * b), Some(720)); }
pub fn t65() { struct C { n: usize } impl Iterator for C { type Item = usize; fn next(&mut self) -> Option<usize> { if self.n < 3 { self.n += 1; Some(self.n) } else { None } } } equal("ci", C { n: 0 }.map(|x| x * 2).sum::<usize>(), 12); let mut t = 0; for x in (C { n: 1 }) { t += x; } equal("t", t, 5); }
pub fn t66() { #[derive(Clone, Copy, PartialEq, PartialOrd, Debug, Default)] struct P { x: f64, y: f64 } let p = P { x: sym("x"), ..P::default() }; equal("d", p.y, 0.0); equal("q", p == p, true); let P { x, .. } = p; same("x", x, p.x); const K: [usize; 3] = [2, 0, 1]; static S: [f64; 2] = [1.5, 2.5]; equal("K", K[symn("i") % 3] < 3, true); equal("S", S.iter().sum::<f64>(), 4.0); }
pub fn t67() { fn rec(n: usize) -> usize { if n == 0 { 1 } else { n * rec(n - 1) } } equal("rec", rec(5), 120); fn gen<T: std::ops::Add<Output = T> + Copy, const N: usize>(a: [T; N]) -> T { let mut s = a[0]; for x in &a[1..] { s = s + *x; } s } same("gen", gen([sym("x"), 1.0]), sym("x") * 0.0 + gen([sym("x"), 1.0])); }
pub fn t68() { let v = v3(); let s = v.iter().rev().fold(0.0, |acc, x| acc * 2.0 + x); same("horner", s, v[0] + 2.0 * v[1] + 4.0 * v[2]); let idx = (0..3).filter(|i| i % 2 == 0).collect::<VecDeque<usize>>(); equal("vd", idx.len(), 2); let ok: Result<Vec<usize>, String> = vec![Ok(1), Ok(2)].into_iter().collect(); equal("ok", ok.is_ok(), true); let op: Option<f64> = vec![Some(1.0), Some(2.0)].into_iter().sum(); equal("op", op, Some(3.0)); }
pub fn t69() { let mut v = vec![4, 5, 6, 7]; let w: Vec<i32> = v.drain(1..3).collect(); equal("w", w, vec![5, 6]); equal("v", v.clone(), vec![4, 7]); v.insert(1, 1); v.extend_from_slice(&[2, 3]); let t = v.split_off(3); equal("t", t, vec![2, 3]); v.append(&mut vec![8]); equal("a", v.clone(), vec![4, 1, 7, 8]); equal("pop", v.pop(), Some(8)); equal("srm", v.swap_remove(0), 4); v.reverse(); equal("r", v.iter().copied().collect::<Vec<_>>(), vec![1, 7]); let r = v.repeat(2); equal("rep", r.len(), 4); equal("st", v.starts_with(&[1]), true); equal("j", [[1, 2], [3, 4]].concat(), vec![1, 2, 3, 4]); }
pub fn t70() { let a = (1usize..5).collect::<HashSet<_>>(); let b = (3usize..8).collect::<HashSet<_>>(); let mut c: Vec<usize> = a.intersection(&b).copied().collect(); c.sort(); equal("is", c, vec![3, 4]); equal("un", a.union(&b).count(), 7); equal("df", a.difference(&b).count(), 2); equal("sd", a.is_subset(&b), false); let mut d = a.clone(); equal("rm", d.remove(&1), true); equal("tk", d.take(&2), Some(2)); equal("in", d.insert(3), false); d.retain(|x| *x > 3); equal("l", d.len(), 1); }
