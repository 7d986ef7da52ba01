use super::h::*;
use super::p::*;
fn v3() -> Vec<f64> { syms("v", 3) }
fn o(b: bool, x: f64) -> Option<f64> { if b { Some(x) } else { None } }
fn r(b: bool, x: f64) -> Result<f64, usize> { if b { Ok(x) } else { Err(4) } }
pub fn t01() { let x = sym("x"); let b = symb("b"); same("flat", Some(o(b, x)).flatten().unwrap_or(7.0), if b { x } else { 7.0 }); }
pub fn t02() { let x = sym("x"); let b = symb("b"); let mut p = o(b, x); *p.get_or_insert(3.0) += 1.0; same("goi", p.unwrap(), if b { x + 1.0 } else { 4.0 }); }
pub fn t03() { let x = sym("x"); let mut s = 0.0; let q = Some(x).inspect(|y| s += **&y); same("ins", s + q.unwrap(), 2.0 * x); }
pub fn t04() { let x = sym("x"); let b = symb("b"); let mut p = o(b, x); for y in p.iter_mut() { *y *= 2.0; } same("it", p.iter().sum::<f64>(), if b { 2.0 * x } else { 0.0 }); }
pub fn t05() { let x = sym("x"); let mut p = Some(x); let t = p.take_if(|y| *y > 0.0); holds("ti", t.is_some() == (x > 0.0) && p.is_none() == (x > 0.0)); }
pub fn t06() { let x = sym("x"); let (a, b) = Some((x, 2.0)).unzip(); same("uz", a.unwrap() + b.unwrap(), x + 2.0); let c: Result<Option<f64>, usize> = Some(r(true, x)).transpose(); same("tr", c.unwrap().unwrap(), x); }
pub fn t07() { let x = sym("x"); let b = symb("b"); same("or", r(b, x).or::<usize>(Ok(1.0)).unwrap(), if b { x } else { 1.0 }); same("ore", r(b, x).or_else(|e| if e == 4 { Ok::<f64, usize>(2.0) } else { Err(e) }).unwrap(), if b { x } else { 2.0 }); holds("and", r(b, x).and(r(true, 1.0)).is_ok() == b); }
pub fn t08() { let x = sym("x"); let b = symb("b"); same("mo", r(b, x).map_or(5.0, |y| y * 2.0), if b { 2.0 * x } else { 5.0 }); same("moe", r(b, x).map_or_else(|e| e as f64, |y| y), if b { x } else { 4.0 }); holds("oka", r(b, x).is_ok_and(|y| y > 0.0) == (b && x > 0.0)); holds("era", r(b, x).is_err_and(|e| e == 4) == !b); }
pub fn t09() { let v = vec![1, 1, 2, 3, 3]; let c: Vec<usize> = v.chunk_by(|a, b| a == b).map(|s| s.len()).collect(); equal("cb", c, vec![2, 1, 2]); let s: Vec<usize> = v.split(|x| *x == 2).map(|s| s.len()).collect(); equal("sp", s, vec![2, 2]); }
pub fn t10() { let v = v3(); holds("so", v.is_sorted_by(|a, b| a <= b) == (v[0] <= v[1] && v[1] <= v[2])); equal("sk", [3, 2, 1].is_sorted_by_key(|x| 10 - x), true); equal("is", [1, 2, 2].iter().is_sorted(), true); }
pub fn t11() { let mut v = vec![1, 1, 2, 2, 3]; v.dedup_by(|a, b| a == b); equal("dd", v.clone(), vec![1, 2, 3]); v.retain_mut(|x| { *x += 1; *x != 3 }); equal("rm", v.clone(), vec![2, 4]); equal("pi", v.pop_if(|x| *x == 4), Some(4)); equal("pn", v.pop_if(|x| *x == 4), None); equal("l", v, vec![2]); }
pub fn t12() { let v = vec![1, 2, 3]; let mut it = v.iter().copied().peekable(); equal("ne", it.next_if_eq(&2), None); equal("ny", it.next_if_eq(&1), Some(1)); if let Some(x) = it.peek_mut() { *x = 9; } equal("pm", it.next(), Some(9)); }
pub fn t13() { let v = [1, 3, 5, 7]; equal("bs", v.binary_search(&5), Ok(2)); equal("be", v.binary_search(&4), Err(2)); equal("b0", v.binary_search(&0), Err(0)); equal("bl", v.binary_search(&9), Err(4)); let u = [3, 1, 2]; equal("un", u.binary_search(&3), Err(3)); equal("pp", v.partition_point(|x| *x < 4), 2); equal("bk", v.binary_search_by_key(&14, |x| 2 * x), Ok(3)); }
pub fn t14() { let n = symn("n"); assume(n < 4); let v = [0, 1, 2, 3]; equal("sym", v.binary_search(&n), Ok(n)); }
pub fn t15() { let v = [1, 2, 3]; equal("spx", v.strip_prefix(&[1]).unwrap().len(), 2); equal("lz", 8usize.leading_zeros(), 60); equal("np", 5usize.next_power_of_two(), 8); equal("ip", 8usize.is_power_of_two() && !6usize.is_power_of_two(), true); equal("nm", 7usize.next_multiple_of(4), 8); equal("sq", 17usize.isqrt(), 4); }
pub fn t16() { let v = v3(); let w: Vec<f64> = vec![Some(v[0]), None, Some(v[2])].into_iter().flatten().collect(); same("w", w[1], v[2]); let z: f64 = v.iter().filter_map(|x| if *x > 0.0 { Some(*x) } else { None }).sum(); same("z", z, v[0].max(0.0) + v[1].max(0.0) + v[2].max(0.0)); }
pub fn t17() { let a = [3usize, 1, 2]; let (m, i) = a.iter().enumerate().map(|(i, x)| (*x, i)).min().unwrap(); equal("m", (m, i), (1, 1)); let b = a.iter().rev().skip_while(|x| **x > 1).count(); equal("b", b, 2); let c: Vec<usize> = a.iter().scan(0, |s, x| { *s += x; Some(*s) }).collect(); equal("c", c, vec![3, 4, 6]); }
