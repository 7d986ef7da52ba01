use super::h::*;
use super::p::*;
use crate::visual::color::{hot_map, hot_map_boxed, rgb_map, rgb_map_boxed, BACK, STDCOL};
use crate::visual::{VisOptions, Visualizer};
use image::Rgb;

type Pix = (u32, u32);

// a channel: full at or above `hi`, none at or below `lo`, in proportion between
fn ramp(v: f64, lo: f64, hi: f64) -> u8 {
    let t = (v - lo) / (hi - lo) * 255.0;
    if v <= lo { 0 } else if v >= hi { 255 } else { t.round() as u8 }
}
fn down(v: f64, hi: f64, lo: f64) -> u8 {
    let t = (lo - v) / (lo - hi) * 255.0;
    if v <= hi { 255 } else if v >= lo { 0 } else { t.round() as u8 }
}
// full on [a + 1/8, b - 1/8], none outside [a - 1/8, b + 1/8]
fn hump(v: f64, a: f64, b: f64) -> u8 { if v < (a + b) / 2.0 { ramp(v, a - 0.125, a + 0.125) } else { down(v, b - 0.125, b + 0.125) } }

// black, red, yellow, white; everything outside the unit interval takes the nearest end
pub fn hot() {
    let v = sym("v");
    let c = hot_map(v).0;
    equal("red", c[0], ramp(v, 0.0, 1.0 / 3.0));
    equal("green", c[1], ramp(v, 1.0 / 3.0, 2.0 / 3.0));
    equal("blue", c[2], ramp(v, 2.0 / 3.0, 1.0));
    equal("boxed", hot_map_boxed()(v), hot_map(v));
}
// blue, then green, then red
pub fn rgb() {
    let v = sym("v");
    assume(v >= 0.0 && v <= 1.0);
    let c = rgb_map(v).0;
    equal("red", c[0], hump(v, 0.5, 1.0));
    equal("green", c[1], hump(v, 0.25, 0.75));
    equal("blue", c[2], hump(v, 0.0, 0.5));
    equal("boxed", rgb_map_boxed()(v), rgb_map(v));
}
pub fn total() {
    let v = sym("v");
    let c = rgb_map(v).0;
    if v < -0.125 || v > 1.125 { equal("nothing far outside the interval", c, [0, 0, 0]); }
    // every colour of the standard list is told apart from the background
    for k in 0..STDCOL.len() {
        holds("not the background", STDCOL[k] != BACK);
        for j in 0..k { holds("different", STDCOL[k] != STDCOL[j]); }
    }
}
fn probe(v: f64) -> Rgb<u8> { Rgb([(v * 250.0) as u8, (v * 100.0 + 50.0) as u8, 3]) }
fn corners(n: usize) -> Vec<crate::spatial::Point> {
    let all = [pt(&[0.0, 0.0]), pt(&[1.0, 0.0]), pt(&[0.0, 1.0]), pt(&[1.0, 1.0])];
    all[..n].to_vec()
}
fn show(n: usize, v: Vec<f64>, map: usize) -> Vec<Pix> {
    let mut vis: Visualizer = corners(n).into();
    vis.set_triangles(if n == 4 { vec![(0, 1, 2), (1, 3, 2)] } else { vec![(0, 1, 2)] });
    vis.set_vals(v);
    let o = VisOptions::new().im_size(8).show_mesh(false);
    let o = match map { 0 => o.color_map(Box::new(probe)), 1 => o, 2 => o.color_map(hot_map_boxed()), 3 => o.color_map(rgb_map_boxed()), _ => o.color_map(Box::new(|t| { holds("inside the unit interval", t >= 0.0 && t <= 1.0); Rgb([1, 1, 1]) })) };
    vis.draw("x.png", o);
    call("visual::Visualizer::enpixel", (&vis,))
}
// the values 0 .. n - 1 in the given order of size: arbitrary numbers otherwise
fn ordered(n: usize, order: usize, ties: usize) -> Vec<f64> {
    let v = syms("v", n);
    let mut w = v.clone();
    let mut o = Vec::new();
    let mut k = order;
    for _ in 0..n { o.push(k % 10); k = k / 10; }
    for q in 1..n { if bit(ties, q - 1) { w[o[q]] = w[o[q - 1]]; } else { assume(w[o[q]] > w[o[q - 1]]); } }
    w
}
fn share(v: &Vec<f64>, o: usize, n: usize, k: usize) -> f64 {
    let mut e = o;
    for _ in 0..n - 1 { e = e / 10; }
    let (lo, hi) = (v[o % 10], v[e % 10]);
    (v[k] - lo) / (hi - lo)
}
// smallest to zero, largest to one, in proportion between
pub fn normal(n: usize, order: usize, ties: usize, map: usize) {
    let v = ordered(n, order, ties);
    let at = show(n, v.clone(), map);
    for k in 0..n {
        let t = share(&v, order, n, k);
        equal("colour of the normalised value", pixel(at[k].0, at[k].1), match map { 0 => probe(t), 3 => rgb_map(t), _ => hot_map(t) });
    }
}
pub fn within(n: usize, order: usize, ties: usize) {
    let v = ordered(n, order, ties);
    let at = show(n, v.clone(), 9);
    for k in 0..n { equal("coloured", pixel(at[k].0, at[k].1), Rgb([1, 1, 1])); }
}
pub fn equal_values(n: usize, map: usize) {
    let v = vec![sym("v"); n];
    let at = show(n, v.clone(), map);
    for k in 0..n { equal("colour of zero", pixel(at[k].0, at[k].1), match map { 0 => probe(0.0), 3 => rgb_map(0.0), _ => hot_map(0.0) }); }
}
