use super::h::*;
use super::p::*;
use crate::spatial::Point;
use crate::visual::color::{hot_map, BACK, STDCOL};
use crate::visual::{VisOptions, Visualizer};
use image::Rgb;

type Pix = (u32, u32);
type At = (isize, isize);

fn far(a: isize, b: isize) -> isize { if a > b { a - b } else { b - a } }
fn digits(mut k: usize) -> Vec<usize> {
    let mut v = Vec::new();
    while k > 1 { v.push(k % 10); k = k / 10; }
    v.reverse();
    v
}

// ---- lines: both ends, one pixel per step of the longer direction, never off the ideal line
fn is_line(v: &Vec<At>, a: At, b: At) {
    let (dx, dy) = (far(a.0, b.0), far(a.1, b.1));
    let flat = dx >= dy;
    let n = if flat { dx } else { dy };
    equal("one pixel per step", v.len() as isize, n + 1);
    let mut ends = (0, 0);
    for k in 0..v.len() {
        let q = v[k];
        if q == a { ends.0 += 1; }
        if q == b { ends.1 += 1; }
        // within half a pixel: |(q - a) x (b - a)| <= n / 2
        let c = (q.0 - a.0) * (b.1 - a.1) - (q.1 - a.1) * (b.0 - a.0);
        let (lo, hi) = (-n, n);
        holds("near the ideal line", 2 * c >= lo && 2 * c <= hi);
        holds("between the ends", far(q.0, a.0) + far(q.0, b.0) == dx && far(q.1, a.1) + far(q.1, b.1) == dy);
        if k > 0 {
            let s = (far(q.0, v[k - 1].0), far(q.1, v[k - 1].1));
            holds("connected", s.0 <= 1 && s.1 <= 1 && s.0 + s.1 >= 1 && (if flat { s.0 == 1 } else { s.1 == 1 }));
        }
    }
    equal("starts and ends", ends, (1, 1));
}
fn swap(a: At, b: At, f: usize) -> (At, At) { if bit(f, 0) { (b, a) } else { (a, b) } }
// every line from one point to the border of the square of radius r around it
pub fn lines(ox: isize, oy: isize, r: isize, flip: usize) {
    for t in -r..r + 1 {
        for side in 0..4 {
            let e = match side { 0 => (ox + t, oy + r), 1 => (ox + t, oy - r), 2 => (ox + r, oy + t), _ => (ox - r, oy + t) };
            let (a, b) = swap((ox, oy), e, flip);
            let v: Vec<At> = call("visual::bresenham::line", (a, b));
            is_line(&v, a, b);
        }
    }
}
pub fn pixel_lines(ox: u32, oy: u32, r: u32, flip: usize) {
    for t in 0..2 * r + 1 {
        for side in 0..4 {
            let e = match side { 0 => (ox + t - r, oy + r), 1 => (ox + t - r, oy - r), 2 => (ox + r, oy + t - r), _ => (ox - r, oy + t - r) };
            let o = (ox, oy);
            let v: Vec<Pix> = if bit(flip, 0) { call("visual::bresenham::line_unsigned", (&e, &o)) } else { call("visual::bresenham::line_unsigned", (&o, &e)) };
            let mut w: Vec<At> = Vec::new();
            for q in v.iter() { w.push((q.0 as isize, q.1 as isize)); }
            is_line(&w, (ox as isize, oy as isize), (e.0 as isize, e.1 as isize));
        }
    }
}

pub fn long_line(ax: isize, ay: isize, bx: isize, by: isize) {
    let (a, b) = ((ax, ay), (bx, by));
    let v: Vec<At> = call("visual::bresenham::line", (a, b));
    is_line(&v, a, b);
    if ax >= 0 && ay >= 0 && bx >= 0 && by >= 0 {
        let v: Vec<Pix> = call("visual::bresenham::line_unsigned", (&(ax as u32, ay as u32), &(bx as u32, by as u32)));
        let mut w: Vec<At> = Vec::new();
        for q in v.iter() { w.push((q.0 as isize, q.1 as isize)); }
        is_line(&w, a, b);
    }
}
// ---- dots: the points around a pixel, never before the first one
pub fn dot(x: u32, y: u32) {
    let v: Vec<Pix> = call("visual::fill::dot_points", (x, y));
    let mut mid = false;
    for k in 0..v.len() {
        let q = v[k];
        if q == (x, y) { mid = true; }
        holds("around the centre", q.0 + 3 > x && q.0 < x + 3 && q.1 + 3 > y && q.1 < y + 3);
    }
    holds("the centre itself", mid);
    // one connected piece: its neighbours come with every pixel
    for q in v.iter() {
        let mut near = q == &(x, y);
        for s in v.iter() {
            let d = (far(q.0 as isize, s.0 as isize), far(q.1 as isize, s.1 as isize));
            if d.0 + d.1 == 1 && far(s.0 as isize, x as isize) + far(s.1 as isize, y as isize) < far(q.0 as isize, x as isize) + far(q.1 as isize, y as isize) { near = true; }
        }
        holds("in one piece", near);
    }
}

// ---- triangles: every pixel of the triangle once, with the value interpolated between the corners
fn cross(a: At, b: At, c: At) -> isize { (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0) }
fn at(q: Pix) -> At { (q.0 as isize, q.1 as isize) }
pub fn triangle(d: usize) {
    let g = digits(d);
    let c = [(g[0] as u32, g[1] as u32), (g[2] as u32, g[3] as u32), (g[4] as u32, g[5] as u32)];
    let v = syms("v", 3);
    let got: Vec<(Pix, f64)> = call("visual::fill::triangle_interp", ([c[0], c[1], c[2]], [v[0], v[1], v[2]]));
    let whole = cross(at(c[0]), at(c[1]), at(c[2]));
    let s = if whole > 0 { 1 } else { -1 };
    let mut inside = 0;
    for x in 0..10u32 {
        for y in 0..10u32 {
            let q = at((x, y));
            let w = [cross(q, at(c[1]), at(c[2])), cross(at(c[0]), q, at(c[2])), cross(at(c[0]), at(c[1]), q)];
            if s * w[0] >= 0 && s * w[1] >= 0 && s * w[2] >= 0 {
                inside += 1;
                let mut times = 0;
                for k in 0..got.len() {
                    if got[k].0 == (x, y) {
                        times += 1;
                        same("interpolated value", got[k].1 * whole as f64, v[0] * w[0] as f64 + v[1] * w[1] as f64 + v[2] * w[2] as f64);
                    }
                }
                equal("pixel of the triangle", times, 1);
            }
        }
    }
    equal("no pixel besides", got.len(), inside);
}

// a larger triangle: only its number of pixels and some of them
pub fn large(ax: u32, ay: u32, bx: u32, by: u32, cx: u32, cy: u32) {
    let c = [(ax, ay), (bx, by), (cx, cy)];
    let v = syms("v", 3);
    let got: Vec<(Pix, f64)> = call("visual::fill::triangle_interp", (c, [v[0], v[1], v[2]]));
    let whole = cross(at(c[0]), at(c[1]), at(c[2]));
    let s = if whole > 0 { 1 } else { -1 };
    let (mut lo, mut hi) = ((ax, ay), (ax, ay));
    for q in c.iter() {
        if q.0 < lo.0 { lo.0 = q.0; } if q.1 < lo.1 { lo.1 = q.1; }
        if q.0 > hi.0 { hi.0 = q.0; } if q.1 > hi.1 { hi.1 = q.1; }
    }
    let mut inside = 0;
    let mut all = 0;
    for x in lo.0..hi.0 + 1 { for y in lo.1..hi.1 + 1 {
        let q = at((x, y));
        if s * cross(q, at(c[1]), at(c[2])) >= 0 && s * cross(at(c[0]), q, at(c[2])) >= 0 && s * cross(at(c[0]), at(c[1]), q) >= 0 { inside += 1; all += (x * 1000 + y) as usize; }
    } }
    equal("as many pixels as the triangle has", got.len(), inside);
    let mut sum = 0;
    for k in 0..got.len() {
        let (x, y) = got[k].0;
        sum += (x * 1000 + y) as usize;
        let q = at((x, y));
        let w = [cross(q, at(c[1]), at(c[2])), cross(at(c[0]), q, at(c[2])), cross(at(c[0]), at(c[1]), q)];
        holds("a pixel of the triangle", s * w[0] >= 0 && s * w[1] >= 0 && s * w[2] >= 0);
        if k % 7 == 0 { same("interpolated value", got[k].1 * whole as f64, v[0] * w[0] as f64 + v[1] * w[1] as f64 + v[2] * w[2] as f64); }
    }
    equal("each of them once", sum, all);
}
// which pixels a triangle has, with the rounding of the actual arithmetic
pub fn covered(d: usize, shift: u32, turn: usize) {
    let g = digits(d);
    let c = [(g[0] as u32 + shift, g[1] as u32), (g[2] as u32 + shift, g[3] as u32), (g[4] as u32 + shift, g[5] as u32)];
    let c = if turn == 0 { c } else if turn == 1 { [c[1], c[2], c[0]] } else if turn == 2 { [c[2], c[0], c[1]] } else { [c[0], c[2], c[1]] };
    if cross(at(c[0]), at(c[1]), at(c[2])) == 0 { return; }
    rounding(true);
    let got: Vec<(Pix, f64)> = call("visual::fill::triangle_interp", (c, [0.0, 0.5, 1.0]));
    rounding(false);
    let whole = cross(at(c[0]), at(c[1]), at(c[2]));
    let s = if whole > 0 { 1 } else { -1 };
    let mut inside = 0;
    for x in 0..13 { for y in 0..13 {
        let q = at((x + shift, y));
        if s * cross(q, at(c[1]), at(c[2])) >= 0 && s * cross(at(c[0]), q, at(c[2])) >= 0 && s * cross(at(c[0]), at(c[1]), q) >= 0 {
            inside += 1;
            let mut times = 0;
            for k in 0..got.len() { if got[k].0 == (x + shift, y) { times += 1; } }
            equal("pixel of the triangle", times, 1);
        }
    } }
    equal("no pixel besides", got.len(), inside);
}
// ---- mapping to pixels
fn place(kind: usize, k: usize) -> (usize, Vec<f64>) {
    let s = |v: &[f64]| v.to_vec();
    match kind {
        0 => (1, s(&[1.0, 3.5])),
        1 => (1, s(&[-4.0])),
        2 => (1, s(&[7.0, 7.0, 7.0])),
        3 => (1, s(&[5.0, -2.0, 1.0, -1000.0, 40.0])),
        4 => (2, s(&[1.0, 2.0, -25.0, 37.0, 12.0, -5.0])),
        5 => (2, s(&[0.0, 0.0, 1.0, 0.0, 0.0, 1.0, 1.0, 1.0])),
        6 => (2, s(&[100.5, 200.0, 100.5, 208.0, 100.75, 199.0])),
        7 => (2, s(&[3.0, 3.0, 3.0, 3.0])),
        8 => (2, s(&[-8.0, 2.0, 8.0, 2.0, 0.0, 2.0])),
        9 => (2, s(&[2.0, -80.0, 2.0, 80.0])),
        10 => (2, s(&[0.001, 0.002, 0.003, 0.001, 0.002, 0.003])),
        11 => (2, s(&[-1000.0, -1000.0, -990.0, -1000.0, -995.0, -993.0])),
        12 => (3, s(&[-1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, -1.0, 1.0, -1.0, -1.0, 1.0, -1.0, 1.0, -1.0, 1.0, 1.0, -1.0, 1.0, -1.0, -1.0, -1.0, -1.0, -1.0])),
        13 => (3, s(&[0.0, 0.0, 0.0, 5.0, 0.0, 0.0])),
        14 => (3, s(&[0.0, 0.0, 0.0, 0.0, 5.0, 0.0])),
        15 => (3, s(&[0.0, 0.0, 0.0, 0.0, 0.0, 5.0, 3.0, 4.0, 5.0])),
        16 => (3, s(&[7.0, 8.0, 9.0])),
        _ => {
            let mut v = Vec::new();
            let mut x = k * 7 + kind;
            for _ in 0..12 { x = (x * 37 + 11) % 101; v.push(x as f64 - 50.0); }
            (1 + kind % 3, v)
        }
    }
}
fn points(kind: usize, k: usize) -> (usize, Vec<Point>) {
    let (dim, v) = place(kind, k);
    let mut p = Vec::new();
    for q in 0..v.len() / dim { p.push(pt(&v[q * dim..(q + 1) * dim])); }
    (dim, p)
}
fn abs(x: f64) -> f64 { if x < 0.0 { -x } else { x } }
pub fn pixels(kind: usize, k: usize, size: u32) {
    let (dim, p) = points(kind, k);
    let mut vis: Visualizer = p.clone().into();
    vis.draw("x.png", VisOptions::new().im_size(size));
    equal("square image of the requested size", pixel_size(), (size, size));
    let at: Vec<Pix> = call("visual::Visualizer::enpixel", (&vis,));
    equal("one pixel per point", at.len(), p.len());
    for q in 0..at.len() {
        holds("inside the image", at[q].0 < size && at[q].1 < size);
        // the dot is there
        equal("dot drawn", pixel(at[q].0, at[q].1), STDCOL[0]);
    }
    if dim < 3 {
        // same proportions in both directions, y pointing up
        let mut scale = 0.0;
        for q in 0..p.len() {
            for r in 0..p.len() {
                for d in 0..dim {
                    let w = abs(p[q][d] - p[r][d]);
                    if w > scale { scale = w; }
                }
            }
        }
        if scale > 0.0 {
            let mut span: isize = 0;
            for q in 0..p.len() {
                for r in 0..p.len() {
                    let w = (far(at[q].0 as isize, at[r].0 as isize), far(at[q].1 as isize, at[r].1 as isize));
                    if w.0 > span { span = w.0; }
                    if w.1 > span { span = w.1; }
                }
            }
            holds("uses the image", size < 6 || 2 * span > size as isize);
            for q in 0..p.len() {
                for r in 0..p.len() {
                    let dx = (at[q].0 as isize - at[r].0 as isize) as f64;
                    let dy = (at[r].1 as isize - at[q].1 as isize) as f64;
                    let wx = (p[q][0] - p[r][0]) / scale * span as f64;
                    let wy = if dim > 1 { (p[q][1] - p[r][1]) / scale * span as f64 } else { 0.0 };
                    holds("proportions", abs(dx - wx) <= 2.0 && abs(dy - wy) <= 2.0);
                }
            }
        }
    }
}
fn pixel_size() -> (u32, u32) { size() }
// two points anywhere on a line
pub fn anywhere(dim: usize, axis: usize, size: u32) {
    let v = syms("x", 2);
    assume(v[0] != v[1]);
    let mut a = vec![1.0; dim];
    let mut b = vec![1.0; dim];
    a[axis] = v[0];
    b[axis] = v[1];
    let mut vis: Visualizer = vec![pt(&a), pt(&b)].into();
    vis.draw("x.png", VisOptions::new().im_size(size).show_mesh(false));
    let at: Vec<Pix> = call("visual::Visualizer::enpixel", (&vis,));
    for q in 0..2 { holds("inside the image", at[q].0 < size && at[q].1 < size); }
    let (u, w) = if axis == 0 { (at[0].0, at[1].0) } else { (at[1].1, at[0].1) };
    holds("in their order", if v[0] < v[1] { u < w } else { u >= w });
}

// points in space are seen along one direction, without distortion
pub fn seen() {
    let v = syms("x", 6);
    let mut p = vec![pt(&[0.0, 0.0, 0.0]), pt(&[1.0, 0.0, 0.0]), pt(&[0.0, 1.0, 0.0]), pt(&[0.0, 0.0, 1.0])];
    p.push(pt(&v[0..3]));
    p.push(pt(&v[3..6]));
    let q: Vec<(f64, f64)> = call("visual::project", (p,));
    equal("one place per point", q.len(), 6);
    near("the origin stays", q[0].0, 0.0);
    near("the origin stays", q[0].1, 0.0);
    let e = [q[1], q[2], q[3]];
    let (mut xx, mut xy, mut yy) = (0.0, 0.0, 0.0);
    for r in e.iter() { xx += r.0 * r.0; xy += r.0 * r.1; yy += r.1 * r.1; }
    near("lengths along the picture", xx, 1.0);
    near("lengths up the picture", yy, 1.0);
    near("at right angles", xy, 0.0);
    for k in 0..2 {
        let (mut a, mut b) = (0.0, 0.0);
        for r in 0..3 { a += v[3 * k + r] * e[r].0; b += v[3 * k + r] * e[r].1; }
        near("parallel", q[4 + k].0, a);
        near("parallel", q[4 + k].1, b);
    }
}
// without options: the usual size, mesh and colours
pub fn usual() {
    let p = vec![pt(&[0.0, 0.0]), pt(&[4.0, 0.0]), pt(&[0.0, 3.0])];
    let mut vis: Visualizer = p.clone().into();
    vis.set_edges(vec![(0, 1), (2, 0)]);
    vis.draw("x.png", ());
    equal("size", size(), (256, 256));
    let at: Vec<Pix> = call("visual::Visualizer::enpixel", (&vis,));
    for q in at.iter() { equal("dots are drawn", pixel(q.0, q.1), STDCOL[0]); }
    let (a, b, c) = (at[0], at[1], at[2]);
    equal("edges are drawn", pixel((a.0 + b.0) / 2, a.1), Rgb([0, 255, 0]));
    equal("edges are drawn", pixel(a.0, (a.1 + c.1) / 2), Rgb([0, 255, 0]));
    equal("background", pixel(a.0 + 20, a.1 - 20), BACK);
    let mut other: Visualizer = p.into();
    other.set_edges(vec![(0, 1), (2, 0)]);
    other.draw("y.png", VisOptions::new().show_mesh(false));
    equal("size", size(), (256, 256));
    equal("no edges", pixel((a.0 + b.0) / 2, a.1), BACK);
    equal("no dots", pixel(a.0, a.1), BACK);
}
// the picture of a deformation: the displaced nodes with the edges and triangles of the mesh
pub fn deformed(which: usize, sz: u32) {
    let (mut a, n) = super::c16::solid(which, 0);
    let (es, ts) = (a.edges(), a.triangles());
    let d = a.calc_displacements::<super::c16::Still>();
    let mut vis = d.visualize(1.5);
    vis.set_vals(vec![1.0; n]);
    vis.draw("x.png", VisOptions::new().im_size(sz));
    let at: Vec<Pix> = call("visual::Visualizer::enpixel", (&vis,));
    let mut one = Vec::new();
    for x in 0..sz { for y in 0..sz { one.push(pixel(x, y)); } }
    let mut other: Visualizer = d.displaced_nodes(1.5).into();
    equal("where the nodes are displaced to", call::<_, Vec<Pix>>("visual::Visualizer::enpixel", (&other,)).len(), n);
    other.set_edges(es);
    other.set_triangles(ts);
    other.set_vals(vec![1.0; n]);
    other.draw("y.png", VisOptions::new().im_size(sz));
    let want: Vec<Pix> = call("visual::Visualizer::enpixel", (&other,));
    equal("where the nodes are displaced to", at, want);
    let mut k = 0;
    for x in 0..sz { for y in 0..sz { equal("pixel", one[k], pixel(x, y)); k += 1; } }
}

// ---- the whole picture
pub fn picture(kind: usize, k: usize, sz: u32, mesh: bool, edges: usize, tris: usize, mode: usize) {
    let (_, p) = points(kind, k);
    let n = p.len();
    let mut vis: Visualizer = p.clone().into();
    let mut colors = vec![0; n];
    if bit(mode, 0) {
        // further points in a color of their own
        let more = vec![p[0], p[n - 1]];
        vis.add_points(more, 2);
        colors.push(2);
        colors.push(2);
    }
    let de = digits(edges);
    let mut e = Vec::new();
    for q in 0..de.len() / 2 { e.push((de[2 * q], de[2 * q + 1])); }
    vis.set_edges(e.clone());
    let dt = digits(tris);
    let mut t = Vec::new();
    for q in 0..dt.len() / 3 { t.push((dt[3 * q], dt[3 * q + 1], dt[3 * q + 2])); }
    vis.set_triangles(t.clone());
    let vals = bit(mode, 1);
    if vals { vis.set_vals(vec![4.0; colors.len()]); }
    let opt = VisOptions::new().im_size(sz).show_mesh(mesh);
    let opt = if bit(mode, 2) { opt.color_map(Box::new(|x| Rgb([9, 8, 7]))) } else { opt };
    vis.draw("x.png", opt);
    equal("one image written", saved(), 1);
    equal("size", size(), (sz, sz));
    let at: Vec<Pix> = call("visual::Visualizer::enpixel", (&vis,));
    // painted in this order: triangles, edges, dots
    let mut want = vec![BACK; (sz * sz) as usize];
    if vals {
        for w in t.iter() {
            let c = [at_i(at[w.0]), at_i(at[w.1]), at_i(at[w.2])];
            let s = if cross(c[0], c[1], c[2]) > 0 { 1 } else { -1 };
            for x in 0..sz {
                for y in 0..sz {
                    let q = (x as isize, y as isize);
                    if s * cross(q, c[1], c[2]) >= 0 && s * cross(c[0], q, c[2]) >= 0 && s * cross(c[0], c[1], q) >= 0 {
                        want[(x * sz + y) as usize] = if bit(mode, 2) { Rgb([9, 8, 7]) } else { hot_map(0.0) };
                    }
                }
            }
        }
    }
    if mesh {
        for w in e.iter() {
            if w.0 < at.len() && w.1 < at.len() {
                let l: Vec<Pix> = call("visual::bresenham::line_unsigned", (&at[w.0], &at[w.1]));
                for q in l.iter() { want[(q.0 * sz + q.1) as usize] = Rgb([0, 255, 0]); }
            }
        }
        for q in 0..at.len() {
            let l: Vec<Pix> = call("visual::fill::dot_points", (at[q].0, at[q].1));
            for d in l.iter() { if d.0 < sz && d.1 < sz { want[(d.0 * sz + d.1) as usize] = STDCOL[colors[q]]; } }
        }
    }
    for x in 0..sz {
        for y in 0..sz { equal("pixel", pixel(x, y), want[(x * sz + y) as usize]); }
    }
}
fn at_i(q: Pix) -> At { (q.0 as isize, q.1 as isize) }

// ---- refusals
pub fn refused(what: usize) {
    may_panic();
    if what == 0 {
        let vis: Visualizer = vec![pt(&[1.0, 2.0]), pt(&[1.0, 2.0, 3.0])].into();
        unreachable("points of different dimension in one picture");
    }
    if what == 1 {
        let vis: Visualizer = vec![pt(&[1.0, 2.0, 3.0]), pt(&[1.0, 2.0])].into();
        unreachable("points of different dimension in one picture");
    }
    let mut vis: Visualizer = vec![pt(&[1.0, 2.0]), pt(&[3.0, 2.0])].into();
    if what == 2 {
        vis.set_vals(vec![1.0]);
        unreachable("fewer values than points");
    }
    if what == 3 {
        vis.set_vals(vec![1.0, 2.0, 3.0]);
        unreachable("more values than points");
    }
    if what == 4 {
        vis.set_vals(vec![1.0, 2.0]);
        vis.add_points(vec![pt(&[1.0, 1.0])], 1);
        unreachable("points added after the values");
    }
}
