use super::p::*;
use super::h::*;
use crate::matrix::graph::{Graph, Permutation};

// the k-th pair i < j of n nodes
fn pairs(n: usize) -> Vec<(usize, usize)> { let mut v = Vec::new(); for j in 0..n { for i in 0..j { v.push((i, j)); } } v }
fn list(n: usize, bits: usize, style: usize) -> Vec<(usize, usize)> {
    let ps = pairs(n);
    let mut e = Vec::new();
    for k in 0..ps.len() {
        let k = if style % 2 == 1 { ps.len() - 1 - k } else { k };
        if bit(bits, k) {
            let (i, j) = ps[k];
            if style < 2 || k % 2 == 0 { e.push((i, j)); } else { e.push((j, i)); }
            if style == 2 || style == 3 { e.push((j, i)); e.push((i, i)); }
        }
    }
    // the whole list once more, apart from its first mention
    let once = e.len();
    if style >= 4 { for k in 0..once { let (i, j) = e[if style == 4 { k } else { once - 1 - k }]; e.push((i, j)); } }
    e
}
fn matrix(n: usize, bits: usize) -> Vec<bool> {
    let mut m = vec![false; n * n];
    let mut k = 0;
    for (i, j) in pairs(n) { if bit(bits, k) { m[i * n + j] = true; m[j * n + i] = true; } k += 1; }
    m
}
pub fn adjacency(n: usize, bits: usize, style: usize) {
    let g = Graph::from_edges(n, list(n, bits, style));
    let m = matrix(n, bits);
    equal("every node is there", g.vertex_count(), n);
    for v in 0..n {
        let a = g.adjacent(v);
        let mut seen = vec![0; n];
        for w in a.iter() { seen[*w] += 1; }
        let mut d = 0;
        for w in 0..n { equal("neighbours are exactly the edges, each once", seen[w], if m[v * n + w] { 1 } else { 0 }); d += seen[w]; }
        equal("degree", g.degree(v), d);
        equal("as many neighbours as the degree", a.len(), d);
    }
}
pub fn lists(n: usize, bits: usize) {
    let m = matrix(n, bits);
    let mut l = Vec::new();
    for i in 0..n { let mut a = Vec::new(); for j in 0..n { if m[i * n + j] { a.push(j); } } l.push(a); }
    let g = Graph::from_lol(l.clone());
    equal("every node is there", g.vertex_count(), n);
    for v in 0..n {
        let a = g.adjacent(v);
        equal("as many neighbours as listed", a.len(), l[v].len());
        for k in 0..a.len() { equal("neighbours as listed", a[k], l[v][k]); }
        equal("degree", g.degree(v), l[v].len());
    }
    holds("same graph from lists and from edges", g == Graph::from_edges(n, list(n, bits, 0)));
}
pub fn masked(n: usize, bits: usize, keep: usize) {
    let mut g = Graph::from_edges(n, list(n, bits, 0));
    let m = matrix(n, bits);
    let mut mask = Vec::new();
    for i in 0..n { mask.push(bit(keep, i)); }
    for v in 0..n {
        let a = g.adjacent_masked(v, &mask).to_vec();
        let mut seen = vec![0; n];
        for w in a.iter() { seen[*w] += 1; }
        let mut d = 0;
        for w in 0..n { equal("neighbours outside the mask are left out", seen[w], if m[v * n + w] && mask[w] { 1 } else { 0 }); d += seen[w]; }
        equal("masked degree", g.degree_masked(v, &mask), d);
        // asking again gives the same answer
        equal("asked twice", g.adjacent_masked(v, &mask).to_vec(), a);
    }
}
pub fn far(n: usize, bits: usize, root: usize) {
    let mut g = Graph::from_edges(n, list(n, bits, 0));
    let m = matrix(n, bits);
    // distances by relaxation
    let mut dist = vec![99; n];
    dist[root] = 0;
    for _ in 0..n { for i in 0..n { for j in 0..n { if m[i * n + j] && dist[i] + 1 < dist[j] { dist[j] = dist[i] + 1; } } } }
    let mut far = 0;
    for i in 0..n { if dist[i] < 99 && dist[i] > far { far = dist[i]; } }
    let (v, len) = g.far_node(root);
    equal("the distance of the node found", dist[v], len);
    equal("no reachable node is farther", len, far);
    for i in 0..n { if dist[i] == far { holds("ties go to the smaller degree", g.degree(v) <= g.degree(i)); } }
}
pub fn reorder(n: usize, bits: usize, style: usize) {
    let mut g = Graph::from_edges(n, list(n, bits, style));
    let p = g.reverse_cuthill_mckee();
    let mut hit = vec![0; n];
    for i in 0..n { hit[p.permute(i)] += 1; equal("permuting back", p.unpermute(p.permute(i)), i); equal("and forth", p.permute(p.unpermute(i)), i); }
    for i in 0..n { equal("a bijection on all nodes", hit[i], 1); }
    // every node but the last of its component follows a neighbour (the order is a reversed breadth-first one)
    let m = matrix(n, bits);
    for place in 0..n {
        let v = p.unpermute(place);
        let (mut later, mut earlier) = (false, false);
        for w in 0..n { if m[v * n + w] { if p.permute(w) > place { later = true; } else { earlier = true; } } }
        // a node without a later neighbour starts its component: nothing of the component stands behind it
        if !later && earlier {
            let mut comp = vec![false; n];
            comp[v] = true;
            for _ in 0..n { for i in 0..n { for j in 0..n { if m[i * n + j] && comp[i] { comp[j] = true; } } } }
            for w in 0..n { holds("breadth-first within each component", !comp[w] || p.permute(w) <= place); }
        }
    }
    let again = g.reverse_cuthill_mckee();
    holds("the ordering does not depend on earlier queries", again == p);
}
pub fn periph(n: usize, bits: usize) {
    let mut g = Graph::from_edges(n, list(n, bits, 0));
    let m = matrix(n, bits);
    let v = g.pseudo_peripheral();
    holds("a node of the graph", v < n);
    let mut comp = vec![false; n];
    comp[0] = true;
    for _ in 0..n { for i in 0..n { for j in 0..n { if m[i * n + j] && comp[i] { comp[j] = true; } } } }
    holds("of the first node's component", comp[v]);
}
// every permutation of n by code
fn place(code: usize, n: usize) -> Vec<usize> {
    let mut avail: Vec<usize> = Vec::new();
    for k in 0..n { avail.push(k); }
    let mut c = code;
    let mut r = Vec::new();
    for k in 0..n { let m = n - k; r.push(avail.remove(c % m)); c = c / m; }
    r
}
pub fn perm(n: usize, code: usize) {
    let pl = place(code, n);
    let p = permutation(pl.clone());
    for i in 0..n { equal("value x goes to the place where it stands", p.permute(pl[i]), i); equal("and back", p.unpermute(i), pl[i]); }
    let v = syms("v", n);
    let mut w = v.clone();
    p.permute_slice(&mut w);
    for i in 0..n { same("values move with their index", w[p.permute(i)], v[i]); }
    let q = p.clone().invert();
    for i in 0..n { equal("the inverse", q.permute(i), p.unpermute(i)); equal("the inverse back", q.unpermute(i), p.permute(i)); }
    q.permute_slice(&mut w);
    for i in 0..n { same("forth and back leaves a sequence unchanged", w[i], v[i]); }
    holds("inverting twice", q.invert() == p);
    let id = Permutation::identity(n);
    let mut w = v.clone();
    id.permute_slice(&mut w);
    for i in 0..n { equal("identity", id.permute(i), i); equal("identity back", id.unpermute(i), i); same("identity on a sequence", w[i], v[i]); }
    holds("equality of permutations", (p == id) == (code == 0));
}
pub fn perm_bad(a: usize, b: usize, c: usize) {
    may_panic();
    let p = permutation(vec![a, b, c]);
    unreachable("an improper placement is refused");
}
pub fn slice_bad(n: usize, k: usize) {
    let p = Permutation::identity(n);
    let mut v = syms("v", k);
    may_panic();
    p.permute_slice(&mut v);
    unreachable("a sequence of the wrong length is refused");
}
pub fn edge_bad(n: usize, i: usize, j: usize) {
    may_panic();
    let g = Graph::from_edges(n, vec![(i, j)]);
    unreachable("an edge of a node that does not exist is refused");
}
pub fn node_bad(n: usize, v: usize, which: usize) {
    let mut g = Graph::from_edges(n, Vec::new());
    may_panic();
    if which == 0 { let x = g.adjacent(v).len(); } else if which == 1 { let x = g.far_node(v); } else if which == 2 { let x = g.degree(v); } else { let x = g.adjacent_masked(v, &vec![true; n]).len(); }
    unreachable("a node that does not exist is refused");
}
fn edge(k: usize) -> bool {
    match k { 0 => symb("e0"), 1 => symb("e1"), 2 => symb("e2"), 3 => symb("e3"), 4 => symb("e4"), 5 => symb("e5"), 6 => symb("e6"), 7 => symb("e7"), 8 => symb("e8"), _ => symb("e9") }
}
// any graph on n nodes at once: each edge may or may not be there
pub fn any_graph(n: usize, fixed: usize, bits: usize) {
    let mut e = Vec::new();
    let mut m = vec![false; n * n];
    let mut k = 0;
    for (i, j) in pairs(n) {
        let there = if bit(fixed, k) { bit(bits, k) } else { edge(k) };
        if there { e.push((i, j)); }
        m[i * n + j] = there;
        m[j * n + i] = there;
        k += 1;
    }
    let mut g = Graph::from_edges(n, e);
    for v in 0..n {
        let mut seen = vec![0; n];
        for w in g.adjacent(v).iter() { seen[*w] += 1; }
        for w in 0..n { equal("neighbours are exactly the edges, each once", seen[w], if m[v * n + w] { 1 } else { 0 }); }
    }
    let p = g.reverse_cuthill_mckee();
    let mut hit = vec![0; n];
    for i in 0..n { hit[p.permute(i)] += 1; equal("permuting back", p.unpermute(p.permute(i)), i); }
    for i in 0..n { equal("a bijection on all nodes", hit[i], 1); }
}
