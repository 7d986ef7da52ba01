use super::p::*;
use super::h::*;
use crate::element::constraint::Constraint;
use crate::element::material::{self, Material};
use crate::element::strain::Condition;
use crate::element::{ElementAssemblage, ElementDescriptor, NodeId};
use crate::spatial::Point;

pub fn con(kind: usize, theta: f64) -> Constraint {
    match kind {
        0 => Constraint::Free,
        1 => Constraint::XFixed,
        2 => Constraint::YFixed,
        3 => Constraint::XYFixed,
        _ => Constraint::AngleFixed(theta),
    }
}

fn same_con(what: &str, a: Constraint, b: Constraint) {
    match (a, b) {
        (Constraint::AngleFixed(x), Constraint::AngleFixed(y)) => same(what, x, y),
        (x, y) => holds(what, x == y),
    }
}

fn same_cond(what: &str, a: Condition, b: Condition) {
    match (a, b) {
        (Condition::PlaneStress(x), Condition::PlaneStress(y)) => same(what, x, y),
        (Condition::PlaneStrain(x), Condition::PlaneStrain(y)) => same(what, x, y),
        (Condition::Axisymmetric, Condition::Axisymmetric) => holds(what, true),
        _ => holds(what, false),
    }
}

fn same_mat(a: Material, b: Material) {
    holds("material name", a.name == b.name);
    same("youngs", a.youngs, b.youngs);
    same("poisson", a.poisson, b.poisson);
    same("density", a.density, b.density);
}

pub fn cond(kind: usize) -> Condition {
    match kind {
        0 => Condition::PlaneStress(sym("t")),
        1 => Condition::PlaneStrain(sym("t")),
        _ => Condition::Axisymmetric,
    }
}

fn mat(kind: usize) -> Material {
    if kind == 0 { material::AL6061 } else { material::TEST }
}

/// the text of a constraint reads back as that constraint
pub fn constraint_text(kind: usize) {
    let c = con(kind, sym("theta"));
    let s = c.to_string();
    match s.parse::<Constraint>() {
        Ok(d) => same_con("constraint read back", d, c),
        Err(_) => holds("the printed constraint is accepted", false),
    }
}

/// distinct constraints have distinct texts
pub fn constraint_distinct(a: usize, b: usize) {
    let (x, y) = (con(a, sym("theta")), con(b, sym("phi")));
    holds("different constraints read differently", x.to_string() != y.to_string());
}

/// the name of a material reads back as that material
pub fn material_text(kind: usize) {
    let c = mat(kind);
    match c.to_string().parse::<Material>() {
        Ok(d) => same_mat(d, c),
        Err(_) => holds("the printed material is accepted", false),
    }
}

fn tri(elas: &mut ElementAssemblage, ids: &Vec<NodeId>, a: usize, b: usize, c: usize) {
    elas.add_element(ElementDescriptor::new([ids[a], ids[b], ids[c]]));
}

pub fn model(material: usize, condition: usize, n: usize, els: usize, cons: usize, fbits: usize, dbits: usize) -> ElementAssemblage {
    let mut elas = ElementAssemblage::new(mat(material), cond(condition));
    let v = syms("v", 2 * n);
    let mut pts = Vec::new();
    for i in 0..n { pts.push(pt(&[v[2 * i], v[2 * i + 1]])); }
    let ids = elas.add_nodes(&pts);
    if els & 1 == 1 { tri(&mut elas, &ids, 0, 1, 2); }
    if els & 2 == 2 { tri(&mut elas, &ids, 2, 0, 3 % n); }
    if els & 4 == 4 { tri(&mut elas, &ids, n - 1, n - 2, 0); }
    let th = syms("theta", n);
    let mut c = cons;
    for i in 0..n {
        elas.add_constraint(ids[i], con(c % 5, th[i]));
        c /= 5;
    }
    let f = syms("f", 2 * n);
    for i in 0..n { if bit(fbits, i) { elas.add_conc_force(ids[i], pt(&[f[2 * i], f[2 * i + 1]])); } }
    let d = syms("d", 2 * n);
    for i in 0..n { if bit(dbits, i) { elas.add_dist_line_force(ids[i], ids[(i + 1) % n], pt(&[d[2 * i], d[2 * i + 1]])); } }
    elas
}

fn same_pt(what: &str, a: Point, b: Point) {
    holds("dimension", a.dim() == b.dim());
    same(what, a[0], b[0]);
    same(what, a[1], b[1]);
}

fn compare(a: &ElementAssemblage, b: &ElementAssemblage) {
    same_mat(a.material(), b.material());
    same_cond("condition", a.condition(), b.condition());
    let (x, y) = (a.nodes(), b.nodes());
    holds("number of nodes", x.len() == y.len());
    for i in 0..x.len() { same_pt("node", x[i], y[i]); }
    let (x, y) = (a.element_descriptors(), b.element_descriptors());
    holds("number of elements", x.len() == y.len());
    for i in 0..x.len() {
        let (p, q) = (x[i].clone().into_parts(), y[i].clone().into_parts());
        for k in 0..3 { holds("element node", p[k].into_idx() == q[k].into_idx()); }
    }
    let (x, y) = (a.constraints(), b.constraints());
    holds("number of constraints", x.len() == y.len());
    for i in 0..x.len() {
        holds("constrained node", x[i].0.into_idx() == y[i].0.into_idx());
        same_con("constraint", x[i].1, y[i].1);
    }
    let (x, y) = (a.conc_forces(), b.conc_forces());
    holds("number of forces", x.len() == y.len());
    for i in 0..x.len() {
        let mut found = 0;
        for j in 0..y.len() {
            if x[i].0.into_idx() == y[j].0.into_idx() {
                found += 1;
                same_pt("force", x[i].1, y[j].1);
            }
        }
        holds("force at its node", found == 1);
    }
    let (x, y) = (a.dist_forces(), b.dist_forces());
    holds("number of distributed forces", x.len() == y.len());
    for i in 0..x.len() {
        let mut found = 0;
        for j in 0..y.len() {
            let (p, q) = (x[i].0, y[j].0);
            if p.0.into_idx() == q.0.into_idx() && p.1.into_idx() == q.1.into_idx() {
                found += 1;
                same_pt("distributed force", x[i].1, y[j].1);
            }
        }
        holds("distributed force at its edge", found == 1);
    }
}

/// a mesh written and read again is the same model
pub fn mesh_round_trip(material: usize, condition: usize, n: usize, els: usize, cons: usize, fbits: usize, dbits: usize) {
    let a = model(material, condition, n, els, cons, fbits, dbits);
    may_panic();
    let s: String = call("file::bmsh::elas_to_bmsh", (a,));
    let a = model(material, condition, n, els, cons, fbits, dbits);
    let r: Result<ElementAssemblage, crate::file::FileError> = call("file::bmsh::bmsh_to_elas", (s.as_str(),));
    match r {
        Ok(b) => compare(&a, &b),
        Err(_) => holds("the written mesh is accepted", false),
    }
}

/// the records of a boundary description end up in the boundary
pub fn boundary_read(condition: usize, constraint: usize, labels: usize) {
    let v = syms("v", 6);
    let (th, fx, fy) = (sym("theta"), sym("fx"), sym("fy"));
    let mut s = String::new();
    s += "polygon";
    for i in 0..3 {
        s += &format!("\n{} {}", v[2 * i], v[2 * i + 1]);
        if bit(labels, i) { s += [" a", " b", " c9"][i]; }
    }
    s += "\nend\ncondition ";
    s += &cond(condition).to_string();
    s += "\nmaterial AL6061";
    let (forced, held) = (bit(labels, 0) && bit(labels, 1), bit(labels, 1) && bit(labels, 2));
    if forced { s += &format!("\ndistributed_force a b {} {}", fx, fy); }
    if held { s += &format!("\ndistributed_constraint b c9 {}", con(constraint, th)); }
    let r: Result<crate::mesher::bounds::PlaneBoundary, crate::file::FileError> = call("file::bbnd::bbnd_to_bounds", (s.as_str(),));
    match r {
        Err(_) => holds("the boundary is accepted", false),
        Ok(b) => {
            match b.condition() { Some(c) => same_cond("condition", c, cond(condition)), None => holds("there is a condition", false) }
            match b.material() { Some(m) => same_mat(m, material::AL6061), None => holds("there is a material", false) }
            let vs: Vec<crate::mesher::Vertex> = b.all_vertices().map(|x| *x).collect();
            holds("number of vertices", vs.len() == 3);
            for i in 0..3 {
                let (q, _) = crate::mesher::bounds::Segment(vs[i], vs[i]).get();
                same("vertex", q.x, v[2 * i]);
                same("vertex", q.y, v[2 * i + 1]);
                holds("side of the polygon", b.is_segment((vs[i], vs[(i + 1) % 3])));
            }
            let fs = b.all_distributed_forces();
            holds("forces", fs.len() == if forced { 1 } else { 0 });
            for (s, f) in fs {
                holds("forced side", s.0 == vs[0] && s.1 == vs[1]);
                same("force", f.x, fx);
                same("force", f.y, fy);
            }
            for (x, c) in b.all_constraints() {
                holds("held vertex", held && (x == vs[1] || x == vs[2]));
                same_con("constraint", c, con(constraint, th));
            }
            if held { holds("constraints", b.all_constraints().len() == 2); }
        }
    }
}
