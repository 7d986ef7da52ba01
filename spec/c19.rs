use super::c18::model;
use super::h::*;
use super::p::*;
use crate::element::constraint::Constraint;
use crate::element::material::Material;
use crate::element::ElementAssemblage;

fn read(s: &str) -> Result<ElementAssemblage, crate::file::FileError> { call("file::bmsh::bmsh_to_elas", (s,)) }
fn read_bound(s: &str) -> Result<crate::mesher::bounds::PlaneBoundary, crate::file::FileError> { call("file::bbnd::bbnd_to_bounds", (s,)) }

/// texts that name no constraint are refused
pub fn constraint_refused() {
    let s = ["", "z", "xyz", "angle:", "angle:abc", "anglo:1", "xx", "angl", "angle", "angle:1 2", "angle: 1", "X"];
    for t in s.iter() { holds("no such constraint", t.parse::<Constraint>().is_err()); }
}

/// texts that name no material are refused
pub fn material_refused() {
    let s = ["", "AL", "al6061", "AL6061 ", "AL60611", "STEEL"];
    for t in s.iter() { holds("no such material", t.parse::<Material>().is_err()); }
}

/// the first k lines of a mesh file are not taken for a mesh
pub fn mesh_truncated(els: usize, cons: usize, fbits: usize, dbits: usize, k: usize) {
    let a = model(1, 1, 4, els, cons, fbits, dbits);
    may_panic();
    let s: String = call("file::bmsh::elas_to_bmsh", (a,));
    strict();
    let n = s.split('\n').count();
    if k < n {
        let mut t = String::new();
        for (i, l) in s.split('\n').enumerate() {
            if i < k { t += l; t += "\n"; }
        }
        holds("a truncated mesh is an error", read(&t).is_err());
    }
}

/// ... nor the text before the last separator of line k
pub fn mesh_cut_line(els: usize, cons: usize, fbits: usize, dbits: usize, k: usize) {
    let a = model(0, 0, 4, els, cons, fbits, dbits);
    may_panic();
    let s: String = call("file::bmsh::elas_to_bmsh", (a,));
    strict();
    let n = s.split('\n').count();
    if k < n {
        let mut t = String::new();
        for (i, l) in s.split('\n').enumerate() {
            if i < k { t += l; t += "\n"; }
            if i == k { t += l.split(' ').next().unwrap(); }
        }
        if k + 1 < n { holds("a truncated mesh is an error", read(&t).is_err()); }
    }
}

/// one line less
pub fn mesh_line_missing(els: usize, cons: usize, fbits: usize, dbits: usize, k: usize) {
    let a = model(0, 0, 4, els, cons, fbits, dbits);
    may_panic();
    let s: String = call("file::bmsh::elas_to_bmsh", (a,));
    strict();
    let n = s.split('\n').count();
    if k < n {
        let mut t = String::new();
        let mut blank = false;
        for (i, l) in s.split('\n').enumerate() {
            if i == k { blank = l.is_empty(); } else { t += l; t += "\n"; }
        }
        if !blank { holds("a mesh with a line missing is an error", read(&t).is_err()); }
    }
}

/// an unknown line after line k
pub fn mesh_unknown_record(which: usize, k: usize) {
    let a = model(1, 1, 4, 3, 25, 3, 1);
    may_panic();
    let s: String = call("file::bmsh::elas_to_bmsh", (a,));
    strict();
    let n = s.split('\n').count();
    if k < n {
        let mut t = String::new();
        for (i, l) in s.split('\n').enumerate() {
            t += l;
            t += "\n";
            if i == k { t += ["$Loads\n", "count 1\n", "7 8 9/9\n", "free\n", "$EndNodes\n"][which]; }
        }
        holds("an unknown record is an error", read(&t).is_err());
    }
}

fn mesh(version: &str, material: &str, condition: &str, nodes: &str, elements: &str, cons: &str, forces: &str, dist: &str) -> String {
    let mut s = String::new();
    s += "$Header\nversion "; s += version;
    s += "\nmaterial "; s += material;
    s += "\ncondition "; s += condition;
    s += "\n$EndHeader\n\n# nodes\n$Nodes\n"; s += nodes;
    s += "$EndNodes\n$Elements\n"; s += elements;
    s += "$EndElements\n$Constraints\n"; s += cons;
    s += "$EndConstraints\n$Forces\n"; s += forces;
    s += "$EndForces\n$DistForces\n"; s += dist;
    s += "$EndDistForces\n";
    s
}

fn nodes() -> String {
    let v = syms("v", 6);
    format!("count 3\n0 {}/{}\n1 {}/{}\n2 {}/{}\n", v[0], v[1], v[2], v[3], v[4], v[5])
}
fn header(version: &str, material: &str, condition: &str) -> String {
    mesh(version, material, condition, &nodes(), "count 0\n", "count 0\n", "count 0\n", "count 0\n")
}
fn sections(elements: &str, cons: &str, forces: &str, dist: &str) -> String {
    mesh("1", "TEST", "planestress 1", &nodes(), elements, cons, forces, dist)
}
fn refused(s: &String) { holds("the file is refused", read(s).is_err()); }

/// the texts these obligations vary are accepted as they are
pub fn mesh_baseline() {
    holds("accepted", read(&header("1", "TEST", "axisymmetric")).is_ok());
    may_panic();
    holds("accepted", read(&sections("count 1\n0 0/1/2\n", "count 1\n2 xy\n", "count 1\n1 1/2\n", "count 1\n0 1 0/1\n")).is_ok());
}

pub fn mesh_bad_header() {
    refused(&header("2", "TEST", "planestress 1"));
    refused(&header("0", "TEST", "planestress 1"));
    refused(&header("", "TEST", "planestress 1"));
    refused(&header("one", "TEST", "planestress 1"));
    refused(&header("256", "TEST", "planestress 1"));
    refused(&header("1", "WOOD", "planestress 1"));
    refused(&header("1", "", "planestress 1"));
    refused(&header("1", "TEST ", "planestress 1"));
    refused(&header("1", "TEST", "planestress"));
    refused(&header("1", "TEST", "planestress x"));
    refused(&header("1", "TEST", "bending 1"));
    refused(&header("1", "TEST", ""));
    refused(&header("1", "TEST", "axisymmetric 3"));
}

/// references to nodes that do not exist
pub fn mesh_bad_node(which: usize, node: usize) {
    let name = ["3", "4", "1000000", "18446744073709551615", "18446744073709551616", "-1", "x", ""][node];
    if which == 0 { refused(&sections(&format!("count 1\n0 0/1/{}\n", name), "count 0\n", "count 0\n", "count 0\n")); }
    if which == 1 { refused(&sections(&format!("count 1\n0 {}/1/0\n", name), "count 0\n", "count 0\n", "count 0\n")); }
    if which == 2 { refused(&sections("count 0\n", &format!("count 1\n{} xy\n", name), "count 0\n", "count 0\n")); }
    if which == 3 { refused(&sections("count 0\n", "count 0\n", &format!("count 1\n{} 1/2\n", name), "count 0\n")); }
    if which == 4 { refused(&sections("count 0\n", "count 0\n", "count 0\n", &format!("count 1\n0 {} 1/2\n", name))); }
    if which == 5 { refused(&sections("count 0\n", "count 0\n", "count 0\n", &format!("count 1\n{} 0 1/2\n", name))); }
}

/// malformed records
pub fn mesh_bad_record() {
    let z = "count 0\n";
    refused(&sections("count 1\n0 0/1\n", z, z, z));
    refused(&sections("count 1\n0 0/1/2/0\n", z, z, z));
    refused(&sections("count 1\n1 0/1/2\n", z, z, z));
    refused(&sections("count 1\n0 \n", z, z, z));
    refused(&sections("count 2\n0 0/1/2\n", z, z, z));
    refused(&sections("count 0\n0 0/1/2\n", z, z, z));
    refused(&sections("count\n", z, z, z));
    refused(&sections("", z, z, z));
    refused(&sections(z, "count 1\n0 q\n", z, z));
    refused(&sections(z, "count 1\n0 angle:\n", z, z));
    refused(&sections(z, "count 1\n0 angle:north\n", z, z));
    refused(&sections(z, "count 1\n0\n", z, z));
    refused(&sections(z, "count 2\n0 x\n", z, z));
    refused(&sections(z, "count 99999999999999999999\n0 x\n", z, z));
    refused(&sections(z, z, "count 1\n0 1/2/3/4\n", z));
    refused(&sections(z, z, "count 1\n0 a/b\n", z));
    refused(&sections(z, z, "count 1\n0 \n", z));
    refused(&sections(z, z, "count 1\n0\n", z));
    refused(&sections(z, z, z, "count 1\n0 1/2\n"));
    refused(&sections(z, z, z, "count 1\n0 1\n"));
    refused(&sections(z, z, z, "count 2\n0 1 1/2\n"));
}

/// malformed node lists
pub fn mesh_bad_nodes() {
    let f = |n: &str| { let z = "count 0\n"; refused(&mesh("1", "TEST", "planestress 1", n, z, z, z, z)); };
    f("count 1\n1 0/0\n");
    f("count 2\n0 0/0\n0 1/1\n");
    f("count 2\n0 0/0\n");
    f("count 1\n0 0/0\n1 1/1\n");
    f("count 1\n0 0/0/0/0\n");
    f("count 1\n0 a/b\n");
    f("count 1\n0 0/\n");
    f("count 1\n0 \n");
    f("count 1\n0\n");
    f("count x\n");
    f("");
}

/// points of one or three coordinates: whatever the answer, no panic
pub fn mesh_dimensions(node: usize, elem: bool, force: bool) {
    let n = ["count 3\n0 1\n1 2\n2 3\n", "count 3\n0 1/2/3\n1 1/5/6\n2 0/0/1\n"][node];
    let z = "count 0\n";
    let r = read(&mesh("1", "TEST", "planestress 1", n, if elem { "count 1\n0 0/1/2\n" } else { z }, z, if force { "count 1\n0 1\n" } else { z }, z));
}

fn bound(body: &str) -> String {
    let v = syms("v", 6);
    let mut s = format!("polygon\n{} {} a\n{} {} b\n{} {} c\nend\n", v[0], v[1], v[2], v[3], v[4], v[5]);
    s += "condition planestress 2\nmaterial TEST";
    s += body;
    s
}
fn refused_bound(s: &str) { holds("the file is refused", read_bound(s).is_err()); }

pub fn bound_baseline() {
    holds("accepted", read_bound(&bound("")).is_ok());
    holds("accepted", read_bound(&bound("\ndistributed_force a b 1 2\ndistributed_constraint b c xy")).is_ok());
}

/// records of a boundary file that do not make sense
pub fn bound_bad_record() {
    let f = |b: &str| refused_bound(&bound(b));
    f("\ndistributed_force a d 1 2");
    f("\ndistributed_force d b 1 2");
    f("\ndistributed_force a b 1");
    f("\ndistributed_force a b x y");
    f("\ndistributed_force a");
    f("\ndistributed_constraint a d xy");
    f("\ndistributed_constraint d a xy");
    f("\ndistributed_constraint a b");
    f("\ndistributed_constraint a b q");
    f("\ndistributed_constraint a b angle:");
    f("\ndistributed_moment a b 1");
    f("\npolygon\nend");
    f("\npolygon\n0 0\n1 1");
    f("\npolygon\n0 0\n1\nend");
    f("\npolygon");
    f("\nmaterial WOOD");
    f("\nmaterial ");
    f("\ncondition planestress");
    f("\ncondition twist 3");
    f("\nend");
    f(" x");
}
