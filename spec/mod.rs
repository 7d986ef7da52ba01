//! Obligations: client programs of the crate's public interface.  They are type-checked together with
//! the crate and then only analysed, never executed.  The functions below are primitives of the analysis.
#![allow(warnings)]

pub mod p {
    /// an arbitrary real
    pub fn sym(name: &str) -> f64 { unimplemented!() }
    /// n arbitrary reals
    pub fn syms(name: &str, n: usize) -> Vec<f64> { unimplemented!() }
    /// an arbitrary natural number
    pub fn symn(name: &str) -> usize { unimplemented!() }
    /// an arbitrary boolean
    pub fn symb(name: &str) -> bool { unimplemented!() }
    /// restrict attention to the inputs satisfying c
    pub fn assume(c: bool) { unimplemented!() }
    /// obligation: a and b are the same real
    pub fn same(what: &str, a: f64, b: f64) { unimplemented!() }
    /// obligation: a and b are the same polynomial up to coefficients below 1e-9 (for rounded irrational constants)
    pub fn near(what: &str, a: f64, b: f64) { unimplemented!() }
    /// obligation: a and b are structurally equal
    pub fn equal<T>(what: &str, a: T, b: T) { unimplemented!() }
    /// obligation: c holds
    pub fn holds(what: &str, c: bool) { unimplemented!() }
    /// obligation: control never gets here
    pub fn unreachable(what: &str) -> ! { unimplemented!() }
    /// from here on a panic is an accepted outcome
    pub fn may_panic() { unimplemented!() }
    /// panics so far are accepted; from here on they are not
    pub fn strict() { unimplemented!() }
    /// apply a function of the crate given by path (also a private one; no verdict when it does not exist)
    pub fn call<A, R>(path: &str, args: A) -> R { unimplemented!() }
    /// the same for a function with one type parameter, instantiated with T
    pub fn call_with<T, A, R>(path: &str, args: A) -> R { unimplemented!() }
    /// from here on, loops whose end depends on arbitrary values are followed for n rounds only (0: no limit)
    pub fn rounds(n: usize) { unimplemented!() }
    /// from here on, calls of the function `path` are summarised by the contract `by` (a function of this module)
    pub fn contract(path: &str, by: &str) { unimplemented!() }
    /// from here on, floating-point operations on constants round to double precision (otherwise floats are reals)
    pub fn rounding(on: bool) { unimplemented!() }
    pub fn permutation(place: Vec<usize>) -> crate::matrix::graph::Permutation { call("matrix::graph::Permutation::from_placement", (place,)) }
    /// the pixels written so far
    pub fn writes(img: &image::RgbImage) -> Vec<(u32, u32, image::Rgb<u8>)> { unimplemented!() }
    /// how many images have been written out
    pub fn saved() -> usize { unimplemented!() }
    /// width and height of the last image written out
    pub fn size() -> (u32, u32) { unimplemented!() }
    /// colour of a pixel of the last image written out
    pub fn pixel(x: u32, y: u32) -> image::Rgb<u8> { unimplemented!() }
}

pub mod h {
    use super::p::*;
    use crate::matrix::{Dictionary, LinearMatrix, MatrixLike};

    pub fn bit(bits: usize, k: usize) -> bool { (bits >> k) & 1 == 1 }
    pub fn count(n: usize, bits: usize) -> usize { let mut s = 0; for k in 0..n { if bit(bits, k) { s += 1; } } s }
    pub fn diagbits(n: usize) -> usize { let mut s = 0; for k in 0..n { s += 1 << (k * n + k); } s }
    /// values with the given sparsity pattern
    pub fn pattern(name: &str, n: usize, bits: usize) -> Vec<f64> {
        let mut v = syms(name, n);
        for k in 0..n { if !bit(bits, k) { v[k] = 0.0; } }
        v
    }
    /// dictionary holding an arbitrary value in every position of the pattern
    pub fn dict(r: usize, c: usize, bits: usize) -> (Dictionary, Vec<f64>) { dictn("a", r, c, bits) }
    pub fn dictn(name: &str, r: usize, c: usize, bits: usize) -> (Dictionary, Vec<f64>) {
        let v = pattern(name, r * c, bits);
        let mut d = Dictionary::zeros((r, c));
        for i in 0..r { for j in 0..c { if bit(bits, i * c + j) { d.put((i, j), v[i * c + j]); } } }
        (d, v)
    }
    pub fn lowerpart(v: &Vec<f64>, n: usize) -> Vec<f64> {
        let mut w = v.clone();
        for i in 0..n { for j in i + 1..n { w[i * n + j] = 0.0; } }
        w
    }
    pub fn pt(x: &[f64]) -> crate::spatial::Point { crate::spatial::Point::new(x) }
    pub fn nonzero(v: &Vec<f64>) { for x in v.iter() { assume(*x != 0.0); } }
}
