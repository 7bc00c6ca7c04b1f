//! Element-wise combination broadcasts scalars and keeps the operand order.
//!
//! The combining function is `q(l, r) = a l + b r + c l r` with symbolic coefficients, or the
//! pairing of both arguments in a two-component scalar, so no argument can be lost, swapped or
//! taken from another index without changing the result; folds use a Horner accumulation, so
//! the order of the visits shows too.  The library is generic in the function it is given.
#![allow(unused_variables, unused_imports)]
#[macro_use]
extern crate aegir;

use aegir::buffers::shapes::*;
use aegir::buffers::{Buffer, Spec, ZipFold, ZipMap, ZipMut};
use aegir::{Function, Node};
use std::cell::Cell;
use symx::*;

struct Q<F>(F, F, F);
impl<F: Fld> Q<F> {
    fn new() -> Self {
        Q(F::inp("qa"), F::inp("qb"), F::inp("qc"))
    }
    fn of(&self, l: F, r: F) -> F {
        self.0 * l + self.1 * r + self.2 * l * r
    }
}

/// Everything `ZipMap` offers, on a given pair of buffers.
macro_rules! zips {
    ($lt:ty, $rt:ty, $l:expr, $r:expr) => {{
        let (l, r): ($lt, $rt) = ($l, $r);
        let q = Q::<F>::new();
        let n = Cell::new(0usize);
        let (bl, br) = (Bag::of(&l), Bag::of(&r));
        let want = bl.zip(&br, |x, y| q.of(x, y));
        let got = ZipMap::zip_map(l.clone(), &r, |x, y| { n.set(n.get() + 1); q.of(x, y) }).unwrap();
        check_buf("zip_map", &got, &want);
        check("zip_map calls", Formula::of(n.replace(0) == want.1.len()));
        let got = ZipMap::zip_map_id(l.clone(), &r, |x, y| { n.set(n.get() + 1); q.of(x, y) }).unwrap();
        check_buf("zip_map_id", &got, &want);
        check("zip_map_id calls", Formula::of(n.replace(0) == want.1.len()));
        let pair = ZipMap::zip_map::<J, _>(l.clone(), &r, |x, y| jet(x, y)).unwrap();
        let wp = bl.zip(&br, |x, y| jet(x, y));
        check_buf("zip_map, left argument", &Bag::of(&pair).map(|p| p.v), &wp.map(|p| p.v));
        check_buf("zip_map, right argument", &Bag::of(&pair).map(|p| p.d), &wp.map(|p| p.d));
        let shape = <$lt as ZipMap<$rt>>::zip_shape(l.clone(), r.shape()).unwrap();
        check_buf("zip_shape", &shape, &bl.zip(&br, |x, _| x));
        check("zip_shape, shape", Formula::of(shape.shape() == got.shape()));
        check("broadcast shape", Formula::of(l.shape().broadcast(r.shape()).ok() == Some(got.shape())));
    }};
}
macro_rules! folds {
    ($l:expr, $r:expr) => {{
        let (l, r) = ($l, $r);
        let q = Q::<F>::new();
        let n = Cell::new(0usize);
        let (i, h) = (F::inp("init"), F::inp("horner"));
        let steps = Bag::of(&l).zip(&Bag::of(&r), |x, y| (x, y)).1;
        let want = steps.iter().fold(i, |a, (x, y)| a * h + q.of(*x, *y));
        let got = ZipFold::zip_fold(&l, &r, i, |a, (x, y)| { n.set(n.get() + 1); a * h + q.of(x, y) }).unwrap();
        Fld::check_eq("zip_fold", got, want);
        check("zip_fold calls", Formula::of(n.get() == steps.len()));
        // an accumulator of another scalar type
        let got = ZipFold::zip_fold::<J, _>(&l, &r, jet(i, h), |a, (x, y)| jet(a.v * h + x, a.d * h + y)).unwrap();
        let want = steps.iter().fold(jet(i, h), |a, (x, y)| jet(a.v * h + *x, a.d * h + *y));
        Fld::check_eq("zip_fold, left argument", got.v, want.v);
        Fld::check_eq("zip_fold, right argument", got.d, want.d);
    }};
}
macro_rules! muts {
    ($l:expr, $r:expr) => {{
        let (mut l, r) = ($l, $r);
        let q = Q::<F>::new();
        let n = Cell::new(0usize);
        let (bl, br) = (Bag::of(&l), Bag::of(&r));
        let res = ZipMut::zip_mut(&mut l, &r, |x, y| { n.set(n.get() + 1); q.of(x, y) });
        check("zip_mut succeeds", Formula::of(res.is_ok()));
        check_buf("zip_mut", &l, &bl.zip(&br, |x, y| q.of(x, y)));
        check_buf("zip_mut, right operand", &r, &br);
        check("zip_mut calls", Formula::of(n.get() == bl.1.len()));
    }};
}

macro_rules! arrays {
    ($v:ident; $($d:tt)*) => { $(
        case!($v, format!("array {}", stringify!($d)), {
            type B<S> = tyf!(S; $d);
            let (l, r): (B<F>, B<F>) = (Dense::inputs("l"), Dense::inputs("r"));
            zips!(B<F>, B<F>, l, r);
            folds!(l, r);
            muts!(l, r);
        });
        case!($v, format!("array {} and scalar", stringify!($d)), {
            type B<S> = tyf!(S; $d);
            let (l, r): (B<F>, F) = (Dense::inputs("l"), Dense::inputs("r"));
            zips!(B<F>, F, l, r);
            folds!(l, r);
            muts!(l, r);
        });
        case!($v, format!("scalar and array {}", stringify!($d)), {
            type B<S> = tyf!(S; $d);
            let (l, r): (F, B<F>) = (Dense::inputs("l"), Dense::inputs("r"));
            zips!(F, B<F>, l, r);
        });
    )* };
}

/// `Spec::zip_map` applies the function to the denoted entries, in order.
macro_rules! specs {
    ($v:ident; $($tag:literal $l:tt $r:tt,)*) => { $(
        case!($v, format!("structured {}", $tag), {
            type L<S> = tyf!(S; $l);
            type R<S> = tyf!(S; $r);
            let (l, r): (Lf<L<F>>, Lf<R<F>>) = (leaf("l"), leaf("r"));
            let (a, b, c) = (F::inp("qa"), F::inp("qb"), F::inp("qc"));
            let (bl, br) = (Bag::of(&l.raw), Bag::of(&r.raw));
            // q(0, 0) = 0, as diagonal pairs require
            let f = |x: F, y: F| a * x + b * y + c * x * y;
            let got = l.spec.clone().zip_map(&r.spec, f).unwrap();
            check_buf("Spec::zip_map", &expand(&got), &bl.zip(&br, f));
            let got = l.spec.clone().map(|x| f(x, b));
            check_buf("Spec::map", &expand(&got), &bl.map(|x| f(x, b)));
        });
    )* };
}

fn main() {
    let mut v = vec![];

    arrays!(v; [1] [2] [3] [4] [7] [1 1] [1 3] [2 2] [2 3] [3 2] [3 3] [4 1] [1 2 1] [2 2 2] [2 1 3] [2 3 2] [3 1 2]
        [1 1 2 1] [2 1 2 2] [1 2 1 3] [2 2 2 2] [2 3 1 2] [1 1 1 1 2] [2 1 1 2 3] [1 2 2 1 2] [2 2 2 2 2] [3 1 2 1 1]);
    arrays!(v; [0] [0 2] [2 0] [2 0 1]);
    arrays!(v; [9] [17] [33] [65] [129] [257] [17 16] [2 129] [129 2] [7 6 7] [9 2] [2 17] [3 9] [1 2 9] [9 1 2] [1 9 1 2] [1 1 2 1 9]);

    case!(v, "scalars", {
        let (l, r) = (F::inp("l"), F::inp("r"));
        zips!(F, F, l, r);
        folds!(l, r);
    });
    case!(v, "pairs", {
        let (l, r): ((F, F), (F, F)) = (Dense::inputs("l"), Dense::inputs("r"));
        zips!((F, F), (F, F), l, r);
        folds!(l, r);
    });
    // run-time sized vectors, of every length up to the bound and also of unequal lengths
    case!(v, "vectors", {
        let (n, m) = (pick("n", if thorough() { 8 } else { 5 }), pick("m", if thorough() { 8 } else { 5 }));
        let l: Vec<F> = (0..n).map(|i| F::inp(&format!("l_{}", i))).collect();
        let r: Vec<F> = (0..m).map(|i| F::inp(&format!("r_{}", i))).collect();
        if n == m {
            zips!(Vec<F>, Vec<F>, l.clone(), r.clone());
            folds!(l, r);
        } else {
            let q = Q::<F>::new();
            let e = |r: Option<IncompatibleShapes<SDynamic<1>>>| Formula::of(r.map_or(false, |e| e.left.0 == [n] && e.right.0 == [m]));
            check("zip_map error", e(ZipMap::zip_map(l.clone(), &r, |x: F, y: F| q.of(x, y)).err()));
            check("zip_map_id error", e(ZipMap::zip_map_id(l.clone(), &r, |x: F, y: F| q.of(x, y)).err()));
            check("zip_shape error", e(<Vec<F> as ZipMap<Vec<F>>>::zip_shape(l.clone(), r.shape()).err()));
            check("zip_fold error", e(ZipFold::zip_fold(&l, &r, q.0, |a: F, (x, y): (F, F)| a + q.of(x, y)).err()));
        }
    });
    case!(v, "vectors, long", {
        let n = [8, 9, 16, 17, 33, 65, 129, 257, 1030][pick("n", 9)];
        let l: Vec<F> = (0..n).map(|i| F::inp(&format!("l_{}", i))).collect();
        let r: Vec<F> = (0..n).map(|i| F::inp(&format!("r_{}", i))).collect();
        zips!(Vec<F>, Vec<F>, l.clone(), r.clone());
        folds!(l.clone(), r.clone());
        zips!(Vec<F>, F, l, F::inp("s"));
        zips!(F, Vec<F>, F::inp("s"), r);
    });
    case!(v, "vector and scalar", {
        let n = pick("n", if thorough() { 8 } else { 6 });
        let l: Vec<F> = (0..n).map(|i| F::inp(&format!("l_{}", i))).collect();
        zips!(Vec<F>, F, l, F::inp("r"));
    });
    case!(v, "scalar and vector", {
        let n = pick("n", if thorough() { 8 } else { 6 });
        let r: Vec<F> = (0..n).map(|i| F::inp(&format!("r_{}", i))).collect();
        zips!(F, Vec<F>, F::inp("l"), r);
    });

    specs!(v; "s,s" [s] [s], "pair" [t] [t], "3" [3] [3], "3,s" [3] [s], "s,3" [s] [3], "2x3" [2 3] [2 3], "3x3" [3 3] [3 3],
        "2x2,s" [2 2] [s], "s,2x3" [s] [2 3], "2x1x2" [2 1 2] [2 1 2], "s,2x2x2" [s] [2 2 2], "2x2x2,s" [2 2 2] [s],
        "1x2x1x2" [1 2 1 2] [1 2 1 2], "2x1x2x1x2" [2 1 2 1 2] [2 1 2 1 2], "s,1x2x1x2" [s] [1 2 1 2],);
    main_with("C07", v);
}
