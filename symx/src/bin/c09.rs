//! Reading, mapping, mutating, folding and summing a buffer are mutually consistent.
#![allow(unused_variables, unused_imports)]
#[macro_use]
extern crate aegir;

use aegir::buffers::shapes::*;
use aegir::buffers::{Arrays, Buffer, Class, IntoSpec, Scalars, Spec, Tuples, Vecs};
use aegir::Function;
use std::cell::Cell;
use symx::*;

/// All index tuples with components up to `max`, for checked access.
fn grid(rank: usize, max: usize) -> Vec<Vec<usize>> {
    (0..rank).fold(vec![vec![]], |acc, _| {
        acc.into_iter().flat_map(|p| (0..=max).map(move |i| p.iter().copied().chain([i]).collect())).collect()
    })
}
trait At: Copy {
    fn of_slice(v: &[usize]) -> Self;
}
impl At for () {
    fn of_slice(v: &[usize]) -> Self {}
}
impl At for usize {
    fn of_slice(v: &[usize]) -> Self {
        v[0]
    }
}
impl<const N: usize> At for [usize; N] {
    fn of_slice(v: &[usize]) -> Self {
        v.try_into().unwrap()
    }
}

macro_rules! laws {
    ($bt:ty, $b:expr, $dims:expr) => {{
        let (b, dims): ($bt, Vec<usize>) = ($b, $dims);
        let bag = Bag(dims.clone(), b.flat());
        type I = IndexOf<ShapeOf<$bt>>;

        check_buf("shape", &b, &bag);
        // access: exactly the indices inside the shape
        let max = dims.iter().copied().max().unwrap_or(0) + 1;
        for ix in grid(dims.len(), max) {
            let inside = ix.iter().zip(&dims).all(|(i, n)| i < n);
            let got = b.get(I::of_slice(&ix));
            check("get is Some exactly inside", Formula::of(got.is_some() == inside));
            if inside {
                let k = ix.iter().zip(&dims).fold(0, |k, (i, n)| k * n + i);
                Fld::check_eq("get", got.unwrap(), bag.1[k]);
                Fld::check_eq("get_unchecked", b.get_unchecked(I::of_slice(&ix)), bag.1[k]);
            }
        }
        // mapping, with an arbitrary quadratic and with an injection into another field
        let (p, q, r) = (F::inp("p"), F::inp("q"), F::inp("r"));
        let f = |x: F| p + q * x + r * x * x;
        let n = Cell::new(0usize);
        let want = bag.map(f);
        let m = Buffer::map(b.clone(), |x| { n.set(n.get() + 1); f(x) });
        check_buf("map", &m, &want);
        check("map, shape", Formula::of(m.shape() == b.shape()));
        check("map visits each entry once", Formula::of(n.replace(0) == want.1.len()));
        let m = b.map_ref(|x| { n.set(n.get() + 1); f(x) });
        check_buf("map_ref", &m, &want);
        check("map_ref, shape", Formula::of(m.shape() == b.shape()));
        check("map_ref visits each entry once", Formula::of(n.replace(0) == want.1.len()));
        let mut m = b.clone();
        m.mutate(|x| { n.set(n.get() + 1); f(x) });
        check_buf("mutate", &m, &want);
        check("mutate visits each entry once", Formula::of(n.replace(0) == want.1.len()));
        check_buf("operand of map_ref", &b, &bag);
        let m = Buffer::map::<J, _>(b.clone(), |x| jet(x, f(x)));
        check_buf("map to another field (v)", &Bag::of(&m).map(|e| e.v), &bag);
        check_buf("map to another field (d)", &Bag::of(&m).map(|e| e.d), &want);
        let m = b.map_ref::<J, _>(|x| jet(x, f(x)));
        check_buf("map_ref to another field (v)", &Bag::of(&m).map(|e| e.v), &bag);
        check_buf("map_ref to another field (d)", &Bag::of(&m).map(|e| e.d), &want);
        // folding, in index order
        let h = F::inp("h");
        let got = b.fold(p, |a, x| { n.set(n.get() + 1); a * h + x });
        Fld::check_eq("fold", got, bag.1.iter().fold(p, |a, x| a * h + *x));
        check("fold visits each entry once", Formula::of(n.replace(0) == want.1.len()));
        // an accumulator that is not even a scalar
        let got: Vec<F> = b.fold(vec![], |mut a: Vec<F>, x| { a.push(x); a });
        check_buf("fold into a list", &got, &bag.1);
        Fld::check_eq("sum", b.sum(), bag.1.iter().fold(F::lit(0, 1), |a, x| a + *x));
        Fld::check_eq("sum is a fold", b.sum(), b.fold(F::lit(0, 1), |a, x| a + x));
        Fld::check_eq("sum of a map", b.map_ref(|x| q * x).sum(), q * bag.1.iter().fold(F::lit(0, 1), |a, x| a + *x));
        // wrappers
        check_buf("into_constant", &b.clone().into_constant().0, &bag);
        check_buf("into_constant, evaluated", &ev(&b.clone().into_constant()), &bag);
        let s = b.clone().into_spec();
        check("into_spec, shape", Formula::of(s.shape() == b.shape()));
        check_buf("into_spec", &s.unwrap(), &bag);
        check_buf("clone", &b.clone(), &bag);
    }};
}

macro_rules! arrays {
    ($v:ident; $($d:tt $dims:expr;)*) => { $(
        case!($v, format!("array {}", stringify!($d)), {
            type B<S> = tyf!(S; $d);
            let b: B<F> = Dense::inputs("x");
            laws!(B<F>, b, $dims.to_vec());
        });
    )* };
}

fn main() {
    let mut v = vec![];
    case!(v, "scalar", {
        laws!(F, F::inp("x"), vec![]);
    });
    case!(v, "pair", {
        laws!((F, F), (F::inp("x"), F::inp("y")), vec![2]);
    });
    case!(v, "vector", {
        let n = pick("n", if thorough() { 10 } else { 7 });
        let x: Vec<F> = (0..n).map(|i| F::inp(&format!("x_{}", i))).collect();
        laws!(Vec<F>, x, vec![n]);
    });
    // longer than any block a loop could be split into, with a remainder
    case!(v, "vector, long", {
        let n = [8, 9, 16, 17, 33, 65, 129, 257, 1030][pick("n", 9)];
        let x: Vec<F> = (0..n).map(|i| F::inp(&format!("x_{}", i))).collect();
        laws!(Vec<F>, x, vec![n]);
    });
    arrays!(v; [9] [9]; [17] [17]; [33] [33]; [65] [65]; [129] [129]; [257] [257]; [17 16] [17, 16]; [2 129] [2, 129]; [129 2] [129, 2]; [7 6 7] [7, 6, 7]; [9 10] [9, 10]; [2 17] [2, 17]; [17 2] [17, 2]; [2 3 9] [2, 3, 9]; [9 2 1] [9, 2, 1];
        [1 9 1 2] [1, 9, 1, 2]; [2 1 1 1 9] [2, 1, 1, 1, 9];);
    arrays!(v; [0] [0]; [1] [1]; [2] [2]; [3] [3]; [4] [4]; [6] [6];
        [1 1] [1, 1]; [1 3] [1, 3]; [3 1] [3, 1]; [2 2] [2, 2]; [2 3] [2, 3]; [3 2] [3, 2]; [3 3] [3, 3]; [2 5] [2, 5]; [4 3] [4, 3];
        [1 1 1] [1, 1, 1]; [1 2 3] [1, 2, 3]; [3 1 2] [3, 1, 2]; [2 3 1] [2, 3, 1]; [2 2 2] [2, 2, 2]; [2 3 2] [2, 3, 2]; [3 2 4] [3, 2, 4];
        [1 2 1 2] [1, 2, 1, 2]; [2 1 3 1] [2, 1, 3, 1]; [2 2 2 2] [2, 2, 2, 2]; [1 3 2 2] [1, 3, 2, 2]; [3 1 2 4] [3, 1, 2, 4];
        [1 1 2 1 1] [1, 1, 2, 1, 1]; [2 1 1 2 3] [2, 1, 1, 2, 3]; [1 3 2 1 2] [1, 3, 2, 1, 2]; [2 2 2 2 2] [2, 2, 2, 2, 2]; [3 1 2 2 1] [3, 1, 2, 2, 1];);
    main_with("C09", v);
}
