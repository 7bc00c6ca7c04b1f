//! Shape algebra, the part that is not integers-only: shapes as the buffers report them, and the
//! recorded defect of the zero-dimensional run-time shape.  The rest is decided in kani/src/c10.rs.
#![allow(unused_variables, unused_imports)]
#[macro_use]
extern crate aegir;

use aegir::buffers::shapes::*;
use aegir::buffers::{Arrays, Buffer, Class};
use symx::*;

macro_rules! shapes {
    ($v:ident; $($d:tt $st:ident [$($n:literal),*];)*) => { $(
        case!($v, format!("buffer {}", stringify!($d)), {
            type B<S> = tyf!(S; $d);
            let b: B<F> = Dense::inputs("x");
            let s: $st<$($n),*> = b.shape();
            let dims: Vec<usize> = vec![$($n),*];
            check("cardinality", Formula::of(s.cardinality() == b.flat().len()));
            check("as many indices as entries", Formula::of(s.indices().count() == b.flat().len()));
            // reading at the enumerated indices gives the entries in row-major order
            let got: Vec<F> = s.indices().map(|ix| b.get(ix).unwrap()).collect();
            check_buf("entries in index order", &got, &b.flat());
            let text = dims.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(" \u{00D7} ");
            check("printed shape", Formula::of(s.to_string() == text));
        });
    )* };
}

fn main() {
    let mut v = vec![];
    shapes!(v; [0] S1[0]; [1] S1[1]; [4] S1[4]; [9] S1[9]; [1 1] S2[1, 1]; [2 3] S2[2, 3]; [3 2] S2[3, 2]; [5 4] S2[5, 4]; [1 7] S2[1, 7];
        [2 1 3] S3[2, 1, 3]; [3 4 2] S3[3, 4, 2]; [1 2 1 3] S4[1, 2, 1, 3]; [2 3 2 4] S4[2, 3, 2, 4]; [2 1 3 1 2] S5[2, 1, 3, 1, 2]; [3 2 1 2 3] S5[3, 2, 1, 2, 3];);
    case!(v, "run-time vectors", {
        let n = pick("n", 7);
        let b: Vec<F> = (0..n).map(|i| F::inp(&format!("x_{}", i))).collect();
        let s = b.shape();
        check("cardinality", Formula::of(s.cardinality() == n && s == SDynamic([n])));
        let got: Vec<F> = s.indices().map(|ix| b.get(ix).unwrap()).collect();
        check_buf("entries in index order", &got, &b);
        let e = IncompatibleShapes { left: SDynamic([n]), right: SDynamic([n + 1]) };
        check("printed error", Formula::of(e.to_string() == format!("Buffer shapes are incompatible: SDynamic([{}]) vs SDynamic([{}]).", n, n + 1)));
    });
    case!(v, "run-time shapes of every extent up to three", {
        let s: [usize; 3] = [pick("a", 4), pick("b", 4), pick("c", 4)];
        let sh = SDynamic(s);
        let mut want = vec![];
        for i in 0..s[0] { for j in 0..s[1] { for k in 0..s[2] { want.push([i, j, k]); } } }
        check("cardinality", Formula::of(sh.cardinality() == want.len()));
        check("indices", Formula::of(sh.indices().collect::<Vec<_>>() == want));
        let stop = pick("stop", 5).min(want.len());
        let mut it = sh.indices();
        for _ in 0..stop { it.next(); }
        check("size_hint", Formula::of(it.size_hint() == (want.len() - stop, Some(want.len() - stop))));
        check("count", Formula::of(it.count() == want.len() - stop));
    });
    // Known finding: one entry according to the cardinality, none according to the enumeration.
    case!(v, "known/zero-dimensional run-time shape", {
        let s = SDynamic::<0>([]);
        check("indices", Formula::of(s.indices().count() == s.cardinality()));
    });
    case!(v, "pinned/zero-dimensional run-time shape", {
        let s = SDynamic::<0>([]);
        check("cardinality", Formula::of(s.cardinality() == 1));
        check("contains", Formula::of(s.contains([])));
        check("indices", Formula::of(s.indices().count() <= 1 && s.indices().all(|ix| ix == [])));
    });
    main_with("C10", v);
}
