//! Tensor contractions compute the mathematical contraction, entry by entry, for every rank pair.
#![allow(unused_variables, unused_imports)]
#[macro_use]
extern crate aegir;

use aegir::buffers::shapes::*;
use aegir::buffers::{Buffer, Contract as CTrait, Spec};
use aegir::ids::{W, X, Y, Z};
use aegir::ops::*;
use aegir::{Differentiable, Function, Identifier, Node};
use symx::*;

/// The contraction over `axes` axes, written on indices: the last `axes` axes of the left operand
/// against the first `axes` axes of the right one; scalars multiply whatever they meet.
fn oracle<F: Fld>(axes: usize, ld: &[usize], l: &[F], rd: &[usize], r: &[F]) -> Bag<F> {
    let axes = if ld.is_empty() || rd.is_empty() { 0 } else { axes };
    let (a, c) = ld.split_at(ld.len() - axes);
    let (c2, b) = rd.split_at(axes);
    assert_eq!(c, c2, "symx: contracted extents differ");
    let (n, z, m): (usize, usize, usize) = (a.iter().product(), c.iter().product(), b.iter().product());
    let mut out = vec![];
    for i in 0..n {
        for j in 0..m {
            out.push((0..z).fold(F::lit(0, 1), |acc, k| acc + l[i * z + k] * r[k * m + j]));
        }
    }
    let mut dims = a.to_vec();
    dims.extend(b);

    Bag(dims, out)
}

macro_rules! contractions {
    ($v:ident; $axes:literal; $($tag:literal $l:tt $r:tt $o:tt,)*) => { $(
        case!($v, format!("{}:{}", $axes, $tag), {
            type L<S> = tyf!(S; $l);
            type R<S> = tyf!(S; $r);
            type O<S> = tyf!(S; $o);
            let (l, r): (Lf<L<F>>, Lf<R<F>>) = (leaf("l"), leaf("r"));
            let want = oracle($axes, &l.raw.dims(), &l.raw.flat(), &r.raw.dims(), &r.raw.flat());
            let got: O<F> = <L<F> as CTrait<R<F>, $axes>>::contract(l.raw.clone(), r.raw.clone()).unwrap();
            check_buf("contract", &got, &want);
            let spec = <L<F> as CTrait<R<F>, $axes>>::contract_spec(l.spec.clone(), r.spec.clone()).unwrap();
            check("contract_spec shape", Formula::of(spec.shape() == got.shape()));
            check_buf("contract_spec", &expand(&spec), &want);
            let shape = <L<F> as CTrait<R<F>, $axes>>::contract_shape(l.raw.shape(), r.raw.shape()).unwrap();
            check("contract_shape", Formula::of(shape == got.shape()));
            check_buf("buffers::contract", &aegir::buffers::contract::<$axes, L<F>, R<F>>(l.raw.clone(), r.raw.clone()).unwrap(), &want);
            check_buf("buffers::contract_spec", &expand(&aegir::buffers::contract_spec::<$axes, L<F>, R<F>>(l.spec.clone(), r.spec.clone()).unwrap()), &want);
            check("buffers::contract_shape", Formula::of(
                aegir::buffers::contract_shape::<$axes, L<F>, R<F>>(l.raw.shape(), r.raw.shape()).unwrap() == got.shape()));
            let node = Contract::<$axes, _, _>::new(l, r);
            check_buf("node", &ev(&node), &want);
            check_buf("node, structured", &expand(&ev_spec(&node)), &want);
            check("node, shape", Formula::of(ev_shape(&node) == got.shape()));
        });
    )* };
}

fn main() {
    let mut v = vec![];

    contractions!(v; 0;
        "s,s" [s] [s] [s],
        "1,s" [1] [s] [1], "2,s" [2] [s] [2], "5,s" [5] [s] [5], "s,1" [s] [1] [1], "s,3" [s] [3] [3], "s,5" [s] [5] [5],
        "1x1,s" [1 1] [s] [1 1], "2x3,s" [2 3] [s] [2 3], "3x2,s" [3 2] [s] [3 2], "2x2,s" [2 2] [s] [2 2], "1x4,s" [1 4] [s] [1 4],
        "s,1x1" [s] [1 1] [1 1], "s,2x3" [s] [2 3] [2 3], "s,3x2" [s] [3 2] [3 2], "s,2x2" [s] [2 2] [2 2], "s,4x1" [s] [4 1] [4 1],
        "1,1" [1] [1] [1 1], "1,2" [1] [2] [1 2], "1,3" [1] [3] [1 3], "2,1" [2] [1] [2 1], "2,2" [2] [2] [2 2], "2,3" [2] [3] [2 3],
        "3,1" [3] [1] [3 1], "3,2" [3] [2] [3 2], "3,3" [3] [3] [3 3], "4,2" [4] [2] [4 2], "2,4" [2] [4] [2 4],
    );
    contractions!(v; 1;
        "s,s" [s] [s] [s], "1,1" [1] [1] [s], "2,2" [2] [2] [s], "3,3" [3] [3] [s], "4,4" [4] [4] [s], "6,6" [6] [6] [s],
        "1x1,1" [1 1] [1] [1], "2x2,2" [2 2] [2] [2], "3x3,3" [3 3] [3] [3], "4x4,4" [4 4] [4] [4],
        "1,1x1" [1] [1 1] [1], "1,1x2" [1] [1 2] [2], "1,1x3" [1] [1 3] [3],
        "2,2x1" [2] [2 1] [1], "2,2x2" [2] [2 2] [2], "2,2x3" [2] [2 3] [3],
        "3,3x1" [3] [3 1] [1], "3,3x2" [3] [3 2] [2], "3,3x3" [3] [3 3] [3], "4,4x2" [4] [4 2] [2], "2,2x4" [2] [2 4] [4],
        "1x1,1x1" [1 1] [1 1] [1 1], "1x1,1x2" [1 1] [1 2] [1 2], "1x1,1x3" [1 1] [1 3] [1 3],
        "1x2,2x1" [1 2] [2 1] [1 1], "1x2,2x2" [1 2] [2 2] [1 2], "1x2,2x3" [1 2] [2 3] [1 3],
        "1x3,3x1" [1 3] [3 1] [1 1], "1x3,3x2" [1 3] [3 2] [1 2], "1x3,3x3" [1 3] [3 3] [1 3],
        "2x1,1x1" [2 1] [1 1] [2 1], "2x1,1x2" [2 1] [1 2] [2 2], "2x1,1x3" [2 1] [1 3] [2 3],
        "2x2,2x1" [2 2] [2 1] [2 1], "2x2,2x2" [2 2] [2 2] [2 2], "2x2,2x3" [2 2] [2 3] [2 3],
        "2x3,3x1" [2 3] [3 1] [2 1], "2x3,3x2" [2 3] [3 2] [2 2], "2x3,3x3" [2 3] [3 3] [2 3],
        "3x1,1x1" [3 1] [1 1] [3 1], "3x1,1x2" [3 1] [1 2] [3 2], "3x1,1x3" [3 1] [1 3] [3 3],
        "3x2,2x1" [3 2] [2 1] [3 1], "3x2,2x2" [3 2] [2 2] [3 2], "3x2,2x3" [3 2] [2 3] [3 3],
        "3x3,3x1" [3 3] [3 1] [3 1], "3x3,3x2" [3 3] [3 2] [3 2], "3x3,3x3" [3 3] [3 3] [3 3],
        "4x2,2x3" [4 2] [2 3] [4 3], "2x4,4x3" [2 4] [4 3] [2 3], "2x3,3x4" [2 3] [3 4] [2 4], "4x4,4x4" [4 4] [4 4] [4 4],
    );

    // longer than any block a loop could be split into, with a remainder
    contractions!(v; 0;
        "9,s" [9] [s] [9], "17,s" [17] [s] [17], "s,9" [s] [9] [9], "s,17" [s] [17] [17], "9x2,s" [9 2] [s] [9 2], "2x17,s" [2 17] [s] [2 17],
        "s,9x2" [s] [9 2] [9 2], "s,2x17" [s] [2 17] [2 17], "9,2" [9] [2] [9 2], "2,9" [2] [9] [2 9], "5,17" [5] [17] [5 17], "257,s" [257] [s] [257], "s,257" [s] [257] [257], "16,17" [16] [17] [16 17],
    );
    contractions!(v; 1;
        "5,5" [5] [5] [s], "7,7" [7] [7] [s], "8,8" [8] [8] [s], "9,9" [9] [9] [s], "16,16" [16] [16] [s], "17,17" [17] [17] [s], "33,33" [33] [33] [s], "65,65" [65] [65] [s], "129,129" [129] [129] [s], "257,257" [257] [257] [s], "1030,1030" [1030] [1030] [s], "17x16,16x2" [17 16] [16 2] [17 2],
        "5x5,5" [5 5] [5] [5], "9x9,9" [9 9] [9] [9], "9,9x2" [9] [9 2] [2], "2,2x9" [2] [2 9] [9], "17,17x2" [17] [17 2] [2],
        "2x9,9x2" [2 9] [9 2] [2 2], "9x2,2x2" [9 2] [2 2] [9 2], "2x2,2x9" [2 2] [2 9] [2 9], "1x17,17x1" [1 17] [17 1] [1 1], "5x5,5x5" [5 5] [5 5] [5 5],
    );

    case!(v, "method/dot", {
        let (l, r): (Lf<[F; 3]>, Lf<[F; 3]>) = (leaf("l"), leaf("r"));
        let want = oracle(1, &[3], &l.raw.flat(), &[3], &r.raw.flat());
        check_buf("dot", &ev(&l.clone().dot(r.clone())), &want);
        let (m, w): (Lf<[[F; 2]; 3]>, Lf<[F; 3]>) = (leaf("m"), leaf("w"));
        let want = oracle(1, &[3], &w.raw.flat(), &[3, 2], &m.raw.flat());
        check_buf("vec.mat", &ev(&w.clone().dot(m.clone())), &want);
        let n: Lf<[[F; 4]; 2]> = dense("n");
        let want = oracle(1, &[3, 2], &m.raw.flat(), &[2, 4], &n.raw.flat());
        check_buf("mat.mat", &ev(&m.dot(n)), &want);
    });
    // Bilinearity, stated on the expression level.
    macro_rules! bilinear {
        ($($axes:literal $tag:literal $l:tt $r:tt,)*) => { $(
            case!(v, concat!("bilinear/", $axes, ":", $tag), {
                type L<S> = tyf!(S; $l);
                type R<S> = tyf!(S; $r);
                let (a, b): (Lf<L<F>>, Lf<L<F>>) = (dense("a"), dense("b"));
                let (c, d): (Lf<R<F>>, Lf<R<F>>) = (dense("c"), dense("d"));
                let k: Lf<F> = dense("k");
                let dot = |l: L<F>, r: R<F>| aegir::buffers::contract::<$axes, L<F>, R<F>>(l, r).unwrap();
                let (ac, bc, ad) = (Bag::of(&dot(a.raw, c.raw)), Bag::of(&dot(b.raw, c.raw)), Bag::of(&dot(a.raw, d.raw)));
                check_buf("left", &ev(&Contract::<$axes, _, _>::new(Add(a.clone(), Mul(b, k.clone())), c.clone())), &ac.zip(&bc, |x, y| x + k.raw * y));
                check_buf("right", &ev(&Contract::<$axes, _, _>::new(a, Sub(c, Mul(k.clone(), d)))), &ac.zip(&ad, |x, y| x - k.raw * y));
            });
        )* };
    }
    bilinear!(0 "2,3" [2] [3], 0 "3,s" [3] [s], 0 "s,2x3" [s] [2 3], 1 "3,3" [3] [3], 1 "2,2x3" [2] [2 3], 1 "2x3,3x2" [2 3] [3 2], 1 "2x2,2" [2 2] [2],);

    // Associativity and the transpose law tie the rank pairs to one another.
    case!(v, "laws", {
        let (x, y): ([F; 2], [F; 3]) = (Dense::inputs("x"), Dense::inputs("y"));
        let (m, n): ([[F; 3]; 2], [[F; 2]; 3]) = (Dense::inputs("m"), Dense::inputs("n"));
        use aegir::buffers::contract as c;
        let xm: [F; 3] = c::<1, _, _>(x, m).unwrap();
        let mn: [[F; 2]; 2] = c::<1, _, _>(m, n).unwrap();
        let xmn: [F; 2] = c::<1, _, _>(xm, n).unwrap();
        check_buf("(xM)N = x(MN)", &xmn, &c::<1, _, _>(x, mn).unwrap());
        let mnx: [F; 2] = c::<1, _, _>(mn, x).unwrap();
        check_buf("(xM)N.x = x.((MN)x)", &c::<1, _, _>(xmn, x).unwrap(), &c::<1, _, _>(x, mnx).unwrap());
        check_buf("(xM).y = x.(My)", &c::<1, _, _>(xm, y).unwrap(), &(0..2).fold(F::lit(0, 1), |a, i| a + x[i] * (0..3).fold(F::lit(0, 1), |b, j| b + m[i][j] * y[j])));
        let xy: [[F; 3]; 2] = c::<0, _, _>(x, y).unwrap();
        let xx = c::<1, _, _>(x, x).unwrap();
        check_buf("x(x⊗y) = (x.x)y", &c::<1, _, _>(x, xy).unwrap(), &c::<0, _, _>(xx, y).unwrap());
    });

    // Known finding: matrix times vector is typed [[F; M]; N] . [F; N] -> [F; M].  Every square case
    // above is row-times-vector; what the non-square ones ought to be under that type is the sum
    // over the axis of length N.
    case!(v, "known/matrix times vector, 3x2", {
        let (m, y): ([[F; 2]; 3], [F; 3]) = (Dense::inputs("m"), Dense::inputs("y"));
        let want: [F; 2] = std::array::from_fn(|j| (0..3).fold(F::lit(0, 1), |a, i| a + m[i][j] * y[i]));
        check_buf("contract", &<[[F; 2]; 3] as CTrait<[F; 3], 1>>::contract(m, y).unwrap(), &want);
    });
    case!(v, "known/matrix times vector, 2x3", {
        let (m, y): ([[F; 3]; 2], [F; 2]) = (Dense::inputs("m"), Dense::inputs("y"));
        let want: [F; 3] = std::array::from_fn(|j| (0..2).fold(F::lit(0, 1), |a, i| a + m[i][j] * y[i]));
        check_buf("contract", &<[[F; 3]; 2] as CTrait<[F; 2], 1>>::contract(m, y).unwrap(), &want);
    });
    case!(v, "pinned/matrix times vector, 3x2", {
        let (m, y): ([[F; 2]; 3], [F; 3]) = (Dense::inputs("m"), Dense::inputs("y"));
        let want: [F; 2] = std::array::from_fn(|i| (0..2).fold(F::lit(0, 1), |a, k| a + m[i][k] * y[k]));
        let ought: [F; 2] = std::array::from_fn(|j| (0..3).fold(F::lit(0, 1), |a, i| a + m[i][j] * y[i]));
        check_either("contract", &<[[F; 2]; 3] as CTrait<[F; 3], 1>>::contract(m, y).unwrap(), &want, &ought);
    });
    case!(v, "matrix times vector, zero matrix of any shape", {
        let (y, z): ([F; 3], [F; 2]) = (Dense::inputs("y"), Dense::inputs("z"));
        let (o, x) = (F::lit(0, 1), F::inp("x"));
        assume(x.eq_(o));
        let a = <[[F; 2]; 3] as CTrait<[F; 3], 1>>::contract_spec(Spec::Full(S2, x), Spec::Raw(y)).unwrap();
        check_buf("3x2", &expand(&a), &[o; 2]);
        let b = <[[F; 3]; 2] as CTrait<[F; 2], 1>>::contract_spec(Spec::Full(S2, x), Spec::Raw(z)).unwrap();
        check_buf("2x3", &expand(&b), &[o; 3]);
    });
    main_with("C06", v);
}
