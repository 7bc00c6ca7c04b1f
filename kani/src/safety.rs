//! Memory safety of the contractions, zips and buffer constructors: every entry an operation hands
//! back is compared with one computed directly, so that a read of anything else shows.
use crate::at::*;
use crate::io::{any, below, upto};
use aegir::buffers::shapes::*;
use aegir::ids::{X, Y};
use aegir::{Differentiable, Function, Identifier, Node};
use aegir::buffers::{contract, contract_spec, Arrays, Buffer, Class, Spec, Vecs, ZipFold, ZipMap, ZipMut};

fn val() -> i8 {
    (any::<i8>() >> 5)
}
fn vector<const N: usize>() -> ([i8; N], Spec<[i8; N]>) {
    let mut a = [0; N];
    let full: bool = any();
    let c = val();
    let mut i = 0;
    while i < N {
        a[i] = if full { c } else { val() };
        i += 1;
    }
    (a, if full { Spec::Full(S1, c) } else { Spec::Raw(a) })
}
fn scalar() -> (i8, Spec<i8>) {
    let c = val();
    (c, if any() { Spec::Full(S0, c) } else { Spec::Raw(c) })
}
fn matrix<const N: usize, const M: usize>() -> ([[i8; M]; N], Spec<[[i8; M]; N]>) {
    let mut a = [[0; M]; N];
    let kind = upto(2);
    let c = val();
    let mut i = 0;
    while i < N {
        let mut j = 0;
        while j < M {
            a[i][j] = match kind {
                0 => val(),
                1 => c,
                _ => if i == j { c } else { 0 },
            };
            j += 1;
        }
        i += 1;
    }
    (a, match kind {
        0 => Spec::Raw(a),
        1 => Spec::Full(S2, c),
        _ => Spec::Diagonal(S2, c),
    })
}
/// Both forms of a contraction against the entries written out.
macro_rules! both {
    ($axes:literal, $l:expr, $r:expr, |$x:ident, $y:ident| $o:ty, |$out:ident| $chk:block) => { {
        let (($x, xs), ($y, ys)) = ($l, $r);
        if any() {
            let $out: $o = match contract::<$axes, _, _>($x, $y) { Ok(o) => o, Err(_) => panic!("rejected") };
            $chk
        } else {
            let $out: $o = match contract_spec::<$axes, _, _>(xs, ys) { Ok(o) => o.unwrap(), Err(_) => panic!("rejected") };
            $chk
        }
    } };
}
fn dot<const N: usize>() {
    both!(1, vector::<N>(), vector::<N>(), |x, y| i8, |o| {
        let (mut s, mut i) = (0, 0);
        while i < N { s += x[i] * y[i]; i += 1; }
        assert!(o == s, "entry");
    });
}
fn matvec<const N: usize, const M: usize>() {
    both!(1, matrix::<N, M>(), vector::<N>(), |x, y| [i8; M], |o| {
        let mut i = 0;
        while i < M {
            let (mut s, mut k) = (0, 0);
            while k < M { s += x[i][k] * y[k]; k += 1; }
            assert!(o[i] == s, "entry");
            i += 1;
        }
    });
}
fn vecmat<const N: usize, const M: usize>() {
    both!(1, vector::<N>(), matrix::<N, M>(), |x, y| [i8; M], |o| {
        let mut i = 0;
        while i < M {
            let (mut s, mut k) = (0, 0);
            while k < N { s += x[k] * y[k][i]; k += 1; }
            assert!(o[i] == s, "entry");
            i += 1;
        }
    });
}
fn matmat<const N: usize, const Z: usize, const M: usize>() {
    both!(1, matrix::<N, Z>(), matrix::<Z, M>(), |x, y| [[i8; M]; N], |o| {
        let mut i = 0;
        while i < N {
            let mut j = 0;
            while j < M {
                let (mut s, mut k) = (0, 0);
                while k < Z { s += x[i][k] * y[k][j]; k += 1; }
                assert!(o[i][j] == s, "entry");
                j += 1;
            }
            i += 1;
        }
    });
}
fn outer<const N: usize, const M: usize>() {
    both!(0, vector::<N>(), vector::<M>(), |x, y| [[i8; M]; N], |o| {
        let mut i = 0;
        while i < N {
            let mut j = 0;
            while j < M {
                assert!(o[i][j] == x[i] * y[j], "entry");
                j += 1;
            }
            i += 1;
        }
    });
}
fn scaled<const N: usize, const M: usize>() {
    both!(0, scalar(), vector::<N>(), |x, y| [i8; N], |o| {
        let mut i = 0;
        while i < N { assert!(o[i] == x * y[i], "entry"); i += 1; }
    });
    both!(0, vector::<N>(), scalar(), |x, y| [i8; N], |o| {
        let mut i = 0;
        while i < N { assert!(o[i] == x[i] * y, "entry"); i += 1; }
    });
    both!(0, scalar(), matrix::<N, M>(), |x, y| [[i8; M]; N], |o| {
        let mut i = 0;
        while i < N {
            let mut j = 0;
            while j < M { assert!(o[i][j] == x * y[i][j], "entry"); j += 1; }
            i += 1;
        }
    });
    both!(0, matrix::<N, M>(), scalar(), |x, y| [[i8; M]; N], |o| {
        let mut i = 0;
        while i < N {
            let mut j = 0;
            while j < M { assert!(o[i][j] == x[i][j] * y, "entry"); j += 1; }
            i += 1;
        }
    });
}
/// Zips of two arrays, and of an array with a scalar on either side, at every position.
macro_rules! zips {
    ($t:ty, $s:expr, [$($d:literal),*]) => { {
        let dims: &[usize] = &[$($d),*];
        let (a, b): (u8, u8) = (any(), any());
        let at = |ix: &_, o: u8| { let mut p = 0; let mut k = 0; while k < dims.len() { p = p * dims[k] + At::get(ix, k); k += 1; } o ^ p as u8 };
        let f = |l: u8, r: u8| (l as u16) * 256 + r as u16;
        let (x, y): ($t, $t) = (Arrays::build($s, |ix| at(&ix, a)), Arrays::build($s, |ix| at(&ix, b)));
        let ix: IndexOf<ShapeOf<$t>> = At::make(|k| below(dims[k]));
        match upto(3) {
            0 => match x.zip_map(&y, f) { Ok(o) => assert!(o.get_unchecked(ix) == f(at(&ix, a), at(&ix, b)), "entry"), Err(_) => panic!("rejected") },
            1 => match x.zip_map(&b, f) { Ok(o) => assert!(o.get_unchecked(ix) == f(at(&ix, a), b), "entry"), Err(_) => panic!("rejected") },
            2 => match a.zip_map(&y, f) { Ok(o) => assert!(o.get_unchecked(ix) == f(a, at(&ix, b)), "entry"), Err(_) => panic!("rejected") },
            _ => {
                let mut z = x;
                match z.zip_mut(&y, |l, r| l.wrapping_sub(r)) { Ok(()) => assert!(z.get_unchecked(ix) == at(&ix, a).wrapping_sub(at(&ix, b)), "entry"), Err(_) => panic!("rejected") }
            },
        }
    } };
}

/// A matrix with fewer rows than columns times a vector indexes past the last row (a recorded
/// finding of C06): it must stop there, not read on.
fn matvec_wide<const N: usize, const M: usize>() {
    let ((x, xs), (y, ys)) = (matrix::<N, M>(), vector::<N>());
    let o: [i8; M] = match if any() { contract::<1, _, _>(x, y) } else { contract_spec::<1, _, _>(xs, ys).map(|o| o.unwrap()) } {
        Ok(o) => o,
        Err(_) => panic!("rejected"),
    };
    let (mut i, mut s) = (0, 0);
    while i < M {
        s |= o[i];
        i += 1;
    }
    assert!(s <= 100 || s > 100);
}
/// Expressions whose Jacobians are diagonal: their products take the in-place paths.
fn pair() -> [i8; 2] {
    [val(), val()]
}

harnesses! {
    c21_matvec_wide_or_panics [8] { if any() { matvec_wide::<1, 2>() } else { matvec_wide::<2, 3>() } }
    c21_expr_dot [8] {
        let (x, y) = (pair(), pair());
        let f = X.into_var().dot(Y.into_var());
        let v: i8 = f.evaluate(ctx!{X = x, Y = y}).unwrap();
        assert!(v == x[0] * y[0] + x[1] * y[1], "value");
        let d: [i8; 2] = f.adjoint(X).evaluate(ctx!{X = x, Y = y}).unwrap();
        assert!(d[0] == y[0] && d[1] == y[1], "d/dX");
    }
    c21_expr_dot_right [8] {
        let (x, y) = (pair(), pair());
        let d: [i8; 2] = X.into_var().dot(Y.into_var()).adjoint(Y).evaluate(ctx!{X = x, Y = y}).unwrap();
        assert!(d[0] == x[0] && d[1] == x[1], "d/dY");
    }
    c21_expr_mul [8] {
        let (x, y) = (pair(), pair());
        let d: [[i8; 2]; 2] = X.into_var().add(Y.into_var()).adjoint(X).evaluate(ctx!{X = x, Y = y}).unwrap();
        assert!(d[0][0] == 1 && d[0][1] == 0 && d[1][0] == 0 && d[1][1] == 1, "d/dX");
    }
    c21_dot [8] { dot::<0>(); dot::<1>(); dot::<3>(); }
    c21_matvec_square [8] { matvec::<0, 0>(); matvec::<1, 1>(); matvec::<2, 2>(); }
    c21_matvec_3 [8] { matvec::<3, 3>(); }
    c21_matvec_tall [8] { matvec::<2, 1>(); matvec::<3, 2>(); matvec::<2, 0>(); }
    c21_vecmat_square [8] { vecmat::<0, 0>(); vecmat::<1, 1>(); vecmat::<2, 2>(); }
    c21_vecmat_3 [8] { vecmat::<3, 3>(); }
    c21_vecmat_tall [8] { vecmat::<2, 1>(); vecmat::<3, 2>(); vecmat::<2, 0>(); }
    c21_vecmat_wide [8] { vecmat::<1, 2>(); vecmat::<2, 3>(); vecmat::<0, 2>(); }
    c21_matmat_square [8] { matmat::<0, 0, 0>(); matmat::<1, 1, 1>(); matmat::<2, 2, 2>(); }
    c21_matmat_rect [8] { matmat::<2, 1, 2>(); matmat::<1, 2, 2>(); matmat::<2, 2, 1>(); matmat::<1, 2, 1>(); matmat::<2, 0, 1>(); }
    c21_outer [8] { outer::<0, 2>(); outer::<2, 0>(); outer::<1, 1>(); outer::<2, 3>(); }
    c21_scaled [8] { scaled::<0, 1>(); scaled::<1, 0>(); scaled::<2, 3>(); }
    c21_zip_1 [8] { zips!([u8; 1], S1, [1]); zips!([u8; 3], S1, [3]); }
    c21_zip_2 [8] { zips!([[u8; 3]; 2], S2, [2, 3]); zips!([[u8; 1]; 3], S2, [3, 1]); }
    c21_zip_3 [8] { zips!([[[u8; 3]; 1]; 2], S3, [2, 1, 3]); }
    c21_zip_4 [8] { zips!([[[[u8; 2]; 1]; 3]; 2], S4, [2, 3, 1, 2]); }
    c21_zip_5 [8] { zips!([[[[[u8; 2]; 1]; 2]; 1]; 2], S5, [2, 1, 2, 1, 2]); }
}
