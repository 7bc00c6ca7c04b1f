//! Operators over machine integers, where division truncates, a multiplicative inverse does not
//! exist and sizes may exceed the range of the scalar type: what the symbolic field of reals that
//! the other checks use cannot distinguish.
use crate::io::{any, assume, upto};
use aegir::buffers::shapes::{ShapeOf, Shaped, S0, S1, S2};
use aegir::buffers::{Buffer, Spec};
use aegir::ops::*;
use aegir::{Context, Function, Node};

#[derive(Clone, Copy)]
pub struct Nil;
impl AsMut<Nil> for Nil {
    fn as_mut(&mut self) -> &mut Nil {
        self
    }
}
impl Context for Nil {}

/// Never returned (an uninhabited error type makes Kani 0.68 miscompile `unwrap`).
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Never;
impl std::fmt::Display for Never {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("never")
    }
}
impl std::error::Error for Never {}

/// A node with an arbitrary value in an arbitrary representation.
#[derive(Clone)]
pub struct Lf<V: Buffer>(pub Spec<V>);
impl<V: Buffer> Node for Lf<V> {}
impl<V: Buffer, C: Context> Function<C> for Lf<V> {
    type Value = V;
    type Error = Never;

    fn evaluate<CR: AsMut<C>>(&self, _: CR) -> Result<V, Never> {
        Ok(self.0.clone().unwrap())
    }
    fn evaluate_spec<CR: AsMut<C>>(&self, _: CR) -> Result<Spec<V>, Never> {
        Ok(self.0.clone())
    }
    fn evaluate_shape<CR: AsMut<C>>(&self, _: CR) -> Result<ShapeOf<V>, Never> {
        Ok(self.0.shape())
    }
}

type M = [[i8; 2]; 2];

fn small(m: i8) -> i8 {
    let x: i8 = any();
    assume(-m <= x && x <= m);
    x
}
fn scalar(m: i8) -> (Lf<i8>, i8) {
    let x = small(m);
    (Lf(if any() { Spec::Raw(x) } else { Spec::Full(S0, x) }), x)
}
fn vector(m: i8) -> (Lf<[i8; 2]>, [i8; 2]) {
    let (x, y) = (small(m), small(m));
    match upto(2) {
        0 => (Lf(Spec::Raw([x, y])), [x, y]),
        1 => (Lf(Spec::Full(S1, x)), [x, x]),
        _ => (Lf(Spec::Diagonal(S1, x)), [x, x]),
    }
}
fn matrix(m: i8) -> (Lf<M>, M) {
    let (x, y) = (small(m), small(m));
    match upto(2) {
        0 => {
            let d = [[x, y], [small(m), small(m)]];
            (Lf(Spec::Raw(d)), d)
        },
        1 => (Lf(Spec::Full(S2, x)), [[x, x], [x, x]]),
        _ => (Lf(Spec::Diagonal(S2, x)), [[x, 0], [0, x]]),
    }
}
fn value<V: Buffer, N: Function<Nil, Value = V>>(n: &N) -> (V, V) {
    let a = match n.evaluate(Nil) { Ok(a) => a, Err(_) => panic!("evaluation failed") };
    let b = match n.evaluate_spec(Nil) { Ok(b) => b, Err(_) => panic!("structured evaluation failed") };
    (a, b.unwrap())
}
fn structured<V: Buffer, N: Function<Nil, Value = V>>(n: &N) -> V {
    match n.evaluate_spec(Nil) { Ok(b) => b.unwrap(), Err(_) => panic!("structured evaluation failed") }
}
fn is0<N: Function<Nil, Value = i8>>(n: &N, want: i8) {
    let (a, b) = value(n);
    assert!(a == want, "value");
    assert!(b == want, "structured value");
}
fn is1<N: Function<Nil, Value = [i8; 2]>>(n: &N, f: impl Fn(usize) -> i8) {
    let (a, b) = value(n);
    assert!(a[0] == f(0) && a[1] == f(1), "value");
    assert!(b[0] == f(0) && b[1] == f(1), "structured value");
}
fn is2<N: Function<Nil, Value = M>>(n: &N, f: impl Fn(usize, usize) -> i8) {
    let (a, b) = value(n);
    assert!(a[0][0] == f(0, 0) && a[0][1] == f(0, 1) && a[1][0] == f(1, 0) && a[1][1] == f(1, 1), "value");
    assert!(b[0][0] == f(0, 0) && b[0][1] == f(0, 1) && b[1][0] == f(1, 0) && b[1][1] == f(1, 1), "structured value");
}

harnesses! {
    c04_integers_unary [8] {
        let (n, x) = vector(10);
        match upto(5) {
            0 => is1(&SubOne(n), |i| x[i] - 1),
            1 => is1(&OneSub(n), |i| 1 - x[i]),
            2 => is1(&AddOne(n), |i| x[i] + 1),
            3 => is1(&Double(n), |i| 2 * x[i]),
            4 => is1(&Rabbit(n), |i| x[i] * (1 - x[i])),
            _ => is0(&Sum(n), x[0] + x[1]),
        }
    }
    c04_integers_unary_matrix [8] {
        let (n, x) = matrix(10);
        match upto(3) {
            0 => is2(&OneSub(n), |i, j| 1 - x[i][j]),
            1 => is2(&AddOne(n), |i, j| x[i][j] + 1),
            2 => is2(&Double(n), |i, j| 2 * x[i][j]),
            _ => is0(&Sum(n), x[0][0] + x[0][1] + x[1][0] + x[1][1]),
        }
    }
    c04_integers_scalars [8] {
        let ((l, x), (r, y)) = (scalar(10), scalar(10));
        match upto(3) {
            0 => is0(&Add(l, r), x + y),
            1 => is0(&Sub(l, r), x - y),
            2 => is0(&Mul(l, r), x * y),
            _ => { assume(y != 0); is0(&Div(l, r), x / y) },
        }
    }
    c04_integers_vectors [8] {
        let ((l, x), (r, y)) = (vector(10), vector(10));
        match upto(3) {
            0 => is1(&Add(l, r), |i| x[i] + y[i]),
            1 => is1(&Sub(l, r), |i| x[i] - y[i]),
            2 => is1(&Mul(l, r), |i| x[i] * y[i]),
            _ => { assume(y[0] != 0 && y[1] != 0); is1(&Div(l, r), |i| x[i] / y[i]) },
        }
    }
    c04_integers_broadcast [8] {
        let ((l, x), (s, k)) = (vector(10), scalar(10));
        match upto(6) {
            0 => is1(&Add(l, s), |i| x[i] + k),
            1 => is1(&Sub(l, s), |i| x[i] - k),
            2 => is1(&Mul(l, s), |i| x[i] * k),
            3 => { assume(k != 0); is1(&Div(l, s), |i| x[i] / k) },
            4 => is1(&Sub(s, l), |i| k - x[i]),
            5 => is1(&Mul(s, l), |i| k * x[i]),
            _ => { assume(x[0] != 0 && x[1] != 0); is1(&Div(s, l), |i| k / x[i]) },
        }
    }
    c04_integers_matrices [8] {
        let ((l, x), (r, y)) = (matrix(5), matrix(5));
        match upto(2) {
            0 => is2(&Add(l, r), |i, j| x[i][j] + y[i][j]),
            1 => is2(&Sub(l, r), |i, j| x[i][j] - y[i][j]),
            _ => is2(&Mul(l, r), |i, j| x[i][j] * y[i][j]),
        }
    }
    c04_integers_matrix_scalar [8] {
        let ((l, x), (s, k)) = (matrix(10), scalar(10));
        assume(k != 0);
        if any() { is2(&Mul(l, s), |i, j| x[i][j] * k) } else { is2(&Div(l, s), |i, j| x[i][j] / k) }
    }
    c06_integers_vectors [8] {
        let ((l, x), (r, y)) = (vector(6), vector(6));
        if any() {
            is0(&TensorDot::new(l, r), x[0] * y[0] + x[1] * y[1])
        } else {
            is2(&TensorProduct::new(l, r), |i, j| x[i] * y[j])
        }
    }
    c06_integers_matrices [8] {
        let ((l, x), (r, y)) = (matrix(3), matrix(3));
        is2(&TensorDot::new(l, r), |i, j| x[i][0] * y[0][j] + x[i][1] * y[1][j])
    }
    c06_integers_mixed [8] {
        let ((l, x), (r, y)) = (matrix(5), vector(5));
        if any() {
            is1(&TensorDot::new(l, r), |i| x[i][0] * y[0] + x[i][1] * y[1])
        } else {
            is1(&TensorDot::new(r, l), |j| y[0] * x[0][j] + y[1] * x[1][j])
        }
    }
    // The number of entries need not be a value of the scalar type.
    c05_sum_of_many_i8 [140] {
        let x: i8 = any();
        assume(x == 0 || x == -1);
        let f = Sum(Lf(Spec::<[i8; 128]>::Full(S1, x)));
        assert!(structured(&f) as i16 == 128 * x as i16, "structured sum");
    }
    c05_sum_of_many_u8 [270] {
        let f = Sum(Lf(Spec::<[u8; 260]>::Full(S1, 0)));
        assert!(structured(&f) == 0, "structured sum");
    }
    c05_dot_of_many_i8 [140] {
        let x: i8 = any();
        assume(x == 0 || x == -1);
        let f = TensorDot::new(Lf(Spec::<[i8; 128]>::Full(S1, x)), Lf(Spec::<[i8; 128]>::Full(S1, 1)));
        assert!(structured(&f) as i16 == 128 * x as i16, "structured dot");
    }
    c05_matmul_of_many_i8 [140] {
        let x: i8 = any();
        assume(x == 0 || x == -1);
        let f = TensorDot::new(Lf(Spec::<[[i8; 128]; 1]>::Full(S2, x)), Lf(Spec::<[[i8; 1]; 128]>::Full(S2, 1)));
        let got: [[i8; 1]; 1] = structured(&f);
        assert!(got[0][0] as i16 == 128 * x as i16, "structured product");
    }
}
