//! Dual numbers over machine integers and floats.
use crate::io::{any, assume};
use aegir::{dual, Dual};

fn small() -> i32 {
    let x: i8 = any();
    x as i32
}
fn is(d: Dual<i32>, v: i32, a: i32) {
    assert!(d.value == v && d.adjoint == a);
}
fn bits(d: Dual<f64>, v: f64, a: f64) {
    assert!(d.value.to_bits() == v.to_bits() || (d.value.is_nan() && v.is_nan()), "value");
    assert!(d.adjoint.to_bits() == a.to_bits() || (d.adjoint.is_nan() && a.is_nan()), "adjoint");
}

harnesses! {
    c17_integers_linear [4] {
        let (a, p, b, q) = (small(), small(), small(), small());
        let (x, y) = (dual!(a, p), dual!(b, q));
        is(-x, -a, -p);
        is(x + y, a + b, p + q);
        is(x + &y, a + b, p + q);
        is(x + b, a + b, p);
        is(x + &b, a + b, p);
        is(x - y, a - b, p - q);
        is(x - &y, a - b, p - q);
        is(x - b, a - b, p);
        is(x - &b, a - b, p);
        is(x.conj(), a, -p);
        is(Dual::variable(a), a, 1);
        is(Dual::constant(a), a, 0);
        is(dual!(a), a, 0);
    }
    c17_integers_products [4] {
        let (a, p, b, q) = (small() >> 1, small() >> 1, small() >> 1, small() >> 1);
        let (x, y) = (dual!(a, p), dual!(b, q));
        is(x * y, a * b, p * b + q * a);
        is(x * &y, a * b, p * b + q * a);
        is(x * b, a * b, p * b);
        is(x * &b, a * b, p * b);
    }
    c17_floats [4] {
        let (a, p): (f64, f64) = (any(), any());
        let x = dual!(a, p);
        bits(-x, -a, -p);
        bits(x.conj(), a, -p);
        bits(Dual::variable(a), a, 1.0);
        bits(Dual::constant(a), a, 0.0);
    }
}
