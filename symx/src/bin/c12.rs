//! Incompatible operand shapes are errors naming both shapes, never panics or wrong values.
//!
//! Run-time lengths are symbolic choices, contents and representations are symbolic.
#![allow(unused_variables, unused_imports)]
#[macro_use]
extern crate aegir;

use aegir::buffers::shapes::*;
use aegir::buffers::{Buffer, IntoSpec, Spec, ZipFold, ZipMap, ZipMut};
use aegir::errors::{BinaryError, NoError, UnaryError};
use aegir::ids::{W, X, Y, Z};
use aegir::meta::Constant;
use aegir::ops::*;
use aegir::{Differentiable, Function, Identifier, Node};
use symx::*;

/// Where an expression failed and on which pair of shapes.
trait Located {
    fn located(&self) -> Option<(String, Vec<usize>, Vec<usize>)>;
}
impl<L: Shape + Extents, R: Shape + Extents> Located for IncompatibleShapes<L, R> {
    fn located(&self) -> Option<(String, Vec<usize>, Vec<usize>)> {
        Some((String::new(), self.left.extents(), self.right.extents()))
    }
}
impl Located for NoError {
    fn located(&self) -> Option<(String, Vec<usize>, Vec<usize>)> {
        None
    }
}
impl<I> Located for aegir::meta::SourceError<I> {
    fn located(&self) -> Option<(String, Vec<usize>, Vec<usize>)> {
        None
    }
}
impl<L: Located, R: Located, O: Located> Located for BinaryError<L, R, O> {
    fn located(&self) -> Option<(String, Vec<usize>, Vec<usize>)> {
        match self {
            BinaryError::Left(e) => e.located().map(|(p, l, r)| (format!("L{}", p), l, r)),
            BinaryError::Right(e) => e.located().map(|(p, l, r)| (format!("R{}", p), l, r)),
            BinaryError::Output(e) => e.located(),
        }
    }
}

type Fault = Option<(String, Vec<usize>, Vec<usize>)>;

fn verdict<T, E: Located + std::fmt::Display>(label: &str, got: &Result<T, E>, want: &Fault) {
    match (got, want) {
        (Ok(_), None) => check(&format!("{}: equal shapes succeed", label), Formula::of(true)),
        (Ok(_), Some(w)) => check(&format!("{}: incompatible shapes {:?} accepted", label, w), Formula::of(false)),
        (Err(e), None) => check(&format!("{}: equal shapes rejected: {}", label, e), Formula::of(false)),
        (Err(e), Some(w)) => {
            let at = e.located();
            check(&format!("{}: error {:?}, expected {:?}", label, at, w), Formula::of(at.as_ref() == Some(w)));
            // the message names both, left before right
            let text = e.to_string();
            let (l, r) = (format!("{:?}", w.1), format!("{:?}", w.2));
            let at = text.find(&l).and_then(|i| text[i + l.len()..].find(&r));
            check(&format!("{}: message {:?} names {} then {}", label, text, l, r), Formula::of(at.is_some()));
        },
    }
}
/// Value, structured value and shape of a node all end the same way.
macro_rules! ends {
    ($node:expr, $ctx:expr, $want:expr, |$got:ident| $eq:expr) => {{
        let (node, ctx, want): (_, _, Fault) = ($node, $ctx, $want);
        let v = node.evaluate(ctx.clone());
        verdict("evaluate", &v, &want);
        let s = node.evaluate_spec(ctx.clone());
        verdict("evaluate_spec", &s, &want);
        verdict("evaluate_shape", &node.evaluate_shape(ctx.clone()), &want);
        if let (Ok(v), Ok(s), None) = (v, s, &want) {
            let $got = v;
            let want: Vec<F> = $eq;
            check_buf("value", &$got, &want);
            check_buf("structured value", &vexpand(&s), &want);
        }
    }};
}
fn clash(at: &str, n: usize, m: usize) -> Fault {
    if n == m {
        None
    } else {
        Some((at.to_string(), vec![n], vec![m]))
    }
}
fn sizes() -> usize {
    if thorough() { 5 } else { 4 }
}

macro_rules! binary {
    ($v:ident; $($id:literal |$a:ident, $b:ident| $node:expr, |$x:ident, $y:ident| $want:expr;)*) => { $(
        case!($v, concat!("op/", $id), {
            let (n, m) = (pick("n", sizes()), pick("m", sizes()));
            let ($a, $b): (Lf<Vec<F>>, Lf<Vec<F>>) = (vleaf("l", n), vleaf("r", m));
            let (l, r) = ($a.raw.clone(), $b.raw.clone());
            ends!($node, Nil, clash("", n, m), |got| { l.iter().zip(&r).map(|(x, y)| { let ($x, $y) = (*x, *y); $want }).collect() });
        });
        // inside a unary operator, and as either operand of another binary one
        case!($v, concat!("op/unary of ", $id), {
            let (n, m) = (pick("n", 3), pick("m", 3));
            let ($a, $b): (Lf<Vec<F>>, Lf<Vec<F>>) = (vleaf("l", n), vleaf("r", m));
            let (l, r) = ($a.raw.clone(), $b.raw.clone());
            ends!(OneSub(Double($node)), Nil, clash("", n, m), |got| {
                let one = F::lit(1, 1);
                l.iter().zip(&r).map(|(x, y)| { let ($x, $y) = (*x, *y); let q = $want; one - (q + q) }).collect()
            });
        });
        case!($v, concat!("op/left operand is ", $id), {
            let (n, m, k) = (pick("n", 3), pick("m", 3), pick("k", 3));
            let ($a, $b, o): (Lf<Vec<F>>, Lf<Vec<F>>, Lf<Vec<F>>) = (dense_vec("l", n), dense_vec("r", m), vleaf("o", k));
            let (l, r, w) = ($a.raw.clone(), $b.raw.clone(), o.raw.clone());
            let fault = clash("L", n, m).or(clash("", n, k));
            ends!(Sub($node, o), Nil, fault, |got| {
                (0..n).map(|i| { let ($x, $y) = (l[i], r[i]); $want - w[i] }).collect()
            });
        });
        case!($v, concat!("op/right operand is ", $id), {
            let (n, m, k) = (pick("n", 3), pick("m", 3), pick("k", 3));
            let ($a, $b, o): (Lf<Vec<F>>, Lf<Vec<F>>, Lf<Vec<F>>) = (dense_vec("l", n), dense_vec("r", m), vleaf("o", k));
            let (l, r, w) = ($a.raw.clone(), $b.raw.clone(), o.raw.clone());
            let fault = clash("R", n, m).or(clash("", k, n));
            ends!(Mul(o, $node), Nil, fault, |got| {
                (0..n).map(|i| { let ($x, $y) = (l[i], r[i]); w[i] * $want }).collect()
            });
        });
        // a scalar meets any length
        case!($v, concat!("op/vec,s ", $id), {
            let n = pick("n", sizes());
            let ($a, $b): (Lf<Vec<F>>, Lf<F>) = (vleaf("l", n), leaf("r"));
            let (l, r) = ($a.raw.clone(), $b.raw);
            ends2!($node, |got| { l.iter().map(|x| { let ($x, $y) = (*x, r); $want }).collect() });
        });
        case!($v, concat!("op/s,vec ", $id), {
            let n = pick("n", sizes());
            let ($a, $b): (Lf<F>, Lf<Vec<F>>) = (leaf("l"), vleaf("r", n));
            let (l, r) = ($a.raw, $b.raw.clone());
            ends2!($node, |got| { r.iter().map(|y| { let ($x, $y) = (l, *y); $want }).collect() });
        });
    )* };
}
macro_rules! ends2 {
    ($node:expr, |$got:ident| $eq:block) => {{
        let node = $node;
        let want: Vec<F> = $eq;
        check("shape succeeds", Formula::of(node.evaluate_shape(Nil).map(|s| s.extents()).ok() == Some(vec![want.len()])));
        check_buf("value", &ev(&node), &want);
        check_buf("structured value", &vexpand(&ev_spec(&node)), &want);
    }};
}
fn dense_vec<F: Fld>(name: &str, n: usize) -> Lf<Vec<F>>
where
    Vec<F>: Buffer<Field = F, Shape = SDynamic<1>>,
{
    Lf::raw((0..n).map(|i| F::inp(&format!("{}_{}", name, i))).collect())
}

fn main() {
    let mut v = vec![];

    binary!(v;
        "add" |l, r| Add(l, r), |x, y| x + y;
        "sub" |l, r| Sub(l, r), |x, y| x - y;
        "mul" |l, r| Mul(l, r), |x, y| x * y;
        "div" |l, r| Div(l, r), |x, y| x / y;
        "add method" |l, r| l.add(r), |x, y| x + y;
        "sub method" |l, r| l.sub(r), |x, y| x - y;
        "mul method" |l, r| l.mul(r), |x, y| x * y;
        "div method" |l, r| l.div(r), |x, y| x / y;
    );

    // Both operands are composite: the left one is reported first.
    case!(v, "op/(l+r)*(o-p)", {
        let s: Vec<usize> = ["a", "b", "c", "d"].iter().map(|n| pick(n, 3)).collect();
        let d = |n: &str, k: usize| dense_vec::<F>(n, k);
        let (l, r, o, p) = (d("l", s[0]), d("r", s[1]), d("o", s[2]), d("p", s[3]));
        let (lr, rr, or, pr) = (l.raw.clone(), r.raw.clone(), o.raw.clone(), p.raw.clone());
        let fault = clash("L", s[0], s[1]).or(clash("R", s[2], s[3])).or(clash("", s[0], s[2]));
        ends!(Mul(Add(l, r), Sub(o, p)), Nil, fault, |got| {
            (0..s[0]).map(|i| (lr[i] + rr[i]) * (or[i] - pr[i])).collect()
        });
    });
    case!(v, "op/((l+r)/o)-p", {
        let s: Vec<usize> = ["a", "b", "c", "d"].iter().map(|n| pick(n, 3)).collect();
        let d = |n: &str, k: usize| dense_vec::<F>(n, k);
        let (l, r, o, p) = (d("l", s[0]), d("r", s[1]), d("o", s[2]), d("p", s[3]));
        let (lr, rr, or, pr) = (l.raw.clone(), r.raw.clone(), o.raw.clone(), p.raw.clone());
        let fault = clash("LL", s[0], s[1]).or(clash("L", s[0], s[2])).or(clash("", s[0], s[3]));
        ends!(Sub(Div(Add(l, r), o), p), Nil, fault, |got| {
            (0..s[0]).map(|i| (lr[i] + rr[i]) / or[i] - pr[i]).collect()
        });
    });
    // a sum absorbs the length of its operand but not its errors
    case!(v, "op/sum(l*r)+o", {
        let (n, m, k) = (pick("n", 3), pick("m", 3), pick("k", 3));
        let (l, r, o): (Lf<Vec<F>>, Lf<Vec<F>>, Lf<Vec<F>>) = (dense_vec("l", n), dense_vec("r", m), vleaf("o", k));
        let (lr, rr, or) = (l.raw.clone(), r.raw.clone(), o.raw.clone());
        let node = Add(Sum(Mul(l, r)), o);
        let fault = clash("L", n, m);
        verdict("evaluate", &node.evaluate(Nil), &fault);
        verdict("evaluate_spec", &node.evaluate_spec(Nil), &fault);
        if n == m {
            let s = (0..n).fold(F::lit(0, 1), |a, i| a + lr[i] * rr[i]);
            check_buf("value", &ev(&node), &or.iter().map(|o| s + *o).collect::<Vec<F>>());
        }
    });

    // Variables and constants.
    macro_rules! context {
        ($v:ident; $($id:literal |$x:ident, $y:ident, $w:ident| $node:expr, |$a:ident, $b:ident, $c:ident| $fault:expr, |$p:ident, $q:ident, $r:ident| $want:expr;)*) => { $(
            case!($v, concat!("context/", $id), {
                let ($a, $b, $c) = (pick("a", 3), pick("b", 3), pick("c", 3));
                let ctx = Cx { x: dense_vec::<F>("x", $a).raw, y: dense_vec::<F>("y", $b).raw, w: dense_vec::<F>("w", $c).raw };
                let inner = ctx.clone();
                let ($x, $y, $w) = (X.into_var(), Y.into_var(), W.into_var());
                let fault: Fault = $fault;
                ends!($node, ctx, fault, |got| {
                    (0..$a).map(|i| { let ($p, $q, $r) = (inner.x[i], inner.y[i], inner.w[i]); $want }).collect()
                });
            });
        )* };
    }
    context!(v;
        "x+y*w" |x, y, w| x.add(y.mul(w)), |a, b, c| clash("R", b, c).or(clash("", a, b)), |x, y, w| x + y * w;
        "(x-y)/w" |x, y, w| x.sub(y).div(w), |a, b, c| clash("L", a, b).or(clash("", a, c)), |x, y, w| (x - y) / w;
        "w*x-y^2" |x, y, w| w.mul(x).sub(y.squared()), |a, b, c| clash("L", c, a).or(clash("", c, b)), |x, y, w| w * x - y * y;
        "-(y/x)+w" |x, y, w| y.div(x).neg().add(w), |a, b, c| clash("L", b, a).or(clash("", b, c)), |x, y, w| w - y / x;
    );
    case!(v, "constants", {
        let (n, m) = (pick("n", 4), pick("m", 4));
        let (l, r): (Lf<Vec<F>>, Lf<Vec<F>>) = (vleaf("l", n), vleaf("r", m));
        let (x, y) = (l.raw.clone(), r.raw.clone());
        macro_rules! both { ($($op:ident |$p:ident, $q:ident| $want:expr;)*) => { $(
            ends!($op(Constant(l.spec.clone()), Constant(r.spec.clone())), Nil, clash("", n, m), |got| {
                x.iter().zip(&y).map(|(p, q)| { let ($p, $q) = (*p, *q); $want }).collect()
            });
        )* } }
        both!(Add |p, q| p + q; Sub |p, q| p - q; Mul |p, q| p * q; Div |p, q| p / q;);
    });

    // The buffer operations underneath.
    case!(v, "buffers/zip", {
        let (n, m) = (pick("n", sizes()), pick("m", sizes()));
        let (l, r): (Vec<F>, Vec<F>) = (dense_vec("l", n).raw, dense_vec("r", m).raw);
        let (fault, k) = (clash("", n, m), F::inp("k"));
        let z = ZipMap::zip_map(l.clone(), &r, |x, y| x - k * y);
        verdict("zip_map", &z, &fault);
        let i = ZipMap::zip_map_id(l.clone(), &r, |x, y| x - k * y);
        verdict("zip_map_id", &i, &fault);
        let s = <Vec<F> as ZipMap<Vec<F>>>::zip_shape(l.clone(), r.shape());
        verdict("zip_shape", &s, &fault);
        let f = ZipFold::zip_fold(&l, &r, F::lit(0, 1), |a, (x, y)| a * k + x - y);
        verdict("zip_fold", &f, &fault);
        let f = ZipFold::zip_fold(&r, &l, F::lit(0, 1), |a, (x, y)| a * k + x - y);
        verdict("zip_fold, reversed", &f, &clash("", m, n));
        verdict("broadcast", &l.shape().broadcast(r.shape()), &fault);
        verdict("broadcast, reversed error", &l.shape().broadcast(r.shape()).map_err(|e| e.reverse()), &clash("", m, n));
        if n == m {
            let want: Vec<F> = (0..n).map(|i| l[i] - k * r[i]).collect();
            check_buf("zip_map", &z.unwrap(), &want);
            check_buf("zip_map_id", &i.unwrap(), &want);
            check_buf("zip_shape", &s.unwrap(), &l);
        }
    });
    case!(v, "buffers/spec", {
        let (n, m) = (pick("n", sizes()), pick("m", sizes()));
        let (l, r): (Lf<Vec<F>>, Lf<Vec<F>>) = (vleaf("l", n), vleaf("r", m));
        let k = F::inp("k");
        let z = l.spec.clone().zip_map(&r.spec, |x, y| x - k * y);
        verdict("zip_map", &z, &clash("", n, m));
        if let (Ok(z), true) = (z, n == m) {
            check_buf("zip_map", &vexpand(&z), &(0..n).map(|i| l.raw[i] - k * r.raw[i]).collect::<Vec<F>>());
        }
    });
    // Lengths that agree in their low bits, or straddle the size of a block.
    const LENGTHS: [usize; 17] = [0, 1, 3, 7, 8, 9, 16, 17, 32, 33, 64, 128, 255, 256, 257, 259, 512];
    macro_rules! long {
        ($v:ident; $($id:literal $op:ident |$p:ident, $q:ident| $want:expr;)*) => { $(
            case!($v, concat!("op/long ", $id), {
                let (n, m) = (LENGTHS[pick("n", LENGTHS.len())], LENGTHS[pick("m", LENGTHS.len())]);
                if n != m || n < 10 {
                    let full = |n: &str, k: usize| -> Lf<Vec<F>> {
                        let x = F::inp(n);
                        Lf { raw: vec![x; k], spec: Spec::Full(SDynamic([k]), x) }
                    };
                    let (l, r) = match pick("kinds", 3) {
                        0 => (dense_vec::<F>("l", n), dense_vec::<F>("r", m)),
                        1 => (full("l", n), dense_vec::<F>("r", m)),
                        _ => (dense_vec::<F>("l", n), full("r", m)),
                    };
                    let (x, y) = (l.raw.clone(), r.raw.clone());
                    ends!($op(l, r), Nil, clash("", n, m), |got| {
                        x.iter().zip(&y).map(|(p, q)| { let ($p, $q) = (*p, *q); $want }).collect()
                    });
                }
            });
        )* };
    }
    long!(v; "add" Add |p, q| p + q; "sub" Sub |p, q| p - q; "mul" Mul |p, q| p * q; "div" Div |p, q| p / q;);
    case!(v, "buffers/long zip", {
        let far = [65536, 65537, 65539];
        let at = |i: usize| if i < LENGTHS.len() { LENGTHS[i] } else { far[i - LENGTHS.len()] };
        let (n, m) = (at(pick("n", LENGTHS.len() + 3)), at(pick("m", LENGTHS.len() + 3)));
        if n != m {
            let (x, k) = (F::inp("x"), F::inp("k"));
            let (l, r): (Vec<F>, Vec<F>) = (vec![x; n], vec![x; m]);
            let fault = clash("", n, m);
            verdict("zip_map", &ZipMap::zip_map(l.clone(), &r, |x, y| x - k * y), &fault);
            verdict("zip_map_id", &ZipMap::zip_map_id(l.clone(), &r, |x, y| x - k * y), &fault);
            verdict("zip_shape", &<Vec<F> as ZipMap<Vec<F>>>::zip_shape(l.clone(), r.shape()), &fault);
            verdict("zip_fold", &ZipFold::zip_fold(&l, &r, F::lit(0, 1), |a, (x, y)| a * k + x - y), &fault);
            verdict("broadcast", &l.shape().broadcast(r.shape()), &fault);
        }
        check("lengths", Formula::of(SDynamic([n]).broadcast(SDynamic([m])).is_ok() == (n == m)));
    });
    // Shapes of every run-time rank.
    macro_rules! ranks {
        ($v:ident; $($d:literal)*) => { $(
            case!($v, concat!("shapes/rank ", $d), {
                let at = |s: &str| -> [usize; $d] { std::array::from_fn(|i| pick(&format!("{}{}", s, i), if $d < 4 { 3 } else { 2 })) };
                let (l, r) = (at("l"), at("r"));
                let got = SDynamic(l).broadcast(SDynamic(r));
                verdict("broadcast", &got, &if l == r { None } else { Some((String::new(), l.to_vec(), r.to_vec())) });
                if let Ok(s) = got {
                    check("broadcast", Formula::of(s.0 == l));
                }
                check("broadcast with a scalar", Formula::of(SDynamic(l).broadcast(S0).map(|s| s.0 == l).unwrap_or(false)));
                check("broadcast of a scalar", Formula::of(Broadcast::<SDynamic<$d>>::broadcast(S0, SDynamic(l)).map(|s| s.0 == l).unwrap_or(false)));
            });
        )* };
    }
    ranks!(v; 1 2 3 4);
    main_with("C12", v);
}
