//! Contexts behave as maps from identifiers to buffers.
//!
//! A context is driven through every sequence of writes up to the bound (which identifier, dense or
//! in which representation is a symbolic choice, contents are symbolic) next to a list of what each
//! identifier should hold; after every step every identifier is read in every way.
#![allow(unused_variables, unused_imports)]
#[macro_use]
extern crate aegir;

use aegir::buffers::shapes::*;
use aegir::buffers::{Buffer, IntoSpec, Spec};
use aegir::ids::*;
use aegir::{Context, Differentiable, Function, Identifier, Node, Read, Write};
use symx::*;

/// What reading an identifier must give, in every form.
fn look<C, I, B>(label: &str, ctx: &C, id: I, want: &Option<B>)
where
    I: Identifier,
    C: Read<I, Buffer = B>,
    B: Buffer + Flat<E = <B as Buffer>::Field> + PartialEq,
    B::Field: Fld,
    ShapeOf<B>: Extents,
    Spec<B>: Dn<B>,
{
    let (v, s, h) = (ctx.read(id), ctx.read_spec(id), ctx.read_shape(id));

    check(&format!("{}: read {} is present", label, id), Formula::of(v.is_some() == want.is_some()));
    check(&format!("{}: read_spec {} is present", label, id), Formula::of(s.is_some() == want.is_some()));
    check(&format!("{}: read_shape {} is present", label, id), Formula::of(h.is_some() == want.is_some()));
    if let (Some(v), Some(s), Some(h), Some(w)) = (v, s, h, want) {
        check_buf(&format!("{}: read {}", label, id), &v, w);
        check_buf(&format!("{}: read_spec {}", label, id), &s.dn(), w);
        check(&format!("{}: read_shape {}", label, id), Formula::of(h.extents() == w.dims()));
    }
}
/// The dense meaning of a representation, expanded here.
trait Dn<B> {
    fn dn(&self) -> B;
}
impl<B> Dn<B> for Spec<B>
where
    B: Buffer + Denotes,
{
    fn dn(&self) -> B {
        B::denote(self)
    }
}
trait Denotes: Buffer {
    fn denote(s: &Spec<Self>) -> Self;
}
macro_rules! denotes {
    ($($f:ty),*) => { $(
        impl Denotes for $f { fn denote(s: &Spec<Self>) -> Self { expand(s) } }
        impl<const N: usize> Denotes for [$f; N] { fn denote(s: &Spec<Self>) -> Self { expand(s) } }
        impl<const N: usize, const M: usize> Denotes for [[$f; N]; M] { fn denote(s: &Spec<Self>) -> Self { expand(s) } }
        impl Denotes for ($f, $f) { fn denote(s: &Spec<Self>) -> Self { expand(s) } }
        impl Denotes for Vec<$f> { fn denote(s: &Spec<Self>) -> Self { vexpand(s) } }
    )* };
}
denotes!(Sym, f64);

macro_rules! reads {
    ($l:expr, $ctx:ident, $model:ident; $($k:ident $i:tt),*) => { $(
        look($l, &$ctx, $k, &$model[$i]);
        // the same through a variable node
        let got = $k.into_var().evaluate(&mut $ctx);
        check(&format!("{}: variable {} is defined", $l, $k), Formula::of(got.is_ok() == $model[$i].is_some()));
        if let (Ok(g), Some(w)) = (got, &$model[$i]) {
            check_buf(&format!("{}: variable {}", $l, $k), &g, w);
        }
    )* };
}

/// Sequences of writes: `$len` of them, dense or in any representation.
macro_rules! history {
    ($v:ident, $id:expr, $t:ty, $ctx:expr, $model:expr, $fresh:expr, $len:expr, $($k:ident $i:tt),*) => {
        case!($v, $id, {
            let (mut ctx, mut model): (_, Vec<Option<$t>>) = ($ctx, $model.into_iter().collect());
            reads!("at first", ctx, model; $($k $i),*);
            for step in 0..$len {
                let who = pick(&format!("who{}", step), model.len());
                let structured = choice(&format!("structured{}", step));
                let new: Lf<$t> = ($fresh)(&format!("s{}", step), structured);
                $( if who == $i {
                    if structured {
                        ctx.write_spec($k, new.spec.clone());
                    } else {
                        ctx.write($k, new.raw.clone());
                    }
                } )*
                model[who] = Some(new.raw.clone());
                reads!(&format!("after write {}", step + 1), ctx, model; $($k $i),*);
            }
        });
    };
}

/// A value to write, in any representation if it is written as one.
fn any<B>(name: &str, structured: bool) -> Lf<B>
where
    B: Buffer + Dense<E = <B as Buffer>::Field>,
    B::Field: Fld,
{
    if structured { leaf(name) } else { dense(name) }
}
fn vec_of<F: Fld>(name: &str, n: usize) -> Vec<F> {
    (0..n).map(|i| F::inp(&fld::subscript(name, &[i]))).collect()
}
fn any_vec<F: Fld>(name: &str, n: usize, structured: bool) -> Lf<Vec<F>>
where
    Vec<F>: Buffer<Field = F, Shape = SDynamic<1>>,
{
    if structured { vleaf::<F>(name, n) } else { Lf::raw(vec_of(name, n)) }
}

// Fields in another order than their identifiers, an unlabelled field in between, other attributes.
#[derive(Clone, Context)]
struct Mixed<T> {
    #[id(Z)]
    first: T,
    /// not a variable
    label: usize,
    #[id(X)]
    second: T,
    #[allow(dead_code)]
    #[cache]
    #[id(Alpha)]
    third: Option<T>,
    #[id(Gamma)]
    x: T,
    #[id(Y)]
    #[cache]
    z: Option<T>,
}
// Without parameters.
#[derive(Clone, Context)]
struct Fixed {
    #[id(B)]
    a: f64,
    #[id(A)]
    b: f64,
    #[cache]
    #[id(C)]
    c: Option<f64>,
}
// With a where clause and a lifetime-free bound.
#[derive(Clone, Context)]
struct Bound<T, U>
where
    T: Clone,
{
    #[id(Omega)]
    t: T,
    #[id(Psi)]
    u: U,
}
ctx_type!(Listed { a: X, b: Y, cache c: Z, cache d: W });
ctx_type!(One { only: Theta });

/// A context written by hand, with nothing but the required methods.
#[derive(Clone)]
struct Hand<T> {
    x: T,
    y: Option<T>,
}
impl<T> AsMut<Hand<T>> for Hand<T> {
    fn as_mut(&mut self) -> &mut Self {
        self
    }
}
impl<T> Context for Hand<T> {}
impl<T: Buffer> Read<X> for Hand<T> {
    type Buffer = T;
    fn read(&self, _: X) -> Option<T> {
        Some(self.x.clone())
    }
}
impl<T: Buffer> Read<Y> for Hand<T> {
    type Buffer = T;
    fn read(&self, _: Y) -> Option<T> {
        self.y.clone()
    }
}
impl<T: Buffer> Write<X> for Hand<T> {
    fn write(&mut self, _: X, v: T) {
        self.x = v
    }
}
impl<T: Buffer> Write<Y> for Hand<T> {
    fn write(&mut self, _: Y, v: T) {
        self.y = Some(v)
    }
}

fn main() {
    let mut v = vec![];

    macro_rules! over { ($tag:literal, $t:tt) => {
        history!(v, concat!("derived/", $tag), tyf!(F; $t), {
            type T<S> = tyf!(S; $t);
            Cx { x: T::<F>::inputs("x"), y: T::<F>::inputs("y"), w: T::<F>::inputs("w") }
        }, {
            type T<S> = tyf!(S; $t);
            [Some(T::<F>::inputs("x")), Some(T::<F>::inputs("y")), Some(T::<F>::inputs("w"))]
        }, any, 2, X 0, Y 1, W 2);
        history!(v, concat!("mixed/", $tag), tyf!(F; $t), {
            type T<S> = tyf!(S; $t);
            Mixed {
                first: T::<F>::inputs("f"), label: 7, second: T::<F>::inputs("s"),
                third: if choice("alpha") { Some(T::<F>::inputs("t")) } else { None },
                x: T::<F>::inputs("x"), z: if choice("y") { Some(T::<F>::inputs("z")) } else { None },
            }
        }, {
            type T<S> = tyf!(S; $t);
            [Some(T::<F>::inputs("f")), Some(T::<F>::inputs("s")), if choice("alpha") { Some(T::<F>::inputs("t")) } else { None },
             Some(T::<F>::inputs("x")), if choice("y") { Some(T::<F>::inputs("z")) } else { None }]
        }, |n: &str, _: bool| dense(n), 2, Z 0, X 1, Alpha 2, Gamma 3, Y 4);
    } }
    over!("s", [s]);
    over!("3", [3]);
    over!("2x2", [2 2]);
    over!("t", [t]);
    history!(v, "derived/vec", Vec<F>, Cx { x: vec_of::<F>("x", 2), y: vec_of::<F>("y", 1), w: vec_of::<F>("w", 0) },
        [Some(vec_of::<F>("x", 2)), Some(vec_of::<F>("y", 1)), Some(vec_of::<F>("w", 0))],
        |n: &str, structured: bool| any_vec::<F>(n, pick(&format!("{}_len", n), 3), structured), 2, X 0, Y 1, W 2);
    history!(v, "optional/s", F, Ox { x: None::<F>, y: if choice("py") { Some(F::inp("y")) } else { None }, w: None::<F> },
        [None, if choice("py") { Some(F::inp("y")) } else { None }, None], any, if thorough() { 3 } else { 2 }, X 0, Y 1, W 2);
    history!(v, "optional/2", [F; 2], Ox { x: None::<[F; 2]>, y: None::<[F; 2]>, w: Some(<[F; 2]>::inputs("w")) },
        [None, None, Some(<[F; 2]>::inputs("w"))], any, 2, X 0, Y 1, W 2);
    history!(v, "derived, long/s", F, Cx { x: F::inp("x"), y: F::inp("y"), w: F::inp("w") },
        [Some(F::inp("x")), Some(F::inp("y")), Some(F::inp("w"))], |n: &str, _: bool| dense(n), if thorough() { 5 } else { 4 }, X 0, Y 1, W 2);
    history!(v, "ctx_type/s", F, Listed { a: F::inp("a"), b: F::inp("b"), c: None::<F>, d: Some(F::inp("d")) },
        [Some(F::inp("a")), Some(F::inp("b")), None, Some(F::inp("d"))], any, 2, X 0, Y 1, Z 2, W 3);
    history!(v, "ctx_type, one/s", F, One { only: F::inp("a") }, [Some(F::inp("a"))], any, if thorough() { 3 } else { 2 }, Theta 0);
    history!(v, "ctx!/s", F, ctx! {X = F::inp("a"), Y = F::inp("b"), Z = F::inp("c"), Alpha = F::inp("d"), A = F::inp("e")},
        [Some(F::inp("a")), Some(F::inp("b")), Some(F::inp("c")), Some(F::inp("d")), Some(F::inp("e"))], |n: &str, _: bool| dense(n), 2,
        X 0, Y 1, Z 2, Alpha 3, A 4);
    history!(v, "ctx!, reordered/2", [F; 2], ctx! {W = <[F; 2]>::inputs("a"), Omega = <[F; 2]>::inputs("b"), B = <[F; 2]>::inputs("c")},
        [Some(<[F; 2]>::inputs("a")), Some(<[F; 2]>::inputs("b")), Some(<[F; 2]>::inputs("c"))], any, 2, W 0, Omega 1, B 2);
    history!(v, "by hand/s", F, Hand { x: F::inp("a"), y: None }, [Some(F::inp("a")), None], any, if thorough() { 3 } else { 2 }, X 0, Y 1);
    history!(v, "by hand/2x2", [[F; 2]; 2], Hand { x: <[[F; 2]; 2]>::inputs("a"), y: None }, [Some(<[[F; 2]; 2]>::inputs("a")), None],
        any, if thorough() { 3 } else { 2 }, X 0, Y 1);

    // different kinds of buffers side by side
    case!(v, "kinds", {
        let mut ctx = ctx! {X = F::inp("x"), Y = <[F; 3]>::inputs("y"), Z = <[[F; 2]; 1]>::inputs("z"), W = <(F, F)>::inputs("w"),
            A = vec_of::<F>("a", 2), B = <[[[F; 1]; 2]; 2]>::inputs("b")};
        let (mut x, mut y, mut z, mut w, mut a, mut b) = (F::inp("x"), <[F; 3]>::inputs("y"), <[[F; 2]; 1]>::inputs("z"),
            <(F, F)>::inputs("w"), vec_of::<F>("a", 2), <[[[F; 1]; 2]; 2]>::inputs("b"));
        macro_rules! every { ($l:expr) => {
            look($l, &ctx, X, &Some(x)); look($l, &ctx, Y, &Some(y)); look($l, &ctx, Z, &Some(z)); look($l, &ctx, W, &Some(w));
            look($l, &ctx, A, &Some(a.clone()));
            check_buf($l, &ctx.read(B).unwrap(), &b);
            check_buf($l, &expand(&ctx.read_spec(B).unwrap()), &b);
            check($l, Formula::of(ctx.read_shape(B).unwrap().extents() == b.dims()));
        } }
        every!("at first");
        for step in 0..2 {
            let l = format!("after write {}", step + 1);
            let n = format!("s{}", step);
            match pick(&format!("who{}", step), 6) {
                0 => { x = F::inp(&n); ctx.write(X, x); },
                1 => { y = <[F; 3]>::inputs(&n); ctx.write(Y, y); },
                2 => { z = <[[F; 2]; 1]>::inputs(&n); ctx.write(Z, z); },
                3 => { w = <(F, F)>::inputs(&n); ctx.write(W, w); },
                4 => { a = vec_of::<F>(&n, pick(&format!("{}_len", n), 4)); ctx.write(A, a.clone()); },
                _ => { b = <[[[F; 1]; 2]; 2]>::inputs(&n); ctx.write(B, b); },
            }
            every!(&l);
        }
    });
    // writes through a mutable reference, copies that go their own way
    case!(v, "aliases", {
        let mut ctx = Cx { x: F::inp("x"), y: F::inp("y"), w: F::inp("w") };
        let before = ctx.clone();
        ctx.as_mut().write(Y, F::inp("v"));
        { let r = &mut ctx; r.write(W, F::inp("u")); }
        look("after", &ctx, X, &Some(F::inp("x")));
        look("after", &ctx, Y, &Some(F::inp("v")));
        look("after", &ctx, W, &Some(F::inp("u")));
        look("copy", &before, Y, &Some(F::inp("y")));
        look("copy", &before, W, &Some(F::inp("w")));
        look("as_ref", AsRef::<Cx<F, F, F>>::as_ref(&ctx), Y, &Some(F::inp("v")));
    });
    case!(v, "other structs", {
        let mut b = Bound { t: F::inp("t"), u: <[F; 2]>::inputs("u") };
        look("where", &b, Omega, &Some(F::inp("t")));
        look("where", &b, Psi, &Some(<[F; 2]>::inputs("u")));
        b.write(Omega, F::inp("n"));
        look("where, written", &b, Omega, &Some(F::inp("n")));
        look("where, written", &b, Psi, &Some(<[F; 2]>::inputs("u")));
        b.write_spec(Psi, Spec::Full(S1, F::inp("m")));
        look("where, written twice", &b, Omega, &Some(F::inp("n")));
        look("where, written twice", &b, Psi, &Some([F::inp("m"); 2]));
        let mut f = Fixed { a: 1.0, b: 2.0, c: None };
        check("fixed", Formula::of(f.read(B) == Some(1.0) && f.read(A) == Some(2.0) && f.read(C) == None));
        check("fixed, shape", Formula::of(f.read_shape(C).is_none() && f.read_spec(C).is_none() && f.read_shape(A).is_some()));
        f.write(A, 3.0);
        f.write(C, 4.0);
        check("fixed, written", Formula::of(f.read(B) == Some(1.0) && f.read(A) == Some(3.0) && f.read(C) == Some(4.0)));
        let m = Mixed { first: 1.0, label: 3, second: 2.0, third: None, x: 4.0, z: None };
        check("unlabelled field untouched", Formula::of(m.label == 3));
    });
    // expressions see exactly what was written
    case!(v, "expressions", {
        let mut ctx = Ox { x: Some(F::inp("x")), y: None::<F>, w: Some(F::inp("w")) };
        let node = X.into_var().sub(Y.into_var()).mul(W.into_var());
        check("undefined", Formula::of(node.evaluate(&mut ctx).is_err()));
        ctx.write(Y, F::inp("y"));
        Fld::check_eq("defined", node.evaluate(&mut ctx).unwrap(), (F::inp("x") - F::inp("y")) * F::inp("w"));
        ctx.write(X, F::inp("u"));
        Fld::check_eq("changed", node.evaluate(&mut ctx).unwrap(), (F::inp("u") - F::inp("y")) * F::inp("w"));
        Fld::check_eq("derivative", node.evaluate_adjoint(W, &mut ctx).unwrap(), F::inp("u") - F::inp("y"));
    });
    main_with("C14", v);
}
