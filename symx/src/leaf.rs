//! Function nodes with arbitrary contents, used to drive one operator at a time from an arbitrary
//! state of its operands: `Lf` stands for any sub-expression (any value, in any representation the
//! library may produce), `Opq` for any differentiable sub-expression (any value, any adjoint).
use crate::fld::{Base, Dense, Fld};
use crate::session;
use aegir::buffers::shapes::{ShapeOf};
use aegir::buffers::{Buffer, Spec};
use aegir::errors::NoError;
use aegir::{Context, Differentiable, Function, Identifier, Node};

/// A context without variables.
#[derive(Clone, Copy, Debug)]
pub struct Nil;

impl AsMut<Nil> for Nil {
    fn as_mut(&mut self) -> &mut Nil {
        self
    }
}
impl Context for Nil {}

#[derive(Clone)]
pub struct Lf<V: Buffer> {
    pub raw: V,
    pub spec: Spec<V>,
}

impl<V: Buffer> Node for Lf<V> {}

impl<V: Buffer, C: Context> Function<C> for Lf<V> {
    type Value = V;
    type Error = NoError;

    fn evaluate<CR: AsMut<C>>(&self, _: CR) -> Result<V, NoError> {
        Ok(self.raw.clone())
    }
    fn evaluate_spec<CR: AsMut<C>>(&self, _: CR) -> Result<Spec<V>, NoError> {
        Ok(self.spec.clone())
    }
    fn evaluate_shape<CR: AsMut<C>>(&self, _: CR) -> Result<ShapeOf<V>, NoError> {
        Ok(self.raw.shape())
    }
}

impl<V: Buffer> Lf<V> {
    pub fn raw(v: V) -> Lf<V> {
        Lf { raw: v.clone(), spec: Spec::Raw(v) }
    }
}

#[derive(Clone)]
pub struct Opq<V: Buffer, A: Buffer> {
    pub v: Lf<V>,
    pub a: Lf<A>,
}

impl<V: Buffer, A: Buffer> Node for Opq<V, A> {}

impl<V: Buffer, A: Buffer, C: Context> Function<C> for Opq<V, A> {
    type Value = V;
    type Error = NoError;

    fn evaluate<CR: AsMut<C>>(&self, c: CR) -> Result<V, NoError> {
        Function::<C>::evaluate(&self.v, c)
    }
    fn evaluate_spec<CR: AsMut<C>>(&self, c: CR) -> Result<Spec<V>, NoError> {
        Function::<C>::evaluate_spec(&self.v, c)
    }
    fn evaluate_shape<CR: AsMut<C>>(&self, c: CR) -> Result<ShapeOf<V>, NoError> {
        Function::<C>::evaluate_shape(&self.v, c)
    }
}

impl<V: Buffer, A: Buffer, T: Identifier> Differentiable<T> for Opq<V, A> {
    type Adjoint = Lf<A>;

    fn adjoint(&self, _: T) -> Lf<A> {
        self.a.clone()
    }
}

/// An arbitrary buffer held as a `Spec`: raw, constant or diagonal, chosen symbolically.  `raw` is
/// expanded here, not by the library.
pub fn leaf<V>(name: &str) -> Lf<V>
where
    V: Buffer + Dense<E = <V as Buffer>::Field>,
    V::Field: Fld,
{
    match session::pick(&format!("{}_kind", name), 3) {
        0 => Lf::raw(V::inputs(name)),
        1 => {
            let x = V::Field::inp(&format!("{}_full", name));
            let raw = V::fill(x);
            let sh = raw.shape();
            Lf { raw, spec: Spec::Full(sh, x) }
        },
        _ => {
            let x = V::Field::inp(&format!("{}_diag", name));
            let raw = V::diag(x);
            let sh = raw.shape();
            Lf { raw, spec: Spec::Diagonal(sh, x) }
        },
    }
}

/// A leaf that is always dense.
pub fn dense<V>(name: &str) -> Lf<V>
where
    V: Buffer + Dense<E = <V as Buffer>::Field>,
    V::Field: Fld,
{
    Lf::raw(V::inputs(name))
}

pub fn opaque<V, A>(name: &str) -> Opq<V, A>
where
    V: Buffer + Dense<E = <V as Buffer>::Field>,
    A: Buffer + Dense<E = <A as Buffer>::Field>,
    V::Field: Fld,
    A::Field: Fld,
{
    Opq { v: leaf(name), a: leaf(&format!("d{}", name)) }
}

/// Evaluate a node without variables; an error is impossible by construction.
pub fn ev<N: Function<Nil>>(n: &N) -> N::Value {
    n.evaluate(Nil).unwrap_or_else(|e| panic!("evaluate returned an error: {}", e))
}

pub fn ev_spec<N: Function<Nil>>(n: &N) -> Spec<N::Value> {
    n.evaluate_spec(Nil).unwrap_or_else(|e| panic!("evaluate_spec returned an error: {}", e))
}

pub fn ev_shape<N: Function<Nil>>(n: &N) -> ShapeOf<N::Value> {
    n.evaluate_shape(Nil).unwrap_or_else(|e| panic!("evaluate_shape returned an error: {}", e))
}

/// The dense meaning of a `Spec`, expanded here.
pub fn expand<V>(s: &Spec<V>) -> V
where
    V: Buffer + Dense<E = <V as Buffer>::Field>,
    V::Field: Base,
{
    match s {
        Spec::Raw(b) => b.clone(),
        Spec::Full(_, x) => V::fill(*x),
        Spec::Diagonal(_, x) => V::diag(*x),
        _ => panic!("symx: unknown representation"),
    }
}

/// An arbitrary run-time sized vector of length `n`, in each representation.
pub fn vleaf<F: Fld>(name: &str, n: usize) -> Lf<Vec<F>>
where
    Vec<F>: Buffer<Field = F, Shape = aegir::buffers::shapes::SDynamic<1>>,
{
    let sh = aegir::buffers::shapes::SDynamic([n]);

    match session::pick(&format!("{}_kind", name), 3) {
        0 => Lf::raw((0..n).map(|i| F::inp(&format!("{}_{}", name, i))).collect()),
        1 => {
            let x = F::inp(&format!("{}_full", name));
            Lf { raw: vec![x; n], spec: Spec::Full(sh, x) }
        },
        _ => {
            let x = F::inp(&format!("{}_diag", name));
            Lf { raw: vec![x; n], spec: Spec::Diagonal(sh, x) }
        },
    }
}

/// The dense meaning of a run-time sized `Spec`.
pub fn vexpand<F: Base>(s: &Spec<Vec<F>>) -> Vec<F>
where
    Vec<F>: Buffer<Field = F, Shape = aegir::buffers::shapes::SDynamic<1>>,
{
    match s {
        Spec::Raw(b) => b.clone(),
        Spec::Full(sh, x) | Spec::Diagonal(sh, x) => vec![*x; sh.0[0]],
        _ => panic!("symx: unknown representation"),
    }
}
