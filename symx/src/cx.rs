//! Shared contexts, so that every case over the same buffers instantiates the library once.
use aegir::ids::{W, X, Y};

#[derive(Clone, Context)]
pub struct Cx<P, Q, R>
{
    #[id(X)]
    pub x: P,
    #[id(Y)]
    pub y: Q,
    #[id(W)]
    pub w: R,
}

/// A context whose variables may be missing.
#[derive(Clone, Context)]
pub struct Ox<P, Q, R>
{
    #[cache]
    #[id(X)]
    pub x: Option<P>,
    #[cache]
    #[id(Y)]
    pub y: Option<Q>,
    #[cache]
    #[id(W)]
    pub w: Option<R>,
}

impl<P, Q, R> Ox<P, Q, R> {
    /// Every subset of the variables is explored.
    pub fn any(x: P, y: Q, w: R) -> Ox<P, Q, R> {
        Ox {
            x: if crate::session::choice("x_present") { Some(x) } else { None },
            y: if crate::session::choice("y_present") { Some(y) } else { None },
            w: if crate::session::choice("w_present") { Some(w) } else { None },
        }
    }
}
