//! Symbolic execution of the aegir crate.
//!
//! aegir's evaluation code is generic over its scalar field.  A case instantiates the real,
//! unmodified library functions with `Sym` scalars: running them records every arithmetic step as
//! an SMT term and forks on every comparison, so all inputs are covered at once.  The obligations
//! of each path are discharged by z3/cvc5; a model is replayed by running the same case on `f64`.
#[macro_use]
extern crate aegir;
#[macro_use]
pub mod sym;
pub mod cx;
pub mod fld;
pub mod jet;
pub mod leaf;
pub mod runner;
pub mod session;
pub mod smt;
pub mod term;
pub mod text;

pub use cx::{Cx, Ox};
pub use fld::{check_buf, check_either, Bag, Base, Dense, Extents, Flat, Fld};
pub use jet::{jet, Jet};
pub use leaf::{dense, ev, ev_shape, ev_spec, expand, leaf, opaque, vexpand, vleaf, Lf, Nil, Opq};
pub use runner::main_with;
pub use session::{assume, check, choice, native, pick, thorough, Case};
pub use smt::Formula;
pub use sym::Sym;
pub use term::Mode;

/// `case!(cases, "id", { body })`: the body is compiled twice, with `F = Sym` (decided by the
/// solver) and with `F = f64` (replay).  `J` is the jet over `F`.
#[macro_export]
macro_rules! case {
    ($v:expr, $id:expr, $body:block) => {
        $crate::case!($v, $id, $crate::Mode::Real, $body)
    };
    ($v:expr, $id:expr, $mode:expr, $body:block) => {{
        #[allow(dead_code, unused_imports, non_snake_case)]
        fn sym_() {
            type F = $crate::Sym;
            type J = $crate::Jet<F>;
            $body
        }
        #[allow(dead_code, unused_imports, non_snake_case)]
        fn nat_() {
            type F = f64;
            type J = $crate::Jet<F>;
            $body
        }
        $v.push($crate::Case { id: ($id).to_string(), mode: $mode, deep: false, sym: sym_, nat: nat_ });
    }};
}

/// As `case!`, run in the thorough tier only.
#[macro_export]
macro_rules! deep_case {
    ($v:expr, $($t:tt)*) => {{
        $crate::case!($v, $($t)*);
        $v.last_mut().unwrap().deep = true;
    }};
}

/// `tyf!(F; [2 3])` is `[[F; 3]; 2]`; `[s]` is a scalar, `[t]` a pair.
#[macro_export]
macro_rules! tyf {
    ($s:ident; [s]) => { $s };
    ($s:ident; [t]) => { ($s, $s) };
    ($s:ident; [$n:literal]) => { [$s; $n] };
    ($s:ident; [$n:literal $m:literal]) => { [[$s; $m]; $n] };
    ($s:ident; [$n:literal $m:literal $k:literal]) => { [[[$s; $k]; $m]; $n] };
    ($s:ident; [$n:literal $m:literal $k:literal $l:literal]) => { [[[[$s; $l]; $k]; $m]; $n] };
    ($s:ident; [$n:literal $m:literal $k:literal $l:literal $o:literal]) => { [[[[[$s; $o]; $l]; $k]; $m]; $n] };
}
