//! Buffer laws of the primitive scalar types: the real implementation for every one of them, on
//! every bit pattern (the array code is generic and is covered over symbolic scalars elsewhere).
use crate::io::{any, assume, upto};
use aegir::buffers::shapes::*;
use aegir::buffers::{Buffer, Class, IntoSpec, Scalar, Scalars, Spec, ZipFold, ZipMap};
use std::cell::Cell;

/// Identity of values, NaN included.
pub trait Bits: Copy {
    fn bits(self) -> u64;
}
macro_rules! bits {
    ($($t:ty)*) => { $( impl Bits for $t { fn bits(self) -> u64 { self as u64 } } )* };
}
bits!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
impl Bits for f32 {
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
}
impl Bits for f64 {
    fn bits(self) -> u64 {
        self.to_bits()
    }
}
pub fn is<T: Bits>(a: T, b: T) -> bool {
    a.bits() == b.bits()
}

macro_rules! zip {
    ($t:ty) => {{
        let (l, r): ($t, $t) = (any(), any());
        let (sl, sr, n) = (Cell::new(0u64), Cell::new(0u64), Cell::new(0u8));
        let see = |x: $t, y: $t| {
            sl.set(x.bits());
            sr.set(y.bits());
            n.set(n.get() + 1);
        };
        let seen = || sl.get() == l.bits() && sr.get() == r.bits() && n.replace(0) == 1;
        let out: $t = any();
        let other: i16 = any();
        assert!(is(ZipMap::zip_map(l, &r, |x, y| { see(x, y); out }).unwrap(), out), "zip_map returns what the function returns");
        assert!(seen(), "zip_map: arguments in order, once");
        assert!(ZipMap::zip_map::<i16, _>(l, &r, |x, y| { see(x, y); other }).unwrap() == other, "zip_map to another type");
        assert!(seen(), "zip_map to another type: arguments in order, once");
        assert!(is(ZipMap::zip_map_id(l, &r, |x, y| { see(x, y); out }).unwrap(), out), "zip_map_id");
        assert!(seen(), "zip_map_id: arguments in order, once");
        assert!(is(<$t as ZipMap<$t>>::zip_shape(l, S0).unwrap(), l), "zip_shape");
        let acc: i16 = any();
        let a = Cell::new(0i16);
        assert!(ZipFold::zip_fold::<i16, _>(&l, &r, acc, |z, (x, y)| { see(x, y); a.set(z); other }).unwrap() == other, "zip_fold");
        assert!(seen() && a.get() == acc, "zip_fold: arguments in order, once");
    }};
}
macro_rules! build {
    ($t:ty) => {{
        let (v, b): ($t, $t) = (any(), any());
        assert!(is(<Scalars as Class<S0>>::build(S0, |_| v), v), "build");
        assert!(is(<Scalars as Class<S0>>::full(S0, v), v), "full");
        assert!(is(<Scalars as Class<S0>>::zeroes::<$t>(S0), 0 as $t), "zeroes");
        assert!(is(<Scalars as Class<S0>>::ones::<$t>(S0), 1 as $t), "ones");
        assert!(is(<Scalars as Class<S0>>::diagonal(S0, v), v), "diagonal");
        assert!(is(<Scalars as Class<S0>>::identity::<$t>(S0), 1 as $t), "identity");
        let k = upto(2);
        let want = if k > 0 { v } else { b };
        assert!(is(<Scalars as Class<S0>>::build_subset(S0, b, (0..k).map(|_| ()), |_| v), want), "build_subset");
        assert!(is(Spec::<$t>::Full(S0, v).unwrap(), v), "Spec::Full");
        assert!(is(Spec::<$t>::Diagonal(S0, v).unwrap(), v), "Spec::Diagonal");
    }};
}
macro_rules! access {
    ($t:ty) => {{
        let (x, out): ($t, $t) = (any(), any());
        let other: i16 = any();
        let (s, n) = (Cell::new(0u64), Cell::new(0u8));
        let see = |y: $t| {
            s.set(y.bits());
            n.set(n.get() + 1);
        };
        let seen = || s.get() == x.bits() && n.replace(0) == 1;
        assert!(x.get(()).map_or(false, |y| is(y, x)), "get");
        assert!(is(x.get_unchecked(()), x), "get_unchecked");
        assert!(is(Buffer::map(x, |y| { see(y); out }), out) && seen(), "map");
        assert!(Buffer::map::<i16, _>(x, |y| { see(y); other }) == other && seen(), "map to another type");
        assert!(is(x.map_ref(|y| { see(y); out }), out) && seen(), "map_ref");
        assert!(x.map_ref::<i16, _>(|y| { see(y); other }) == other && seen(), "map_ref to another type");
        let mut m = x;
        m.mutate(|y| { see(y); out });
        assert!(is(m, out) && seen(), "mutate");
        let (acc, a) = (any::<i16>(), Cell::new(0i16));
        assert!(x.fold(acc, |z, y| { see(y); a.set(z); other }) == other && seen() && a.get() == acc, "fold");
        // as numbers: adding the neutral element turns -0 into 0
        assert!(x != x || x.sum() == x, "sum");
        assert!(is(x.into_constant().0, x), "into_constant");
        assert!(is(x.into_spec().unwrap(), x), "into_spec");
    }};
}
macro_rules! each {
    ($m:ident: $($t:ty),*) => { $( $m!($t); )* };
}

harnesses! {
    c07_scalars_a [8] { each!(zip: f64, f32, u8, u16); }
    c07_scalars_b [8] { each!(zip: u32, u64, usize, i8); }
    c07_scalars_c [8] { each!(zip: i16, i32, i64, isize); }
    c08_scalars_a [8] { each!(build: f64, f32, u8, u16); }
    c08_scalars_b [8] { each!(build: u32, u64, usize, i8); }
    c08_scalars_c [8] { each!(build: i16, i32, i64, isize); }
    c09_scalars_a [8] { each!(access: f64, f32, u8, u16); }
    c09_scalars_b [8] { each!(access: u32, u64, usize, i8); }
    c09_scalars_c [8] { each!(access: i16, i32, i64, isize); }
}
