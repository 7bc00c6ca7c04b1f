//! Unchecked access and partial building with indices that need not lie inside the shape: they may
//! stop with a panic, but must not touch memory that is not the buffer's.
use crate::at::*;
use crate::io::{any, below, upto};
use aegir::buffers::shapes::*;
use aegir::buffers::{Arrays, Buffer, Class, Tuples, Vecs};

/// Whatever comes out is used, so that reading it is not dropped.
fn used(x: i32) {
    assert!(x <= 100 || x > 100);
}
/// An index of which at least one position, chosen freely, may be anything.
fn loose<I: At>(dims: &[usize]) -> I {
    let free = below(I::N);
    let v: usize = any();
    I::make(|k| if k == free { v } else { below(dims[k]) })
}
macro_rules! outside {
    ($($c:ident $s:ident [$($d:literal),*])*) => { $( {
        let dims: &[usize] = &[$($d),*];
        let base: i32 = any();
        match upto(2) {
            0 => {
                let b = <$c as Class<$s<$($d),*>>>::build($s, |_| base);
                let ix: IndexOf<$s<$($d),*>> = loose(dims);
                let x = b.get_unchecked(ix);
                assert!(x == base, "read something else");
            },
            1 => {
                let b = <$c as Class<$s<$($d),*>>>::build($s, |_| base);
                let ix: IndexOf<$s<$($d),*>> = IndexOf::<$s<$($d),*>>::make(|_| any());
                if let Some(x) = b.get(ix) { assert!(x == base, "read something else"); }
            },
            _ => {
                let ix: IndexOf<$s<$($d),*>> = loose(dims);
                let b = <$c as Class<$s<$($d),*>>>::build_subset($s, base, core::iter::once(ix), |_| base);
                let at: IndexOf<$s<$($d),*>> = IndexOf::<$s<$($d),*>>::make(|k| below(dims[k]));
                used(b.get_unchecked(at));
            },
        }
    } )* };
}

harnesses! {
    c21_outside_1_or_panics [9] { outside!(Arrays S1[3]); }
    c21_outside_pair_or_panics [9] { outside!(Tuples S1[2]); }
    c21_outside_2_or_panics [9] { outside!(Arrays S2[2, 3]); }
    c21_outside_3_or_panics [9] { outside!(Arrays S3[2, 1, 3]); }
    c21_outside_4_or_panics [9] { outside!(Arrays S4[1, 2, 1, 2]); }
    c21_outside_5_or_panics [9] { outside!(Arrays S5[1, 2, 1, 1, 2]); }
    c21_outside_vec_at_or_panics [9] {
        let base: i32 = any();
        let n = upto(3);
        let b = <Vecs as Class<SDynamic<1>>>::build(SDynamic([n]), |_| base);
        let i: usize = any();
        assert!(b.get_unchecked([i]) == base, "read something else");
    }
    c21_outside_vec_get_or_panics [9] {
        let base: i32 = any();
        let n = upto(3);
        let b = <Vecs as Class<SDynamic<1>>>::build(SDynamic([n]), |_| base);
        let i: usize = any();
        if let Some(x) = b.get([i]) { assert!(x == base, "read something else"); }
    }
    c21_outside_vec_subset_or_panics [9] {
        let base: i8 = any();
        let n = upto(2);
        let i = upto(4);
        let b = <Vecs as Class<SDynamic<1>>>::build_subset(SDynamic([n]), base, core::iter::once([i]), |_| base);
        assert!(b.len() == n, "length");
        if n > 0 { used(b[below(n)] as i32); }
    }
}
