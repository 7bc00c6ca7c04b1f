//! Checked access to buffers, for every index a `usize` can hold.
use crate::at::*;
use crate::io::{any, assume, below, upto};
use aegir::buffers::shapes::*;
use aegir::buffers::{Arrays, Buffer, Class, Tuples, Vecs};

fn anyix<I: At>() -> I {
    I::make(|_| any())
}
fn within<I: At>(dims: &[usize]) -> I {
    I::make(|k| below(dims[k]))
}
/// Row-major position of an index.
fn pos<I: At>(ix: &I, dims: &[usize]) -> usize {
    let (mut p, mut k) = (0, 0);
    while k < dims.len() {
        p = p * dims[k] + ix.get(k);
        k += 1;
    }
    p
}
/// A buffer whose entry at an index is its row-major position, plus an arbitrary offset.
macro_rules! lookup {
    ($($c:ident $s:ident [$($d:literal),*])*) => { $( {
        let dims: &[usize] = &[$($d),*];
        let base: u8 = any();
        assume(base < 100);
        let b = <$c as Class<$s<$($d),*>>>::build($s, |ix| base + pos(&ix, dims) as u8);
        let ix: IndexOf<$s<$($d),*>> = anyix();
        match b.get(ix) {
            Some(x) => {
                assert!(inside(&ix, dims), "an entry outside the shape");
                assert!(x == base + pos(&ix, dims) as u8, "the entry at the index");
                assert!(b.get_unchecked(ix) == x, "get_unchecked");
            },
            None => assert!(!inside(&ix, dims), "no entry inside the shape"),
        }
    } )* };
}

harnesses! {
    c09_get_1 [8] { lookup!(Arrays S1[0] Arrays S1[1] Arrays S1[4] Tuples S1[2]); }
    c09_get_2 [8] { lookup!(Arrays S2[1, 3] Arrays S2[2, 3] Arrays S2[3, 2]); }
    c09_get_3 [8] { lookup!(Arrays S3[2, 1, 3] Arrays S3[1, 3, 2] Arrays S3[2, 2, 2]); }
    c09_get_4 [8] { lookup!(Arrays S4[1, 2, 1, 3] Arrays S4[2, 1, 3, 2]); }
    c09_get_5 [8] { lookup!(Arrays S5[1, 2, 1, 2, 2] Arrays S5[2, 1, 3, 1, 2]); }
    c09_get_vec [8] {
        let n = upto(4);
        let base: u8 = any();
        assume(base < 100);
        let b = <Vecs as Class<SDynamic<1>>>::build(SDynamic([n]), |ix| base + ix[0] as u8);
        assert!(b.len() == n && b.shape().0[0] == n, "length");
        let i: usize = any();
        match b.get([i]) {
            Some(x) => assert!(i < n && x == base + i as u8 && b.get_unchecked([i]) == x, "the entry at the index"),
            None => assert!(i >= n, "no entry inside the shape"),
        }
    }
    // writing an arbitrary subset, one arbitrary index at a time
    c08_subset_vec [8] {
        let (n, i, j) = (3, below(3), below(3));
        let (base, k): (i32, i32) = (any(), any());
        let b = <Vecs as Class<SDynamic<1>>>::build_subset(SDynamic([n]), base, [[i], [j]].into_iter(), |ix| k ^ ix[0] as i32);
        let q = below(3);
        assert!(b.len() == n && b[q] == if q == i || q == j { k ^ q as i32 } else { base }, "build_subset");
    }
    c08_subset_mat [8] {
        let (i, j): ([usize; 2], [usize; 2]) = (within(&[2, 3]), within(&[2, 3]));
        let (base, k): (i32, i32) = (any(), any());
        let b: [[i32; 3]; 2] = <Arrays as Class<S2<2, 3>>>::build_subset(S2, base, [i, j].into_iter(), |ix| k ^ (ix[0] * 3 + ix[1]) as i32);
        let q: [usize; 2] = within(&[2, 3]);
        assert!(b[q[0]][q[1]] == if same(&q, &i) || same(&q, &j) { k ^ (q[0] * 3 + q[1]) as i32 } else { base }, "build_subset");
    }
    c08_subset_rank3 [8] {
        let (i, j): ([usize; 3], [usize; 3]) = (within(&[2, 1, 3]), within(&[2, 1, 3]));
        let (base, k): (i32, i32) = (any(), any());
        let b: [[[i32; 3]; 1]; 2] = <Arrays as Class<S3<2, 1, 3>>>::build_subset(S3, base, [i, j].into_iter(), |ix| k ^ pos(&ix, &[2, 1, 3]) as i32);
        let q: [usize; 3] = within(&[2, 1, 3]);
        assert!(b[q[0]][q[1]][q[2]] == if same(&q, &i) || same(&q, &j) { k ^ pos(&q, &[2, 1, 3]) as i32 } else { base }, "build_subset");
    }
    c08_subset_pair [8] {
        let (i, j): (usize, usize) = (below(2), below(2));
        let (base, k): (i32, i32) = (any(), any());
        let b: (i32, i32) = <Tuples as Class<S1<2>>>::build_subset(S1, base, [i, j].into_iter(), |ix| k ^ ix as i32);
        assert!(b.0 == if i == 0 || j == 0 { k } else { base }, "build_subset, left");
        assert!(b.1 == if i == 1 || j == 1 { k ^ 1 } else { base }, "build_subset, right");
    }
}
