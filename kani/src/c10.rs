//! Shape algebra: membership, size, enumeration, concatenation, splitting, broadcasting.
use crate::at::*;
use crate::io::{any, assume, upto};
use aegir::buffers::shapes::*;

fn anyix<I: At>() -> I {
    I::make(|_| any())
}

/// Membership, for every index whatsoever.
fn membership<S: Shape>(s: S, dims: &[usize])
where
    S::Index: At,
{
    let ix: S::Index = anyix();
    assert!(s.contains(ix) == inside(&ix, dims), "contains");
    assert!(ix.is_diagonal() == diagonal(&ix), "is_diagonal");
    assert!(S::DIM == dims.len(), "DIM");
    assert!(s.is_scalar() == (dims.len() == 0), "is_scalar");
    assert!(s.is_vector() == (dims.len() == 1), "is_vector");
    assert!(s.is_matrix() == (dims.len() == 2), "is_matrix");
}

/// The whole enumeration of a compile-time shape: in order, complete, as long as the cardinality,
/// and hitting an arbitrary index as often as it is contained.
fn enumeration<S: Shape>(s: S, dims: &[usize])
where
    S::Index: At,
{
    let probe: S::Index = anyix();
    let mut hits = 0usize;
    let mut n = 0usize;
    let mut want: Option<S::Index> = first(dims);
    let mut it = s.indices();
    loop {
        match (it.next(), want) {
            (None, None) => break,
            (Some(g), Some(w)) => {
                assert!(same(&g, &w), "row-major order");
                hits += same(&g, &probe) as usize;
                n += 1;
                want = succ(w, dims);
            },
            (None, Some(_)) => {
                assert!(false, "an index is missing");
                break;
            },
            (Some(_), None) => {
                assert!(false, "an index too many");
                break;
            },
        }
    }
    assert!(s.cardinality() == n, "cardinality");
    assert!(hits == inside(&probe, dims) as usize, "every index once");
}

/// The enumeration of a run-time shape, stopped after an arbitrary number of steps: what `count`
/// and `size_hint` announce is what is left.
fn remaining<I: Iterator + Clone>(it: I, card: usize, steps: usize)
where
    I::Item: Copy,
{
    let mut it = it;
    let stop = upto(steps);
    let mut k = 0;
    while k < stop {
        if it.next().is_none() {
            break;
        }
        k += 1;
    }
    // an exhausted iterator is no longer queried
    if k < card || stop == k {
        let left = card - k;
        let (lo, hi) = it.size_hint();
        assert!(lo == left, "size_hint, lower");
        assert!(hi == Some(left), "size_hint, upper");
        assert!(it.clone().count() == left, "count");
    }
}

fn concat_pair<L, R>(l: L, ld: &[usize], r: R, rd: &[usize])
where
    L: Concat<R>,
    R: Shape,
    L::Index: At,
    R::Index: At,
    IndexOf<CShape<L, R>>: At,
{
    let (i, j): (L::Index, R::Index) = (anyix(), anyix());
    let c = l.concat(r);
    let ij = L::concat_indices(i, j);
    let n = <L::Index as At>::N;
    let mut k = 0;
    while k < ld.len() + rd.len() {
        let want = if k < n { i.get(k) } else { j.get(k - n) };
        assert!(ij.get(k) == want, "concat_indices");
        k += 1;
    }
    assert!(<CShape<L, R> as Shape>::DIM == ld.len() + rd.len(), "concat, rank");
    assert!(c.contains(ij) == (inside(&i, ld) & inside(&j, rd)), "contains distributes over concat");
    assert!(c.cardinality() == l.cardinality() * r.cardinality(), "concat, cardinality");
}

macro_rules! fixed {
    ($($s:ident [$($d:literal),*])*) => { $( {
        let s: $s<$($d),*> = $s;
        enumeration(s, &[$($d),*]);
    } )* };
}
macro_rules! member {
    ($($s:ident [$($d:literal),*])*) => { $( {
        let s: $s<$($d),*> = $s;
        membership(s, &[$($d),*]);
    } )* };
}
macro_rules! pairs {
    ($(($($l:tt)*) + ($($r:tt)*);)*) => { $( {
        let (l, ld) = shape!($($l)*);
        let (r, rd) = shape!($($r)*);
        concat_pair(l, &ld, r, &rd);
    } )* };
}
macro_rules! shape {
    (S0) => { (S0, [0usize; 0]) };
    ($s:ident $($d:literal)*) => {{ let s: $s<$($d),*> = $s; (s, [$($d as usize),*]) }};
}
macro_rules! dynpairs {
    ($n:literal + [$($m:literal)*]) => { $( {
        let mut l = [0usize; $n];
        let mut r = [0usize; $m];
        let mut k = 0;
        while k < $n { l[k] = any(); k += 1; }
        k = 0;
        while k < $m { r[k] = any(); k += 1; }
        let c = SDynamic(l).concat(SDynamic(r));
        k = 0;
        while k < $n + $m {
            assert!(c[k] == if k < $n { l[k] } else { r[k - $n] }, "concat");
            k += 1;
        }
        let (i, j): ([usize; $n], [usize; $m]) = (anyix(), anyix());
        let ij = <SDynamic<$n> as Concat<SDynamic<$m>>>::concat_indices(i, j);
        k = 0;
        while k < $n + $m {
            assert!(ij[k] == if k < $n { i[k] } else { j[k - $n] }, "concat_indices");
            k += 1;
        }
        assert!(c.contains(ij) == (inside(&i, &l) & inside(&j, &r)), "contains distributes over concat");
    } )* };
}
macro_rules! bcast {
    ($($s:ident [$($d:literal),*])*) => { $( {
        let s: $s<$($d),*> = $s;
        let a: Result<$s<$($d),*>, _> = s.broadcast(s);
        let b: Result<$s<$($d),*>, _> = s.broadcast(S0);
        let c: Result<$s<$($d),*>, _> = S0.broadcast(s);
        assert!(a.is_ok() && b.is_ok() && c.is_ok(), "broadcast");
        assert!(s.is_equivalent(&SDynamic([s.cardinality()])), "is_equivalent");
    } )* };
}
fn bcast_dyn<const N: usize>(bound: usize) {
    let (l, r): ([usize; N], [usize; N]) = (IndexOf::<SDynamic<N>>::make(|_| upto(bound)), At::make(|_| upto(bound)));
    match SDynamic(l).broadcast(SDynamic(r)) {
        Ok(s) => assert!(same(&l, &r) & same(&s.0, &l), "broadcast of equal shapes"),
        Err(e) => {
            assert!(!same(&l, &r), "equal shapes are compatible");
            assert!(same(&e.left.0, &l) & same(&e.right.0, &r), "operand order in the error");
            let v = e.reverse();
            assert!(same(&v.left.0, &r) & same(&v.right.0, &l), "reverse");
        },
    }
    assert!(same(&SDynamic(l).broadcast(S0).unwrap().0, &l), "with a scalar");
    assert!(same(&S0.broadcast(SDynamic(l)).unwrap().0, &l), "scalar with");
    assert!((SDynamic(l) == SDynamic(r)) == same(&l, &r), "equality");
    let mut m = SDynamic(l);
    let mut k = 0;
    while k < N {
        assert!(m[k] == l[k], "extent");
        m[k] = r[k];
        k += 1;
    }
    assert!(same(&m.0, &r), "assigned extents");
}
fn member_dyn<const N: usize>() {
    let s: [usize; N] = anyix();
    membership(SDynamic(s), &s);
}
/// Cardinality of a run-time shape, multiplied out here.
fn card_dyn<const N: usize>(max: usize) {
    let s: [usize; N] = <[usize; N]>::make(|_| upto(max));
    let t: [usize; N] = <[usize; N]>::make(|_| upto(max));
    let (mut c, mut d) = (1usize, 1usize);
    let mut k = 0;
    while k < N {
        c *= s[k];
        d *= t[k];
        k += 1;
    }
    assert!(SDynamic(s).cardinality() == c, "cardinality");
    assert!(SDynamic(s).is_equivalent(&SDynamic(t)) == (c == d), "is_equivalent");
}
fn order_dyn<const N: usize>(max: usize) {
    let s: [usize; N] = <[usize; N]>::make(|_| upto(max));
    enumeration(SDynamic(s), &s);
}
/// From one enumerated index to the next, wherever the enumeration stands.
fn step_dyn<const N: usize>(s: [usize; N], steps: usize) {
    let mut it = SDynamic(s).indices();
    let stop = upto(steps);
    let mut want: Option<[usize; N]> = first(&s);
    let mut k = 0;
    while k < stop && want.is_some() {
        it.next();
        want = succ(want.unwrap(), &s);
        k += 1;
    }
    let got = it.next();
    assert!(got.is_some() == want.is_some(), "as many as the cardinality");
    if let (Some(g), Some(w)) = (got, want) {
        assert!(same(&g, &w), "row-major order");
    }
}
fn remaining_dyn<const N: usize>(s: [usize; N], steps: usize) {
    let mut c = 1;
    let mut k = 0;
    while k < N {
        c *= s[k];
        k += 1;
    }
    remaining(SDynamic(s).indices(), c, steps);
}

harnesses! {
    c10_member_fixed [8] {
        membership(S0, &[]);
        member!(S1[0] S1[1] S1[3] S2[0, 2] S2[2, 3] S2[3, 1] S3[2, 1, 3] S3[2, 0, 2] S4[1, 2, 3, 2] S5[2, 1, 2, 3, 1] S6[1, 2, 1, 3, 1, 2]);
    }
    c10_member_runtime [8] {
        member_dyn::<0>(); member_dyn::<1>(); member_dyn::<2>(); member_dyn::<3>(); member_dyn::<4>(); member_dyn::<5>(); member_dyn::<6>();
    }
    c10_card_runtime_a [8] { card_dyn::<1>(7); }
    c10_card_runtime_d [8] { card_dyn::<2>(4); }
    c10_card_runtime_b [8] { card_dyn::<3>(3); }
    c10_card_runtime_c [8] { card_dyn::<4>(2); }
    c10_enum_1 [8] { enumeration(S0, &[]); fixed!(S1[0] S1[1] S1[2] S1[5]); }
    c10_enum_2 [10] { fixed!(S2[0, 2] S2[2, 0] S2[1, 1] S2[2, 3] S2[3, 2]); }
    c10_enum_3 [14] { fixed!(S3[2, 1, 2] S3[1, 3, 2] S3[2, 3, 2] S3[2, 0, 3]); }
    c10_enum_4 [14] { fixed!(S4[1, 2, 1, 3] S4[2, 1, 3, 2]); }
    c10_enum_5 [14] { fixed!(S5[1, 2, 1, 2, 2] S5[2, 1, 3, 1, 2]); }
    c10_enum_6 [14] { fixed!(S6[1, 2, 1, 3, 1, 2]); }
    c10_enum_runtime_1 [8] { order_dyn::<1>(5); }
    c10_enum_runtime_2 [9] { order_dyn::<2>(2); }
    c10_step_runtime_2 [14] { step_dyn([3, 2], 7); step_dyn([2, 3], 7); step_dyn([0, 2], 2); step_dyn([2, 0], 2); }
    c10_step_runtime_3 [14] { step_dyn([2, 1, 3], 7); step_dyn([1, 2, 2], 5); step_dyn([2, 0, 2], 2); }
    c10_step_runtime_4 [14] { step_dyn([1, 2, 1, 3], 7); }
    c10_left_runtime_1 [8] { remaining_dyn([4], 5); remaining_dyn([0], 1); }
    c10_left_runtime_2 [10] { remaining_dyn([3, 2], 7); remaining_dyn([2, 3], 7); remaining_dyn([0, 2], 1); remaining_dyn([2, 0], 1); }
    c10_left_runtime_3 [10] { remaining_dyn([2, 1, 3], 7); remaining_dyn([2, 2, 1], 5); }
    c10_concat_fixed_a [8] { pairs!((S0) + (S0); (S0) + (S1 3); (S0) + (S2 2 3); (S0) + (S3 2 3 4); (S0) + (S4 2 3 4 5); (S0) + (S5 2 3 4 5 6);
        (S1 3) + (S0); (S1 2) + (S1 3); (S1 2) + (S2 3 4); (S1 2) + (S3 3 4 5); (S1 2) + (S4 3 4 5 6); (S1 2) + (S5 3 4 5 6 7);); }
    c10_concat_fixed_b [8] { pairs!((S2 2 3) + (S0); (S2 2 3) + (S1 4); (S2 2 3) + (S2 4 5); (S2 2 3) + (S3 4 5 6); (S2 2 3) + (S4 4 5 6 7);
        (S3 2 3 4) + (S0); (S3 2 3 4) + (S1 5); (S3 2 3 4) + (S2 5 6); (S3 2 3 4) + (S3 5 6 7);
        (S4 2 3 4 5) + (S0); (S4 2 3 4 5) + (S1 6); (S4 2 3 4 5) + (S2 6 7); (S5 2 3 4 5 6) + (S0); (S5 2 3 4 5 6) + (S1 7);); }
    c10_concat_runtime_0 [14] { dynpairs!(0 + [0 1 2 3 4 5 6]); }
    c10_concat_runtime_1 [14] { dynpairs!(1 + [0 1 2 3 4 5 6]); }
    c10_concat_runtime_2 [14] { dynpairs!(2 + [0 1 2 3 4 5 6]); }
    c10_concat_runtime_3 [14] { dynpairs!(3 + [0 1 2 3 4 5 6]); }
    c10_concat_runtime_4 [14] { dynpairs!(4 + [0 1 2 3 4 5 6]); }
    c10_concat_runtime_5 [14] { dynpairs!(5 + [0 1 2 3 4 5 6]); }
    c10_concat_runtime_6 [14] { dynpairs!(6 + [0 1 2 3 4 5 6]); }
    c10_split [8] {
        let ix: [usize; 2] = anyix();
        let (i, j) = <S2<2, 3> as Split>::split_index(ix);
        assert!(i == ix[0] && j == ix[1], "split_index");
        assert!(same(&<S1<2> as Concat<S1<3>>>::concat_indices(i, j), &ix), "concat undoes split");
        let (l, r): (S1<2>, S1<3>) = (S2::<2, 3>).split();
        let back: S2<2, 3> = l.concat(r);
        assert!(back.contains(ix) == (l.contains(i) && r.contains(j)), "membership splits");
        let (i, j): (usize, usize) = (any(), any());
        assert!(<S2<2, 3> as Split>::split_index(<S1<2> as Concat<S1<3>>>::concat_indices(i, j)) == (i, j), "split undoes concat");

        let ix: [usize; 4] = anyix();
        let (i, j) = <S4<2, 3, 4, 5> as Split>::split_index(ix);
        assert!(i[0] == ix[0] && i[1] == ix[1] && j[0] == ix[2] && j[1] == ix[3], "split_index");
        assert!(same(&<S2<2, 3> as Concat<S2<4, 5>>>::concat_indices(i, j), &ix), "concat undoes split");
        let (l, r): (S2<2, 3>, S2<4, 5>) = (S4::<2, 3, 4, 5>).split();
        let back: S4<2, 3, 4, 5> = l.concat(r);
        assert!(back.contains(ix) == (l.contains(i) && r.contains(j)), "membership splits");
        let (i, j): ([usize; 2], [usize; 2]) = (anyix(), anyix());
        let (a, b) = <S4<2, 3, 4, 5> as Split>::split_index(<S2<2, 3> as Concat<S2<4, 5>>>::concat_indices(i, j));
        assert!(same(&a, &i) && same(&b, &j), "split undoes concat");
    }
    // extents of any size, and small ones apart: whatever multiplies them is decided there
    c10_broadcast_runtime [34] { let b = usize::MAX; bcast_dyn::<0>(b); bcast_dyn::<1>(b); bcast_dyn::<2>(b); bcast_dyn::<3>(b); bcast_dyn::<4>(b); }
    c10_broadcast_runtime_small [34] { bcast_dyn::<2>(3); bcast_dyn::<3>(3); }
    c10_broadcast_fixed [8] {
        bcast!(S1[3] S2[2, 3] S3[2, 1, 3] S4[2, 1, 3, 2] S5[2, 1, 2, 1, 3] S6[2, 1, 2, 1, 2, 1]);
        assert!(S0.broadcast(S0).is_ok(), "scalars");
        let n: usize = any();
        assert!((S2::<2, 3>).is_equivalent(&SDynamic([n])) == (n == 6), "is_equivalent");
        assert!((S3::<2, 3, 2>).is_equivalent(&SDynamic([n])) == (n == 12), "is_equivalent");
        assert!((S1::<4>).is_equivalent(&SDynamic([n])) == (n == 4), "is_equivalent");
        assert!(S0.is_equivalent(&SDynamic([n])) == (n == 1), "is_equivalent");
        let e = IncompatibleShapes { left: SDynamic([n]), right: S0 };
        assert!(e.reverse().right[0] == n, "reverse");
    }
}
