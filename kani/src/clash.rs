//! Operand shapes that differ: run-time extents and lengths are symbolic.
use crate::io::{any, assume, upto};
use aegir::buffers::shapes::*;
use aegir::buffers::{Spec, ZipFold, ZipMap};

fn same<const D: usize>(l: &[usize; D], r: &[usize; D]) -> bool {
    let mut k = 0;
    while k < D {
        if l[k] != r[k] {
            return false;
        }
        k += 1;
    }
    true
}
fn extents<const D: usize>() -> [usize; D] {
    let mut x = [0; D];
    let mut k = 0;
    while k < D {
        x[k] = any();
        k += 1;
    }
    x
}
fn broadcast<const D: usize>() {
    let (l, r): ([usize; D], [usize; D]) = (extents(), extents());
    match SDynamic(l).broadcast(SDynamic(r)) {
        Ok(s) => assert!(same(&l, &r) && same(&s.0, &l), "equal shapes keep their shape"),
        Err(e) => {
            assert!(!same(&l, &r), "equal shapes rejected");
            assert!(same(&e.left.0, &l) && same(&e.right.0, &r), "shapes named in operand order");
            let b = e.reverse();
            assert!(same(&b.left.0, &r) && same(&b.right.0, &l), "shapes reversed");
        },
    }
    match SDynamic(l).broadcast(S0) {
        Ok(s) => assert!(same(&s.0, &l), "broadcast with a scalar"),
        Err(_) => assert!(false, "broadcast with a scalar rejected"),
    }
    match Broadcast::<SDynamic<D>>::broadcast(S0, SDynamic(l)) {
        Ok(s) => assert!(same(&s.0, &l), "broadcast of a scalar"),
        Err(_) => assert!(false, "broadcast of a scalar rejected"),
    }
}
/// Any vector of at most three entries.
fn vector() -> Vec<i8> {
    let mut v: Vec<i8> = vec![any::<i8>() >> 2, any::<i8>() >> 2, any::<i8>() >> 2];
    v.truncate(upto(3));
    v
}
fn named(e: IncompatibleShapes<SDynamic<1>>, n: usize, m: usize) {
    assert!(n != m, "equal lengths rejected");
    assert!(e.left.0[0] == n && e.right.0[0] == m, "lengths named in operand order");
}

harnesses! {
    c12_broadcast_1 [10] { broadcast::<1>(); }
    c12_broadcast_2 [18] { broadcast::<2>(); }
    c12_broadcast_3 [26] { broadcast::<3>(); }
    c12_broadcast_4 [34] { broadcast::<4>(); }
    c12_broadcast_5 [42] { broadcast::<5>(); }
    c12_broadcast_6 [50] { broadcast::<6>(); }
    c12_zip_map [10] {
        let (l, r) = (vector(), vector());
        let (n, m) = (l.len(), r.len());
        match ZipMap::zip_map(l.clone(), &r, |x, y| -> i8 { x ^ (y & 85) }) {
            Ok(z) => {
                assert!(n == m && z.len() == n, "length");
                let i = upto(2);
                assert!(i >= n || z[i] == l[i] ^ (r[i] & 85), "entry");
            },
            Err(e) => named(e, n, m),
        }
    }
    c12_zip_map_id [10] {
        let (l, r) = (vector(), vector());
        let (n, m) = (l.len(), r.len());
        match ZipMap::zip_map_id(l.clone(), &r, |x, y| -> i8 { x ^ (y & 85) }) {
            Ok(z) => {
                assert!(n == m && z.len() == n, "length");
                let i = upto(2);
                assert!(i >= n || z[i] == l[i] ^ (r[i] & 85), "entry");
            },
            Err(e) => named(e, n, m),
        }
    }
    c12_zip_fold [10] {
        let (l, r) = (vector(), vector());
        let (n, m) = (l.len(), r.len());
        match ZipFold::zip_fold(&l, &r, 0u8, |a, (x, y)| a.rotate_left(1) ^ (x as u8) ^ (y as u8 & 85)) {
            Ok(z) => {
                let (mut w, mut i) = (0u8, 0);
                while i < n {
                    w = w.rotate_left(1) ^ (l[i] as u8) ^ (r[i] as u8 & 85);
                    i += 1;
                }
                assert!(n == m && z == w, "fold");
            },
            Err(e) => named(e, n, m),
        }
    }
    c12_zip_shape [10] {
        let l = vector();
        let (n, m): (usize, usize) = (l.len(), any());
        match <Vec<i8> as ZipMap<Vec<i8>>>::zip_shape(l.clone(), SDynamic([m])) {
            Ok(z) => {
                assert!(n == m && z.len() == n, "length");
                let i = upto(2);
                assert!(i >= n || z[i] == l[i], "entry");
            },
            Err(e) => named(e, n, m),
        }
    }
    c12_spec [10] {
        let (n, m): (usize, usize) = (any(), any());
        let (x, y): (i8, i8) = (any(), any());
        // equal lengths may expand to a real vector: keep it small
        assume(n != m || n <= 3);
        match Spec::<Vec<i8>>::Full(SDynamic([n]), x).zip_map(&Spec::<Vec<i8>>::Full(SDynamic([m]), y), |x, y| -> i8 { x ^ (y & 85) }) {
            Ok(z) => {
                
                assert!(n == m, "constants of different lengths");
                if let Spec::Full(s, z) = z {
                    assert!(s.0[0] == n && z == x ^ (y & 85), "constants");
                }
            },
            Err(e) => named(e, n, m),
        }
    }
}
