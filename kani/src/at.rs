//! Indices and shapes as plain arrays, written independently of the library.

/// An index seen as `N` positions.
pub trait At: Copy {
    const N: usize;
    fn get(&self, k: usize) -> usize;
    fn make(f: impl FnMut(usize) -> usize) -> Self;
}
impl At for () {
    const N: usize = 0;
    fn get(&self, _: usize) -> usize {
        unreachable!()
    }
    fn make(_: impl FnMut(usize) -> usize) -> Self {}
}
impl At for usize {
    const N: usize = 1;
    fn get(&self, _: usize) -> usize {
        *self
    }
    fn make(mut f: impl FnMut(usize) -> usize) -> usize {
        f(0)
    }
}
impl<const M: usize> At for [usize; M] {
    const N: usize = M;
    fn get(&self, k: usize) -> usize {
        self[k]
    }
    fn make(mut f: impl FnMut(usize) -> usize) -> Self {
        let mut a = [0; M];
        let mut k = 0;
        while k < M {
            a[k] = f(k);
            k += 1;
        }
        a
    }
}

/// Same positions, compared one by one (no `memcmp`).
pub fn same<I: At>(a: &I, b: &I) -> bool {
    let mut k = 0;
    let mut eq = true;
    while k < I::N {
        eq = eq & (a.get(k) == b.get(k));
        k += 1;
    }
    eq
}

/// Inside the extents.
pub fn inside<I: At>(ix: &I, dims: &[usize]) -> bool {
    let mut k = 0;
    let mut ok = true;
    while k < I::N {
        ok = ok & (ix.get(k) < dims[k]);
        k += 1;
    }
    ok
}

/// All positions equal.
pub fn diagonal<I: At>(ix: &I) -> bool {
    let mut k = 1;
    let mut ok = true;
    while k < I::N {
        ok = ok & (ix.get(k) == ix.get(0));
        k += 1;
    }
    ok
}

/// The first index in row-major order, or none.
pub fn first<I: At>(dims: &[usize]) -> Option<I> {
    let ix = I::make(|_| 0);
    if inside(&ix, dims) {
        Some(ix)
    } else {
        None
    }
}

/// The next index in row-major order, or none.
pub fn succ<I: At>(ix: I, dims: &[usize]) -> Option<I> {
    let mut carry = true;
    let mut a = [0usize; 6];
    let mut k = I::N;
    while k > 0 {
        k -= 1;
        a[k] = ix.get(k);
        if carry {
            if a[k] + 1 < dims[k] {
                a[k] += 1;
                carry = false;
            } else {
                a[k] = 0;
            }
        }
    }
    if carry {
        None
    } else {
        Some(I::make(|k| a[k]))
    }
}
