//! Buffer constructors place exactly the requested values.
#![allow(unused_variables, unused_imports)]
#[macro_use]
extern crate aegir;

use aegir::buffers::shapes::*;
use aegir::buffers::{Arrays, Buffer, Class, Scalars, Spec, Tuples, Vecs};
use symx::*;

/// An index as a list of positions.
trait At: Copy + PartialEq {
    fn at(self) -> Vec<usize>;
    fn of_slice(v: &[usize]) -> Self;
}
impl At for () {
    fn at(self) -> Vec<usize> {
        vec![]
    }
    fn of_slice(v: &[usize]) -> Self {}
}
impl At for usize {
    fn at(self) -> Vec<usize> {
        vec![self]
    }
    fn of_slice(v: &[usize]) -> Self {
        v[0]
    }
}
impl<const N: usize> At for [usize; N] {
    fn at(self) -> Vec<usize> {
        self.to_vec()
    }
    fn of_slice(v: &[usize]) -> Self {
        v.try_into().unwrap()
    }
}

/// All indices of a shape in row-major order, enumerated here.
fn all(dims: &[usize]) -> Vec<Vec<usize>> {
    dims.iter().fold(vec![vec![]], |acc, n| {
        acc.into_iter().flat_map(|p| (0..*n).map(move |i| p.iter().copied().chain([i]).collect())).collect()
    })
}
fn name(s: &str, ix: &[usize]) -> String {
    fld::subscript(s, ix)
}

/// Every constructor of class `$c` at shape `$s` (extents `$dims`), compared entry by entry.
macro_rules! constructors {
    ($c:ty, $st:ty, $ft:ty, $s:expr, $dims:expr, $subset:expr) => {{
        let (s, dims): ($st, Vec<usize>) = ($s, $dims);
        let ixs = all(&dims);
        type I = IndexOf<$st>;
        let bag = |f: &dyn Fn(&[usize]) -> F| Bag(dims.clone(), ixs.iter().map(|i| f(i)).collect());
        let (x, o, i) = (F::inp("x"), F::lit(0, 1), F::lit(1, 1));

        let b: $ft = <$c as Class<$st>>::build(s, |ix: I| F::inp(&name("e", &ix.at())));
        check_buf("build", &b, &bag(&|ix| F::inp(&name("e", ix))));
        check("build, shape", Formula::of(b.shape() == s));
        for ix in &ixs {
            Fld::check_eq("build, unchecked access", b.get_unchecked(I::of_slice(ix)), F::inp(&name("e", ix)));
            let got = b.get(I::of_slice(ix));
            check("build, access", Formula::of(got.is_some()));
            Fld::check_eq("build, checked access", got.unwrap(), F::inp(&name("e", ix)));
        }
        // a component-wise field: nothing depends on the field the buffer holds
        let b = <$c as Class<$st>>::build(s, |ix: I| jet(F::inp(&name("e", &ix.at())), F::inp(&name("d", &ix.at()))));
        check_buf("build, other field (v)", &Bag::of(&b).map(|e| e.v), &bag(&|ix| F::inp(&name("e", ix))));
        check_buf("build, other field (d)", &Bag::of(&b).map(|e| e.d), &bag(&|ix| F::inp(&name("d", ix))));

        let full: $ft = <$c as Class<$st>>::full(s, x);
        check_buf("full", &full, &bag(&|_| x));
        check("full, shape", Formula::of(full.shape() == s));
        let z: $ft = <$c as Class<$st>>::zeroes(s);
        check_buf("zeroes", &z, &bag(&|_| o));
        let z: $ft = <$c as Class<$st>>::ones(s);
        check_buf("ones", &z, &bag(&|_| i));
        let diag = |v: F| bag(&move |ix| if ix.windows(2).all(|w| w[0] == w[1]) { v } else { F::lit(0, 1) });
        let z: $ft = <$c as Class<$st>>::diagonal(s, x);
        check_buf("diagonal", &z, &diag(x));
        let z: $ft = <$c as Class<$st>>::identity(s);
        check_buf("identity", &z, &diag(i));
        check_buf("Spec::full", &Spec::<$ft>::Full(s, x).unwrap(), &bag(&|_| x));
        check_buf("Spec::diagonal", &Spec::<$ft>::Diagonal(s, x).unwrap(), &diag(x));
        check_buf("Spec::zeroes", &Spec::<$ft>::zeroes(s).unwrap(), &bag(&|_| o));
        check_buf("Spec::ones", &Spec::<$ft>::ones(s).unwrap(), &bag(&|_| i));
        check_buf("Spec::eye", &Spec::<$ft>::eye(s).unwrap(), &diag(i));

        // a default everywhere except a subset of the indices
        let pickf: fn(&[usize]) -> bool = $subset;
        let sub: Vec<Vec<usize>> = ixs.iter().filter(|ix| pickf(ix)).cloned().collect();
        let want = bag(&|ix| if sub.iter().any(|j| j == ix) { F::inp(&name("e", ix)) } else { x });
        let run = |v: Vec<Vec<usize>>| -> $ft {
            <$c as Class<$st>>::build_subset(s, x, v.into_iter().map(|ix| I::of_slice(&ix)), |ix: I| F::inp(&name("e", &ix.at())))
        };
        check_buf("build_subset", &run(sub.clone()), &want);
        let mut rev = sub.clone();
        rev.reverse();
        rev.extend(sub.clone());
        check_buf("build_subset, any order", &run(rev), &want);
        // one index more often than there are entries, then the rest, each twice
        let mut many: Vec<Vec<usize>> = sub.iter().take(1).flat_map(|ix| vec![ix.clone(); ixs.len() + 1]).collect();
        many.extend(sub.iter().flat_map(|ix| vec![ix.clone(), ix.clone()]));
        check_buf("build_subset, repeats", &run(many), &want);
        check("build_subset, shape", Formula::of(run(sub.clone()).shape() == s));
        check_buf("build_subset, none", &run(vec![]), &full);
        check_buf("build_subset, all", &run(ixs.clone()), &bag(&|ix| F::inp(&name("e", ix))));
        // the library's own enumeration as the subset
        let b: $ft = <$c as Class<$st>>::build_subset(s, x, s.indices(), |ix: I| F::inp(&name("e", &ix.at())));
        check_buf("build_subset over indices()", &b, &bag(&|ix| F::inp(&name("e", ix))));
        let b: $ft = <$c as Class<$st>>::build_subset(s, o, s.indices().filter(|ix| ix.is_diagonal()), |_| x);
        check_buf("build_subset over the diagonal", &b, &diag(x));
    }};
}

fn any_subset(ix: &[usize]) -> bool {
    choice(&name("in", ix))
}
/// A few patterns for larger shapes, chosen symbolically.
fn pattern(ix: &[usize]) -> bool {
    let s: usize = ix.iter().enumerate().map(|(k, i)| (k + 1) * i).sum();
    match pick("pattern", 6) {
        0 => s % 2 == 0,
        1 => s % 3 == 1,
        2 => ix[0] == 0,
        3 => *ix.last().unwrap() == 0,
        4 => ix.windows(2).all(|w| w[0] == w[1]),
        _ => ix.windows(2).any(|w| w[0] > w[1]),
    }
}

macro_rules! arrays {
    ($v:ident; $sub:ident; $($d:tt $st:ident [$($n:literal),*];)*) => { $(
        case!($v, format!("array {}", stringify!($d)), {
            type B<S> = tyf!(S; $d);
            constructors!(Arrays, $st<$($n),*>, B<F>, $st, vec![$($n),*], $sub);
        });
    )* };
}

fn main() {
    let mut v = vec![];
    case!(v, "scalar", {
        constructors!(Scalars, S0, F, S0, vec![], any_subset);
    });
    case!(v, "pair", {
        constructors!(Tuples, S1<2>, (F, F), S1, vec![2], any_subset);
    });
    case!(v, "vector", {
        let n = pick("n", if thorough() { 8 } else { 6 });
        constructors!(Vecs, SDynamic<1>, Vec<F>, SDynamic([n]), vec![n], any_subset);
    });
    arrays!(v; any_subset;
        [0] S1 [0]; [1] S1 [1]; [2] S1 [2]; [3] S1 [3]; [5] S1 [5];
        [1 1] S2 [1, 1]; [1 3] S2 [1, 3]; [3 1] S2 [3, 1]; [2 2] S2 [2, 2]; [2 3] S2 [2, 3];
        [3 2] S2 [3, 2]; [1 2 1] S3 [1, 2, 1]; [2 1 3] S3 [2, 1, 3]; [2 2 2] S3 [2, 2, 2];
        [1 3 2] S3 [1, 3, 2]; [1 2 1 3] S4 [1, 2, 1, 3]; [2 1 2 1] S4 [2, 1, 2, 1];
        [1 2 1 2 1] S5 [1, 2, 1, 2, 1]; [1 1 3 1 2] S5 [1, 1, 3, 1, 2];);
    arrays!(v; pattern;
        [3 3] S2 [3, 3]; [4 4] S2 [4, 4]; [2 5] S2 [2, 5]; [3 2 4] S3 [3, 2, 4]; [3 3 3] S3 [3, 3, 3];
        [2 3 4] S3 [2, 3, 4]; [2 2 2 2] S4 [2, 2, 2, 2]; [2 3 1 2] S4 [2, 3, 1, 2];
        [3 2 2 3] S4 [3, 2, 2, 3]; [2 2 2 2 2] S5 [2, 2, 2, 2, 2]; [2 1 3 2 2] S5 [2, 1, 3, 2, 2];);
    case!(v, "vector, long", {
        let n = [9, 16, 17, 33, 65, 129, 257, 1030][pick("n", if thorough() { 8 } else { 7 })];
        constructors!(Vecs, SDynamic<1>, Vec<F>, SDynamic([n]), vec![n], pattern);
    });
    arrays!(v; pattern;
        [9] S1 [9]; [17] S1 [17]; [33] S1 [33]; [129] S1 [129]; [257] S1 [257]; [17 16] S2 [17, 16]; [2 129] S2 [2, 129]; [129 2] S2 [129, 2]; [7 6 7] S3 [7, 6, 7]; [9 10] S2 [9, 10]; [2 17] S2 [2, 17]; [17 2] S2 [17, 2]; [9 9] S2 [9, 9];
        [2 3 9] S3 [2, 3, 9]; [9 2 1] S3 [9, 2, 1]; [1 9 1 2] S4 [1, 9, 1, 2]; [2 1 1 1 9] S5 [2, 1, 1, 1, 9];);
    main_with("C08", v);
}
