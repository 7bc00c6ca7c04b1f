//! Inputs: symbolic under Kani, bytes natively.

#[cfg(kani)]
pub fn any<T: kani::Arbitrary>() -> T {
    kani::any()
}
#[cfg(kani)]
pub fn assume(c: bool) {
    kani::assume(c)
}
#[cfg(kani)]
pub fn reached() {
    kani::cover!(true, "the end of the harness is reachable");
}

#[cfg(not(kani))]
pub struct Skip;
#[cfg(not(kani))]
pub enum Mode {
    Bytes(std::collections::VecDeque<Vec<u8>>),
    Random(u64),
}
#[cfg(not(kani))]
thread_local! {
    pub static MODE: std::cell::RefCell<Mode> = const { std::cell::RefCell::new(Mode::Random(1)) };
    pub static REACHED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
#[cfg(not(kani))]
pub trait Raw: Sized {
    fn of(b: &[u8]) -> Self;
    const N: usize;
}
#[cfg(not(kani))]
macro_rules! raw {
    ($($t:ty)*) => { $(
        impl Raw for $t {
            const N: usize = std::mem::size_of::<$t>();
            fn of(b: &[u8]) -> $t { <$t>::from_ne_bytes(b.try_into().expect("width of a replayed value")) }
        }
    )* };
}
#[cfg(not(kani))]
raw!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize f32 f64);
#[cfg(not(kani))]
impl Raw for bool {
    const N: usize = 1;
    fn of(b: &[u8]) -> bool {
        b[0] & 1 == 1
    }
}
#[cfg(not(kani))]
pub fn any<T: Raw>() -> T {
    MODE.with(|m| match &mut *m.borrow_mut() {
        Mode::Bytes(q) => {
            let b = q.pop_front().unwrap_or(vec![0; T::N]);
            T::of(&b)
        },
        Mode::Random(s) => {
            let mut next = || {
                *s ^= *s << 13;
                *s ^= *s >> 7;
                *s ^= *s << 17;
                *s
            };
            // small values most of the time: harnesses bound their inputs
            let small = next() % 8 != 0;
            let v = if small { next() % 5 } else { next() };
            T::of(&v.to_ne_bytes()[..T::N])
        },
    })
}
#[cfg(not(kani))]
pub fn assume(c: bool) {
    if !c {
        std::panic::panic_any(Skip)
    }
}
#[cfg(not(kani))]
pub fn reached() {
    REACHED.with(|r| r.set(true))
}

/// A value up to and including `n`.
pub fn upto(n: usize) -> usize {
    let x: usize = any();
    #[cfg(not(kani))]
    let x = if MODE.with(|m| matches!(*m.borrow(), Mode::Random(_))) && n < usize::MAX { x % (n + 1) } else { x };
    assume(x <= n);
    x
}

/// A value below `n`.
pub fn below(n: usize) -> usize {
    upto(n - 1)
}

/// `harnesses! { name [unwind] { body } ... }`
#[macro_export]
macro_rules! harnesses {
    ($($n:ident [$u:literal] $b:block)*) => {
        $(
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($u))]
            pub fn $n() {
                $b;
                $crate::io::reached();
            }
        )*
        #[allow(dead_code)]
        pub fn register(v: &mut Vec<(&'static str, fn())>) {
            $( v.push((stringify!($n), $n)); )*
        }
    };
}
