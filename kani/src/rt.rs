//! The contract runtime: symbolic values under Kani, recorded or random values natively.
//!
//! A contract is an ordinary function: it draws arbitrary arguments, states `requires!`, calls the
//! real function of /repo and states `ensures!`. Under Kani every `ensures!` is a named proof
//! obligation; natively (replay of a counterexample) it is a run-time check with the same name.

/// Largest object where objects are arrays of recorded values or no callee is replaced (bounded)
pub const OBJECT: usize = 16;

#[cfg(kani)]
mod imp {
    use super::OBJECT;
    pub fn any<T: kani::Arbitrary>() -> T {
        kani::any()
    }
    #[inline(always)]
    pub fn assume(c: bool) {
        kani::assume(c)
    }
    pub fn any_version() -> (u8, u8) {
        (kani::any(), kani::any())
    }
    /// A slice of arbitrary length (at most `MAX`) and content.
    ///
    /// For the safety obligations (C01) it lies in an object of exactly that size, so that every
    /// access outside it is a failed obligation; for the functional ones it is the start of an array.
    #[cfg(all(feature = "safety", not(any(feature = "playback", feature = "nostub"))))]
    pub fn any_slice<const MAX: usize>() -> &'static [u8] {
        any_object::<MAX>()
    }
    /// A slice of arbitrary content in an object of exactly its size, at most `MAX`.
    #[cfg(not(any(feature = "playback", feature = "nostub")))]
    pub fn any_object<const MAX: usize>() -> &'static [u8] {
        let n: usize = kani::any();
        kani::assume(n <= MAX);
        if n == 0 {
            return &[];
        }
        unsafe {
            let p = std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(n, 1));
            kani::assume(!p.is_null());
            core::slice::from_raw_parts(p, n)
        }
    }
    #[cfg(any(feature = "playback", feature = "nostub"))]
    pub fn any_object<const MAX: usize>() -> &'static [u8] {
        any_slice::<OBJECT>()
    }
    #[cfg(not(all(feature = "safety", not(any(feature = "playback", feature = "nostub")))))]
    pub fn any_slice<const MAX: usize>() -> &'static [u8] {
        let n: usize = kani::any();
        let arr: [u8; MAX] = kani::any();
        kani::assume(n <= MAX);
        let arr: &'static [u8; MAX] = std::boxed::Box::leak(std::boxed::Box::new(arr));
        if cfg!(feature = "safety") {
            &arr[MAX - n..]
        } else {
            &arr[..n]
        }
    }
}

#[cfg(not(kani))]
mod imp {
    use super::OBJECT;
    use std::cell::RefCell;
    pub enum Source {
        Recorded(Vec<u8>, usize),
        Random(u64),
    }
    thread_local! {
        pub static SOURCE: RefCell<Source> = const { RefCell::new(Source::Random(1)) };
    }
    /// The panic of a violated precondition: this input says nothing
    pub struct Discard;
    thread_local! {
        static OBJECTS: RefCell<Vec<*mut [u8]>> = const { RefCell::new(Vec::new()) };
    }
    /// An object that lives until the contract ends
    pub fn object(v: Vec<u8>) -> &'static [u8] {
        let p = Box::into_raw(v.into_boxed_slice());
        OBJECTS.with(|o| o.borrow_mut().push(p));
        unsafe { &*p }
    }
    pub enum Outcome {
        Held,
        Discarded,
        Failed(String),
    }
    /// Run one contract on the values of `source`
    pub fn run(f: fn(), source: Source) -> Outcome {
        SOURCE.with(|s| *s.borrow_mut() = source);
        let r = std::panic::catch_unwind(f);
        OBJECTS.with(|o| {
            for p in o.borrow_mut().drain(..) {
                drop(unsafe { Box::from_raw(p) });
            }
        });
        match r {
            Ok(()) => Outcome::Held,
            Err(e) if e.is::<Discard>() => Outcome::Discarded,
            Err(e) => Outcome::Failed(
                e.downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "panic".into()),
            ),
        }
    }

    fn rnd(s: &mut u64) -> u64 {
        *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = *s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn is_random() -> bool {
        random().is_some()
    }
    fn random() -> Option<u64> {
        SOURCE.with(|s| match &mut *s.borrow_mut() {
            Source::Random(s) => Some(rnd(s)),
            _ => None,
        })
    }
    fn byte() -> u8 {
        SOURCE.with(|s| match &mut *s.borrow_mut() {
            Source::Recorded(v, pos) => {
                let b = v.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                b
            }
            Source::Random(s) => {
                let r = rnd(s);
                let b = (r >> 8) as u8;
                match r & 7 {
                    0 => 0,
                    1 => 0xFF,
                    2 => b & 3,
                    3 => b & 0x1F,
                    4 => 0xFE | (b & 1),
                    _ => b,
                }
            }
        })
    }
    pub trait Any {
        fn any() -> Self;
    }
    macro_rules! ints {
        ($($t:ty)*) => {$(
            impl Any for $t {
                fn any() -> Self {
                    let mut b = [0u8; core::mem::size_of::<$t>()];
                    for x in b.iter_mut() { *x = byte(); }
                    <$t>::from_le_bytes(b)
                }
            }
        )*};
    }
    ints!(u8 u16 u32 u64 u128 usize);
    impl Any for bool {
        fn any() -> Self {
            byte() & 1 == 1
        }
    }
    impl<const N: usize> Any for [u8; N] {
        fn any() -> Self {
            let mut b = [0u8; N];
            for x in b.iter_mut() {
                *x = byte();
            }
            // Values with a meaning of their own
            if let Some(r) = random().filter(|_| N >= 8) {
                const WORDS: [&[u8]; 8] = [
                    &[0, 0, 0, 0x80], &[0xFF; 4], &[0; 8], &[0xFE, 0xFF], &[0xFF, 0xFF], &[0xFF, 0x7F], &[0, 0x80], &[0xFF; 8],
                ];
                for _ in 0..r & 3 {
                    let r = random().unwrap_or(0);
                    let word = WORDS[(r >> 32) as usize % WORDS.len()];
                    let at = (r >> 8) as usize % (N.min(96) - word.len() + 1);
                    b[at..at + word.len()].copy_from_slice(word);
                }
            }
            b
        }
    }
    pub fn any<T: Any>() -> T {
        T::any()
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(Discard);
        }
    }
    pub fn any_version() -> (u8, u8) {
        match random() {
            Some(r) if r % 8 != 0 => ([2, 2, 3, 2][(r >> 8) as usize % 4], ((r >> 16) % 10) as u8),
            _ => (any(), any()),
        }
    }
    pub fn any_slice<const MAX: usize>() -> &'static [u8] {
        let n = match random() {
            Some(r) => match r & 3 {
                0 => (r >> 8) as usize % (MAX + 1),
                1 => (r >> 8) as usize % (MAX.min(16) + 1),
                _ => (r >> 8) as usize % (MAX.min(100) + 1),
            },
            None => any::<usize>(),
        };
        let arr: [u8; MAX] = any();
        assume(n <= MAX);
        let part = if cfg!(feature = "safety") { &arr[MAX - n..] } else { &arr[..n] };
        // An allocation of exactly the slice, so that sanitizers see every access outside it
        object(part.to_vec())
    }
    /// An object of at most `MAX` bytes; the recorded ones have at most `OBJECT`
    pub fn any_object<const MAX: usize>() -> &'static [u8] {
        match random() {
            None => any_slice::<OBJECT>(),
            Some(r) if r & 7 != 0 || MAX < 66000 => any_slice::<251>(),
            Some(r) => {
                // Large and mostly empty
                let mut v = vec![0u8; 65000 + (r >> 8) as usize % 1200];
                let n = v.len();
                for _ in 0..8 {
                    let at = (any::<u16>() as usize + 64000) % n;
                    v[at] = any();
                }
                object(v)
            }
        }
    }
}
pub use imp::*;

/// A precondition: assumed on entry of a contract.
#[macro_export]
macro_rules! requires {
    ($c:expr) => {
        $crate::rt::assume($c)
    };
}

/// A named postcondition: one proof obligation.
#[macro_export]
macro_rules! ensures {
    ($name:literal, $c:expr) => {{
            #[cfg(all(kani, not(feature = "safety")))]
            kani::assert($c, concat!("ENSURES ", $name));
            #[cfg(all(not(kani), not(feature = "safety")))]
            if !($c) {
                panic!(concat!("ENSURES ", $name));
            }
    }};
}

/// A vacuity guard: this point must be reachable with the condition true.
#[macro_export]
macro_rules! reachable {
    ($name:literal, $c:expr) => {{
            #[cfg(all(kani, not(feature = "playback")))]
            kani::cover($c, concat!("REACHABLE ", $name));
    }};
}

/// Checks that only run natively, on inputs too large for the verifier (bounded stand-ins).
#[macro_export]
macro_rules! native {
    ($( $(#[doc = $d:literal])* fn $name:ident() $body:block )*) => {
        $( $(#[doc = $d])* #[cfg(not(kani))] pub fn $name() $body )*
        #[cfg(not(kani))]
        pub const NATIVE: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
        #[cfg(kani)]
        pub const NATIVE: &[(&str, fn())] = &[];
    };
}

/// Contracts of one module: Kani proofs and a table of native functions.
#[macro_export]
macro_rules! contracts {
    ($( $(#[doc = $d:literal])* $(#[unwind($u:expr)])? $(#[stub($($stub:tt)*)])* fn $name:ident() $body:block )*) => {
        $(
            $(#[doc = $d])*
            #[cfg_attr(kani, kani::proof)]
            $( #[cfg_attr(kani, kani::unwind($u))] )?
            $( #[cfg_attr(all(kani, not(feature = "nostub")), kani::stub($($stub)*))] )*
            pub fn $name() $body
        )*
        pub const LIST: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    };
}
