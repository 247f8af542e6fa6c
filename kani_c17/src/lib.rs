//! Harnesses over the cost arithmetic of the rewriters and the optimiser.
use std::num::NonZeroUsize;

/// outside the model checker the harnesses run on the values it reported
#[cfg(not(kani))]
pub mod kani {
    use std::cell::RefCell;
    thread_local!(pub static VALUES: RefCell<Vec<Vec<u8>>> = const { RefCell::new(vec![]) });
    pub trait Any {
        fn of(b: &[u8]) -> Self;
    }
    macro_rules! any {
        ($($t:ty)*) => {$(impl Any for $t {
            fn of(b: &[u8]) -> Self {
                <$t>::from_le_bytes(b.try_into().unwrap())
            }
        })*};
    }
    any!(usize isize u8 u16 u32);
    pub fn any<T: Any>() -> T {
        T::of(&VALUES.with(|v| v.borrow_mut().remove(0)))
    }
    pub fn assume(b: bool) {
        if !b {
            println!("ASSUMPTION-FAILED");
            std::process::exit(0)
        }
    }
}
use tket::circuit::cost::{CircuitCost, CostDelta, LexicographicCost};

/// A cost as it can occur: the cost of a circuit fits an `isize`.
fn any() -> usize {
    let x: usize = kani::any();
    kani::assume(x <= isize::MAX as usize);
    x
}
fn small() -> usize {
    let x: usize = kani::any();
    kani::assume(x < 1 << 60);
    x
}
/// a cost within the bound of the division
fn tiny() -> usize {
    let x: u16 = kani::any();
    x as usize
}
type L<const N: usize> = LexicographicCost<usize, N>;
type D<const N: usize> = LexicographicCost<isize, N>;

/// what an array of costs means
fn lex<T: Ord + Copy, const N: usize>(a: [T; N], b: [T; N]) -> std::cmp::Ordering {
    let mut i = 0;
    while i < N {
        if a[i] < b[i] {
            return std::cmp::Ordering::Less;
        }
        if a[i] > b[i] {
            return std::cmp::Ordering::Greater;
        }
        i += 1;
    }
    std::cmp::Ordering::Equal
}

macro_rules! arr {
    ($f:ident, $n:literal) => {{
        let mut a = [0usize; $n];
        for x in a.iter_mut() {
            *x = $f();
        }
        a
    }};
}

macro_rules! lexicographic {
    ($m:ident, $n:literal) => {
        pub mod $m {
            use super::*;

            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind(26))]
            pub fn order() {
                let (a, b) = (arr!(any, $n), arr!(any, $n));
                assert_eq!(L::<$n>::from(a).cmp(&L::<$n>::from(b)), lex(a, b));
                assert_eq!(L::<$n>::from(a) == L::<$n>::from(b), a == b);
            }

            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind(26))]
            pub fn sum() {
                let (a, b, c) = (arr!(small, $n), arr!(small, $n), arr!(small, $n));
                let mut s = [0usize; $n];
                let mut t = [0usize; $n];
                for i in 0..$n {
                    s[i] = a[i] + b[i];
                    t[i] = a[i] + b[i] + c[i];
                }
                let (ca, cb, cc) = (L::<$n>::from(a), L::<$n>::from(b), L::<$n>::from(c));
                assert_eq!(ca + cb, L::<$n>::from(s));
                assert_eq!([ca, cb, cc].into_iter().sum::<L<$n>>(), L::<$n>::from(t));
                assert_eq!(std::iter::empty::<L<$n>>().sum::<L<$n>>(), L::<$n>::default());
                assert_eq!(L::<$n>::default(), L::<$n>::from([0usize; $n]));
                let mut d = ca;
                d += cb;
                assert_eq!(d, L::<$n>::from(s));
                // adding the same cost does not change which circuit is better
                assert_eq!((ca + cc).cmp(&(cb + cc)), ca.cmp(&cb));
            }

            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind(26))]
            pub fn delta() {
                let (a, b) = (arr!(any, $n), arr!(any, $n));
                let (ca, cb) = (L::<$n>::from(a), L::<$n>::from(b));
                let d = ca.sub_cost(&cb);
                assert_eq!(cb.add_delta(&d), ca);
                assert_eq!(d.cmp(&D::<$n>::default()), ca.cmp(&cb));
                assert_eq!(ca.as_usize(), a[0]);
                assert_eq!(d.as_isize(), a[0] as isize - b[0] as isize);
            }

            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind(26))]
            pub fn deltas_add_up() {
                let (a, b, c) = (arr!(small, $n), arr!(small, $n), arr!(small, $n));
                let (ca, cb, cc) = (L::<$n>::from(a), L::<$n>::from(b), L::<$n>::from(c));
                assert_eq!(ca.sub_cost(&cb) + cb.sub_cost(&cc), ca.sub_cost(&cc));
                let ds = [ca.sub_cost(&cb), cb.sub_cost(&cc)];
                assert_eq!(ds.into_iter().sum::<D<$n>>(), ca.sub_cost(&cc));
                let mut d = ca.sub_cost(&cb);
                d += cb.sub_cost(&cc);
                assert_eq!(d, ca.sub_cost(&cc));
            }
        }
    };
}
lexicographic!(lex1, 1);
lexicographic!(lex2, 2);
lexicographic!(lex3, 3);

pub mod plain {
    use super::*;

    #[cfg_attr(kani, kani::proof)]
    pub fn delta() {
        let (a, b, c) = (any(), any(), any());
        assert_eq!(b.add_delta(&a.sub_cost(&b)), a);
        assert_eq!(a.sub_cost(&b).cmp(&0), a.cmp(&b));
        assert_eq!(a.as_usize(), a);
        assert_eq!(a.sub_cost(&b).as_isize(), a as isize - b as isize);
        kani::assume(a < 1 << 60 && b < 1 << 60 && c < 1 << 60);
        assert_eq!(a.sub_cost(&b) + b.sub_cost(&c), a.sub_cost(&c));
    }

    /// the whole range, divided by powers of two
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(26))]
    pub fn wide_division() {
        let a = any();
        let k: u8 = kani::any();
        kani::assume(k < 62);
        let n = NonZeroUsize::new(1usize << k).unwrap();
        let w = (a >> k) + (a & ((1 << k) - 1) != 0) as usize;
        assert_eq!(a.div_cost(n), w);
    }

    /// a decrease below zero stops at zero
    #[cfg_attr(kani, kani::proof)]
    pub fn saturation() {
        let (a, d): (usize, isize) = (any(), kani::any());
        let w = a as i128 + d as i128;
        let w = if w < 0 { 0 } else { w as usize };
        assert_eq!(a.add_delta(&d), w);
        let l = L::<2>::from([a, a]).add_delta(&D::<2>::from([d, d]));
        assert_eq!(l, L::<2>::from([w, w]));
    }
}

/// the number of whole parts of size `n` needed to hold `a`
fn parts(a: usize, n: usize, q: usize) -> bool {
    // q - 1 < a / n <= q, in numbers that cannot overflow
    let (a, n, q) = (a as u128, n as u128, q as u128);
    a <= q * n && q * n < a + n
}

macro_rules! division {
    ($m:ident, $n:literal) => {
        pub mod $m {
            use super::*;

            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind(26))]
            pub fn division() {
                let a = tiny();
                let n = NonZeroUsize::new($n).unwrap();
                assert!(parts(a, $n, a.div_cost(n)));
                let (b, c) = (tiny(), tiny());
                let q = L::<3>::from([a, b, c]).div_cost(n);
                assert!(q == L::<3>::from([a.div_cost(n), b.div_cost(n), c.div_cost(n)]));
                assert!(parts(a, $n, q.as_usize()));
            }
        }
    };
}
division!(by1, 1);
division!(by2, 2);
division!(by3, 3);
division!(by5, 5);
division!(by6, 6);
division!(by7, 7);

pub mod gamma {
    use super::*;
    use tket::rewrite::strategy::{GammaStrategyCost, StrategyCost};

    /// a rewrite is allowed if the new cost is less than gamma times the old cost
    #[cfg_attr(kani, kani::proof)]
    pub fn threshold() {
        let (p, t): (u16, u16) = (kani::any(), kani::any());
        for g in [1.0f64, 1.0001, 0.5, 2.0] {
            let s = GammaStrategyCost { gamma: g, op_cost: |_: &_| 0usize };
            assert_eq!(s.under_threshold(&(p as usize), &(t as usize)), (t as f64) < g * p as f64);
        }
    }

    /// at gamma 1 only a strict decrease is allowed
    #[cfg_attr(kani, kani::proof)]
    pub fn greedy() {
        let (p, t): (u32, u32) = (kani::any(), kani::any());
        let s = GammaStrategyCost { gamma: 1.0, op_cost: |_: &_| 0usize };
        assert_eq!(s.under_threshold(&(p as usize), &(t as usize)), t < p);
    }

    struct Default2;
    impl StrategyCost for Default2 {
        type OpCost = L<2>;
        fn op_cost(&self, _: &hugr::ops::OpType) -> L<2> {
            L::default()
        }
    }

    /// unless said otherwise, a rewrite that increases the first cost is refused and any other allowed
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(26))]
    pub fn coarse() {
        let (p, t) = ([any(), any()], [any(), any()]);
        assert_eq!(Default2.under_threshold(&p.into(), &t.into()), t[0] <= p[0]);
    }
}
