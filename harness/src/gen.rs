//! Generators.  A case is a small serialisable description; everything large
//! (blobs, cells, points) is expanded from it deterministically, so cases
//! shrink and replay.
use crate::model::*;
use ff::Field;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum S {
    Zero,
    One,
    /// r - 1
    Max,
    Small(u32),
    NegSmall(u32),
    /// 2^k mod r
    Pow2(u8),
    /// 2^k - 1 mod r
    Ones(u8),
    /// -(2^k) mod r
    NegPow2(u8),
    /// A byte repeated (top byte cleared to stay below r when needed)
    Rep(u8),
    /// omega_8192^k
    Root(u16),
    /// (r-1)/2 + k
    Half(u8),
    Rand(u64),
    /// a random value below 2^bits
    Bits(u64, u8),
    /// each 32-bit word random, zero or all ones, by two bits of the mask
    Words(u64, u16),
    /// few non-zero bytes
    Bytes(Vec<(u8, u8)>),
}
impl S {
    pub fn fr(&self) -> Fr {
        let two = Fr::from(2u64);
        match *self {
            S::Words(seed, mask) => {
                let mut rng = Mix(seed ^ 0x30fd);
                let mut b = [0u8; 32];
                for w in 0..8 {
                    let x = match mask >> (2 * w) & 3 {
                        0 | 1 => 0,
                        2 => rng.next() as u32,
                        _ => u32::MAX,
                    };
                    b[4 * w..4 * w + 4].copy_from_slice(&x.to_be_bytes());
                }
                b[0] %= 0x73;
                fr_from_be_reduced(&b)
            }
            S::Bytes(ref v) => {
                let mut b = [0u8; 32];
                for (i, x) in v {
                    b[*i as usize % 32] = *x;
                }
                b[0] %= 0x73;
                fr_from_be_reduced(&b)
            }
            S::Zero => Fr::ZERO,
            S::One => Fr::ONE,
            S::Max => -Fr::ONE,
            S::Small(x) => Fr::from(x as u64),
            S::NegSmall(x) => -Fr::from(x as u64),
            S::Pow2(k) => two.pow_vartime([k as u64]),
            S::Ones(k) => two.pow_vartime([k as u64]) - Fr::ONE,
            S::NegPow2(k) => -two.pow_vartime([k as u64]),
            S::Rep(b) => {
                let mut x = [b; 32];
                if b >= 0x73 {
                    x[0] = 0x5a;
                }
                fr_from_be_reduced(&x)
            }
            S::Root(k) => omega(EXT).pow_vartime([k as u64 % EXT as u64]),
            S::Half(k) => -Fr::ONE * two.invert().unwrap() + Fr::from(k as u64),
            S::Rand(s) => Mix(s ^ 0x5ca1a6).fr(),
            S::Bits(s, b) => {
                let mut rng = Mix(s ^ 0xb175);
                let mut bytes = [0u8; 32];
                for c in bytes.chunks_mut(8) {
                    c.copy_from_slice(&rng.next().to_le_bytes());
                }
                let bits = (b as usize % 255).max(1);
                // keep `bits` low bits of the big-endian value
                for i in 0..32 {
                    let lo = (31 - i) * 8;
                    if lo >= bits {
                        bytes[i] = 0;
                    } else if lo + 8 > bits {
                        bytes[i] &= (1u16 << (bits - lo)).wrapping_sub(1) as u8;
                    }
                }
                fr_from_be_reduced(&bytes)
            }
        }
    }
    pub fn nonzero(&self) -> Fr {
        let f = self.fr();
        if f == Fr::ZERO {
            Fr::from(3u64)
        } else {
            f
        }
    }
}
/// A number of bits: of any size, or a whole number of bytes, words or windows.
fn bits() -> BoxedStrategy<u8> {
    prop_oneof![
        3 => any::<u8>(),
        1 => (1u8..32).prop_map(|k| k * 8),
        1 => prop_oneof![Just(32u8), Just(64), Just(96), Just(128), Just(160), Just(192), Just(224), Just(254)],
        1 => (1u8..43).prop_map(|k| k * 6),
    ]
    .boxed()
}
pub fn scalar() -> BoxedStrategy<S> {
    prop_oneof![
        2 => Just(S::Zero),
        2 => Just(S::One),
        2 => Just(S::Max),
        2 => any::<u32>().prop_map(S::Small),
        2 => (0u32..300).prop_map(S::Small),
        1 => (0u32..300).prop_map(S::NegSmall),
        2 => any::<u8>().prop_map(S::Pow2),
        2 => any::<u8>().prop_map(S::Ones),
        1 => any::<u8>().prop_map(S::NegPow2),
        1 => any::<u8>().prop_map(S::Rep),
        1 => (0u16..8192).prop_map(S::Root),
        1 => any::<u8>().prop_map(S::Half),
        6 => any::<u64>().prop_map(S::Rand),
        2 => (any::<u64>(), bits()).prop_map(|(a, b)| S::Bits(a, b)),
        2 => (any::<u64>(), any::<u16>()).prop_map(|(a, b)| S::Words(a, b)),
        2 => prop::collection::vec((0u8..32, any::<u8>()), 1..4).prop_map(S::Bytes),
    ]
    .boxed()
}

/// A scalar of one of many bit patterns that window and limb arithmetic treat
/// differently, from a seeded stream.
pub fn mixed(r: &mut Mix) -> Fr {
    let two = Fr::from(2u64);
    let pow = |k: u64| two.pow_vartime([k]);
    let f = match r.below(14) {
        0 => r.fr(),
        1 => Fr::from([0, 1, 2, 3, 127, 128, 255, 256][r.below(8) as usize]),
        2 => pow(r.below(255)),
        3 => pow(r.below(255)) + Fr::from(r.below(300)),
        4 => {
            let (a, b) = (r.below(255), r.below(255));
            pow(a.max(b)) - pow(a.min(b))
        }
        5 | 6 => {
            let mut b = [0u8; 32];
            for _ in 0..1 + r.below(3) {
                let i = match r.below(4) {
                    0 => r.below(2),
                    1 => 30 + r.below(2),
                    2 => 8 * r.below(4) + 7 * r.below(2),
                    _ => r.below(32),
                };
                b[i as usize] = [1, 0x80, 0xff, r.next() as u8][r.below(4) as usize];
            }
            b[0] %= 0x74;
            fr_from_be_reduced(&b)
        }
        7 => S::Words(r.next(), r.next() as u16).fr(),
        8 => S::Rep(r.next() as u8).fr(),
        9 | 10 => {
            // random, with a run of zero or one bits
            let mut b = [0u8; 32];
            b.chunks_mut(8).for_each(|c| c.copy_from_slice(&r.next().to_le_bytes()));
            let (x, y) = (r.below(256), r.below(256));
            let one = r.below(2) == 1;
            for k in x.min(y)..x.max(y) {
                let m = 0x80 >> (k % 8);
                if one {
                    b[k as usize / 8] |= m
                } else {
                    b[k as usize / 8] &= !m
                }
            }
            b[0] %= 0x74;
            fr_from_be_reduced(&b)
        }
        11 => {
            // every window of w bits holds one of two digits
            let w = 2 + r.below(12);
            let top = (1u64 << w) - 1;
            let half = 1u64 << (w - 1);
            let d = [0, 1, half - 1, half, half + 1, top - 1, top, r.below(top + 1)];
            let (x, y) = (d[r.below(8) as usize], d[r.below(8) as usize]);
            let mut acc = Fr::ZERO;
            let mut bit = 0;
            while bit < 254 {
                let d = if r.below(2) == 0 { x } else { y } & top;
                let take = w.min(254 - bit);
                acc += pow(bit) * Fr::from(d & ((1 << take) - 1));
                bit += take;
            }
            acc
        }
        12 => S::Half(r.next() as u8).fr(),
        _ => S::Bits(r.next(), r.next() as u8).fr(),
    };
    if r.below(4) == 0 {
        -f
    } else {
        f
    }
}
fn half() -> Fr {
    Fr::from(2u64).invert().unwrap()
}
fn mixedv(seed: u64, n: usize) -> Vec<Fr> {
    let mut r = Mix(seed ^ 0x313d);
    (0..n).map(|_| mixed(&mut r)).collect()
}

/// A polynomial of degree < 4096, as a blob or by its coefficients.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Blob {
    Zero,
    Const(S),
    Random(u64),
    /// all zero but these positions
    Sparse(Vec<(u16, S)>),
    /// random but these positions
    Over(u64, Vec<(u16, S)>),
    /// every element below 2^bits
    Bits(u64, u8),
    /// every element of one of the sparse byte or word patterns
    Words(u64, u16),
    /// elements drawn from a small pool, in a cyclic or seeded pattern
    Pool(u64, Vec<S>, bool),
    /// a run [from, from+len) of random elements, zero elsewhere
    Run(u64, u16, u16),
    /// random coefficients of degree < n
    LowDegree(u64, u16),
    /// given coefficients, zero elsewhere
    Coeffs(Vec<(u16, S)>),
    /// the 64 highest coefficients cycle through the halves of these: half of the
    /// prover's multi-scalar multiplications then have these very scalars
    Top(Vec<S>),
    /// the same with a seeded mixture of bit patterns
    TopMixed(u64),
    /// every element of some bit pattern
    Mixed(u64),
    /// random multiple of the vanishing polynomials of these cells' cosets
    Vanish(u64, Vec<u8>),
    /// polynomial in X^(2^k): repeated values across the domain
    Powers(u64, u8),
    /// random coefficients with stride: only indices = phase mod 2^k
    Stride(u64, u8, u16),
    /// first half random, second half copies / negates it
    Mirror(u64, bool),
}

fn pos(i: u16) -> usize {
    i as usize % N
}
fn randv(seed: u64, n: usize) -> Vec<Fr> {
    let mut r = Mix(seed ^ 0xb10b);
    (0..n).map(|_| r.fr()).collect()
}

impl Blob {
    /// (blob elements, coefficients)
    pub fn expand(&self) -> (Vec<Fr>, Vec<Fr>) {
        let from_blob = |b: Vec<Fr>| {
            let c = blob_coeffs(&b);
            (b, c)
        };
        let from_coeffs = |mut c: Vec<Fr>| {
            c.resize(N, Fr::ZERO);
            (coeffs_to_blob(&c), c)
        };
        match self {
            Blob::Zero => (vec![Fr::ZERO; N], vec![Fr::ZERO; N]),
            Blob::Const(s) => {
                let mut c = vec![Fr::ZERO; N];
                c[0] = s.fr();
                (vec![s.fr(); N], c)
            }
            Blob::Random(s) => from_blob(randv(*s, N)),
            Blob::Sparse(v) => {
                let mut b = vec![Fr::ZERO; N];
                for (i, s) in v {
                    b[pos(*i)] = s.fr();
                }
                from_blob(b)
            }
            Blob::Over(seed, v) => {
                let mut b = randv(*seed, N);
                for (i, s) in v {
                    b[pos(*i)] = s.fr();
                }
                from_blob(b)
            }
            Blob::Bits(seed, bits) => {
                let mut r = Mix(*seed);
                from_blob((0..N).map(|_| S::Bits(r.next(), *bits).fr()).collect())
            }
            Blob::Words(seed, mask) => {
                let mut r = Mix(*seed);
                from_blob((0..N).map(|_| S::Words(r.next(), *mask).fr()).collect())
            }
            Blob::Pool(seed, pool, cyclic) => {
                let p: Vec<Fr> = if pool.is_empty() { vec![Fr::ZERO] } else { pool.iter().map(|s| s.fr()).collect() };
                let mut r = Mix(*seed);
                let n = p.len();
                from_blob((0..N).map(|i| if *cyclic { p[i % n] } else { p[r.below(n as u64) as usize] }).collect())
            }
            Blob::Run(seed, from, len) => {
                let mut b = vec![Fr::ZERO; N];
                let f = pos(*from);
                let n = (*len as usize).clamp(1, N - f);
                for (i, x) in randv(*seed, n).into_iter().enumerate() {
                    b[f + i] = x;
                }
                from_blob(b)
            }
            Blob::LowDegree(seed, n) => from_coeffs(randv(*seed, (*n as usize).clamp(1, N))),
            Blob::Coeffs(v) => {
                let mut c = vec![Fr::ZERO; N];
                for (i, s) in v {
                    c[pos(*i)] = s.fr();
                }
                from_coeffs(c)
            }
            Blob::Top(v) => {
                let mut c = vec![Fr::ZERO; N];
                for i in 0..if v.is_empty() { 0 } else { CELL } {
                    c[N - 1 - i] = v[i % v.len()].fr() * half();
                }
                from_coeffs(c)
            }
            Blob::TopMixed(seed) => {
                let mut c = vec![Fr::ZERO; N];
                let v = mixedv(*seed, CELL);
                if seed % 2 == 0 {
                    v.iter().enumerate().for_each(|(i, x)| c[N - CELL + i] = *x * half());
                } else {
                    // as they stand, or their opposites
                    c[N / 2 - CELL..N / 2].copy_from_slice(&v);
                }
                from_coeffs(c)
            }
            Blob::Mixed(seed) => from_blob(mixedv(*seed, N)),
            Blob::Vanish(seed, ks) => {
                // prod_k (X^64 - h_k^64) * random, total degree < 4096
                let mut ks: Vec<usize> = ks.iter().map(|k| *k as usize % CELLS).collect();
                ks.sort();
                ks.dedup();
                ks.truncate(63);
                let base = randv(*seed, N - 64 * ks.len());
                let mut c = base;
                for k in ks {
                    let z = coset_pow(k);
                    let mut n = vec![Fr::ZERO; c.len() + CELL];
                    for (i, x) in c.iter().enumerate() {
                        n[i + CELL] += *x;
                        n[i] -= *x * z;
                    }
                    c = n;
                }
                from_coeffs(c)
            }
            Blob::Powers(seed, k) => {
                let step = 1usize << (*k % 12);
                let r = randv(*seed, N / step);
                let mut c = vec![Fr::ZERO; N];
                for (i, x) in r.into_iter().enumerate() {
                    c[i * step] = x;
                }
                from_coeffs(c)
            }
            Blob::Stride(seed, k, phase) => {
                let step = 1usize << (*k % 12);
                let ph = *phase as usize % step;
                let r = randv(*seed, N);
                let mut c = vec![Fr::ZERO; N];
                for i in (ph..N).step_by(step) {
                    c[i] = r[i];
                }
                from_coeffs(c)
            }
            Blob::Mirror(seed, neg) => {
                let mut b = randv(*seed, N / 2);
                for i in 0..N / 2 {
                    let x = b[i];
                    b.push(if *neg { -x } else { x });
                }
                from_blob(b)
            }
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        blob_bytes(&self.expand().0)
    }
    pub fn class(&self) -> &'static str {
        match self {
            Blob::Zero => "blob:zero",
            Blob::Const(_) => "blob:const",
            Blob::Random(_) => "blob:random",
            Blob::Sparse(_) => "blob:sparse",
            Blob::Over(..) => "blob:random+overrides",
            Blob::Bits(..) => "blob:bounded-bits",
            Blob::Words(..) => "blob:word-patterns",
            Blob::Pool(..) => "blob:pool",
            Blob::Run(..) => "blob:run",
            Blob::LowDegree(..) => "blob:low-degree",
            Blob::Coeffs(..) => "blob:sparse-coeffs",
            Blob::Top(_) | Blob::TopMixed(_) => "blob:top-coeffs",
            Blob::Mixed(_) => "blob:mixed-patterns",
            Blob::Vanish(..) => "blob:vanishing-cells",
            Blob::Powers(..) => "blob:X^2k",
            Blob::Stride(..) => "blob:strided-coeffs",
            Blob::Mirror(..) => "blob:mirror",
        }
    }
    pub fn nontrivial(&self) -> bool {
        !matches!(self, Blob::Zero)
    }
}

/// Positions weighted to the ends of blobs, cells and halves.
pub fn position() -> BoxedStrategy<u16> {
    prop_oneof![
        4 => 0u16..4096,
        2 => (0u16..64, 0u16..64).prop_map(|(a, b)| a * 64 + b),
        2 => prop_oneof![Just(0u16), Just(1), Just(63), Just(64), Just(127), Just(2047), Just(2048), Just(4031), Just(4032), Just(4094), Just(4095)],
    ]
    .boxed()
}

pub fn blob() -> BoxedStrategy<Blob> {
    let ps = || (position(), scalar());
    prop_oneof![
        1 => Just(Blob::Zero),
        2 => scalar().prop_map(Blob::Const),
        4 => any::<u64>().prop_map(Blob::Random),
        3 => prop::collection::vec(ps(), 1..8).prop_map(Blob::Sparse),
        1 => prop::collection::vec(scalar(), 1..12).prop_map(Blob::Top),
        3 => any::<u64>().prop_map(Blob::TopMixed),
        2 => any::<u64>().prop_map(Blob::Mixed),
        3 => (any::<u64>(), prop::collection::vec(ps(), 1..24)).prop_map(|(a, b)| Blob::Over(a, b)),
        2 => (any::<u64>(), bits()).prop_map(|(a, b)| Blob::Bits(a, b)),
        2 => (any::<u64>(), any::<u16>()).prop_map(|(a, b)| Blob::Words(a, b)),
        4 => (any::<u64>(), prop::collection::vec(scalar(), 1..6), any::<bool>()).prop_map(|(a, b, c)| Blob::Pool(a, b, c)),
        2 => (any::<u64>(), position(), prop_oneof![1u16..70, 1u16..4097]).prop_map(|(a, b, c)| Blob::Run(a, b, c)),
        3 => (any::<u64>(), prop_oneof![1u16..130, 1u16..4097, 4090u16..4097]).prop_map(|(a, b)| Blob::LowDegree(a, b)),
        3 => prop::collection::vec(ps(), 1..6).prop_map(Blob::Coeffs),
        2 => (any::<u64>(), prop::collection::vec(0u8..128, 1..6)).prop_map(|(a, b)| Blob::Vanish(a, b)),
        1 => (any::<u64>(), prop::collection::vec(0u8..128, 6..64)).prop_map(|(a, b)| Blob::Vanish(a, b)),
        2 => (any::<u64>(), 0u8..12).prop_map(|(a, b)| Blob::Powers(a, b)),
        2 => (any::<u64>(), 0u8..12, any::<u16>()).prop_map(|(a, b, c)| Blob::Stride(a, b, c)),
        1 => (any::<u64>(), any::<bool>()).prop_map(|(a, b)| Blob::Mirror(a, b)),
    ]
    .boxed()
}

/// A set of distinct cell indices in an order of presentation.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Subset {
    pub shape: Shape,
    pub order: Order,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Shape {
    All,
    /// a contiguous (cyclic) window: start, length
    Window(u8, u8),
    /// all but a cyclic window
    Even,
    Odd,
    /// random with exactly this many members
    Random(u64, u8),
    /// all but these
    Missing(Vec<u8>),
    /// one out of each pair {2i, 2i+1} or {i, i+64}, chosen by a seed
    Pairs(u64, bool),
    /// bit-reversed prefix: the first n in transform order
    BrpPrefix(u8),
    /// blocks of 2^k, every other block
    Blocks(u8, bool),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Order {
    Sorted,
    Reversed,
    Shuffled(u64),
    Brp,
    Rotated(u8),
    SwapOne(u8, u8),
}
impl Shape {
    pub fn members(&self) -> Vec<u64> {
        let n = CELLS as u64;
        let mut v: Vec<u64> = match self {
            Shape::All => (0..n).collect(),
            Shape::Window(s, l) => (0..(*l as u64).clamp(64, n)).map(|i| (i + *s as u64) % n).collect(),
            Shape::Even => (0..n).step_by(2).collect(),
            Shape::Odd => (1..n).step_by(2).collect(),
            Shape::Random(seed, k) => {
                let mut a: Vec<u64> = (0..n).collect();
                shuffle(&mut a, *seed);
                a.truncate((*k as usize).clamp(64, CELLS));
                a
            }
            Shape::Missing(m) => {
                let mut miss: Vec<u64> = m.iter().map(|x| *x as u64 % n).collect();
                miss.sort();
                miss.dedup();
                miss.truncate(64);
                (0..n).filter(|i| !miss.contains(i)).collect()
            }
            Shape::Pairs(seed, far) => {
                let mut r = Mix(*seed);
                (0..64)
                    .map(|i| {
                        let b = r.below(2);
                        if *far {
                            i + 64 * b
                        } else {
                            2 * i + b
                        }
                    })
                    .collect()
            }
            Shape::BrpPrefix(k) => (0..(*k as usize).clamp(64, CELLS)).map(|i| brp_index(i, CELLS) as u64).collect(),
            Shape::Blocks(k, odd) => {
                let b = 1u64 << (k % 7);
                (0..n).filter(|i| ((i / b) % 2 == 1) == *odd).collect()
            }
        };
        v.sort();
        v.dedup();
        v
    }
}
pub fn shuffle<T>(v: &mut [T], seed: u64) {
    let mut r = Mix(seed);
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i as u64 + 1) as usize);
    }
}
impl Subset {
    pub fn indices(&self) -> Vec<u64> {
        let mut v = self.shape.members();
        let n = v.len();
        match &self.order {
            Order::Sorted => {}
            Order::Reversed => v.reverse(),
            Order::Shuffled(s) => shuffle(&mut v, *s),
            Order::Brp => v.sort_by_key(|i| brp_index(*i as usize, CELLS)),
            Order::Rotated(k) => v.rotate_left(*k as usize % n),
            Order::SwapOne(a, b) => v.swap(*a as usize % n, *b as usize % n),
        }
        v
    }
    pub fn class(&self) -> String {
        let s = match self.shape {
            Shape::All => "all",
            Shape::Window(..) => "window",
            Shape::Even | Shape::Odd => "even/odd",
            Shape::Random(..) => "random",
            Shape::Missing(..) => "few-missing",
            Shape::Pairs(..) => "pairs",
            Shape::BrpPrefix(..) => "brp-prefix",
            Shape::Blocks(..) => "blocks",
        };
        let o = match self.order {
            Order::Sorted => "sorted",
            _ => "unsorted",
        };
        format!("cells:{s}/{o}")
    }
}
pub fn order() -> BoxedStrategy<Order> {
    prop_oneof![
        3 => Just(Order::Sorted),
        1 => Just(Order::Reversed),
        3 => any::<u64>().prop_map(Order::Shuffled),
        1 => Just(Order::Brp),
        1 => any::<u8>().prop_map(Order::Rotated),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Order::SwapOne(a, b)),
    ]
    .boxed()
}
pub fn shape() -> BoxedStrategy<Shape> {
    prop_oneof![
        1 => Just(Shape::All),
        3 => (any::<u8>(), 64u8..=128).prop_map(|(a, b)| Shape::Window(a, b)),
        1 => any::<u8>().prop_map(|a| Shape::Window(a, 64)),
        1 => Just(Shape::Even),
        1 => Just(Shape::Odd),
        4 => (any::<u64>(), 64u8..=128).prop_map(|(a, b)| Shape::Random(a, b)),
        3 => any::<u64>().prop_map(|a| Shape::Random(a, 64)),
        2 => (any::<u64>(), 65u8..68).prop_map(|(a, b)| Shape::Random(a, b)),
        3 => prop::collection::vec(0u8..128, 1..6).prop_map(Shape::Missing),
        1 => prop::collection::vec(0u8..128, 1..70).prop_map(Shape::Missing),
        2 => (any::<u64>(), any::<bool>()).prop_map(|(a, b)| Shape::Pairs(a, b)),
        1 => (64u8..=128).prop_map(Shape::BrpPrefix),
        1 => (0u8..7, any::<bool>()).prop_map(|(a, b)| Shape::Blocks(a, b)),
    ]
    .boxed()
}
pub fn subset() -> BoxedStrategy<Subset> {
    (shape(), order()).prop_map(|(shape, order)| Subset { shape, order }).boxed()
}

/// A vector of field elements, by shape.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Vect {
    pub len: u16,
    pub kind: VKind,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum VKind {
    Random(u64),
    /// zero but these positions
    Sparse(Vec<(u16, S)>),
    /// random but these positions
    Over(u64, Vec<(u16, S)>),
    /// drawn from a pool, cyclically or by a seed
    Pool(u64, Vec<S>, bool),
    Bits(u64, u8),
    /// all sorts of bit patterns
    Mixed(u64),
    /// random, then zeros from this position on
    Head(u64, u16),
    /// an arithmetic-geometric pattern: s * t^i
    Geo(S, S),
}
impl Vect {
    pub fn new(len: usize, kind: VKind) -> Vect {
        Vect { len: len as u16, kind }
    }
    pub fn frs(&self) -> Vec<Fr> {
        let n = self.len as usize;
        if n == 0 {
            return vec![];
        }
        let mut r;
        match &self.kind {
            VKind::Random(s) => {
                r = Mix(*s ^ 0x7ec7);
                (0..n).map(|_| r.fr()).collect()
            }
            VKind::Sparse(ps) => {
                let mut v = vec![Fr::ZERO; n];
                for (i, s) in ps {
                    v[*i as usize % n] = s.fr();
                }
                v
            }
            VKind::Over(s, ps) => {
                r = Mix(*s ^ 0x7ec7);
                let mut v: Vec<Fr> = (0..n).map(|_| r.fr()).collect();
                for (i, s) in ps {
                    v[*i as usize % n] = s.fr();
                }
                v
            }
            VKind::Pool(s, pool, cyc) => {
                let p: Vec<Fr> = if pool.is_empty() { vec![Fr::ZERO] } else { pool.iter().map(|s| s.fr()).collect() };
                r = Mix(*s);
                (0..n)
                    .map(|i| if *cyc { p[i % p.len()] } else { p[r.below(p.len() as u64) as usize] })
                    .collect()
            }
            VKind::Bits(s, b) => {
                r = Mix(*s);
                (0..n).map(|_| S::Bits(r.next(), *b).fr()).collect()
            }
            VKind::Mixed(s) => mixedv(*s, n),
            VKind::Head(s, k) => {
                r = Mix(*s ^ 0x7ec7);
                let k = *k as usize % (n + 1);
                (0..n).map(|i| if i < k { r.fr() } else { Fr::ZERO }).collect()
            }
            VKind::Geo(a, b) => {
                let (mut x, t) = (a.fr(), b.fr());
                (0..n)
                    .map(|_| {
                        let y = x;
                        x *= t;
                        y
                    })
                    .collect()
            }
        }
    }
    pub fn class(&self) -> &'static str {
        match self.kind {
            VKind::Random(_) => "vec:random",
            VKind::Sparse(_) => "vec:sparse",
            VKind::Over(..) => "vec:random+overrides",
            VKind::Pool(..) => "vec:pool",
            VKind::Bits(..) => "vec:bounded-bits",
            VKind::Mixed(_) => "vec:mixed-patterns",
            VKind::Head(..) => "vec:zero-tail",
            VKind::Geo(..) => "vec:geometric",
        }
    }
}
pub fn vkind() -> BoxedStrategy<VKind> {
    let ps = || (any::<u16>(), scalar());
    prop_oneof![
        3 => any::<u64>().prop_map(VKind::Random),
        2 => prop::collection::vec(ps(), 0..4).prop_map(VKind::Sparse),
        3 => (any::<u64>(), prop::collection::vec(ps(), 1..10)).prop_map(|(a, b)| VKind::Over(a, b)),
        4 => (any::<u64>(), prop::collection::vec(scalar(), 1..6), any::<bool>()).prop_map(|(a, b, c)| VKind::Pool(a, b, c)),
        3 => (any::<u64>(), bits()).prop_map(|(a, b)| VKind::Bits(a, b)),
        3 => any::<u64>().prop_map(VKind::Mixed),
        1 => (any::<u64>(), any::<u16>()).prop_map(|(a, b)| VKind::Head(a, b)),
        1 => (scalar(), scalar()).prop_map(|(a, b)| VKind::Geo(a, b)),
    ]
    .boxed()
}
/// Vectors with a length in this range.
pub fn vect(range: std::ops::RangeInclusive<u16>) -> BoxedStrategy<Vect> {
    (range, vkind()).prop_map(|(len, kind)| Vect { len, kind }).boxed()
}

/// A cell index, possibly out of range.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Ix {
    /// as it should be, plus 2^k
    PlusPow(u8),
    /// as it should be, plus 128 * n
    PlusMult(u64),
    Is(u64),
    /// u64::MAX - n
    FromTop(u64),
    /// the index of another entry
    Of(u16),
}
pub fn ix() -> BoxedStrategy<Ix> {
    prop_oneof![
        3 => (7u8..64).prop_map(Ix::PlusPow),
        1 => any::<u64>().prop_map(Ix::PlusMult),
        3 => prop_oneof![Just(128u64), Just(129), Just(255), Just(256), Just(127), Just(0), Just(1 << 31), Just((1 << 32) - 1), Just(1 << 32), Just(1 << 63), Just(8191), Just(8192), Just(4096), Just(64)].prop_map(Ix::Is),
        1 => any::<u64>().prop_map(Ix::Is),
        1 => (120u64..300).prop_map(Ix::Is),
        2 => (0u64..200).prop_map(Ix::FromTop),
        4 => any::<u16>().prop_map(Ix::Of),
    ]
    .boxed()
}
pub fn resolve(x: &Ix, idx: &[u64], at: usize) -> u64 {
    match x {
        Ix::PlusPow(k) => idx[at].wrapping_add(1 << (k % 64)),
        Ix::PlusMult(n) => idx[at].wrapping_add(n.wrapping_mul(128)),
        Ix::Is(v) => *v,
        Ix::FromTop(v) => u64::MAX - v,
        Ix::Of(j) => idx[*j as usize % idx.len()],
    }
}
/// Positions: u16::MAX is the last one.
pub fn any_pos() -> BoxedStrategy<u16> {
    prop_oneof![1 => Just(0u16), 1 => Just(u16::MAX), 4 => any::<u16>()].boxed()
}
pub fn at(p: u16, n: usize) -> usize {
    if p == u16::MAX {
        n - 1
    } else {
        p as usize % n
    }
}
