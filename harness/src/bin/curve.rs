//! C20: multi-scalar multiplications, C21: batched helpers; both against
//! discrete logs (every point is a known multiple of the generator).
use bls12_381::batch_addition::*;
use bls12_381::batch_inversion::*;
use bls12_381::fixed_base_msm::*;
use bls12_381::fixed_base_msm_window::FixedBaseMSMPrecompWindow;
use bls12_381::lincomb::*;
use bls12_381::*;
use blstrs::Fp;
use ff::Field;
use group::{Curve, Group};
use harness::ensure;
use harness::gen::*;
use harness::model::*;
use harness::pbt::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::Mutex;

/// A scalar whose digits in base 2^width follow a pattern, or any other.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Sc {
    Vec(Vect),
    /// digits from a small list, cyclically or by seed, below 2^254
    Digits { len: u16, width: u8, digits: Vec<u32>, seed: u64, cyclic: bool, neg: bool },
}
fn two() -> Fr {
    Fr::from(2u64)
}
fn from_digits(width: u32, mut digit: impl FnMut(usize) -> u64) -> Fr {
    let mut acc = Fr::ZERO;
    let mut p = Fr::ONE;
    let mut bit = 0;
    let mut i = 0;
    while bit < 254 {
        let take = width.min(254 - bit);
        let d = digit(i) & ((1u64 << take) - 1);
        acc += Fr::from(d) * p;
        p *= two().pow_vartime([take as u64]);
        bit += take;
        i += 1;
    }
    acc
}
impl Sc {
    fn frs(&self) -> Vec<Fr> {
        match self {
            Sc::Vec(v) => v.frs(),
            Sc::Digits { len, width, digits, seed, cyclic, neg } => {
                let w = (*width as u32).clamp(1, 24);
                let mut r = Mix(*seed);
                (0..*len as usize)
                    .map(|k| {
                        let s = from_digits(w, |i| {
                            let j = if *cyclic { (i + k) % digits.len() } else { r.below(digits.len() as u64) as usize };
                            digits[j] as u64
                        });
                        if *neg { -s } else { s }
                    })
                    .collect()
            }
        }
    }
    fn resize(&self, n: usize) -> Sc {
        let mut s = self.clone();
        match &mut s {
            Sc::Vec(v) => v.len = n as u16,
            Sc::Digits { len, .. } => *len = n as u16,
        }
        s
    }
    fn class(&self) -> &'static str {
        match self {
            Sc::Vec(v) => v.class(),
            Sc::Digits { .. } => "vec:window-digits",
        }
    }
}
/// Scalars with digit patterns of the given width (0: any width).
fn scalars(width: u8) -> BoxedStrategy<Sc> {
    let w = if width == 0 { (1u8..=16).boxed() } else { Just(width).boxed() };
    let digits = w.prop_flat_map(|w| {
        let top = (1u64 << w) - 1;
        let half = 1u64 << (w - 1);
        let d = prop_oneof![
            Just(0u64), Just(1), Just(top), Just(half), Just(half.saturating_sub(1)), Just((half + 1) & top), Just(top - 1), (0..=top)
        ]
        .prop_map(|x| x as u32);
        (Just(w), prop::collection::vec(d, 1..5))
    });
    prop_oneof![
        3 => vkind().prop_map(|kind| Sc::Vec(Vect { len: 0, kind })),
        3 => (digits, any::<u64>(), any::<bool>(), any::<bool>())
            .prop_map(|((width, digits), seed, cyclic, neg)| Sc::Digits { len: 0, width, digits, seed, cyclic, neg }),
    ]
    .boxed()
}
/// Logs of points: the kinds of `Vect`, and some opposites and repeats.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pts {
    v: Vect,
    /// position i becomes (a copy of | the opposite of) position j
    links: Vec<(u16, u16, bool)>,
}
impl Pts {
    fn logs(&self, n: usize) -> Vec<Fr> {
        let mut v = Vect { len: n as u16, kind: self.v.kind.clone() }.frs();
        if n > 0 {
            for (i, j, neg) in &self.links {
                let x = v[*j as usize % n];
                v[*i as usize % n] = if *neg { -x } else { x };
            }
        }
        v
    }
}
fn pts() -> BoxedStrategy<Pts> {
    let near = (any::<u16>(), any::<bool>(), any::<bool>()).prop_map(|(i, side, neg)| (i, if side { i ^ 1 } else { i.wrapping_add(2) }, neg));
    (
        vkind(),
        prop::collection::vec(prop_oneof![1 => (any::<u16>(), any::<u16>(), any::<bool>()), 2 => near], 0..5),
    )
        .prop_map(|(kind, links)| Pts { v: Vect { len: 0, kind }, links })
        .boxed()
}
fn g1p(s: Fr) -> G1Projective {
    G1Projective::generator() * s
}
fn g1a(s: Fr) -> G1Point {
    g1p(s).to_affine()
}
fn g2a(s: Fr) -> G2Point {
    (G2Projective::generator() * s).to_affine()
}
/// Points by log; the small special values are cached.
fn g1s(v: &[Fr]) -> Vec<G1Point> {
    static C: Mutex<Option<HashMap<[u8; 32], G1Point>>> = Mutex::new(None);
    v.iter()
        .map(|s| {
            let k = s.to_bytes_be();
            if let Some(p) = C.lock().unwrap().get_or_insert_with(HashMap::new).get(&k) {
                return *p;
            }
            let p = g1a(*s);
            let mut g = C.lock().unwrap();
            let m = g.get_or_insert_with(HashMap::new);
            if m.len() < 200_000 {
                m.insert(k, p);
            }
            p
        })
        .collect()
}
fn dot(a: &[Fr], b: &[Fr]) -> Fr {
    a.iter().zip(b).fold(Fr::ZERO, |s, (x, y)| s + *x * *y)
}
fn point_labels(mut s: Seen, logs: &[Fr]) -> Seen {
    let zero = logs.iter().any(|x| *x == Fr::ZERO);
    let mut set = std::collections::HashSet::new();
    let (mut rep, mut opp) = (false, false);
    for x in logs.iter().filter(|x| **x != Fr::ZERO) {
        opp |= set.contains(&(-*x).to_bytes_be());
        rep |= !set.insert(x.to_bytes_be());
    }
    s = s.label_if(zero, "has-identity").label_if(rep, "has-repeated").label_if(opp, "has-opposite");
    s.label(match logs.len() {
        0 => "n:0",
        1 => "n:1",
        2..=31 => "n:2-31",
        32..=255 => "n:32-255",
        _ => "n:256+",
    })
}

/// Sizes around powers of two, where blocks and thresholds are.
fn near_pow2(from: u32, to: u32) -> BoxedStrategy<u16> {
    prop_oneof![
        3 => (from..=to, -2i32..=2).prop_map(|(k, d)| ((1i32 << k) + d) as u16),
        1 => (from..=to, 0u16..=u16::MAX).prop_map(|(k, x)| (1u16 << k) + x % (1u16 << k)),
        1 => (from..=to, 1u16..=7).prop_map(|(k, x)| (1u16 << k) / 8 * (8 + x)),
    ]
    .boxed()
}

// ---------------------------------------------------------------- C20

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Lin {
    n: u16,
    pts: Pts,
    sc: Sc,
    /// 0: same length; otherwise by how much the scalars are longer/shorter
    diff: i16,
}
fn lin_case(sizes: BoxedStrategy<u16>) -> BoxedStrategy<Lin> {
    (sizes, pts(), scalars(0), prop_oneof![12 => Just(0i16), 1 => -3i16..=3, 1 => -300i16..=300])
        .prop_map(|(n, pts, sc, diff)| Lin { n, pts, sc, diff })
        .boxed()
}
fn lin_lens(c: &Lin) -> (usize, usize) {
    let n = c.n as usize;
    (n, (c.n as i32 + c.diff as i32).max(0) as usize)
}
fn lin_g1(c: &Lin) -> TestResult {
    let (n, m) = lin_lens(c);
    let logs = c.pts.logs(n);
    let sc = c.sc.resize(m).frs();
    let p = g1s(&logs);
    let got = g1_lincomb(&p, &sc);
    if n != m {
        ensure!(got.is_none(), "g1_lincomb of {n} points and {m} scalars is not refused");
        ensure!(g1_lincomb_unsafe(&p, &sc).is_none(), "g1_lincomb_unsafe of {n} points and {m} scalars is not refused");
        return Ok(Seen::new(true).label("length-mismatch"));
    }
    let want = g1p(dot(&logs, &sc));
    let Some(got) = got else { return Err(format!("g1_lincomb of {n} points refused").into()) };
    ensure!(got == want, "g1_lincomb of {n} points differs from the sum of products");
    if n > 0 && logs.iter().all(|x| *x != Fr::ZERO) {
        ensure!(g1_lincomb_unsafe(&p, &sc) == Some(want), "g1_lincomb_unsafe of {n} points (no identity) differs from the sum of products");
    }
    Ok(point_labels(Seen::new(dot(&logs, &sc) != Fr::ZERO || n > 1), &logs).label(c.sc.class()))
}
fn lin_g2(c: &Lin) -> TestResult {
    let (n, m) = lin_lens(c);
    let logs = c.pts.logs(n);
    let sc = c.sc.resize(m).frs();
    let p: Vec<G2Point> = logs.iter().map(|s| g2a(*s)).collect();
    let got = g2_lincomb(&p, &sc);
    if n != m {
        ensure!(got.is_none(), "g2_lincomb of {n} points and {m} scalars is not refused");
        ensure!(g2_lincomb_unsafe(&p, &sc).is_none(), "g2_lincomb_unsafe of {n} points and {m} scalars is not refused");
        return Ok(Seen::new(true).label("length-mismatch"));
    }
    let want = G2Projective::generator() * dot(&logs, &sc);
    let Some(got) = got else { return Err(format!("g2_lincomb of {n} points refused").into()) };
    ensure!(got == want, "g2_lincomb of {n} points differs from the sum of products");
    if n > 0 && logs.iter().all(|x| *x != Fr::ZERO) {
        ensure!(g2_lincomb_unsafe(&p, &sc) == Some(want), "g2_lincomb_unsafe of {n} points (no identity) differs from the sum of products");
    }
    Ok(point_labels(Seen::new(dot(&logs, &sc) != Fr::ZERO || n > 1), &logs).label(c.sc.class()))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fixed {
    width: u8,
    n: u16,
    pts: Pts,
    /// several scalar vectors are multiplied with the same table
    sc: Vec<Sc>,
}
fn fixed_case(widths: std::ops::RangeInclusive<u8>, work: u32) -> BoxedStrategy<Fixed> {
    widths
        .prop_flat_map(move |w| {
            // keep the table below `work` points
            let max = (work >> (w - 1)).clamp(1, 600) as u16;
            let n = prop_oneof![1 => 0u16..=max.min(3), 3 => 0u16..=max.min(40), 1 => 0u16..=max];
            (Just(w), n, pts(), prop::collection::vec(prop_oneof![2 => scalars(w), 1 => scalars(0)], 1..4))
        })
        .prop_map(|(width, n, pts, sc)| Fixed { width, n, pts, sc })
        .boxed()
}
fn fixed_labels(c: &Fixed, logs: &[Fr]) -> Seen {
    let mut s = point_labels(Seen::new(!logs.is_empty() && logs.iter().any(|x| *x != Fr::ZERO)), logs).label(format!("width:{}", c.width));
    for v in &c.sc {
        s = s.label(v.class());
    }
    s
}
fn fixed(c: &Fixed) -> TestResult {
    let n = c.n as usize;
    let logs = c.pts.logs(n);
    let p = g1s(&logs);
    let w = c.width as usize;
    let pre = FixedBaseMSM::new(p.clone(), UsePrecomp::Yes { width: w });
    let plain = FixedBaseMSM::new(p.clone(), UsePrecomp::No);
    let direct = FixedBaseMSMPrecompWindow::new(&p, w);
    for sc in &c.sc {
        let s = sc.resize(n).frs();
        let want = g1p(dot(&logs, &s));
        ensure!(direct.msm(&s) == want, "windowed multiplication, width {w}, {n} points");
        ensure!(pre.msm(s.clone()) == want, "fixed-base multiplication with precomputation, width {w}, {n} points");
        ensure!(plain.msm(s) == want, "fixed-base multiplication without precomputation, {n} points");
    }
    Ok(fixed_labels(c, &logs))
}
fn fixed_blst(c: &Fixed) -> TestResult {
    let n = c.n as usize;
    let logs = c.pts.logs(n);
    let msm = FixedBaseMSMPrecompBLST::new(g1s(&logs), c.width as usize);
    for sc in &c.sc {
        let s = sc.resize(n).frs();
        ensure!(msm.msm(s.clone()) == g1p(dot(&logs, &s)), "blst fixed-base multiplication, width {}, {n} points", c.width);
    }
    Ok(fixed_labels(c, &logs))
}

// ---------------------------------------------------------------- C21

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Inv {
    v: Vect,
    junk: Vect,
    cap: u16,
    square: bool,
}
fn fp(x: &Fr, square: bool) -> Fp {
    // a base-field element from a scalar; squared, it spans the whole field
    let mut b = [0u8; 48];
    b[16..].copy_from_slice(&x.to_bytes_be());
    let e = Fp::from_bytes_be(&b).unwrap();
    if square {
        e.square()
    } else {
        e
    }
}
fn inversion(c: &Inv) -> TestResult {
    let v: Vec<Fr> = c.v.frs().into_iter().map(|x| if x == Fr::ZERO { Fr::from(5u64) } else { x }).collect();
    let want: Vec<Fr> = v.iter().map(|x| x.invert().unwrap()).collect();
    let mut got = v.clone();
    batch_inverse(&mut got);
    ensure!(got == want, "batch_inverse of {} scalars", v.len());
    let mut pad = c.junk.frs();
    pad.reserve(c.cap as usize);
    for round in 0..2 {
        let mut got = v.clone();
        batch_inverse_scratch_pad(&mut got, &mut pad);
        ensure!(got == want, "batch_inverse_scratch_pad of {} scalars, use {round} of the pad", v.len());
    }
    let f: Vec<Fp> = v.iter().map(|x| fp(x, c.square)).collect();
    let mut got = f.clone();
    batch_inverse(&mut got);
    for (a, b) in got.iter().zip(&f) {
        ensure!(*a * *b == Fp::ONE, "batch_inverse of {} base-field elements", f.len());
    }
    ensure!(got.len() == f.len(), "batch_inverse changed the length");
    let mut pad: Vec<Fp> = c.junk.frs().iter().map(|x| fp(x, false)).collect();
    let mut got2 = f.clone();
    batch_inverse_scratch_pad(&mut got2, &mut pad);
    ensure!(got2 == got, "batch_inverse_scratch_pad of {} base-field elements", f.len());
    Ok(Seen::new(v.len() > 1)
        .label(c.v.class())
        .label(match v.len() {
            0 => "n:0",
            1 => "n:1",
            _ => "n:2+",
        })
        .label_if(c.junk.len > 0, "used-scratch-pad"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Norm {
    n: u16,
    pts: Pts,
    /// per position (cyclically): how the projective point is built
    build: Vec<u8>,
}
fn normalise(c: &Norm) -> TestResult {
    let n = c.n as usize;
    let logs = c.pts.logs(n);
    let b = |i: usize| if c.build.is_empty() { 0 } else { c.build[i % c.build.len()] % 3 };
    let five = Fr::from(5u64);
    let p1: Vec<G1Projective> = logs
        .iter()
        .enumerate()
        .map(|(i, s)| match b(i) {
            0 => g1p(*s),
            1 => G1Projective::from(g1a(*s)),
            _ => g1p(*s + five) + g1p(-five),
        })
        .collect();
    let want: Vec<G1Point> = logs.iter().map(|s| g1a(*s)).collect();
    let got = g1_batch_normalize(&p1);
    ensure!(got.len() == n, "g1_batch_normalize returned {} of {n} points", got.len());
    for i in 0..n {
        ensure!(got[i] == want[i] && got[i].to_compressed() == want[i].to_compressed(), "g1_batch_normalize: point {i} of {n}");
    }
    let m = n.min(40);
    let p2: Vec<G2Projective> = logs[..m]
        .iter()
        .enumerate()
        .map(|(i, s)| match b(i) {
            0 => G2Projective::generator() * s,
            1 => G2Projective::from(g2a(*s)),
            _ => G2Projective::generator() * (*s + five) - G2Projective::generator() * five,
        })
        .collect();
    let got = g2_batch_normalize(&p2);
    ensure!(got.len() == m, "g2_batch_normalize returned {} of {m} points", got.len());
    for i in 0..m {
        ensure!(got[i] == g2a(logs[i]), "g2_batch_normalize: point {i} of {m}");
    }
    Ok(point_labels(Seen::new(n > 1), &logs))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Add {
    groups: Vec<(u16, Pts)>,
}
fn add_case(max: u16, groups: usize) -> BoxedStrategy<Add> {
    let n = prop_oneof![2 => 0u16..=4, 3 => 0u16..=40, 2 => 14u16..=36, 1 => 0..=max];
    prop::collection::vec((n, pts()), 0..groups).prop_map(|groups| Add { groups }).boxed()
}
fn addition(c: &Add) -> TestResult {
    let logs: Vec<Vec<Fr>> = c.groups.iter().map(|(n, p)| p.logs(*n as usize)).collect();
    let pts: Vec<Vec<G1Point>> = logs.iter().map(|l| g1s(l)).collect();
    let want: Vec<G1Projective> = logs.iter().map(|l| g1p(l.iter().fold(Fr::ZERO, |a, b| a + *b))).collect();
    for (i, p) in pts.iter().enumerate() {
        ensure!(batch_addition_binary_tree_stride(p.clone()) == want[i], "batch addition of {} points", p.len());
    }
    let got = multi_batch_addition_binary_tree_stride(pts);
    ensure!(got.len() == want.len(), "multi batch addition of {} groups returned {}", want.len(), got.len());
    for i in 0..want.len() {
        ensure!(got[i] == want[i], "multi batch addition: group {i} of {} ({} points)", want.len(), logs[i].len());
    }
    let all: Vec<Fr> = logs.concat();
    Ok(point_labels(Seen::new(all.len() > 1), &all)
        .label(format!("groups:{}", if logs.len() > 3 { ">3".into() } else { logs.len().to_string() }))
        .label_if(logs.iter().any(|l| l.is_empty()), "empty-group")
        .label_if(logs.iter().any(|l| l.len() > 16), "uses-batch-inversion"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pair {
    pairs: Vec<(S, S)>,
    /// close the product with a last pair so that it is one, off by this much
    close: Option<(S, S)>,
}
fn pairing(c: &Pair) -> TestResult {
    let mut v: Vec<(Fr, Fr)> = c.pairs.iter().map(|(a, b)| (a.fr(), b.fr())).collect();
    let sum = v.iter().fold(Fr::ZERO, |s, (a, b)| s + *a * *b);
    if let Some((b, off)) = &c.close {
        let b = b.nonzero();
        v.push(((off.fr() - sum) * b.invert().unwrap(), b));
    }
    let want = v.iter().fold(Fr::ZERO, |s, (a, b)| s + *a * *b) == Fr::ZERO;
    let g1: Vec<G1Point> = v.iter().map(|x| g1a(x.0)).collect();
    let g2: Vec<G2Prepared> = v.iter().map(|x| G2Prepared::from(g2a(x.1))).collect();
    let pairs: Vec<_> = g1.iter().zip(&g2).collect();
    let got = multi_pairings(&pairs);
    ensure!(got == want, "multi_pairings of {} pairs is {got}", v.len());
    Ok(Seen::new(v.iter().any(|(a, b)| *a != Fr::ZERO && *b != Fr::ZERO))
        .label(if want { "product-one" } else { "product-not-one" })
        .label_if(v.iter().any(|(a, b)| *a == Fr::ZERO || *b == Fr::ZERO), "has-identity")
        .label_if(v.is_empty(), "no-pairs"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Bytes {
    Seed(u64),
    /// k * r + d, for k = 0, 1, 2
    Near { k: u8, d: i32 },
    /// 2^256 - 1 - d
    Top(u32),
    Rep(u8),
    /// a random value with these bytes overwritten
    Over(u64, Vec<(u8, u8)>),
    /// k * r + a scalar
    Multiple(u8, S),
    Pow2(u8, i8),
}
/// 256-bit little arithmetic on big-endian bytes, wrapping.
fn add_be(a: &[u8; 32], b: &[u8; 32]) -> ([u8; 32], bool) {
    let mut o = [0u8; 32];
    let mut c = 0u16;
    for i in (0..32).rev() {
        let s = a[i] as u16 + b[i] as u16 + c;
        o[i] = s as u8;
        c = s >> 8;
    }
    (o, c != 0)
}
fn small_be(d: i64) -> [u8; 32] {
    let mut o = if d < 0 { [0xff; 32] } else { [0; 32] };
    o[24..].copy_from_slice(&d.to_be_bytes());
    o
}
impl Bytes {
    fn bytes(&self) -> [u8; 32] {
        let rand = |s: u64| {
            let mut r = Mix(s);
            let mut b = [0u8; 32];
            for c in b.chunks_mut(8) {
                c.copy_from_slice(&r.next().to_be_bytes());
            }
            b
        };
        let times = |k: u8| (0..k % 3).fold([0u8; 32], |a, _| add_be(&a, &r_be()).0);
        match self {
            Bytes::Seed(s) => rand(*s),
            Bytes::Near { k, d } => add_be(&times(*k), &small_be(*d as i64)).0,
            Bytes::Top(d) => add_be(&[0xff; 32], &small_be(-(*d as i64))).0,
            Bytes::Rep(b) => [*b; 32],
            Bytes::Over(s, v) => {
                let mut b = rand(*s);
                for (i, x) in v {
                    b[*i as usize % 32] = *x;
                }
                b
            }
            Bytes::Multiple(k, s) => {
                let x = s.fr().to_bytes_be();
                let (v, over) = add_be(&times(*k), &x);
                if over {
                    x
                } else {
                    v
                }
            }
            Bytes::Pow2(k, d) => {
                let mut b = [0u8; 32];
                b[31 - *k as usize / 8] = 1 << (k % 8);
                add_be(&b, &small_be(*d as i64)).0
            }
        }
    }
}
fn bytes_case() -> BoxedStrategy<Bytes> {
    prop_oneof![
        3 => any::<u64>().prop_map(Bytes::Seed),
        3 => (0u8..3, prop_oneof![-3i32..=3, any::<i32>()]).prop_map(|(k, d)| Bytes::Near { k, d }),
        1 => prop_oneof![0u32..4, any::<u32>()].prop_map(Bytes::Top),
        1 => any::<u8>().prop_map(Bytes::Rep),
        2 => (any::<u64>(), prop::collection::vec((any::<u8>(), any::<u8>()), 1..20)).prop_map(|(a, b)| Bytes::Over(a, b)),
        2 => (0u8..3, scalar()).prop_map(|(a, b)| Bytes::Multiple(a, b)),
        2 => (any::<u8>(), -2i8..=2).prop_map(|(a, b)| Bytes::Pow2(a, b)),
    ]
    .boxed()
}
fn reduce(c: &Bytes) -> TestResult {
    let b = c.bytes();
    let want = fr_from_be_reduced(&b);
    let got = reduce_bytes_to_scalar_bias(b);
    ensure!(got == want, "{} reduces to {} but must reduce to {}", hex::encode(b), hex::encode(got.to_bytes_be()), hex::encode(want.to_bytes_be()));
    ensure!(got.to_bytes_be() == want.to_bytes_be(), "representation of the reduced value");
    let two_r = add_be(&r_be(), &r_be()).0;
    Ok(Seen::new(b != [0; 32]).label(if b < r_be() {
        "below-order"
    } else if b < two_r {
        "once-over"
    } else {
        "twice-over"
    }))
}

fn build() -> Vec<Property> {
    vec![
        Property {
            id: "C20",
            assumptions: vec![
                "points are in the prime-order subgroup; the *_unsafe variants get no identity points (their documented precondition) and at least one point; fixed-base multiplications get one scalar per generator",
                "single scalar multiplications by blstrs and the pinned proptest crate are correct",
            ],
            facets: vec![
                facet("lincomb-g1", "more than one product, or a non-zero sum, or a length mismatch", 6000, 100000,
                    |_| lin_case(prop_oneof![2 => 0u16..=3, 6 => 0u16..=80, 1 => 80u16..=400].boxed()), lin_g1),
                facet("lincomb-g1-large", "more than one product, or a non-zero sum, or a length mismatch", 24, 600,
                    |_| lin_case(prop_oneof![1 => 400u16..=4096, 1 => Just(4096u16)].boxed()), lin_g1),
                facet("lincomb-g1-pow2", "more than one product, or a non-zero sum, or a length mismatch", 240, 4000,
                    |_| lin_case(near_pow2(3, 10)), lin_g1),
                facet("lincomb-g2", "more than one product, or a non-zero sum, or a length mismatch", 1600, 20000,
                    |_| lin_case(prop_oneof![2 => 0u16..=3, 6 => 0u16..=40, 1 => 40u16..=130].boxed()), lin_g2),
                facet("lincomb-g2-pow2", "more than one product, or a non-zero sum, or a length mismatch", 60, 1000,
                    |_| lin_case(near_pow2(3, 9)), lin_g2),
                facet("fixed-base", "at least one point that is not the identity", 3000, 60000,
                    |t| fixed_case(1..=(if t == Tier::Quick { 9 } else { 12 }), 3000), fixed),
                facet("fixed-base-wide", "at least one point that is not the identity", 40, 800,
                    |t| fixed_case(10..=(if t == Tier::Quick { 13 } else { 16 }), 9000), fixed),
                facet("fixed-base-many", "at least one point that is not the identity", 300, 5000,
                    |_| fixed_case(1..=5, 4096), fixed),
                facet("fixed-base-blst", "no identity among the points, at least one point", 1000, 20000,
                    |t| fixed_case(2..=(if t == Tier::Quick { 8 } else { 11 }), 3000), fixed_blst),
            ],
        },
        Property {
            id: "C21",
            assumptions: vec![
                "points are in the prime-order subgroup; no zero is inverted",
                "blstrs single operations and the pinned proptest crate are correct",
            ],
            facets: vec![
                facet("batch-inverse", "more than one element", 20000, 400000,
                    |_| (vect(0..=200), vect(0..=20), any::<u16>(), any::<bool>()).prop_map(|(v, junk, cap, square)| Inv { v, junk, cap: cap % 300, square }).boxed(), inversion),
                facet("batch-inverse-large", "more than one element", 600, 12000,
                    |_| (near_pow2(3, 13), vkind(), vect(0..=20), any::<u16>(), any::<bool>()).prop_map(|(len, kind, junk, cap, square)| Inv { v: Vect { len, kind }, junk, cap, square }).boxed(), inversion),
                facet("batch-normalise-large", "more than one point", 120, 2000,
                    |_| (near_pow2(3, 12), pts(), prop::collection::vec(any::<u8>(), 0..6)).prop_map(|(n, pts, build)| Norm { n, pts, build }).boxed(), normalise),
                facet("batch-addition-large", "more than one point", 120, 2000,
                    |_| prop::collection::vec((prop_oneof![3 => near_pow2(3, 10), 1 => near_pow2(10, 12), 1 => 0u16..40], pts()), 1..4).prop_map(|groups| Add { groups }).boxed(), addition),
                facet("multi-pairing-large", "at least one pair without identity", 200, 4000,
                    |_| (prop_oneof![near_pow2(2, 6), 6u16..140], 0u64..=u64::MAX, prop::collection::vec(scalar(), 0..4), prop::option::weighted(0.8, (scalar(), prop_oneof![2 => Just(S::Zero), 1 => scalar()])))
                        .prop_map(|(n, seed, few, close)| {
                            let mut r = Mix(seed);
                            let mut one = || if !few.is_empty() && r.below(8) == 0 { few[r.below(few.len() as u64) as usize].clone() } else { S::Rand(r.next()) };
                            Pair { pairs: (0..n).map(|_| (one(), one())).collect(), close }
                        }).boxed(), pairing),
                facet("batch-normalise", "more than one point", 1500, 20000,
                    |_| (prop_oneof![1 => 0u16..=2, 3 => 0u16..=40, 1 => 0u16..=300], pts(), prop::collection::vec(any::<u8>(), 0..6)).prop_map(|(n, pts, build)| Norm { n, pts, build }).boxed(), normalise),
                facet("batch-addition", "more than one point", 4000, 60000,
                    |_| add_case(300, 7), addition),
                facet("batch-addition-many-groups", "more than one point", 300, 5000,
                    |_| add_case(60, 80), addition),
                facet("multi-pairing", "at least one pair without identity", 3000, 40000,
                    |_| (prop::collection::vec((scalar(), scalar()), 0..6), prop::option::weighted(0.8, (scalar(), prop_oneof![2 => Just(S::Zero), 1 => scalar()])))
                        .prop_map(|(pairs, close)| Pair { pairs, close }).boxed(), pairing),
                facet("reduce-bytes", "the string is not zero", 200000, 4000000, |_| bytes_case(), reduce),
            ],
        },
    ]
}
fn main() {
    harness::pbt::main(build)
}
