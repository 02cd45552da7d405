//! Batches of openings under a setup whose secret is known: every group
//! element is generated from its discrete logarithm, so the truth of every
//! (tampered) claim is decided by field arithmetic.
use crate::gen::*;
use crate::kzg::*;
use crate::model::*;
use ff::Field;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;

pub const POOL: usize = 12;
pub fn pool_spec(i: usize) -> Blob {
    match i % POOL {
        0 => Blob::Zero,
        1 => Blob::Const(S::One),
        2 => Blob::Random(11),
        3 => Blob::Random(12),
        4 => Blob::LowDegree(13, 64),
        5 => Blob::LowDegree(14, 65),
        6 => Blob::Sparse(vec![(77, S::Max)]),
        7 => Blob::Vanish(15, vec![0, 3, 77]),
        8 => Blob::Random(16),
        9 => Blob::Bits(17, 8),
        10 => Blob::Coeffs(vec![(4095, S::One)]),
        _ => Blob::Const(S::Max),
    }
}

/// A polynomial with everything a prover makes of it, in logs and in bytes.
pub struct Made {
    pub coeffs: Vec<Fr>,
    pub blob: Vec<u8>,
    pub ext: Vec<Fr>,
    pub c: Fr,
    pub com: [u8; 48],
    pub cells: Vec<Vec<u8>>,
    pub q: Vec<Fr>,
    pub proofs: Vec<[u8; 48]>,
}
pub fn make(t: &Tau, b: &Blob) -> Made {
    let (bl, coeffs) = b.expand();
    let (ext, cells) = model_cells(&coeffs);
    let c = t.at(&coeffs);
    let q: Vec<Fr> = (0..CELLS).map(|k| t.proof_log(c, k, &ext[k * CELL..(k + 1) * CELL])).collect();
    Made { blob: blob_bytes(&bl), c, com: g1(c), proofs: q.iter().map(|x| g1(*x)).collect(), q, ext, cells, coeffs }
}
pub fn pool(ti: u8) -> &'static [Made] {
    static P: [OnceLock<Vec<Made>>; TAUS as usize] = [OnceLock::new(), OnceLock::new(), OnceLock::new()];
    let ti = ti % TAUS;
    P[ti as usize].get_or_init(|| (0..POOL).map(|i| make(tau(ti), &pool_spec(i))).collect())
}

/// Which openings, of which pool polynomials, in which order.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Shape {
    List(Vec<(u8, u8)>),
    /// all 128 cells of each of these
    Rows(Vec<u8>),
    /// one cell index of each of these polynomials
    Column(u8, Vec<u8>),
    Repeat(u8, u8, u16),
    /// n random entries over the first `blobs` pool entries from `first`, `cells` different indices
    Random { seed: u64, n: u16, first: u8, blobs: u8, cells: u8 },
    /// rows interleaved: cell 0 of each, cell 1 of each, ...
    Interleaved(Vec<u8>, u8),
}
impl Shape {
    pub fn entries(&self) -> Vec<(usize, usize)> {
        let p = |b: u8| b as usize % POOL;
        let k = |c: u8| c as usize % CELLS;
        match self {
            Shape::List(v) => v.iter().map(|(b, c)| (p(*b), k(*c))).collect(),
            Shape::Rows(v) => v.iter().flat_map(|b| (0..CELLS).map(move |c| (p(*b), c))).collect(),
            Shape::Column(c, v) => v.iter().map(|b| (p(*b), k(*c))).collect(),
            Shape::Repeat(b, c, n) => vec![(p(*b), k(*c)); *n as usize],
            Shape::Random { seed, n, first, blobs, cells } => {
                let mut r = Mix(*seed);
                (0..*n)
                    .map(|_| {
                        let b = *first as usize + r.below((*blobs).max(1) as u64) as usize;
                        let c = r.below((*cells as u64).clamp(1, 128)) as usize;
                        (b % POOL, (c * 37) % CELLS)
                    })
                    .collect()
            }
            Shape::Interleaved(v, n) => {
                (0..*n as usize % 129).flat_map(|c| v.iter().map(move |b| (p(*b), c % CELLS))).collect()
            }
        }
    }
    pub fn class(&self) -> &'static str {
        match self {
            Shape::List(_) => "batch:list",
            Shape::Rows(_) => "batch:rows",
            Shape::Column(..) => "batch:column",
            Shape::Repeat(..) => "batch:repeat",
            Shape::Random { .. } => "batch:random",
            Shape::Interleaved(..) => "batch:interleaved",
        }
    }
}
pub fn size_class(n: usize) -> &'static str {
    match n {
        0 => "size:0",
        1 => "size:1",
        2 => "size:2",
        3..=16 => "size:3-16",
        17..=64 => "size:17-64",
        65..=127 => "size:65-127",
        128..=129 => "size:128-129",
        130..=256 => "size:130-256",
        _ => "size:>256",
    }
}
pub fn sizes() -> BoxedStrategy<u16> {
    prop_oneof![
        6 => 0u16..9,
        4 => 2u16..40,
        2 => prop_oneof![Just(31u16), Just(32), Just(33), Just(63), Just(64), Just(65), Just(127), Just(128), Just(129)],
        2 => 40u16..200,
        1 => prop_oneof![Just(255u16), Just(256), Just(257), Just(511), Just(512), Just(513)],
        1 => 200u16..700,
    ]
    .boxed()
}
pub fn shape() -> BoxedStrategy<Shape> {
    let b = || 0u8..POOL as u8;
    prop_oneof![
        5 => prop::collection::vec((b(), 0u8..128), 1..10).prop_map(Shape::List),
        1 => prop::collection::vec(b(), 1..3).prop_map(Shape::Rows),
        2 => (0u8..128, prop::collection::vec(b(), 1..16)).prop_map(|(a, b)| Shape::Column(a, b)),
        2 => (b(), 0u8..128, sizes()).prop_map(|(a, b, c)| Shape::Repeat(a, b, c)),
        6 => (any::<u64>(), sizes(), b(), 1u8..13, 1u8..=128)
            .prop_map(|(seed, n, first, blobs, cells)| Shape::Random { seed, n, first, blobs, cells }),
        1 => (prop::collection::vec(b(), 1..4), 1u8..60).prop_map(|(a, b)| Shape::Interleaved(a, b)),
    ]
    .boxed()
}
/// Small batches with at least two entries.
pub fn small_shape() -> BoxedStrategy<Shape> {
    let b = || 0u8..POOL as u8;
    prop_oneof![
        6 => prop::collection::vec((b(), 0u8..128), 2..6).prop_map(Shape::List),
        2 => (0u8..128, prop::collection::vec(b(), 2..6)).prop_map(|(a, b)| Shape::Column(a, b)),
        2 => (b(), 0u8..128, 2u16..6).prop_map(|(a, b, c)| Shape::Repeat(a, b, c)),
        3 => (any::<u64>(), 2u16..20, b(), 1u8..13, 1u8..=128)
            .prop_map(|(seed, n, first, blobs, cells)| Shape::Random { seed, n, first, blobs, cells }),
        1 => (any::<u64>(), 100u16..140, b(), 1u8..13, 1u8..=128)
            .prop_map(|(seed, n, first, blobs, cells)| Shape::Random { seed, n, first, blobs, cells }),
    ]
    .boxed()
}

/// One claim, by logs.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Claim {
    pub c: Fr,
    pub k: usize,
    pub ev: Vec<Fr>,
    pub q: Fr,
}
impl Claim {
    pub fn residual(&self, t: &Tau) -> Fr {
        t.residual(self.c, self.k, &self.ev, self.q)
    }
    /// Adds `d` to the residual through the evaluations, the proof or the commitment.
    pub fn push_residual(&mut self, t: &Tau, via: Via, d: Fr) {
        match via {
            Via::Eval(p) => {
                let p = p as usize % CELL;
                self.ev[p] -= d * t.lag[self.k * CELL + p].invert().unwrap();
            }
            Via::Proof => self.q -= d * t.z_inv[self.k],
            Via::Commitment => self.c += d,
        }
    }
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Via {
    Eval(u8),
    Proof,
    Commitment,
}
pub fn via() -> BoxedStrategy<Via> {
    prop_oneof![2 => (0u8..64).prop_map(Via::Eval), 2 => Just(Via::Proof), 1 => Just(Via::Commitment)].boxed()
}
pub fn claims(ti: u8, shape: &Shape) -> Vec<Claim> {
    let p = pool(ti);
    shape
        .entries()
        .into_iter()
        .map(|(b, k)| Claim { c: p[b].c, k, ev: p[b].ext[k * CELL..(k + 1) * CELL].to_vec(), q: p[b].q[k] })
        .collect()
}
/// Encodes claims, reusing the pool's encodings where nothing changed.
pub fn encode(ti: u8, shape: &Shape, claims: &[Claim]) -> Vec<Entry> {
    use std::collections::HashMap;
    let p = pool(ti);
    let mut known: HashMap<[u8; 32], [u8; 48]> = HashMap::new();
    for (b, k) in shape.entries() {
        known.insert(p[b].c.to_bytes_be(), p[b].com);
        known.insert(p[b].q[k].to_bytes_be(), p[b].proofs[k]);
    }
    let mut enc = |s: Fr| *known.entry(s.to_bytes_be()).or_insert_with(|| g1(s));
    claims
        .iter()
        .map(|c| Entry { commitment: enc(c.c), index: c.k as u64, cell: cell_bytes(&c.ev), proof: enc(c.q) })
        .collect()
}
