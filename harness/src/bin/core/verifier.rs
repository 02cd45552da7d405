//! C04 completeness, C05 soundness, C06 binding of the challenge.
use blstrs::{G1Affine, G1Projective};
use ff::Field;
use harness::batch::*;
use harness::ensure;
use harness::gen::{blob, order, scalar, shuffle, Blob, Order, S};
use harness::kzg::*;
use harness::model::*;
use harness::pbt::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use rust_eth_kzg::DASContext;
use std::sync::OnceLock;

const TI: u8 = 0;
fn vctx(setup: Setup, plain: bool) -> std::sync::Arc<rust_eth_kzg::DASContext> {
    context(setup, if plain { PLAIN } else { WIDE0 })
}

// ---------------------------------------------------------------- C04

/// The pool's polynomials, proven by the library under a setup.
fn library_pool(s: Setup) -> &'static [(Vec<u8>, [u8; 48], CellsProofs)] {
    static M: OnceLock<Vec<(Vec<u8>, [u8; 48], CellsProofs)>> = OnceLock::new();
    static T: OnceLock<Vec<(Vec<u8>, [u8; 48], CellsProofs)>> = OnceLock::new();
    let cell = match s {
        Setup::Main => &M,
        Setup::Tau(_) => &T,
    };
    cell.get_or_init(|| {
        let ctx = context(s, WIDE);
        (0..POOL)
            .map(|i| {
                let b = pool_spec(i).bytes();
                let c = match commit(&ctx, &b) {
                    Out::Ok(c) => c,
                    o => panic!("commit: {}", o.brief()),
                };
                let cp = match compute(&ctx, &b) {
                    Out::Ok(c) => c,
                    o => panic!("compute: {}", o.brief()),
                };
                (b, c, cp)
            })
            .collect()
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Honest {
    tau: bool,
    plain: bool,
    shape: Shape,
    order: Order,
}
fn reorder<T: Clone>(v: &mut Vec<T>, o: &Order) {
    let n = v.len();
    if n == 0 {
        return;
    }
    match o {
        Order::Sorted | Order::Brp => {}
        Order::Reversed => v.reverse(),
        Order::Shuffled(s) => shuffle(v, *s),
        Order::Rotated(k) => v.rotate_left(*k as usize % n),
        Order::SwapOne(a, b) => v.swap(*a as usize % n, *b as usize % n),
    }
}
fn c04_pool(c: &Honest) -> TestResult {
    let s = if c.tau { Setup::Tau(TI) } else { Setup::Main };
    let p = library_pool(s);
    let mut idx = c.shape.entries();
    reorder(&mut idx, &c.order);
    let es: Vec<Entry> = idx
        .iter()
        .map(|(b, k)| Entry { commitment: p[*b].1, index: *k as u64, cell: p[*b].2.cells[*k].clone(), proof: p[*b].2.proofs[*k] })
        .collect();
    let r = verify(&vctx(s, c.plain), &es);
    ensure!(r.is_ok(), "honest batch of {} entries: {}", es.len(), r.brief());
    let mut d: Vec<_> = idx.clone();
    d.sort();
    d.dedup();
    Ok(Seen::new(es.len() > 1)
        .label(c.shape.class())
        .label(size_class(es.len()))
        .label_if(d.len() < idx.len(), "has repeated entries"))
}
/// Honest openings of arbitrary generated polynomials (made by the model).
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fresh {
    ti: u8,
    blobs: Vec<Blob>,
    picks: Vec<(u8, u8)>,
}
fn c04_fresh(c: &Fresh) -> TestResult {
    let t = tau(c.ti);
    let made: Vec<(Vec<Fr>, Fr)> = c.blobs.iter().map(|b| { let (_, co) = b.expand(); let l = t.at(&co); (extended(&co), l) }).collect();
    let es: Vec<Entry> = c
        .picks
        .iter()
        .map(|(b, k)| {
            let (ext, l) = &made[*b as usize % made.len()];
            let k = *k as usize % CELLS;
            let ev = &ext[k * CELL..(k + 1) * CELL];
            Entry { commitment: g1(*l), index: k as u64, cell: cell_bytes(ev), proof: g1(t.proof_log(*l, k, ev)) }
        })
        .collect();
    let r = verify(&context(Setup::Tau(c.ti), WIDE0), &es);
    ensure!(r.is_ok(), "honest batch of {} entries: {}", es.len(), r.brief());
    Ok(Seen::new(es.len() > 1).label(size_class(es.len())))
}

/// Large batches over many different polynomials: row m is a multiple of a
/// pool polynomial, so that its openings cost nothing to make. Errors come in
/// pairs that cancel, a generated distance apart.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Many {
    ti: u8,
    rows: u16,
    entries: u16,
    /// entry i is of row i * step mod rows, or of a random one
    step: Option<u16>,
    /// cell of entry i is i * kstep + k0
    k0: u8,
    kstep: u8,
    seed: u64,
    errors: Vec<(u16, u16, Via, Via, bool, S)>,
}
fn many(max: u16, errors: bool) -> BoxedStrategy<Many> {
    let dist = prop_oneof![
        3 => (0u32..10).prop_map(|k| 1u16 << k),
        2 => Just(128u16),
        2 => Just(256u16),
        2 => 1u16..max,
    ];
    let one = (0u16..max, dist, via(), via(), any::<bool>(), scalar());
    (
        (0..TAUS, prop_oneof![1 => 1u16..8, 1 => 1u16..130, 2 => 200u16..max, 1 => 250u16..270], prop_oneof![1 => 2u16..130, 3 => 200u16..max]),
        (prop_oneof![3 => Just(Some(1u16)), 1 => (1u16..64).prop_map(Some), 1 => Just(None)], 0u8..128, prop_oneof![Just(0u8), Just(1), 0u8..128], any::<u64>()),
        if errors { prop::collection::vec(one, 1..3).boxed() } else { Just(vec![]).boxed() },
    )
        .prop_map(|((ti, rows, entries), (step, k0, kstep, seed), errors)| Many { ti, rows, entries, step, k0, kstep, seed, errors })
        .boxed()
}
fn many_claims(c: &Many) -> (Vec<Claim>, usize) {
    let p = pool(c.ti);
    let (rows, n) = (c.rows.max(1) as usize, c.entries.max(1) as usize);
    let mut rng = Mix(c.seed ^ 0x3a17);
    let factor: Vec<Fr> = (0..rows).map(|_| rng.fr()).collect();
    // pool polynomials with non-zero commitments
    let bases = [2usize, 3, 4, 5, 8];
    let mut used = std::collections::HashSet::new();
    let v: Vec<Claim> = (0..n)
        .map(|i| {
            let m = match c.step {
                Some(s) => i * s as usize % rows,
                None => rng.below(rows as u64) as usize,
            };
            used.insert(m);
            let k = (i * c.kstep as usize + c.k0 as usize) % CELLS;
            let (b, f) = (&p[bases[m % bases.len()]], factor[m]);
            Claim { c: b.c * f, k, ev: b.ext[k * CELL..(k + 1) * CELL].iter().map(|e| *e * f).collect(), q: b.q[k] * f }
        })
        .collect();
    (v, used.len())
}
fn many_case(c: &Many) -> TestResult {
    let t = tau(c.ti);
    let (mut v, used) = many_claims(c);
    let n = v.len();
    for (i, d, vi, vj, coset, s) in &c.errors {
        let i = *i as usize % n;
        let j = (i + *d as usize) % n;
        let w = if *coset { coset_pow(v[i].k) * coset_pow(v[j].k).invert().unwrap() } else { Fr::ONE };
        let d = s.nonzero();
        v[i].push_residual(t, *vi, d);
        v[j].push_residual(t, *vj, -d * w);
    }
    let bad = v.iter().filter(|x| x.residual(t) != Fr::ZERO).count();
    let es = encode(c.ti, &Shape::List(vec![]), &v);
    let r = verify(&context(Setup::Tau(c.ti), WIDE0), &es);
    if bad == 0 {
        ensure!(r.is_ok(), "all {n} claims about {} polynomials are true but the batch is refused: {}", used, r.brief());
    } else {
        ensure!(r == Out::InvalidProof, "{bad} claims of {n} about {} polynomials are false, result: {}", used, r.brief());
    }
    Ok(Seen::new(if c.errors.is_empty() { used > 1 } else { bad > 0 })
        .label(size_class(n))
        .label_if(used > 128, "polynomials:>128")
        .label_if(used > 256, "polynomials:>256"))
}

/// Very large batches, each entry about another constant polynomial (every
/// element of every cell is c, the commitment c*G, the proof the identity).
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Wide {
    n: u32,
    base: S,
    step: S,
    kstep: u8,
    /// an error of entry i and the opposite one of entry i + gap
    error: Option<(u32, u32, u8, S)>,
}
fn wide(from: u32, to: u32, errors: bool) -> BoxedStrategy<Wide> {
    let n = (from..=to).prop_flat_map(|k| prop_oneof![3 => 1u32..300, 1 => 1..1u32 << k].prop_map(move |d| (1u32 << k) + d));
    let gap = prop_oneof![5 => (7..=to).prop_map(|k| 1u32 << k), 1 => 1u32..1 << to];
    let error = (any::<u32>(), gap, any::<u8>(), scalar());
    (n, scalar(), scalar(), 0u8..2, if errors { error.prop_map(Some).boxed() } else { Just(None).boxed() })
        .prop_map(|(n, base, step, kstep, error)| Wide { n, base, step, kstep, error })
        .boxed()
}
fn wide_case(c: &Wide) -> TestResult {
    use group::{prime::PrimeCurveAffine, Curve, Group};
    let n = c.n as usize;
    let step = c.step.nonzero();
    let mut v = Vec::with_capacity(n);
    let (mut x, mut p) = (c.base.fr(), blstrs::G1Projective::generator() * c.base.fr());
    let dp = blstrs::G1Projective::generator() * step;
    let mut ps = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(x);
        ps.push(p);
        x += step;
        p += dp;
    }
    let mut affine = vec![blstrs::G1Affine::identity(); n];
    blstrs::G1Projective::batch_normalize(&ps, &mut affine);
    let identity = g1(Fr::ZERO);
    let mut es: Vec<Entry> = (0..n)
        .map(|i| Entry { commitment: affine[i].to_compressed(), index: (i * c.kstep as usize % CELLS) as u64, cell: v[i].to_bytes_be().repeat(CELL), proof: identity })
        .collect();
    if let Some((i, gap, at, d)) = &c.error {
        let d = d.nonzero();
        let i = *i as usize % n;
        let j = (i + (*gap as usize).min(n - 1)) % n;
        let at = *at as usize % CELL * 32;
        let bump = |e: &mut Entry, x: Fr| e.cell[at..at + 32].copy_from_slice(&x.to_bytes_be());
        bump(&mut es[i], v[i] + d);
        bump(&mut es[j], v[j] - d);
    }
    let r = verify(&context(Setup::Tau(0), WIDE0), &es);
    match c.error {
        None => ensure!(r.is_ok(), "{n} true claims about as many constants: {}", r.brief()),
        Some((_, gap, ..)) => ensure!(r == Out::InvalidProof, "two of {n} claims, {gap} apart, are false, result: {}", r.brief()),
    }
    Ok(Seen::new(true).label_if(n > 65536, "polynomials:>65536").label_if(n > 4096, "polynomials:>4096"))
}

// ---------------------------------------------------------------- C05

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Weight {
    One,
    MinusOne,
    Ratio(u8, u8),
    /// ratio of the two cosets' h^64
    Coset,
    Scalar(S),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Tamper {
    Eval(u16, u8, S),
    EvalSet(u16, u8, S),
    EvalAll(u16, S),
    EvalSwap(u16, u8, u8),
    CellFrom(u16, u8, u8),
    CellSwap(u16, u16),
    CellReverse(u16),
    CellBrp(u16),
    CellRotate(u16, u8),
    CellNeg(u16),
    ProofAdd(u16, S),
    ProofNeg(u16),
    ProofZero(u16),
    ProofSet(u16, S),
    ProofSwap(u16, u16),
    ProofOf(u16, u8, u8),
    ComAdd(u16, S),
    ComNeg(u16),
    ComZero(u16),
    ComSet(u16, S),
    ComSwap(u16, u16),
    ComOf(u16, u8),
    Index(u16, u8),
    IndexXor(u16, u8),
    IndexSwap(u16, u16),
    /// errors of two entries that cancel under the given relative weight
    Cancel(u16, u16, Via, Via, Weight, S),
    /// errors d, -2d, d of three entries
    Collinear(u16, u16, u16, Via, S),
    /// rotate the proofs of the whole batch
    RotateProofs(u16),
    RotateCells(u16),
    RotateComs(u16),
    /// everything consistent for another index: cell and proof of (blob, k) claimed at index j
    Relabel(u16, u8),
}
fn tamper() -> BoxedStrategy<Tamper> {
    let i = || prop_oneof![3 => 0u16..8, 1 => any::<u16>(), 1 => Just(u16::MAX)];
    let s = scalar;
    let b = || 0u8..POOL as u8;
    let k = || 0u8..128;
    let w = || {
        prop_oneof![
            4 => Just(Weight::One),
            1 => Just(Weight::MinusOne),
            1 => (1u8..9, 1u8..9).prop_map(|(a, b)| Weight::Ratio(a, b)),
            1 => Just(Weight::Coset),
            1 => s().prop_map(Weight::Scalar),
        ]
    };
    prop_oneof![
        6 => (i(), 0u8..64, s()).prop_map(|(a, b, c)| Tamper::Eval(a, b, c)),
        2 => (i(), 0u8..64, s()).prop_map(|(a, b, c)| Tamper::EvalSet(a, b, c)),
        1 => (i(), s()).prop_map(|(a, b)| Tamper::EvalAll(a, b)),
        1 => (i(), 0u8..64, 0u8..64).prop_map(|(a, b, c)| Tamper::EvalSwap(a, b, c)),
        1 => (i(), b(), k()).prop_map(|(a, b, c)| Tamper::CellFrom(a, b, c)),
        1 => (i(), i()).prop_map(|(a, b)| Tamper::CellSwap(a, b)),
        1 => i().prop_map(Tamper::CellReverse),
        1 => i().prop_map(Tamper::CellBrp),
        1 => (i(), 1u8..64).prop_map(|(a, b)| Tamper::CellRotate(a, b)),
        1 => i().prop_map(Tamper::CellNeg),
        2 => (i(), s()).prop_map(|(a, b)| Tamper::ProofAdd(a, b)),
        2 => i().prop_map(Tamper::ProofNeg),
        2 => i().prop_map(Tamper::ProofZero),
        1 => (i(), s()).prop_map(|(a, b)| Tamper::ProofSet(a, b)),
        1 => (i(), i()).prop_map(|(a, b)| Tamper::ProofSwap(a, b)),
        1 => (i(), b(), k()).prop_map(|(a, b, c)| Tamper::ProofOf(a, b, c)),
        2 => (i(), s()).prop_map(|(a, b)| Tamper::ComAdd(a, b)),
        1 => i().prop_map(Tamper::ComNeg),
        2 => i().prop_map(Tamper::ComZero),
        1 => (i(), s()).prop_map(|(a, b)| Tamper::ComSet(a, b)),
        1 => (i(), i()).prop_map(|(a, b)| Tamper::ComSwap(a, b)),
        1 => (i(), b()).prop_map(|(a, b)| Tamper::ComOf(a, b)),
        2 => (i(), k()).prop_map(|(a, b)| Tamper::Index(a, b)),
        2 => (i(), 0u8..7).prop_map(|(a, b)| Tamper::IndexXor(a, b)),
        1 => (i(), i()).prop_map(|(a, b)| Tamper::IndexSwap(a, b)),
        8 => (i(), i(), via(), via(), w(), s()).prop_map(|(a, b, c, d, e, f)| Tamper::Cancel(a, b, c, d, e, f)),
        1 => (i(), i(), i(), via(), s()).prop_map(|(a, b, c, d, e)| Tamper::Collinear(a, b, c, d, e)),
        1 => any::<u16>().prop_map(Tamper::RotateProofs),
        1 => any::<u16>().prop_map(Tamper::RotateCells),
        1 => any::<u16>().prop_map(Tamper::RotateComs),
        1 => (i(), k()).prop_map(|(a, b)| Tamper::Relabel(a, b)),
    ]
    .boxed()
}
fn apply(t: &Tau, ti: u8, v: &mut [Claim], x: &Tamper) {
    let n = v.len();
    if n == 0 {
        return;
    }
    let at = |i: &u16| if *i == u16::MAX { n - 1 } else { *i as usize % n };
    let p = pool(ti);
    match x {
        Tamper::Eval(i, j, s) => v[at(i)].ev[*j as usize % CELL] += s.nonzero(),
        Tamper::EvalSet(i, j, s) => v[at(i)].ev[*j as usize % CELL] = s.fr(),
        Tamper::EvalAll(i, s) => v[at(i)].ev.iter_mut().for_each(|e| *e += s.nonzero()),
        Tamper::EvalSwap(i, a, b) => v[at(i)].ev.swap(*a as usize % CELL, *b as usize % CELL),
        Tamper::CellFrom(i, b, k) => {
            let k = *k as usize % CELLS;
            v[at(i)].ev = p[*b as usize % POOL].ext[k * CELL..(k + 1) * CELL].to_vec()
        }
        Tamper::CellSwap(i, j) => {
            let e = v[at(i)].ev.clone();
            v[at(i)].ev = v[at(j)].ev.clone();
            v[at(j)].ev = e;
        }
        Tamper::CellReverse(i) => v[at(i)].ev.reverse(),
        Tamper::CellBrp(i) => v[at(i)].ev = brp(&v[at(i)].ev),
        Tamper::CellRotate(i, k) => v[at(i)].ev.rotate_left(*k as usize % CELL),
        Tamper::CellNeg(i) => v[at(i)].ev.iter_mut().for_each(|e| *e = -*e),
        Tamper::ProofAdd(i, s) => v[at(i)].q += s.nonzero(),
        Tamper::ProofNeg(i) => v[at(i)].q = -v[at(i)].q,
        Tamper::ProofZero(i) => v[at(i)].q = Fr::ZERO,
        Tamper::ProofSet(i, s) => v[at(i)].q = s.fr(),
        Tamper::ProofSwap(i, j) => {
            let q = v[at(i)].q;
            v[at(i)].q = v[at(j)].q;
            v[at(j)].q = q;
        }
        Tamper::ProofOf(i, b, k) => v[at(i)].q = p[*b as usize % POOL].q[*k as usize % CELLS],
        Tamper::ComAdd(i, s) => v[at(i)].c += s.nonzero(),
        Tamper::ComNeg(i) => v[at(i)].c = -v[at(i)].c,
        Tamper::ComZero(i) => v[at(i)].c = Fr::ZERO,
        Tamper::ComSet(i, s) => v[at(i)].c = s.fr(),
        Tamper::ComSwap(i, j) => {
            let c = v[at(i)].c;
            v[at(i)].c = v[at(j)].c;
            v[at(j)].c = c;
        }
        Tamper::ComOf(i, b) => v[at(i)].c = p[*b as usize % POOL].c,
        Tamper::Index(i, k) => v[at(i)].k = *k as usize % CELLS,
        Tamper::IndexXor(i, b) => v[at(i)].k ^= 1 << (b % 7),
        Tamper::IndexSwap(i, j) => {
            let k = v[at(i)].k;
            v[at(i)].k = v[at(j)].k;
            v[at(j)].k = k;
        }
        Tamper::Cancel(i, j, vi, vj, w, s) => {
            let (i, j) = (at(i), at(j));
            let d = s.nonzero();
            let w = match w {
                Weight::One => Fr::ONE,
                Weight::MinusOne => -Fr::ONE,
                Weight::Ratio(a, b) => Fr::from(*a as u64) * Fr::from((*b).max(1) as u64).invert().unwrap(),
                Weight::Coset => coset_pow(v[i].k) * coset_pow(v[j].k).invert().unwrap(),
                Weight::Scalar(s) => s.nonzero(),
            };
            v[i].push_residual(t, *vi, d);
            v[j].push_residual(t, *vj, -d * w);
        }
        Tamper::Collinear(i, j, l, via, s) => {
            let d = s.nonzero();
            v[at(i)].push_residual(t, *via, d);
            v[at(j)].push_residual(t, *via, -(d + d));
            v[at(l)].push_residual(t, *via, d);
        }
        Tamper::RotateProofs(k) => {
            let mut q: Vec<Fr> = v.iter().map(|x| x.q).collect();
            q.rotate_left(*k as usize % n);
            v.iter_mut().zip(q).for_each(|(x, q)| x.q = q);
        }
        Tamper::RotateCells(k) => {
            let mut q: Vec<_> = v.iter().map(|x| x.ev.clone()).collect();
            q.rotate_left(*k as usize % n);
            v.iter_mut().zip(q).for_each(|(x, q)| x.ev = q);
        }
        Tamper::RotateComs(k) => {
            let mut q: Vec<Fr> = v.iter().map(|x| x.c).collect();
            q.rotate_left(*k as usize % n);
            v.iter_mut().zip(q).for_each(|(x, q)| x.c = q);
        }
        Tamper::Relabel(i, k) => v[at(i)].k = (v[at(i)].k + *k as usize) % CELLS,
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Tampered {
    ti: u8,
    plain: bool,
    shape: Shape,
    tampers: Vec<Tamper>,
}
fn c05_tau(c: &Tampered) -> TestResult {
    let t = tau(c.ti);
    let mut v = claims(c.ti, &c.shape);
    for x in &c.tampers {
        apply(t, c.ti, &mut v, x);
    }
    let bad: Vec<usize> = (0..v.len()).filter(|i| v[*i].residual(t) != Fr::ZERO).collect();
    let es = encode(c.ti, &c.shape, &v);
    let r = verify(&vctx(Setup::Tau(c.ti), c.plain), &es);
    let total: Fr = v.iter().fold(Fr::ZERO, |a, x| a + x.residual(t));
    let seen = Seen::new(!bad.is_empty())
        .label(size_class(es.len()))
        .label(match bad.len() {
            0 => "false entries: 0",
            1 => "false entries: 1",
            2 => "false entries: 2",
            _ => "false entries: 3+",
        })
        .label_if(!bad.is_empty() && total == Fr::ZERO, "errors sum to zero");
    if bad.is_empty() {
        ensure!(r.is_ok(), "all {} claims are true but the batch is refused: {}", es.len(), r.brief());
    } else {
        ensure!(r == Out::InvalidProof, "claims {:?} of {} are false, result: {}", bad, es.len(), r.brief());
    }
    Ok(seen)
}

/// The same against the embedded setup, with the library's own honest entries.
/// A claim is true exactly when it equals an honest one, as commitments stay
/// those of known polynomials.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum MainTamper {
    Eval(u16, u8, S),
    CellOf(u16, u8, u8),
    CellSwap(u16, u16),
    ProofAdd(u16, S),
    ProofNeg(u16),
    ProofZero(u16),
    ProofSwap(u16, u16),
    ProofOf(u16, u8, u8),
    ComOf(u16, u8),
    ComSwap(u16, u16),
    Index(u16, u8),
    CancelProofs(u16, u16, S),
}
fn main_tamper() -> BoxedStrategy<MainTamper> {
    let i = || prop_oneof![3 => 0u16..8, 1 => any::<u16>(), 1 => Just(u16::MAX)];
    let b = || 0u8..POOL as u8;
    let k = || 0u8..128;
    prop_oneof![
        3 => (i(), 0u8..64, scalar()).prop_map(|(a, b, c)| MainTamper::Eval(a, b, c)),
        1 => (i(), b(), k()).prop_map(|(a, b, c)| MainTamper::CellOf(a, b, c)),
        1 => (i(), i()).prop_map(|(a, b)| MainTamper::CellSwap(a, b)),
        2 => (i(), scalar()).prop_map(|(a, b)| MainTamper::ProofAdd(a, b)),
        1 => i().prop_map(MainTamper::ProofNeg),
        1 => i().prop_map(MainTamper::ProofZero),
        1 => (i(), i()).prop_map(|(a, b)| MainTamper::ProofSwap(a, b)),
        1 => (i(), b(), k()).prop_map(|(a, b, c)| MainTamper::ProofOf(a, b, c)),
        2 => (i(), b()).prop_map(|(a, b)| MainTamper::ComOf(a, b)),
        1 => (i(), i()).prop_map(|(a, b)| MainTamper::ComSwap(a, b)),
        2 => (i(), k()).prop_map(|(a, b)| MainTamper::Index(a, b)),
        3 => (i(), i(), scalar()).prop_map(|(a, b, c)| MainTamper::CancelProofs(a, b, c)),
    ]
    .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MainTampered {
    shape: Shape,
    tampers: Vec<MainTamper>,
}
fn c05_main(c: &MainTampered) -> TestResult {
    let p = library_pool(Setup::Main);
    let mut es: Vec<Entry> = c
        .shape
        .entries()
        .iter()
        .map(|(b, k)| Entry { commitment: p[*b].1, index: *k as u64, cell: p[*b].2.cells[*k].clone(), proof: p[*b].2.proofs[*k] })
        .collect();
    let n = es.len();
    if n > 0 {
        let at = |i: &u16| if *i == u16::MAX { n - 1 } else { *i as usize % n };
        let add = |b: &[u8; 48], s: Fr| -> [u8; 48] {
            let q: G1Affine = G1Affine::from_compressed(b).unwrap();
            g1_bytes(&(G1Projective::from(q) + G1Projective::from(<G1Affine as group::prime::PrimeCurveAffine>::generator()) * s))
        };
        for x in &c.tampers {
            match x {
                MainTamper::Eval(i, j, s) => {
                    let j = *j as usize % CELL;
                    let cell = &mut es[at(i)].cell;
                    let b: [u8; 32] = cell[j * 32..j * 32 + 32].try_into().unwrap();
                    let f = fr_canonical(&b).unwrap() + s.nonzero();
                    cell[j * 32..j * 32 + 32].copy_from_slice(&f.to_bytes_be());
                }
                MainTamper::CellOf(i, b, k) => es[at(i)].cell = p[*b as usize % POOL].2.cells[*k as usize % CELLS].clone(),
                MainTamper::CellSwap(i, j) => {
                    let a = es[at(i)].cell.clone();
                    es[at(i)].cell = es[at(j)].cell.clone();
                    es[at(j)].cell = a;
                }
                MainTamper::ProofAdd(i, s) => es[at(i)].proof = add(&es[at(i)].proof, s.nonzero()),
                MainTamper::ProofNeg(i) => {
                    let q = G1Affine::from_compressed(&es[at(i)].proof).unwrap();
                    es[at(i)].proof = (-q).to_compressed();
                }
                MainTamper::ProofZero(i) => es[at(i)].proof = g1(Fr::ZERO),
                MainTamper::ProofSwap(i, j) => {
                    let a = es[at(i)].proof;
                    es[at(i)].proof = es[at(j)].proof;
                    es[at(j)].proof = a;
                }
                MainTamper::ProofOf(i, b, k) => es[at(i)].proof = p[*b as usize % POOL].2.proofs[*k as usize % CELLS],
                MainTamper::ComOf(i, b) => es[at(i)].commitment = p[*b as usize % POOL].1,
                MainTamper::ComSwap(i, j) => {
                    let a = es[at(i)].commitment;
                    es[at(i)].commitment = es[at(j)].commitment;
                    es[at(j)].commitment = a;
                }
                MainTamper::Index(i, k) => es[at(i)].index = *k as u64 % CELLS as u64,
                MainTamper::CancelProofs(i, j, s) => {
                    es[at(i)].proof = add(&es[at(i)].proof, s.nonzero());
                    es[at(j)].proof = add(&es[at(j)].proof, -s.nonzero());
                }
            }
        }
    }
    let truth = |e: &Entry| {
        p.iter().any(|(_, com, cp)| {
            *com == e.commitment && cp.cells[e.index as usize] == e.cell && cp.proofs[e.index as usize] == e.proof
        })
    };
    let bad = es.iter().filter(|e| !truth(e)).count();
    let r = verify(&vctx(Setup::Main, false), &es);
    if bad == 0 {
        ensure!(r.is_ok(), "all {n} claims are honest but the batch is refused: {}", r.brief());
    } else {
        ensure!(r == Out::InvalidProof, "{bad} of {n} claims are false, result: {}", r.brief());
    }
    Ok(Seen::new(bad > 0).label(size_class(n)).label(if bad == 0 { "true" } else { "false" }))
}

// ---------------------------------------------------------------- C06

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum P {
    All,
    First,
    Last,
    AllButFirst,
    AllButLast,
    SecondHalf,
    FirstHalf,
    Odd,
    One(u8),
    From(u8),
}
impl P {
    fn part(self, n: usize) -> Part {
        match self {
            P::All => Part::All,
            P::First => Part::First,
            P::Last => Part::Last,
            P::AllButFirst => Part::AllButFirst,
            P::AllButLast => Part::AllButLast,
            P::SecondHalf => Part::SecondHalf,
            P::FirstHalf => Part::FirstHalf,
            P::Odd => Part::Odd,
            P::One(k) => Part::One(k as usize % n.max(1)),
            P::From(k) => Part::From(k as usize % n.max(1)),
        }
    }
}
fn part() -> BoxedStrategy<P> {
    prop_oneof![
        6 => Just(P::All),
        1 => Just(P::First),
        2 => Just(P::Last),
        2 => Just(P::AllButFirst),
        1 => Just(P::AllButLast),
        1 => Just(P::SecondHalf),
        1 => Just(P::FirstHalf),
        1 => Just(P::Odd),
        3 => (0u8..130).prop_map(P::One),
        2 => (0u8..64).prop_map(P::From),
    ]
    .boxed()
}
/// What a weak verifier would leave out of the hash.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Weak {
    Proofs(P),
    Commitments(P),
    Cells(P),
    Elements(P),
    /// whole entries (index pair, cell and proof)
    Entries(P),
    /// entries beyond the number of distinct commitments
    EntriesByRows,
    /// everything of these kinds at once
    Kinds(bool, bool, bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Forge {
    shape: Shape,
    weak: Weak,
    /// bits: also leave out separator, degree, cell length, counts (2), row and cell indices
    also: u8,
    /// the initial false claim
    err_at: u16,
    err_via: Via,
    err: S,
    /// which omitted component to solve for
    target: u16,
    pos: u8,
}
fn forge() -> BoxedStrategy<Forge> {
    let weak = prop_oneof![
        4 => part().prop_map(Weak::Proofs),
        4 => part().prop_map(Weak::Commitments),
        4 => part().prop_map(Weak::Cells),
        5 => part().prop_map(Weak::Elements),
        2 => part().prop_map(Weak::Entries),
        1 => Just(Weak::EntriesByRows),
        2 => (any::<bool>(), any::<bool>(), any::<bool>()).prop_map(|(a, b, c)| Weak::Kinds(a, b, c)),
    ];
    let also = prop_oneof![5 => Just(0u8), 1 => Just(96u8), 1 => 0u8..128, 1 => (0u8..7).prop_map(|k| 1 << k)];
    (small_shape(), weak, also, any::<u16>(), via(), scalar(), any::<u16>(), 0u8..64)
        .prop_map(|(shape, weak, also, err_at, err_via, err, target, pos)| Forge { shape, weak, also, err_at, err_via, err, target, pos })
        .boxed()
}
fn c06_omit(c: &Forge) -> TestResult {
    let t = tau(TI);
    let mut v = claims(TI, &c.shape);
    let n = v.len();
    if n < 2 {
        return Ok(Seen::new(false).label("too small"));
    }
    // rows as the verifier will number them
    let row_of = |v: &[Claim]| -> (Vec<usize>, usize) {
        let mut rows: Vec<Fr> = vec![];
        let idx = v
            .iter()
            .map(|x| match rows.iter().position(|r| *r == x.c) {
                Some(i) => i,
                None => {
                    rows.push(x.c);
                    rows.len() - 1
                }
            })
            .collect();
        (idx, rows.len())
    };
    // candidates for solving
    let mut o = Omit {
        separator: c.also & 1 != 0,
        degree: c.also & 2 != 0,
        cell_len: c.also & 4 != 0,
        num_commitments: c.also & 8 != 0,
        num_cells: c.also & 16 != 0,
        row_indices: (c.also & 32 != 0).then_some(Part::All),
        cell_indices: (c.also & 64 != 0).then_some(Part::All),
        ..Default::default()
    };
    let choose = |ok: &dyn Fn(usize) -> bool| -> Option<usize> {
        (0..n).map(|d| (c.target as usize + d) % n).find(|i| ok(*i))
    };
    let (via_t, target);
    match &c.weak {
        Weak::Proofs(p) => {
            let p = p.part(n);
            o.proofs = Some(p);
            via_t = Via::Proof;
            target = choose(&|i| p.omits(i, n));
        }
        Weak::Cells(p) => {
            let p = p.part(n);
            o.cells = Some(p);
            via_t = Via::Eval(c.pos);
            target = choose(&|i| p.omits(i, n));
        }
        Weak::Elements(p) => {
            let p = p.part(CELL);
            o.elements = Some(p);
            let pos = (0..CELL).map(|d| (c.pos as usize + d) % CELL).find(|j| p.omits(*j, CELL)).unwrap_or(0);
            via_t = Via::Eval(pos as u8);
            target = choose(&|_| true);
        }
        Weak::Entries(p) => {
            let p = p.part(n);
            o.proofs = Some(p);
            o.cells = Some(p);
            o.row_indices = Some(p);
            o.cell_indices = Some(p);
            via_t = if c.pos % 2 == 0 { Via::Proof } else { Via::Eval(c.pos) };
            target = choose(&|i| p.omits(i, n));
        }
        Weak::EntriesByRows => {
            let m = row_of(&v).1;
            let p = Part::From(m);
            o.proofs = Some(p);
            o.cells = Some(p);
            o.row_indices = Some(p);
            o.cell_indices = Some(p);
            via_t = if c.pos % 2 == 0 { Via::Proof } else { Via::Eval(c.pos) };
            target = choose(&|i| p.omits(i, n));
        }
        Weak::Kinds(a, b, d) => {
            if *a {
                o.proofs = Some(Part::All);
            }
            if *b {
                o.cells = Some(Part::All);
            }
            if *d {
                o.commitments = Some(Part::All);
            }
            let mut vs = vec![];
            if *a {
                vs.push(Via::Proof)
            }
            if *b {
                vs.push(Via::Eval(c.pos))
            }
            if *d {
                vs.push(Via::Commitment)
            }
            if vs.is_empty() {
                return Ok(Seen::new(false).label("nothing left out"));
            }
            via_t = vs[c.pos as usize % vs.len()];
            target = choose(&|_| true);
        }
        Weak::Commitments(p) => {
            // give the target a commitment of its own, so that the row structure
            // does not change when it is solved for
            let i = c.target as usize % n;
            v[i].c += Mix(0xc0 + c.pos as u64).fr();
            let (idx, m) = row_of(&v);
            let p = p.part(m);
            o.commitments = Some(p);
            via_t = Via::Commitment;
            target = if p.omits(idx[i], m) { Some(i) } else { None };
        }
    }
    let Some(ti) = target else { return Ok(Seen::new(false).label("nothing left out")) };
    if via_t == Via::Commitment && !matches!(c.weak, Weak::Commitments(_)) {
        v[ti].c += Mix(0xc1).fr();
    }
    // a false claim somewhere else
    let mut e = c.err_at as usize % n;
    if e == ti {
        e = (e + 1) % n;
    }
    let ev = if c.err_via == Via::Commitment { Via::Proof } else { c.err_via };
    v[e].push_residual(t, ev, c.err.nonzero());
    // the weights a weak verifier would use
    let es = encode(TI, &c.shape, &v);
    let r = fr_from_be_reduced(&challenge(&es, &o));
    let mut w = Fr::ONE;
    let mut rest = Fr::ZERO;
    let mut wt = Fr::ONE;
    for (i, x) in v.iter().enumerate() {
        if i == ti {
            wt = w;
        } else {
            rest += w * x.residual(t);
        }
        w *= r;
    }
    let want = -rest * wt.invert().unwrap();
    let now = v[ti].residual(t);
    v[ti].push_residual(t, via_t, want - now);
    let es = encode(TI, &c.shape, &v);
    if fr_from_be_reduced(&challenge(&es, &o)) != r {
        // e.g. the solved commitment coincides with another one
        return Ok(Seen::new(false).label("row structure changed"));
    }
    let mut w = Fr::ONE;
    let mut sum = Fr::ZERO;
    for x in &v {
        sum += w * x.residual(t);
        w *= r;
    }
    assert!(sum == Fr::ZERO, "harness: forgery does not solve the weak equation");
    let res = verify(&vctx(Setup::Tau(TI), false), &es);
    ensure!(res == Out::InvalidProof, "forgery against a challenge without {:?} (solved {:?} of entry {ti}, error in entry {e}): {}", c.weak, via_t, res.brief());
    Ok(Seen::new(true).label(format!(
        "omits:{}",
        match c.weak {
            Weak::Proofs(_) => "proofs",
            Weak::Commitments(_) => "commitments",
            Weak::Cells(_) => "cells",
            Weak::Elements(_) => "elements",
            Weak::Entries(_) => "entries",
            Weak::EntriesByRows => "entries-by-rows",
            Weak::Kinds(..) => "several kinds",
        }
    )))
}

/// Weak weights that do not depend on the inputs, or repeat.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Rule {
    /// weights r^k for this r
    Constant(S),
    /// only one false entry: caught only if its weight is not zero
    Single(u16),
    /// two entries with the same weight
    Equal(u16, u16),
    /// weights a + k b
    Linear(u16, u16),
    /// weights of degree two in k
    Quadratic(u16),
    /// weights c, 2c, 3c... from one
    Proportional(u16, u16),
    /// one false entry hidden behind an identical commitment / index group
    SameRow(u16, u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WeakRule {
    shape: Shape,
    rule: Rule,
    via: Via,
    d: S,
}
fn weak_rule() -> BoxedStrategy<WeakRule> {
    let i = || prop_oneof![4 => 0u16..6, 1 => any::<u16>()];
    let rule = prop_oneof![
        3 => scalar().prop_map(Rule::Constant),
        2 => any::<u16>().prop_map(Rule::Single),
        4 => (i(), i()).prop_map(|(a, b)| Rule::Equal(a, b)),
        2 => (i(), 1u16..4).prop_map(|(a, b)| Rule::Linear(a, b)),
        1 => i().prop_map(Rule::Quadratic),
        1 => (i(), i()).prop_map(|(a, b)| Rule::Proportional(a, b)),
        2 => (i(), i()).prop_map(|(a, b)| Rule::SameRow(a, b)),
    ];
    (small_shape(), rule, via(), scalar())
        .prop_map(|(shape, rule, via, d)| WeakRule { shape, rule, via, d })
        .boxed()
}
fn c06_rules(c: &WeakRule) -> TestResult {
    let t = tau(TI);
    let mut v = claims(TI, &c.shape);
    let n = v.len();
    if n < 2 {
        return Ok(Seen::new(false).label("too small"));
    }
    let d = c.d.nonzero();
    let mut put = |i: usize, x: Fr| v[i].push_residual(t, c.via, x);
    let label;
    match &c.rule {
        Rule::Constant(s) => {
            let r = s.fr();
            put(0, -d * r);
            put(1, d);
            label = "constant r";
        }
        Rule::Single(i) => {
            put(*i as usize % n, d);
            label = "single";
        }
        Rule::Equal(i, j) => {
            let (i, j) = (*i as usize % n, *j as usize % n);
            let j = if i == j { (j + 1) % n } else { j };
            put(i, d);
            put(j, -d);
            label = "equal weights";
        }
        Rule::Linear(i, s) => {
            let s = (*s as usize).min((n - 1) / 2).max(1);
            if 2 * s >= n {
                return Ok(Seen::new(false).label("too small"));
            }
            let i = *i as usize % (n - 2 * s);
            put(i, d);
            put(i + s, -(d + d));
            put(i + 2 * s, d);
            label = "linear weights";
        }
        Rule::Quadratic(i) => {
            if n < 4 {
                return Ok(Seen::new(false).label("too small"));
            }
            let i = *i as usize % (n - 3);
            let three = d + d + d;
            put(i, d);
            put(i + 1, -three);
            put(i + 2, three);
            put(i + 3, -d);
            label = "quadratic weights";
        }
        Rule::Proportional(i, j) => {
            let (i, j) = (*i as usize % n, *j as usize % n);
            let j = if i == j { (j + 1) % n } else { j };
            put(i, d * Fr::from(j as u64 + 1));
            put(j, -d * Fr::from(i as u64 + 1));
            label = "proportional weights";
        }
        Rule::SameRow(i, j) => {
            let (i, j) = (*i as usize % n, *j as usize % n);
            let j = if i == j { (j + 1) % n } else { j };
            // make j a copy of i, then let their evaluations err oppositely
            v[j] = v[i].clone();
            v[i].push_residual(t, Via::Eval(5), d);
            v[j].push_residual(t, Via::Eval(5), -d);
            label = "same row and cell";
        }
    }
    let bad = v.iter().filter(|x| x.residual(t) != Fr::ZERO).count();
    if bad == 0 {
        return Ok(Seen::new(false).label("errors vanish"));
    }
    let es = encode(TI, &c.shape, &v);
    let res = verify(&vctx(Setup::Tau(TI), false), &es);
    ensure!(res == Out::InvalidProof, "{bad} false entries of {n} with errors cancelling under {label}: {}", res.brief());
    Ok(Seen::new(true).label(label))
}

/// A challenge cut to a few bits can be predicted: search for errors that
/// cancel under the predicted value.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Short {
    shape: Shape,
    bits: u8,
    rule: u8,
    guess: u32,
    seed: u64,
}
fn short() -> BoxedStrategy<Short> {
    (
        (prop::collection::vec((0u8..POOL as u8, 0u8..128), 2..4)).prop_map(Shape::List),
        prop_oneof![4 => Just(8u8), 2 => 1u8..8, 2 => 9u8..12],
        0u8..4,
        any::<u32>(),
        any::<u64>(),
    )
        .prop_map(|(shape, bits, rule, guess, seed)| Short { shape, bits, rule, guess, seed })
        .boxed()
}
fn c06_short(c: &Short) -> TestResult {
    let t = tau(TI);
    let base = claims(TI, &c.shape);
    let bits = c.bits.clamp(1, 16) as u32;
    let mask = (1u32 << bits) - 1;
    let cut = |h: &[u8; 32]| -> u32 {
        match c.rule {
            // low bits of the big-endian number
            0 => u32::from_be_bytes(h[28..32].try_into().unwrap()) & mask,
            // first bytes as a big-endian number, cut
            1 => u32::from_be_bytes(h[0..4].try_into().unwrap()) >> (32 - bits),
            // first bytes as a little-endian number
            2 => u32::from_le_bytes(h[0..4].try_into().unwrap()) & mask,
            // low bits after reduction
            _ => {
                let f = fr_from_be_reduced(h).to_bytes_be();
                u32::from_be_bytes(f[28..32].try_into().unwrap()) & mask
            }
        }
    };
    let guess = c.guess & mask;
    let r = Fr::from(guess as u64);
    let mut v = base.clone();
    let mut es = encode(TI, &c.shape, &v);
    let mut rng = Mix(c.seed);
    for _ in 0..(8u32 << bits) {
        let s = rng.fr();
        for (i, x) in [(0usize, -s * r), (1, s)] {
            v[i] = base[i].clone();
            v[i].push_residual(t, Via::Eval(9), x);
            es[i].cell = cell_bytes(&v[i].ev);
        }
        if cut(&challenge(&es, &Omit::default())) == guess {
            let res = verify(&vctx(Setup::Tau(TI), false), &es);
            ensure!(res == Out::InvalidProof, "forgery against a challenge cut to {bits} bits: {}", res.brief());
            return Ok(Seen::new(true).label(format!("bits:{bits}")));
        }
    }
    Ok(Seen::new(false).label("not found"))
}

/// A forger that watches the digests the verifier computes: the error of one
/// entry is cancelled, under the weights of the last verification, by changing
/// one component of another. It succeeds against any challenge that does not
/// depend on that component, or on the present call.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Adaptive {
    shape: Shape,
    many: Option<Many>,
    i: u16,
    j: u16,
    vi: Via,
    vj: Via,
    d: S,
    /// how the digest becomes a weight
    read: u8,
    rounds: u8,
    /// the two entries lie in the same row / cell
    alike: u8,
}
fn adaptive() -> BoxedStrategy<Adaptive> {
    let at = || prop_oneof![3 => 0u16..6, 2 => any::<u16>(), 1 => Just(u16::MAX)];
    (
        (prop_oneof![12 => small_shape(), 1 => shape()], prop::option::weighted(0.03, many(300, false))),
        (at(), at(), via(), via(), scalar()),
        (prop_oneof![8 => Just(0u8), 2 => 1u8..5], prop_oneof![4 => Just(1u8), 1 => 2u8..4], prop_oneof![6 => Just(0u8), 1 => Just(1), 1 => Just(2)]),
    )
        .prop_map(|((shape, many), (i, j, vi, vj, d), (read, rounds, alike))| Adaptive { shape, many, i, j, vi, vj, d, read, rounds, alike })
        .boxed()
}
fn read_digest(h: &[u8; 32], how: u8) -> Fr {
    let mut b = *h;
    match how {
        0 => {}
        1 => b.reverse(),
        2 => b[..16].fill(0),
        3 => {
            b.copy_within(0..16, 16);
            b[..16].fill(0)
        }
        _ => b[0] &= 0x3f,
    }
    fr_from_be_reduced(&b)
}
/// Verification by a context of this worker, with the digests it computed.
fn watched(ctx: &DASContext, ti: u8, es: &[Entry]) -> (Out<()>, Vec<[u8; 32]>) {
    use std::thread::ThreadId;
    static ALONE: std::sync::RwLock<()> = std::sync::RwLock::new(());
    thread_local! {
        static THREADS: std::cell::RefCell<std::collections::HashMap<u8, Vec<ThreadId>>> = Default::default();
    }
    // which threads this context hashes on: seen once, with nobody else hashing
    let threads = THREADS.with(|m| m.borrow().get(&ti).cloned()).unwrap_or_else(|| {
        let _g = ALONE.write().unwrap_or_else(|e| e.into_inner());
        sha2::capture::on();
        sha2::capture::drain(None);
        let _ = verify(ctx, es);
        let mut ids: Vec<ThreadId> = sha2::capture::drain(None).into_iter().map(|x| x.0).collect();
        ids.dedup();
        THREADS.with(|m| m.borrow_mut().insert(ti, ids.clone()));
        ids
    });
    let _g = ALONE.read().unwrap_or_else(|e| e.into_inner());
    sha2::capture::drain(Some(&threads));
    let r = verify(ctx, es);
    (r, sha2::capture::drain(Some(&threads)).into_iter().map(|x| x.1).collect())
}
fn c06_adaptive(c: &Adaptive) -> TestResult {
    let ti = c.many.as_ref().map_or(TI, |m| m.ti);
    let t = tau(ti);
    let mut v = match &c.many {
        Some(m) => many_claims(m).0,
        None => claims(TI, &c.shape),
    };
    let n = v.len();
    if n < 2 {
        return Ok(Seen::new(false).label("too small"));
    }
    let at = |i: u16| if i == u16::MAX { n - 1 } else { i as usize % n };
    let (i, j) = (at(c.i), at(c.j));
    let j = if i == j { (j + 1) % n } else { j };
    match c.alike {
        1 => v[j] = v[i].clone(),
        2 => {
            let k = v[i].k;
            v[j] = Claim { k, ..v[j].clone() };
            let now = v[j].residual(t);
            v[j].push_residual(t, Via::Proof, -now);
        }
        _ => {}
    }
    let ctx = context(Setup::Tau(ti), PLAIN);
    let d = c.d.nonzero();
    v[i].push_residual(t, c.vi, d);
    v[j].push_residual(t, c.vj, Mix(0xada9).fr());
    let shape = Shape::List(vec![]);
    let enc = |v: &[Claim]| if c.many.is_some() { encode(ti, &shape, v) } else { encode(ti, &c.shape, v) };
    let mut es = enc(&v);
    let mut solved = 0;
    let mut digests: Vec<[u8; 32]> = vec![];
    for round in 0..=c.rounds.clamp(1, 3) {
        let (r, got) = watched(&ctx, ti, &es);
        if !got.is_empty() {
            digests = got;
        }
        ensure!(
            r == Out::InvalidProof,
            "round {round}: errors in entry {i} (by {:?}) and entry {j} (by {:?}) of {n}, cancelling under the challenge of the previous verification: {}",
            c.vi,
            c.vj,
            r.brief()
        );
        if digests.is_empty() {
            return Ok(Seen::new(false).label("no digest seen"));
        }
        if round == c.rounds.clamp(1, 3) {
            break;
        }
        let h = digests[(round as usize) % digests.len().min(4)];
        let r = read_digest(&h, c.read);
        if r == Fr::ZERO {
            return Ok(Seen::new(false).label("no digest seen"));
        }
        // residual of j := - d r^(i-j)
        let ratio = if i > j { r.pow_vartime([(i - j) as u64]) } else { r.invert().unwrap().pow_vartime([(j - i) as u64]) };
        let rest = v[i].residual(t);
        let now = v[j].residual(t);
        v[j].push_residual(t, c.vj, -rest * ratio - now);
        es[j] = enc(&v[j..=j]).pop().unwrap();
        solved += 1;
    }
    Ok(Seen::new(solved > 0)
        .label(format!("solved by:{}", match c.vj { Via::Proof => "proof", Via::Commitment => "commitment", _ => "evaluation" }))
        .label_if(digests.len() > 1, "several digests"))
}

pub fn properties() -> Vec<Property> {
    let assume = vec![
        "group elements are generated from known discrete logarithms under setups with a known secret; truth of a claim is then decided exactly by field arithmetic",
        "blst/blstrs field arithmetic and generator multiplication are correct",
        "a wrong batch is accepted by a correct verifier with probability about 2^-250, taken as never",
    ];
    vec![
        Property {
            id: "C04",
            assumptions: assume.clone(),
            facets: vec![
                facet(
                    "pool",
                    "honest openings of 12 fixed polynomials proven by the library, any multiset and order, 0 to 700 entries, embedded and known-secret setups; non-trivial: at least two entries",
                    2200,
                    100_000,
                    |_| {
                        (any::<bool>(), prop::bool::weighted(0.2), shape(), order())
                            .prop_map(|(tau, plain, shape, order)| Honest { tau, plain, shape, order })
                            .boxed()
                    },
                    c04_pool,
                ),
                facet(
                    "fresh",
                    "openings of 1-4 generated polynomials (14 structured families), 1-24 entries, three known-secret setups; non-trivial: at least two entries",
                    2500,
                    100_000,
                    |_| {
                        (0..TAUS, prop::collection::vec(blob(), 1..4), prop::collection::vec((any::<u8>(), 0u8..128), 1..24))
                            .prop_map(|(ti, blobs, picks)| Fresh { ti, blobs, picks })
                            .boxed()
                    },
                    c04_fresh,
                ),
                facet("many", "2-700 true claims about up to 700 different polynomials; non-trivial: at least two polynomials", 260, 20_000, |_| many(700, false), many_case),
                facet("wide", "as many constant polynomials as entries, 2^10 to 2^12 entries", 24, 300, |_| wide(10, 11, false), wide_case),
                facet("widest", "the same, over 2^16 entries; thorough: up to 2^17", 2, 30, |t| if t == Tier::Quick { wide(16, 16, false).prop_map(|mut c| { c.n = (1 << 16) + c.n % 300; c }).boxed() } else { wide(12, 16, false) }, wide_case),
            ],
        },
        Property {
            id: "C05",
            assumptions: assume.clone(),
            facets: vec![
                facet(
                    "tau-tamper",
                    "a batch of 0-700 honest entries with 0-3 tamperings out of 31 kinds; the expected verdict is the exact truth of every claim; non-trivial: at least one claim is false",
                    4000,
                    300_000,
                    |_| {
                        (0..TAUS, prop::bool::weighted(0.1), shape(), prop::collection::vec(tamper(), 1..4))
                            .prop_map(|(ti, plain, shape, tampers)| Tampered { ti, plain, shape, tampers })
                            .boxed()
                    },
                    c05_tau,
                ),
                facet(
                    "main-tamper",
                    "library-made entries under the embedded setup with 1-3 tamperings out of 12 kinds; a claim is true exactly when it equals an honest one; non-trivial: at least one claim is false",
                    2500,
                    100_000,
                    |_| {
                        (shape(), prop::collection::vec(main_tamper(), 1..4))
                            .prop_map(|(shape, tampers)| MainTampered { shape, tampers })
                            .boxed()
                    },
                    c05_main,
                ),
                facet("many", "2-700 claims about up to 700 different polynomials with 1-2 pairs of errors that cancel (plainly or by the cosets' weights), 1-512 entries apart; non-trivial: at least one claim is false", 320, 30_000, |_| many(700, true), many_case),
                facet("wide", "as many constant polynomials as entries, 2^10 to 2^12 entries, two of them false", 24, 300, |_| wide(10, 11, true), wide_case),
                facet("widest", "the same, over 2^16 entries; thorough: up to 2^17", 2, 30, |t| if t == Tier::Quick { wide(16, 16, true).prop_map(|mut c| { c.n = (1 << 16) + c.n % 300; c.error.as_mut().unwrap().1 = 1 << 16; c }).boxed() } else { wide(12, 16, true) }, wide_case),
            ],
        },
        Property {
            id: "C06",
            assumptions: assume,
            facets: vec![
                facet("omit", "a false batch solved so that it would be accepted by a verifier whose challenge leaves out the chosen inputs; non-trivial: a forgery was constructed and submitted", 14000, 400_000, |_| forge(), c06_omit),
                facet("rules", "a false batch whose errors cancel under input-independent or repeated weights; non-trivial: at least one claim is false", 12000, 300_000, |_| weak_rule(), c06_rules),
                facet("adaptive", "a false batch re-solved after each verification so that its errors cancel under the challenge the verifier has just computed (SHA-256 digests are recorded); the change is confined to one component of one entry; non-trivial: a digest was seen and a solved batch submitted", 5000, 300_000, |_| adaptive(), c06_adaptive),
                facet("short", "a false batch ground until it cancels under a challenge cut to a few bits; non-trivial: a forgery was found and submitted", 1200, 20_000, |_| short(), c06_short),
            ],
        },
    ]
}
