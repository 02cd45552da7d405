//! C24: no input makes a call cost much more than an honest one of its size.
//!
//! Cost is the processor time of the process, on a context with one thread, and
//! the most memory that is allocated at once; nothing else runs in it.  A measurement that is too high is repeated,
//! together with what it is compared with, and the least of all counts.
use ff::Field;
use harness::batch::{pool, POOL};
use harness::gen::*;
use harness::kzg::*;
use harness::model::*;
use harness::pbt::*;
use proptest::prelude::*;
use rust_eth_kzg::DASContext;
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
use std::sync::{Arc, OnceLock};

/// How much more than its share a call may cost.
const FACTOR: f64 = 3.0;

/// Counts what is allocated, and the most there was at once.
struct Counting;
static HELD: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
fn add(n: i64) {
    let h = HELD.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(h, Relaxed);
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        HELD.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOCATOR: Counting = Counting;

/// Seconds of processor time, and bytes held at most.
#[derive(Clone, Copy, Debug)]
struct Cost {
    time: f64,
    space: f64,
}
impl Cost {
    fn zip(self, o: Cost, f: impl Fn(f64, f64) -> f64) -> Cost {
        Cost { time: f(self.time, o.time), space: f(self.space, o.space) }
    }
    fn min(self, o: Cost) -> Cost {
        self.zip(o, f64::min)
    }
    fn max(self, o: Cost) -> Cost {
        self.zip(o, f64::max)
    }
    fn times(self, k: f64) -> Cost {
        Cost { time: self.time * k, space: self.space * k }
    }
    fn within(self, o: Cost) -> bool {
        self.time <= o.time && self.space <= o.space
    }
}
const NONE: Cost = Cost { time: 0.0, space: 0.0 };
const ALL: Cost = Cost { time: f64::MAX, space: f64::MAX };

fn now() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}
fn cost<T>(f: impl FnOnce() -> T) -> Cost {
    let held = HELD.load(Relaxed);
    PEAK.store(held, Relaxed);
    let t = now();
    let r = f();
    let time = now() - t;
    let space = (PEAK.load(Relaxed) - held) as f64;
    drop(r);
    Cost { time, space }
}
fn least(n: usize, mut f: impl FnMut() -> Cost) -> Cost {
    (0..n).fold(ALL, |a, _| a.min(f()))
}
fn ctx() -> Arc<DASContext> {
    context(Setup::Tau(0), PLAIN)
}
/// `one` at most `limit`; both are measured again if it seems more.
fn at_most(what: &str, mut one: impl FnMut() -> Cost, mut limit: impl FnMut() -> Cost) -> TestResult {
    let mut got = ALL;
    let mut max = NONE;
    for _ in 0..5 {
        got = got.min(one());
        max = max.max(limit());
        if got.within(max) {
            return Ok(Seen::new(true).label(format!("{what}, time: {}", share(got.time / max.time))).label(format!("{what}, space: {}", share(got.space / max.space))));
        }
    }
    Err(format!(
        "{what} takes {:.1} ms and {:.0} KB, {:.2} and {:.2} times what an honest call of its size would",
        got.time * 1e3,
        got.space / 1e3,
        got.time / max.time * FACTOR,
        got.space / max.space * FACTOR
    )
    .into())
}
fn share(x: f64) -> &'static str {
    match x * FACTOR {
        x if x < 0.1 => "under a tenth of the honest cost",
        x if x < 0.7 => "0.1-0.7 of the honest cost",
        x if x < 1.4 => "0.7-1.4 of the honest cost",
        x if x < 2.0 => "1.4-2 of the honest cost",
        _ => "2-3 times the honest cost",
    }
}

/// An honest opening: polynomial b of the pool plus the constant d, at index k.
/// The proof is that of polynomial b.
fn entry(b: usize, d: u64, k: usize) -> Entry {
    let m = &pool(0)[b % POOL];
    let d = Fr::from(d);
    let com = if bool::from(d.is_zero()) { m.com } else { g1(m.c + d) };
    let cell: Vec<Fr> = m.ext[k * CELL..(k + 1) * CELL].iter().map(|x| x + d).collect();
    Entry { commitment: com, index: k as u64, cell: cell_bytes(&cell), proof: m.proofs[k] }
}
const SIZES: [usize; 7] = [1, 4, 16, 64, 128, 256, 512];
type Curve = [Cost; SIZES.len()];
/// Cost of honest batches.
fn honest() -> Curve {
    static E: OnceLock<Vec<Entry>> = OnceLock::new();
    let es = E.get_or_init(|| (0..512).map(|i| entry(2 + i % 2, i as u64 / 2, i * 37 % CELLS)).collect());
    let c = ctx();
    SIZES.map(|n| least(3, || cost(|| verify(&c, &es[..n]))))
}
/// In a straight line between those that were measured, and on from the last two.
fn share_of(c: &Curve, n: usize) -> Cost {
    let i = SIZES.iter().position(|s| *s >= n).unwrap_or(SIZES.len() - 1).max(1);
    let (a, b) = (SIZES[i - 1] as f64, SIZES[i] as f64);
    let x = (n as f64 - a) / (b - a);
    c[i - 1].zip(c[i], |p, q| p + (q - p) * x)
}
fn honest_once() -> Curve {
    static R: OnceLock<Curve> = OnceLock::new();
    *R.get_or_init(|| {
        honest();
        honest()
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mark {
    None,
    FalseCell(u16, u8),
    FalseProof(u16),
    FalseCommitment(u16),
    AllFalse,
    BadCommitment(u16),
    BadProof(u16),
    NonSubgroup(u16),
    BadCell(u16, u8),
    BadIndex(u16),
    Swap(u16, u16),
    /// all proofs and commitments the point at infinity
    Infinity,
    /// all the same entry
    Same,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Batch {
    n: u16,
    polys: Vec<u8>,
    /// commitments: this many for each polynomial
    commitments: u16,
    indices: Vec<u8>,
    marks: Vec<Mark>,
}
fn batch(c: &Batch) -> TestResult {
    let n = c.n as usize;
    let mut es: Vec<Entry> = (0..n)
        .map(|i| {
            let b = c.polys[i % c.polys.len()] as usize;
            let d = (i / c.polys.len()) as u64 % c.commitments.max(1) as u64;
            entry(b, d, c.indices[(i * 7 + i / 11) % c.indices.len()] as usize % CELLS)
        })
        .collect();
    let mut kinds = vec![];
    for m in &c.marks {
        kinds.push(format!("{m:?}").split('(').next().unwrap_or("").to_string());
        let i = |p: &u16| at(*p, n);
        let bump = |e: &mut Entry, j: u8| {
            let j = j as usize % CELL;
            let v = fr_from_be_reduced(&e.cell[j * 32..j * 32 + 32]) + Fr::ONE;
            e.cell[j * 32..j * 32 + 32].copy_from_slice(&v.to_bytes_be());
        };
        match m {
            Mark::None => {}
            Mark::FalseCell(p, j) => bump(&mut es[i(p)], *j),
            Mark::FalseProof(p) => es[i(p)].proof = g1(Fr::from(*p as u64 + 1)),
            Mark::FalseCommitment(p) => es[i(p)].commitment = g1(Fr::from(*p as u64 + 1)),
            Mark::AllFalse => es.iter_mut().enumerate().for_each(|(i, e)| bump(e, i as u8)),
            Mark::BadCommitment(p) => es[i(p)].commitment = [0xff; 48],
            Mark::BadProof(p) => es[i(p)].proof = [0xff; 48],
            Mark::NonSubgroup(p) => es[i(p)].proof = non_subgroup_point(*p as u64).to_compressed(),
            Mark::BadCell(p, j) => {
                let j = *j as usize % CELL;
                es[i(p)].cell[j * 32..j * 32 + 32].copy_from_slice(&r_be());
            }
            Mark::BadIndex(p) => es[i(p)].index = 128 + *p as u64,
            Mark::Swap(p, q) => {
                let (p, q) = (i(p), i(q));
                let x = es[p].proof;
                es[p].proof = es[q].proof;
                es[q].proof = x;
            }
            Mark::Infinity => es.iter_mut().for_each(|e| {
                e.commitment = g1(Fr::ZERO);
                e.proof = e.commitment;
            }),
            Mark::Same => {
                let e = es[0].clone();
                es.iter_mut().for_each(|x| *x = e.clone());
            }
        }
    }
    let ctx = ctx();
    let mut first = true;
    let seen = at_most(
        &format!("verification of {} entries", size(n)),
        || cost(|| verify(&ctx, &es)),
        || {
            let curve = if std::mem::take(&mut first) { honest_once() } else { honest() };
            share_of(&curve, n).times(FACTOR)
        },
    )?;
    Ok(kinds.into_iter().fold(seen, |s, k| s.label(k)))
}
fn size(n: usize) -> &'static str {
    match n {
        0..=8 => "1-8",
        9..=128 => "9-128",
        129..=1024 => "129-1024",
        _ => "over 1024",
    }
}
fn mark() -> BoxedStrategy<Mark> {
    let p = any_pos;
    prop_oneof![
        2 => Just(Mark::None),
        3 => (p(), any::<u8>()).prop_map(|(a, b)| Mark::FalseCell(a, b)),
        2 => p().prop_map(Mark::FalseProof),
        2 => p().prop_map(Mark::FalseCommitment),
        1 => Just(Mark::AllFalse),
        1 => p().prop_map(Mark::BadCommitment),
        1 => p().prop_map(Mark::BadProof),
        1 => p().prop_map(Mark::NonSubgroup),
        1 => (p(), any::<u8>()).prop_map(|(a, b)| Mark::BadCell(a, b)),
        1 => p().prop_map(Mark::BadIndex),
        1 => (p(), p()).prop_map(|(a, b)| Mark::Swap(a, b)),
        1 => Just(Mark::Infinity),
        1 => Just(Mark::Same),
    ]
    .boxed()
}
fn batches(max: u16) -> BoxedStrategy<Batch> {
    (
        prop_oneof![2 => 1u16..9, 3 => 9u16..200, 2 => 100u16..max],
        prop::collection::vec(0u8..POOL as u8, 1..5),
        prop_oneof![1 => Just(1u16), 1 => 1u16..10, 1 => Just(u16::MAX)],
        prop_oneof![1 => (0u8..128).prop_map(|k| vec![k]), 1 => prop::collection::vec(0u8..128, 1..9), 2 => Just((0u8..128).collect::<Vec<_>>())],
        prop::collection::vec(mark(), 1..3),
    )
        .prop_map(|(n, polys, commitments, indices, marks)| Batch { n, polys, commitments, indices, marks })
        .boxed()
}

/// Verifications that are refused before anything is decoded, n entries and 8n.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Refused {
    n: u16,
    /// of each 8 commitments, how many are new (0: all are the same)
    new: u8,
    /// bytes in which the commitments differ: from here, 8
    from: u8,
    order: u8,
    seed: u64,
    how: u8,
    at: u16,
}
fn refused(c: &Refused) -> TestResult {
    let ctx = ctx();
    let cell = vec![0u8; CELL_BYTES];
    let mut run = |n: usize| -> Result<Cost, String> {
        let mut r = Mix(c.seed);
        let from = c.from as usize % 41;
        let mut coms: Vec<[u8; 48]> = vec![];
        for i in 0..n {
            let mut b = [0x11u8; 48];
            let v = if c.new == 0 {
                0
            } else if i % 8 < c.new as usize {
                match c.order % 4 {
                    0 => i as u64,
                    1 => (n - i) as u64,
                    2 => (i as u64).swap_bytes(),
                    _ => r.next(),
                }
            } else {
                u64::from_be_bytes(coms[r.below(i as u64) as usize][from..from + 8].try_into().unwrap())
            };
            b[from..from + 8].copy_from_slice(&v.to_be_bytes());
            coms.push(b);
        }
        let mut idx: Vec<u64> = (0..n as u64).map(|i| i % 128).collect();
        let mut proofs = vec![[0x11u8; 48]; n];
        let mut cells = vec![cell.as_slice(); n];
        match c.how % 5 {
            0 => idx[at(c.at, n)] = 128 + c.seed,
            1 => drop(idx.pop()),
            2 => drop(proofs.pop()),
            3 => drop(cells.pop()),
            // refused when the first commitment is decoded
            _ => coms[0] = [0xff; 48],
        }
        let mut ok = true;
        let t = least(2, || {
            cost(|| {
                ok &= verify_raw(&ctx, &coms, &idx, &cells, &proofs).is_err();
            })
        });
        if ok { Ok(t) } else { Err("a batch that must be refused is not".into()) }
    };
    let n = c.n as usize;
    // also a floor: the clock, the pool and the allocator
    let floor = Cost { time: 100e-6, space: 1e5 };
    let mut worst = ALL;
    let mut small = floor;
    for _ in 0..5 {
        small = small.max(run(n)?);
        worst = worst.min(run(8 * n)?);
        if worst.within(small.times(8.0 * 4.0)) {
            let x = worst.time / small.time;
            return Ok(Seen::new(true)
                .label(format!("cost of 8n over cost of n: {}", if x < 4.0 { "under 4" } else if x < 12.0 { "4-12" } else { "12-32" }))
                .label(["index", "fewer indices", "fewer proofs", "fewer cells", "commitment"][c.how as usize % 5]));
        }
    }
    Err(format!("a refused verification of {n} entries takes {:.2} ms and {:.0} KB, one of {} entries {:.2} ms and {:.0} KB", small.time * 1e3, small.space / 1e3, 8 * n, worst.time * 1e3, worst.space / 1e3).into())
}

/// Operations on one blob.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Fixed {
    Commit(Blob, Option<u16>),
    Compute(Blob, Option<u16>),
    /// polynomial, cells given, false element of a cell, repeated index
    Recover(Blob, Subset, Option<(u8, u8)>, bool),
}
fn fixed(c: &Fixed) -> TestResult {
    let ctx = ctx();
    let spoiled = |b: &Blob, bad: &Option<u16>| {
        let mut b = b.bytes();
        if let Some(p) = bad {
            let p = *p as usize % N;
            b[p * 32..p * 32 + 32].copy_from_slice(&r_be());
        }
        b
    };
    static USUAL: OnceLock<[Cost; 3]> = OnceLock::new();
    let usual = |which: usize| {
        let ctx = &ctx;
        let m = &pool(0)[2];
        match which {
            0 => cost(|| commit(ctx, &m.blob)),
            1 => cost(|| compute(ctx, &m.blob)),
            _ => {
                let idx: Vec<u64> = (0..CELLS as u64).step_by(2).collect();
                let cells: Vec<&[u8]> = idx.iter().map(|k| m.cells[*k as usize].as_slice()).collect();
                cost(|| recover(ctx, &idx, &cells))
            }
        }
    };
    let mut first = true;
    let mut limit = |which: usize| {
        let once = *USUAL.get_or_init(|| std::array::from_fn(|i| least(3, || usual(i))));
        if std::mem::take(&mut first) { once[which] } else { usual(which) }.times(FACTOR)
    };
    match c {
        Fixed::Commit(b, bad) => {
            let x = spoiled(b, bad);
            at_most("commitment", || cost(|| commit(&ctx, &x)), || limit(0))
        }
        Fixed::Compute(b, bad) => {
            let x = spoiled(b, bad);
            at_most("cells and proofs", || cost(|| compute(&ctx, &x)), || limit(1))
        }
        Fixed::Recover(b, s, wrong, repeated) => {
            let (_, coeffs) = b.expand();
            let (_, all) = model_cells(&coeffs);
            let mut idx = s.indices();
            let mut cells: Vec<Vec<u8>> = idx.iter().map(|k| all[*k as usize].clone()).collect();
            if let Some((i, j)) = wrong {
                let (i, j) = (*i as usize % cells.len(), *j as usize % CELL);
                let v = fr_from_be_reduced(&cells[i][j * 32..j * 32 + 32]) + Fr::ONE;
                cells[i][j * 32..j * 32 + 32].copy_from_slice(&v.to_bytes_be());
            }
            if *repeated {
                let n = idx.len();
                idx[n - 1] = idx[0];
            }
            let refs: Vec<&[u8]> = cells.iter().map(|x| x.as_slice()).collect();
            at_most("recovery", || cost(|| recover(&ctx, &idx, &refs)), || limit(2)).map(|s| s.label_if(wrong.is_some(), "false cell").label_if(*repeated, "repeated index"))
        }
    }
}
fn fixed_case() -> BoxedStrategy<Fixed> {
    let bad = || prop::option::weighted(0.2, position());
    prop_oneof![
        3 => (blob(), bad()).prop_map(|(a, b)| Fixed::Commit(a, b)),
        2 => (blob(), bad()).prop_map(|(a, b)| Fixed::Compute(a, b)),
        3 => (blob(), subset(), prop::option::weighted(0.4, (any::<u8>(), any::<u8>())), prop::bool::weighted(0.1))
            .prop_map(|(a, b, c, d)| Fixed::Recover(a, b, c, d)),
    ]
    .boxed()
}

fn build() -> Vec<Property> {
    vec![Property {
        id: "C24",
        assumptions: vec![
            "the processor time of a call, least of up to five measurements, is within a factor of 3 of what it would be on an idle machine relative to the call it is compared with",
            "costs that grow with the square of the number of entries but stay below three times the honest cost at the sizes tried are not seen",
        ],
        facets: vec![
            facet_w("batch", "a batch of 1 to 1,000 entries, honest, false or faulty in any way and place; it may take 3 times what honest batches take for as many entries; every case is non-trivial", 320, 30_000, 1, |t| batches(if t == Tier::Quick { 1000 } else { 4000 }), batch),
            facet_w(
                "refused",
                "a batch of 1,000 to 4,000 entries that is refused before or when the first point is decoded, and one 8 times as large; that may take 8 * 4 times as long; every case is non-trivial",
                200,
                30_000,
                1,
                |_| {
                    (1000u16..4000, 0u8..9, any::<u8>(), any::<u8>(), any::<u64>(), any::<u8>(), any_pos())
                        .prop_map(|(n, new, from, order, seed, how, at)| Refused { n, new, from, order, seed: seed >> 1, how, at })
                        .boxed()
                },
                refused,
            ),
            facet_w("one blob", "a commitment, proof computation or recovery on any blob, cells and faults; it may take 3 times what a random blob and every second cell take; every case is non-trivial", 120, 20_000, 1, |_| fixed_case(), fixed),
        ],
    }]
}
fn main() {
    harness::pbt::main(build)
}
