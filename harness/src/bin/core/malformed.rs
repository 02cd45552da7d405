//! C09: malformed calls get an error; well-formed ones are not refused.
use harness::batch::{pool, POOL};
use harness::ensure;
use harness::gen::*;
use harness::kzg::*;
use harness::model::*;
use harness::pbt::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

const TI: u8 = 0;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum RFault {
    Index(u16, Ix),
    DropIndex(u16),
    DropCell(u16),
    DropBoth(u16),
    Keep(u8),
    AddIndex(Ix),
    AddCell,
    AddBoth(Ix),
    /// the whole input once more
    Twice,
    /// the indices, the cells or both continued cyclically by this many
    Extend(u8, u32),
    NoIndices,
    NoCells,
    SwapIndices(u16, u16),
}
/// Numbers of elements at which a narrow counter comes round again, and others.
fn amount() -> BoxedStrategy<u32> {
    prop_oneof![
        3 => prop_oneof![Just(128u32), Just(256), Just(512), Just(1024), Just(64)],
        2 => Just(65536u32),
        1 => 1u32..700,
        1 => (1u32..4).prop_map(|k| k * 256),
    ]
    .boxed()
}
fn extend<T: Clone>(v: &mut Vec<T>, by: u32) {
    let n = v.len();
    if n > 0 {
        v.extend((0..by as usize).map(|i| v[i % n].clone()).collect::<Vec<_>>());
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RCase {
    wide: bool,
    src: u8,
    subset: Subset,
    faults: Vec<RFault>,
}
fn rfault() -> BoxedStrategy<RFault> {
    prop_oneof![
        8 => (any_pos(), ix()).prop_map(|(a, b)| RFault::Index(a, b)),
        2 => any_pos().prop_map(RFault::DropIndex),
        2 => any_pos().prop_map(RFault::DropCell),
        2 => any_pos().prop_map(RFault::DropBoth),
        3 => prop_oneof![Just(63u8), Just(0), Just(1), 0u8..64].prop_map(RFault::Keep),
        2 => ix().prop_map(RFault::AddIndex),
        2 => Just(RFault::AddCell),
        3 => ix().prop_map(RFault::AddBoth),
        1 => Just(RFault::Twice),
        2 => (0u8..3, amount()).prop_map(|(a, b)| RFault::Extend(a, b)),
        1 => Just(RFault::NoIndices),
        1 => Just(RFault::NoCells),
        1 => (any_pos(), any_pos()).prop_map(|(a, b)| RFault::SwapIndices(a, b)),
    ]
    .boxed()
}
fn c09_recover(c: &RCase) -> TestResult {
    let m = &pool(TI)[c.src as usize % POOL];
    let mut idx = c.subset.indices();
    let mut cells: Vec<usize> = idx.iter().map(|k| *k as usize).collect();
    let mut order_kept = true;
    for f in &c.faults {
        match f {
            RFault::Index(p, x) if !idx.is_empty() => {
                let i = at(*p, idx.len());
                idx[i] = resolve(x, &idx, i);
            }
            RFault::DropIndex(p) if !idx.is_empty() => {
                idx.remove(at(*p, idx.len()));
            }
            RFault::DropCell(p) if !cells.is_empty() => {
                cells.remove(at(*p, cells.len()));
            }
            RFault::DropBoth(p) if !idx.is_empty() && !cells.is_empty() => {
                let i = at(*p, idx.len().min(cells.len()));
                idx.remove(i);
                cells.remove(i);
            }
            RFault::Keep(n) => {
                idx.truncate(*n as usize);
                cells.truncate(*n as usize);
            }
            RFault::AddIndex(x) if !idx.is_empty() => {
                let v = resolve(x, &idx, 0);
                idx.push(v);
            }
            RFault::AddCell => cells.push(0),
            RFault::AddBoth(x) if !idx.is_empty() => {
                let v = resolve(x, &idx, 0);
                idx.push(v);
                cells.push((v % 128) as usize);
            }
            RFault::Twice => {
                idx.extend(idx.clone());
                cells.extend(cells.clone());
            }
            RFault::Extend(which, by) => {
                if *which != 1 {
                    extend(&mut idx, *by);
                }
                if *which != 0 {
                    extend(&mut cells, *by);
                }
            }
            RFault::NoIndices => idx.clear(),
            RFault::NoCells => cells.clear(),
            RFault::SwapIndices(a, b) if !idx.is_empty() => {
                let (a, b) = (at(*a, idx.len()), at(*b, idx.len()));
                idx.swap(a, b);
                if a != b {
                    order_kept = false;
                }
            }
            _ => {}
        }
    }
    let mut uniq = idx.clone();
    uniq.sort();
    uniq.dedup();
    let mut why = vec![];
    if idx.len() != cells.len() {
        why.push("lengths");
    }
    if idx.iter().any(|i| *i >= 128) {
        why.push("range");
    }
    if uniq.len() != idx.len() {
        why.push("repeated");
    }
    if idx.len() < 64 {
        why.push("too few");
    }
    let refs: Vec<&[u8]> = cells.iter().map(|k| m.cells[*k].as_slice()).collect();
    let ctx = context(Setup::Tau(TI), if c.wide { WIDE } else { PLAIN });
    let r = recover(&ctx, &idx, &refs);
    if !why.is_empty() {
        ensure!(r.is_err(), "malformed recovery ({}; {} indices, {} cells) gives {}", why.join(", "), idx.len(), cells.len(), r.brief());
    } else {
        let honest = idx.iter().zip(&cells).all(|(i, k)| *i as usize == *k);
        if honest {
            ensure!(r.is_ok(), "well-formed recovery from {} cells: {}", idx.len(), r.brief());
        } else {
            ensure!(r.is_ok() || r.is_err(), "well-formed recovery with other cells: {}", r.brief());
        }
    }
    let _ = order_kept;
    Ok(Seen::new(!why.is_empty()).label(if why.is_empty() { "well-formed".to_string() } else { why.join("+") }))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum VFault {
    Index(u16, Ix),
    /// shorten one of the four lists
    Drop(u8, u16),
    /// lengthen one of the four lists, with a copy of an element
    Grow(u8, u16),
    Clear(u8),
    /// all four but one emptied
    OnlyList(u8),
    /// all commitments the same / all different does not matter for lengths
    SameCommitment,
    Truncate(u8, u16),
    Double(u8),
    /// one of the four lists continued cyclically by this many
    Extend(u8, u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct VCase {
    wide: bool,
    shape: harness::batch::Shape,
    faults: Vec<VFault>,
}
fn vfault() -> BoxedStrategy<VFault> {
    prop_oneof![
        6 => (any_pos(), ix()).prop_map(|(a, b)| VFault::Index(a, b)),
        4 => (0u8..4, any_pos()).prop_map(|(a, b)| VFault::Drop(a, b)),
        4 => (0u8..4, any_pos()).prop_map(|(a, b)| VFault::Grow(a, b)),
        2 => (0u8..4).prop_map(VFault::Clear),
        1 => (0u8..4).prop_map(VFault::OnlyList),
        2 => Just(VFault::SameCommitment),
        1 => (0u8..4, any::<u16>()).prop_map(|(a, b)| VFault::Truncate(a, b)),
        1 => (0u8..4).prop_map(VFault::Double),
        2 => (0u8..4, amount()).prop_map(|(a, b)| VFault::Extend(a, b)),
    ]
    .boxed()
}
fn c09_verify(c: &VCase) -> TestResult {
    let p = pool(TI);
    let entries = c.shape.entries();
    let mut coms: Vec<(usize, [u8; 48])> = entries.iter().map(|(b, _)| (*b, p[*b].com)).collect();
    let mut idx: Vec<u64> = entries.iter().map(|(_, k)| *k as u64).collect();
    let mut cells: Vec<(usize, usize)> = entries.clone();
    let mut proofs: Vec<(usize, usize)> = entries.clone();
    fn edit<T: Clone>(v: &mut Vec<T>, f: &VFault) {
        let n = v.len();
        match f {
            VFault::Drop(_, p) if n > 0 => {
                v.remove(at(*p, n));
            }
            VFault::Grow(_, p) if n > 0 => {
                let x = v[at(*p, n)].clone();
                v.push(x);
            }
            VFault::Clear(_) => v.clear(),
            VFault::Truncate(_, k) => v.truncate(*k as usize % (n + 1)),
            VFault::Double(_) => v.extend(v.clone()),
            VFault::Extend(_, by) => extend(v, *by),
            _ => {}
        }
    }
    for f in &c.faults {
        match f {
            VFault::Index(p, x) if !idx.is_empty() => {
                let i = at(*p, idx.len());
                idx[i] = resolve(x, &idx, i);
            }
            VFault::SameCommitment if !coms.is_empty() => {
                let x = coms[0];
                coms.iter_mut().for_each(|c| *c = x);
            }
            VFault::OnlyList(l) => {
                for k in 0..4u8 {
                    if k != *l {
                        match k {
                            0 => coms.clear(),
                            1 => idx.clear(),
                            2 => cells.clear(),
                            _ => proofs.clear(),
                        }
                    }
                }
            }
            VFault::Drop(l, _) | VFault::Grow(l, _) | VFault::Clear(l) | VFault::Truncate(l, _) | VFault::Double(l) | VFault::Extend(l, _) => match l % 4 {
                0 => edit(&mut coms, f),
                1 => edit(&mut idx, f),
                2 => edit(&mut cells, f),
                _ => edit(&mut proofs, f),
            },
            _ => {}
        }
    }
    let n = coms.len();
    let mut why = vec![];
    if !(idx.len() == n && cells.len() == n && proofs.len() == n) {
        why.push("lengths");
    }
    if idx.iter().any(|i| *i >= 128) {
        why.push("range");
    }
    let cb: Vec<[u8; 48]> = coms.iter().map(|c| c.1).collect();
    let ce: Vec<&[u8]> = cells.iter().map(|(b, k)| p[*b].cells[*k].as_slice()).collect();
    let pr: Vec<[u8; 48]> = proofs.iter().map(|(b, k)| p[*b].proofs[*k]).collect();
    let ctx = context(Setup::Tau(TI), if c.wide { WIDE0 } else { PLAIN });
    let r = verify_raw(&ctx, &cb, &idx, &ce, &pr);
    if !why.is_empty() {
        ensure!(
            r.is_err(),
            "malformed batch ({}; {} commitments, {} indices, {} cells, {} proofs) gives {}",
            why.join(", "),
            coms.len(),
            idx.len(),
            cells.len(),
            proofs.len(),
            r.brief()
        );
    } else {
        let honest = (0..n).all(|i| {
            let (b, k) = cells[i];
            proofs[i] == (b, k) && idx[i] as usize == k && coms[i].0 == b
        });
        if honest {
            ensure!(r.is_ok(), "well-formed honest batch of {n}: {}", r.brief());
        } else {
            ensure!(r.is_ok() || r == Out::InvalidProof, "well-formed batch of {n}: {}", r.brief());
        }
    }
    Ok(Seen::new(!why.is_empty()).label(if why.is_empty() { "well-formed".to_string() } else { why.join("+") }))
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C09",
        assumptions: vec!["a case that runs for three minutes counts as a hang"],
        facets: vec![
            facet(
                "recovery",
                "an honest recovery call with 0-3 structural faults (index changed to an out-of-range or repeated value, list shortened, lengthened, emptied, doubled, fewer than 64 cells); the expected outcome follows from lengths, range, repetition and count; non-trivial: the call is malformed",
                5000,
                400_000,
                |_| {
                    let faults = prop_oneof![
                        1 => Just(vec![]),
                        30 => prop::collection::vec(rfault(), 1..4),
                    ];
                    (prop::bool::weighted(0.8), 0u8..POOL as u8, subset(), faults)
                        .prop_map(|(wide, src, subset, faults)| RCase { wide, src, subset, faults })
                        .boxed()
                },
                c09_recover,
            ),
            facet(
                "verification",
                "an honest batch with 0-3 structural faults (index out of range, any of the four lists shortened, lengthened, emptied, doubled; repeated commitments); non-trivial: the call is malformed",
                8000,
                600_000,
                |_| {
                    let faults = prop_oneof![
                        1 => Just(vec![]),
                        8 => prop::collection::vec(vfault(), 1..4),
                    ];
                    (any::<bool>(), prop_oneof![3 => harness::batch::small_shape(), 1 => harness::batch::shape()], faults)
                        .prop_map(|(wide, shape, faults)| VCase { wide, shape, faults })
                        .boxed()
                },
                c09_verify,
            ),
        ],
    }]
}
