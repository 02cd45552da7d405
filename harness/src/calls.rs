//! Calls of the four operations with valid and faulty arguments, for the
//! checks that compare a binding with the Rust library on the same arguments.
use crate::gen::*;
use crate::kzg::*;
use crate::model::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;

/// Blobs under the embedded setup, with what the Rust library makes of them.
pub struct Row {
    pub blob: Vec<u8>,
    pub com: [u8; 48],
    pub cells: Vec<Vec<u8>>,
    pub proofs: Vec<[u8; 48]>,
}
pub const ROWS: usize = 6;
// No precomputation: that is one of the things that are compared.
const ROWS_CONTEXT: Variant = WIDE0;
thread_local! {
    static SETUP: std::cell::Cell<Setup> = const { std::cell::Cell::new(Setup::Main) };
}
/// Makes the calls of this thread about this setup.
pub fn use_setup(s: Setup) {
    SETUP.with(|x| x.set(s));
}
pub fn rows() -> &'static [Row] {
    static R: [OnceLock<Vec<Row>>; 1 + TAUS as usize] = [const { OnceLock::new() }; 1 + TAUS as usize];
    let setup = SETUP.with(|x| x.get());
    let i = match setup {
        Setup::Main => 0,
        Setup::Tau(i) => 1 + (i % TAUS) as usize,
    };
    R[i].get_or_init(|| {
        let specs = [
            Blob::Random(501),
            Blob::Const(S::Max),
            Blob::Zero,
            Blob::LowDegree(502, 65),
            Blob::Sparse(vec![(77, S::Max), (4000, S::One)]),
            Blob::Random(503),
        ];
        let ctx = context(setup, ROWS_CONTEXT);
        specs
            .iter()
            .map(|s| {
                let blob = s.bytes();
                let (Out::Ok(com), Out::Ok(cp)) = (commit(&ctx, &blob), compute(&ctx, &blob)) else {
                    panic!("the Rust library refuses a valid blob");
                };
                Row { blob, com, cells: cp.cells, proofs: cp.proofs }
            })
            .collect()
    })
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum LenEdit {
    Empty,
    Minus(u16),
    Plus(u16),
    Set(u32),
}
impl LenEdit {
    fn apply(&self, b: &mut Vec<u8>) {
        let n = b.len();
        let m = match self {
            LenEdit::Empty => 0,
            LenEdit::Minus(k) => n.saturating_sub(*k as usize),
            LenEdit::Plus(k) => n + *k as usize,
            LenEdit::Set(k) => *k as usize,
        };
        b.resize(m, 0);
    }
}
/// What happens to the bytes of one element.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Corrupt {
    Bit(u16),
    Zeros,
    Ones,
    /// the point at infinity's encoding (for cells: a cell starting with it)
    Infinity,
    Generator,
    /// field element number .. becomes r + n
    NonCanonical(u16, u64),
    NonSubgroup(u64),
    /// the corresponding element of another row
    OtherRow(u8),
    Rand(u64),
}
impl Corrupt {
    fn apply(&self, b: &mut [u8], list: usize) {
        let n = b.len();
        if n == 0 {
            return;
        }
        match self {
            Corrupt::Bit(i) => {
                let i = *i as usize % (n * 8);
                b[i / 8] ^= 0x80 >> (i % 8);
            }
            Corrupt::Zeros => b.fill(0),
            Corrupt::Ones => b.fill(0xff),
            Corrupt::Infinity => {
                b.fill(0);
                b[0] = 0xc0;
            }
            Corrupt::Generator => {
                let g = g1(Fr::from(1u64));
                let k = n.min(48);
                b[..k].copy_from_slice(&g[..k]);
            }
            Corrupt::NonCanonical(p, v) => {
                if n >= 32 {
                    let p = *p as usize % (n / 32);
                    let mut r = r_be();
                    let mut c = *v as u128;
                    for x in r.iter_mut().rev() {
                        c += *x as u128;
                        *x = c as u8;
                        c >>= 8;
                    }
                    b[p * 32..p * 32 + 32].copy_from_slice(&r);
                }
            }
            Corrupt::NonSubgroup(k) => {
                let e = non_subgroup_point(*k).to_compressed();
                let k = n.min(48);
                b[..k].copy_from_slice(&e[..k]);
            }
            Corrupt::OtherRow(r) => {
                let row = &rows()[*r as usize % ROWS];
                let src: &[u8] = match list {
                    0 => &row.com,
                    2 => &row.cells[5],
                    3 => &row.proofs[5],
                    _ => &row.blob,
                };
                let k = n.min(src.len());
                b[..k].copy_from_slice(&src[..k]);
            }
            Corrupt::Rand(s) => {
                let mut r = Mix(*s);
                b.iter_mut().for_each(|x| *x = r.next() as u8);
            }
        }
    }
}
fn corrupt() -> BoxedStrategy<Corrupt> {
    prop_oneof![
        4 => any::<u16>().prop_map(Corrupt::Bit),
        1 => Just(Corrupt::Zeros),
        1 => Just(Corrupt::Ones),
        2 => Just(Corrupt::Infinity),
        2 => Just(Corrupt::Generator),
        3 => (any::<u16>(), prop_oneof![0u64..3, any::<u64>()]).prop_map(|(a, b)| Corrupt::NonCanonical(a, b)),
        1 => any::<u64>().prop_map(Corrupt::NonSubgroup),
        3 => any::<u8>().prop_map(Corrupt::OtherRow),
        1 => any::<u64>().prop_map(Corrupt::Rand),
    ]
    .boxed()
}
fn len_edit() -> BoxedStrategy<LenEdit> {
    prop_oneof![
        2 => Just(LenEdit::Empty),
        3 => prop_oneof![Just(1u16), 1u16..64, any::<u16>()].prop_map(LenEdit::Minus),
        3 => prop_oneof![Just(1u16), 1u16..64, any::<u16>()].prop_map(LenEdit::Plus),
        2 => prop_oneof![Just(32u32), Just(48), Just(96), Just(2047), Just(2048), Just(2049), Just(131072), Just(131073), Just(262144)].prop_map(LenEdit::Set),
    ]
    .boxed()
}

/// Lists: 0 commitments, 1 indices, 2 cells, 3 proofs.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Edit {
    Index(u16, Ix),
    /// sign and the part above 64 bits (with `wide`, also above 128)
    Big { at: u16, neg: bool, hi: u64, wide: bool },
    Remove(u8, u16),
    Dup(u8, u16),
    Clear(u8),
    Swap(u8, u16, u16),
    Corrupt(u8, u16, Corrupt),
    Len(u8, u16, LenEdit),
    Null(u8, u16),
    NullList(u8),
    /// a list continued cyclically by this many elements
    Extend(u8, u32),
}
/// Which arguments the interface can express.
#[derive(Clone, Copy)]
pub struct Kinds {
    pub sizes: bool,
    pub nulls: bool,
    pub bigs: bool,
}
pub fn edit(k: Kinds) -> BoxedStrategy<Edit> {
    let mut v: Vec<(u32, BoxedStrategy<Edit>)> = vec![
        (6, (any_pos(), ix()).prop_map(|(a, b)| Edit::Index(a, b)).boxed()),
        (3, (0u8..4, any_pos()).prop_map(|(a, b)| Edit::Remove(a, b)).boxed()),
        (3, (0u8..4, any_pos()).prop_map(|(a, b)| Edit::Dup(a, b)).boxed()),
        (1, (0u8..4).prop_map(Edit::Clear).boxed()),
        (1, (0u8..4, prop_oneof![Just(128u32), Just(256), Just(512), 1u32..300]).prop_map(|(a, b)| Edit::Extend(a, b)).boxed()),
        (1, (prop_oneof![Just(0u8), Just(1), Just(3)], Just(65536u32)).prop_map(|(a, b)| Edit::Extend(a, b)).boxed()),
        (3, (0u8..4, any_pos(), any_pos()).prop_map(|(a, b, c)| Edit::Swap(a, b, c)).boxed()),
        (8, (0u8..4, any_pos(), corrupt()).prop_map(|(a, b, c)| Edit::Corrupt(a, b, c)).boxed()),
    ];
    if k.sizes {
        v.push((8, (0u8..4, any_pos(), len_edit()).prop_map(|(a, b, c)| Edit::Len(a, b, c)).boxed()));
    }
    if k.nulls {
        v.push((2, (0u8..4, any_pos()).prop_map(|(a, b)| Edit::Null(a, b)).boxed()));
        v.push((1, (0u8..4).prop_map(Edit::NullList).boxed()));
    }
    if k.bigs {
        v.push((
            8,
            (any_pos(), any::<bool>(), prop_oneof![3 => Just(0u64), 3 => (0u8..64).prop_map(|k| 1 << k), 1 => any::<u64>()], prop::bool::weighted(0.2))
                .prop_map(|(at, neg, hi, wide)| Edit::Big { at, neg, hi, wide })
                .boxed(),
        ));
    }
    proptest::strategy::Union::new_weighted(v).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum BlobArg {
    Row(u8),
    Spec(Blob),
    /// a row's blob, changed
    Corrupt(u8, Vec<Corrupt>),
    Len(u8, LenEdit),
    Null,
}
pub fn blob_arg(k: Kinds) -> BoxedStrategy<BlobArg> {
    let mut v: Vec<(u32, BoxedStrategy<BlobArg>)> = vec![
        (3, (0u8..6).prop_map(BlobArg::Row).boxed()),
        (4, blob().prop_map(BlobArg::Spec).boxed()),
        (4, (0u8..6, prop::collection::vec(corrupt(), 1..3)).prop_map(|(a, b)| BlobArg::Corrupt(a, b)).boxed()),
    ];
    if k.sizes {
        v.push((4, (0u8..6, len_edit()).prop_map(|(a, b)| BlobArg::Len(a, b)).boxed()));
    }
    if k.nulls {
        v.push((1, Just(BlobArg::Null).boxed()));
    }
    proptest::strategy::Union::new_weighted(v).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Call {
    Commit(BlobArg),
    Compute(BlobArg),
    Recover { row: u8, subset: Subset, edits: Vec<Edit> },
    Verify { entries: Vec<(u8, u8)>, edits: Vec<Edit> },
    /// `n` entries, cyclically from these
    Many { entries: Vec<(u8, u8)>, n: u32, edits: Vec<Edit> },
    /// the same with one entry changed: list, position, change
    Widest { entries: Vec<(u8, u8)>, n: u32, wrong: Option<(u8, u32, u8)> },
}
fn edits(k: Kinds) -> BoxedStrategy<Vec<Edit>> {
    prop_oneof![
        2 => Just(vec![]),
        4 => prop::collection::vec(edit(k), 1..2),
        2 => prop::collection::vec(edit(k), 2..5),
    ]
    .boxed()
}
fn entries() -> BoxedStrategy<Vec<(u8, u8)>> {
    let e = || (0u8..ROWS as u8, 0u8..128);
    prop_oneof![
        1 => Just(vec![]),
        8 => prop::collection::vec(e(), 1..8),
        1 => prop::collection::vec(e(), 8..40),
        1 => (0u8..ROWS as u8).prop_map(|r| (0..128).map(|k| (r, k)).collect()),
        1 => (e(), 1usize..10).prop_map(|(e, n)| vec![e; n]),
    ]
    .boxed()
}
pub fn call_commit(k: Kinds) -> BoxedStrategy<Call> {
    blob_arg(k).prop_map(Call::Commit).boxed()
}
pub fn call_compute(k: Kinds) -> BoxedStrategy<Call> {
    blob_arg(k).prop_map(Call::Compute).boxed()
}
pub fn call_recover(k: Kinds) -> BoxedStrategy<Call> {
    (0u8..ROWS as u8, subset(), edits(k)).prop_map(|(row, subset, edits)| Call::Recover { row, subset, edits }).boxed()
}
pub fn call_verify(k: Kinds) -> BoxedStrategy<Call> {
    prop_oneof![
        15 => (entries(), edits(k)).prop_map(|(entries, edits)| Call::Verify { entries, edits }),
        1 => (prop::collection::vec((0u8..ROWS as u8, 0u8..128), 1..9), many_entries(), edits(k)).prop_map(|(entries, n, edits)| Call::Many { entries, n, edits }),
    ]
    .boxed()
}
/// Sizes at which narrow counters come round, and around them.
fn many_entries() -> BoxedStrategy<u32> {
    prop_oneof![
        3 => (7u32..=9, -1i32..=8).prop_map(|(k, d)| ((1i32 << k) + d) as u32),
        1 => (1u32..=4, 0u32..9).prop_map(|(k, d)| 256 * k + d),
        1 => 40u32..700,
    ]
    .boxed()
}
/// Over 2^16 entries, mostly with a false one that is not among the first n - 2^16.
pub fn call_widest() -> BoxedStrategy<Call> {
    (
        prop::collection::vec((0u8..ROWS as u8, 0u8..128), 1..5),
        1u32..60,
        prop::option::weighted(0.9, (0u8..4, any::<u32>(), any::<u8>())),
    )
        .prop_map(|(entries, k, wrong)| Call::Widest { entries, n: 65536 + k, wrong: wrong.map(|(l, at, x)| (l, k + at % 65536, x)) })
        .boxed()
}
/// Mostly cheap calls.
pub fn call(k: Kinds) -> BoxedStrategy<Call> {
    prop_oneof![
        3 => call_commit(k),
        1 => call_compute(k),
        1 => call_recover(k),
        4 => call_verify(k),
    ]
    .boxed()
}

/// sign * (hi * 2^64 + lo), plus 2^200 if `wide`
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Big {
    pub neg: bool,
    pub hi: u64,
    pub wide: bool,
    pub lo: u64,
}
impl Big {
    fn of(lo: u64) -> Big {
        Big { neg: false, hi: 0, wide: false, lo }
    }
    pub fn fits(&self) -> bool {
        self.hi == 0 && !self.wide && !(self.neg && self.lo != 0)
    }
    /// Little-endian 64-bit words of the magnitude.
    pub fn words(&self) -> Vec<u64> {
        let mut w = vec![self.lo, self.hi];
        if self.wide {
            w.extend([0, 1 << 8]);
        }
        w
    }
}
pub type Bytes = Option<Vec<u8>>;
pub type List = Option<Vec<Bytes>>;
/// The arguments of one call, as bytes. `None` is a null reference.
#[derive(Clone, Debug)]
pub struct Args {
    pub op: u8,
    pub blob: Bytes,
    pub coms: List,
    pub idx: Option<Vec<Big>>,
    pub cells: List,
    pub proofs: List,
}
pub const COMMIT: u8 = 0;
pub const COMPUTE: u8 = 1;
pub const RECOVER: u8 = 2;
pub const VERIFY: u8 = 3;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Res {
    Bytes(Vec<u8>),
    Cells(CellsProofs),
    Bool(bool),
    Fail(String),
}
impl Res {
    pub fn kind(&self) -> &'static str {
        match self {
            Res::Bytes(_) => "bytes",
            Res::Cells(_) => "cells and proofs",
            Res::Bool(true) => "true",
            Res::Bool(false) => "false",
            Res::Fail(_) => "failure",
        }
    }
    pub fn brief(&self) -> String {
        match self {
            Res::Bytes(b) => format!("{} bytes {}", b.len(), hex::encode(&b[..b.len().min(64)])),
            Res::Cells(c) => format!(
                "{} cells and {} proofs, digest {}",
                c.cells.len(),
                c.proofs.len(),
                hex::encode(&<sha2::Sha256 as sha2::Digest>::digest([c.cells.concat(), c.proofs.concat()].concat())[..6])
            ),
            Res::Fail(m) => format!("failure ({})", m.chars().take(200).collect::<String>()),
            o => o.kind().into(),
        }
    }
    pub fn same(&self, o: &Res) -> bool {
        match (self, o) {
            (Res::Fail(_), Res::Fail(_)) => true,
            (a, b) => a == b,
        }
    }
}

impl Call {
    pub fn label(&self) -> &'static str {
        match self {
            Call::Commit(_) => "commit",
            Call::Compute(_) => "compute",
            Call::Recover { .. } => "recover",
            Call::Verify { .. } => "verify",
            Call::Many { .. } => "verify many",
            Call::Widest { .. } => "verify over 65536",
        }
    }
    pub fn args(&self) -> Args {
        let mut a = Args { op: 0, blob: None, coms: None, idx: None, cells: None, proofs: None };
        let mk = |b: &BlobArg| match b {
            BlobArg::Row(r) => Some(rows()[*r as usize % ROWS].blob.clone()),
            BlobArg::Spec(s) => Some(s.bytes()),
            BlobArg::Corrupt(r, cs) => {
                let mut b = rows()[*r as usize % ROWS].blob.clone();
                cs.iter().for_each(|c| c.apply(&mut b, 4));
                Some(b)
            }
            BlobArg::Len(r, l) => {
                let mut b = rows()[*r as usize % ROWS].blob.clone();
                l.apply(&mut b);
                Some(b)
            }
            BlobArg::Null => None,
        };
        match self {
            Call::Commit(b) => {
                a.op = COMMIT;
                a.blob = mk(b);
            }
            Call::Compute(b) => {
                a.op = COMPUTE;
                a.blob = mk(b);
            }
            Call::Recover { row, subset, edits } => {
                a.op = RECOVER;
                let m = &rows()[*row as usize % ROWS];
                let idx = subset.indices();
                a.cells = Some(idx.iter().map(|k| Some(m.cells[*k as usize].clone())).collect());
                a.idx = Some(idx.into_iter().map(Big::of).collect());
                apply(&mut a, edits);
            }
            Call::Verify { entries, edits } => {
                batch(&mut a, entries, entries.len());
                apply(&mut a, edits);
            }
            Call::Many { entries, n, edits } => {
                batch(&mut a, entries, *n as usize);
                apply(&mut a, edits);
            }
            Call::Widest { entries, n, wrong } => {
                batch(&mut a, entries, *n as usize);
                if let Some((l, at, x)) = wrong {
                    let i = *at as usize % *n as usize;
                    let put = |v: &mut List, b: &[u8]| v.as_mut().unwrap()[i] = Some(b.to_vec());
                    let r = &rows()[[0, 5][*x as usize % 2]];
                    match l % 4 {
                        0 => put(&mut a.coms, &r.com),
                        1 => a.idx.as_mut().unwrap()[i].lo ^= 1 + *x as u64 % 127,
                        2 => put(&mut a.cells, &r.cells[*x as usize % CELLS]),
                        _ => put(&mut a.proofs, &r.proofs[*x as usize % CELLS]),
                    }
                }
            }
        }
        a
    }
}
fn batch(a: &mut Args, entries: &[(u8, u8)], n: usize) {
    let e: Vec<(&Row, usize)> = (0..n).map(|i| entries[i % entries.len()]).map(|(r, k)| (&rows()[r as usize % ROWS], k as usize % CELLS)).collect();
    a.op = VERIFY;
    a.coms = Some(e.iter().map(|(r, _)| Some(r.com.to_vec())).collect());
    a.idx = Some(e.iter().map(|(_, k)| Big::of(*k as u64)).collect());
    a.cells = Some(e.iter().map(|(r, k)| Some(r.cells[*k].clone())).collect());
    a.proofs = Some(e.iter().map(|(r, k)| Some(r.proofs[*k].to_vec())).collect());
}
fn apply(a: &mut Args, edits: &[Edit]) {
    fn on<T: Clone>(v: &mut Option<Vec<T>>, e: &Edit) {
        let Some(v) = v else { return };
        let n = v.len();
        match e {
            Edit::Remove(_, p) if n > 0 => {
                v.remove(at(*p, n));
            }
            Edit::Dup(_, p) if n > 0 => {
                let x = v[at(*p, n)].clone();
                v.push(x);
            }
            Edit::Clear(_) => v.clear(),
            Edit::Extend(_, by) if n > 0 => v.extend((0..*by as usize).map(|i| v[i % n].clone()).collect::<Vec<_>>()),
            Edit::Swap(_, p, q) if n > 0 => v.swap(at(*p, n), at(*q, n)),
            _ => {}
        }
    }
    for e in edits {
        match e {
            Edit::Index(p, x) => {
                if let Some(v) = &mut a.idx {
                    if !v.is_empty() {
                        let lows: Vec<u64> = v.iter().map(|b| b.lo).collect();
                        let i = at(*p, v.len());
                        v[i].lo = resolve(x, &lows, i);
                    }
                }
            }
            Edit::Big { at: p, neg, hi, wide } => {
                if let Some(v) = &mut a.idx {
                    if !v.is_empty() {
                        let i = at(*p, v.len());
                        v[i] = Big { neg: *neg, hi: *hi, wide: *wide, lo: v[i].lo };
                    }
                }
            }
            Edit::Remove(l, _) | Edit::Dup(l, _) | Edit::Clear(l) | Edit::Extend(l, _) | Edit::Swap(l, _, _) => match l % 4 {
                0 => on(&mut a.coms, e),
                1 => on(&mut a.idx, e),
                2 => on(&mut a.cells, e),
                _ => on(&mut a.proofs, e),
            },
            Edit::Corrupt(l, p, _) | Edit::Len(l, p, _) | Edit::Null(l, p) => {
                let list = match l % 4 {
                    0 if a.coms.is_some() => &mut a.coms,
                    3 if a.proofs.is_some() => &mut a.proofs,
                    _ => &mut a.cells,
                };
                let which = match l % 4 {
                    0 => 0,
                    3 => 3,
                    _ => 2,
                };
                if let Some(v) = list {
                    if !v.is_empty() {
                        let i = at(*p, v.len());
                        match e {
                            Edit::Corrupt(_, _, c) => {
                                if let Some(b) = &mut v[i] {
                                    c.apply(b, which);
                                }
                            }
                            Edit::Len(_, _, c) => {
                                if let Some(b) = &mut v[i] {
                                    c.apply(b);
                                }
                            }
                            _ => v[i] = None,
                        }
                    }
                }
            }
            Edit::NullList(l) => match l % 4 {
                0 => a.coms = None,
                1 => a.idx = None,
                2 => a.cells = None,
                _ => a.proofs = None,
            },
        }
    }
}

/// What the Rust library says to these arguments; arguments it cannot even
/// be given (sizes, nulls, integers that are not u64) are failures.
pub fn expected(ctx: &rust_eth_kzg::DASContext, a: &Args) -> Result<Res, String> {
    fn fixed(l: &List, n: usize) -> Option<Vec<&[u8]>> {
        l.as_ref()?.iter().map(|b| b.as_deref().filter(|b| b.len() == n)).collect()
    }
    fn idx(a: &Args) -> Option<Vec<u64>> {
        a.idx.as_ref()?.iter().map(|b| b.fits().then_some(b.lo)).collect()
    }
    fn res<T>(o: Out<T>, f: impl FnOnce(T) -> Res) -> Result<Res, String> {
        match o {
            Out::Ok(v) => Ok(f(v)),
            Out::Err(e) => Ok(Res::Fail(e)),
            Out::InvalidProof => Ok(Res::Bool(false)),
            Out::Panic(m) => Err(format!("the Rust library panics: {m}")),
        }
    }
    fn bad(what: &str) -> Result<Res, String> {
        Ok(Res::Fail(format!("{what} cannot be passed to the Rust library")))
    }
    match a.op {
        COMMIT | COMPUTE => {
            let Some(b) = a.blob.as_deref().filter(|b| b.len() == BLOB_BYTES) else { return bad("blob") };
            if a.op == COMMIT {
                res(commit(ctx, b), |c| Res::Bytes(c.to_vec()))
            } else {
                res(compute(ctx, b), Res::Cells)
            }
        }
        RECOVER => {
            let (Some(i), Some(c)) = (idx(a), fixed(&a.cells, CELL_BYTES)) else { return bad("list") };
            res(recover(ctx, &i, &c), Res::Cells)
        }
        _ => {
            let (Some(m), Some(i), Some(c), Some(p)) = (fixed(&a.coms, 48), idx(a), fixed(&a.cells, CELL_BYTES), fixed(&a.proofs, 48))
            else {
                return bad("list");
            };
            let m: Vec<[u8; 48]> = m.iter().map(|x| (*x).try_into().unwrap()).collect();
            let p: Vec<[u8; 48]> = p.iter().map(|x| (*x).try_into().unwrap()).collect();
            res(verify_raw(ctx, &m, &i, &c, &p), |_| Res::Bool(true))
        }
    }
}
