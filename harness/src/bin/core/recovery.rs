//! C07 recovery of codewords, C08 recovery from inconsistent cells.
use ff::Field;
use harness::batch::{make, pool, POOL};
use harness::ensure;
use harness::gen::*;
use harness::kzg::*;
use harness::model::*;
use harness::pbt::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Src {
    Pool(u8),
    Fresh(Blob),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Recovery {
    setup: Setup,
    variant: Variant,
    src: Src,
    subset: Subset,
}
fn rvariant() -> BoxedStrategy<Variant> {
    prop_oneof![6 => Just(WIDE), 1 => Just(WIDE0), 1 => Just(PLAIN)].boxed()
}
fn case(main: bool) -> BoxedStrategy<Recovery> {
    let src = prop_oneof![
        3 => (0u8..POOL as u8).prop_map(Src::Pool),
        2 => blob().prop_map(Src::Fresh),
    ];
    (0..TAUS, rvariant(), src, subset())
        .prop_map(move |(t, variant, src, subset)| {
            if main {
                Recovery { setup: Setup::Main, variant, src, subset }
            } else {
                let variant = if t == 0 { variant } else { WIDE };
                Recovery { setup: Setup::Tau(t), variant, src, subset }
            }
        })
        .boxed()
}
fn compare(got: &CellsProofs, cells: &[Vec<u8>], proofs: &[[u8; 48]], given: &[u64]) -> Result<(), Fail> {
    for k in 0..CELLS {
        ensure!(
            got.cells[k] == cells[k],
            "recovered cell {k} (given: {}) differs",
            given.contains(&(k as u64))
        );
        ensure!(got.proofs[k] == proofs[k], "recovered proof {k} is {} but must be {}", hex::encode(got.proofs[k]), hex::encode(proofs[k]));
    }
    Ok(())
}
fn seen(c: &Recovery, given: usize) -> Seen {
    Seen::new(given < CELLS || !matches!(c.subset.order, Order::Sorted))
        .label(c.subset.class())
        .label(match given {
            64 => "given:64",
            65..=96 => "given:65-96",
            97..=127 => "given:97-127",
            _ => "given:128",
        })
}
fn c07_tau(c: &Recovery) -> TestResult {
    let Setup::Tau(ti) = c.setup else { unreachable!() };
    let fresh;
    let m = match &c.src {
        Src::Pool(i) => &pool(ti)[*i as usize % POOL],
        Src::Fresh(b) => {
            fresh = make(tau(ti), b);
            &fresh
        }
    };
    let idx = c.subset.indices();
    let cells: Vec<&[u8]> = idx.iter().map(|k| m.cells[*k as usize].as_slice()).collect();
    match recover(&context(c.setup, c.variant), &idx, &cells) {
        Out::Ok(got) => compare(&got, &m.cells, &m.proofs, &idx)?,
        o => return Err(format!("recovery from {} honest cells: {}", idx.len(), o.brief()).into()),
    }
    Ok(seen(c, idx.len()))
}
fn c07_main(c: &Recovery) -> TestResult {
    let ctx = context(c.setup, c.variant);
    let b = match &c.src {
        Src::Pool(i) => harness::batch::pool_spec(*i as usize).bytes(),
        Src::Fresh(b) => b.bytes(),
    };
    let made = match compute(&ctx, &b) {
        Out::Ok(v) => v,
        o => return Err(format!("cells and proofs of a valid blob: {}", o.brief()).into()),
    };
    let idx = c.subset.indices();
    let cells: Vec<&[u8]> = idx.iter().map(|k| made.cells[*k as usize].as_slice()).collect();
    match recover(&ctx, &idx, &cells) {
        Out::Ok(got) => compare(&got, &made.cells, &made.proofs, &idx)?,
        o => return Err(format!("recovery from {} honest cells: {}", idx.len(), o.brief()).into()),
    }
    Ok(seen(c, idx.len()))
}

// ---------------------------------------------------------------- C08

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Word {
    /// an honest word
    Pool(u8),
    Code(Blob),
    /// values of a random polynomial of exactly this degree (4096..8191)
    High(u64, u16),
    /// a random codeword plus s * X^d
    Mono(u64, S, u16),
    /// a codeword plus a random polynomial with terms in [from, to)
    Band(u64, u16, u16),
    /// a codeword plus s * the lowest-degree polynomial that vanishes on all
    /// but `n` of the given cells (n = 1.. : low-weight error of one cell)
    AlmostZero(u64, S, u8, u8),
    /// arbitrary values
    Noise(u64),
    /// arbitrary, from a small pool of values
    NoisePool(u64, Vec<S>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Spoil {
    /// add to one symbol of one given cell
    Symbol(u8, u8, S),
    SetSymbol(u8, u8, S),
    /// add to symbol j of every given cell
    Column(u8, S),
    CellFrom(u8, u8, u8),
    SwapCells(u8, u8),
    SwapSymbols(u8, u8, u8),
    ZeroCell(u8),
    NegCell(u8),
    AddCell(u8, S),
    RotateCell(u8, u8),
    /// +d and -d at two symbols
    Pair(u8, u8, u8, u8, S),
    /// +s in the lower half symbols of a cell
    HalfCell(u8, S),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Inconsistent {
    ti: u8,
    variant: Variant,
    subset: Subset,
    word: Word,
    spoil: Vec<Spoil>,
}
fn word() -> BoxedStrategy<Word> {
    let high = || {
        prop_oneof![
            2 => Just(4096u16), 2 => 4096u16..4100, 2 => 4096u16..4224, 2 => 4096u16..8192,
            2 => (65u16..=128).prop_map(|k| k * 64 - 1), 1 => (64u16..128).prop_map(|k| k * 64), 1 => 8128u16..8192,
            1 => Just(8191u16),
        ]
    };
    prop_oneof![
        4 => (0u8..POOL as u8).prop_map(Word::Pool),
        2 => blob().prop_map(Word::Code),
        2 => (any::<u64>(), high()).prop_map(|(a, b)| Word::High(a, b)),
        4 => (any::<u64>(), scalar(), high()).prop_map(|(a, b, c)| Word::Mono(a, b, c)),
        2 => (any::<u64>(), high(), 1u16..200).prop_map(|(a, b, c)| Word::Band(a, b, c)),
        3 => (any::<u64>(), scalar(), 1u8..70, any::<u8>()).prop_map(|(a, b, c, d)| Word::AlmostZero(a, b, c, d)),
        1 => any::<u64>().prop_map(Word::Noise),
        1 => (any::<u64>(), prop::collection::vec(scalar(), 1..4)).prop_map(|(a, b)| Word::NoisePool(a, b)),
    ]
    .boxed()
}
fn spoil() -> BoxedStrategy<Spoil> {
    let i = any::<u8>;
    let j = || 0u8..64;
    prop_oneof![
        5 => (i(), j(), scalar()).prop_map(|(a, b, c)| Spoil::Symbol(a, b, c)),
        2 => (i(), j(), scalar()).prop_map(|(a, b, c)| Spoil::SetSymbol(a, b, c)),
        1 => (j(), scalar()).prop_map(|(a, b)| Spoil::Column(a, b)),
        1 => (i(), i(), i()).prop_map(|(a, b, c)| Spoil::CellFrom(a, b, c)),
        1 => (i(), i()).prop_map(|(a, b)| Spoil::SwapCells(a, b)),
        1 => (i(), j(), j()).prop_map(|(a, b, c)| Spoil::SwapSymbols(a, b, c)),
        1 => i().prop_map(Spoil::ZeroCell),
        1 => i().prop_map(Spoil::NegCell),
        1 => (i(), scalar()).prop_map(|(a, b)| Spoil::AddCell(a, b)),
        1 => (i(), 1u8..64).prop_map(|(a, b)| Spoil::RotateCell(a, b)),
        2 => (i(), j(), i(), j(), scalar()).prop_map(|(a, b, c, d, e)| Spoil::Pair(a, b, c, d, e)),
        1 => (i(), scalar()).prop_map(|(a, b)| Spoil::HalfCell(a, b)),
    ]
    .boxed()
}
fn random_poly(seed: u64, n: usize) -> Vec<Fr> {
    let mut r = Mix(seed ^ 0x0e77);
    (0..n).map(|_| r.fr()).collect()
}
fn word_values(w: &Word, ti: u8, idx: &[u64]) -> Vec<Fr> {
    match w {
        Word::Pool(i) => pool(ti)[*i as usize % POOL].ext.clone(),
        Word::Code(b) => extended(&b.expand().1),
        Word::High(s, d) => {
            let mut p = random_poly(*s, *d as usize + 1);
            if *p.last().unwrap() == Fr::ZERO {
                *p.last_mut().unwrap() = Fr::ONE;
            }
            extended(&p)
        }
        Word::Mono(s, c, d) => {
            let mut p = random_poly(*s, N);
            p.resize(EXT, Fr::ZERO);
            p[*d as usize] += c.nonzero();
            extended(&p)
        }
        Word::Band(s, from, len) => {
            let mut p = random_poly(*s, N);
            p.resize(EXT, Fr::ZERO);
            let mut r = Mix(*s);
            for i in (*from as usize)..(*from as usize + *len as usize).min(EXT) {
                p[i] += r.fr();
            }
            extended(&p)
        }
        Word::AlmostZero(s, c, n, rot) => {
            // product of (X^64 - c_k) over all given cells but n
            let keep = (*n as usize).clamp(1, idx.len());
            let mut ks: Vec<usize> = idx.iter().map(|k| *k as usize).collect();
            let l = ks.len();
            ks.rotate_left(*rot as usize % l);
            let mut z = vec![Fr::ONE];
            for k in &ks[keep..] {
                let c = coset_pow(*k);
                let mut q = vec![Fr::ZERO; z.len() + 1];
                for (i, x) in z.iter().enumerate() {
                    q[i + 1] += *x;
                    q[i] -= *x * c;
                }
                z = q;
            }
            let mut p = random_poly(*s, N);
            p.resize(EXT, Fr::ZERO);
            let c = c.nonzero();
            for (i, x) in z.into_iter().enumerate() {
                if i * CELL < EXT {
                    p[i * CELL] += x * c;
                }
            }
            extended(&p)
        }
        Word::Noise(s) => random_poly(*s, EXT),
        Word::NoisePool(s, v) => {
            let v: Vec<Fr> = v.iter().map(|x| x.fr()).collect();
            let mut r = Mix(*s);
            (0..EXT).map(|_| v[r.below(v.len().max(1) as u64) as usize]).collect()
        }
    }
}
fn c08(c: &Inconsistent) -> TestResult {
    let idx = c.subset.indices();
    let ext = word_values(&c.word, c.ti, &idx);
    let mut v: Vec<(usize, Vec<Fr>)> =
        idx.iter().map(|k| (*k as usize, ext[*k as usize * CELL..(*k as usize + 1) * CELL].to_vec())).collect();
    let n = v.len();
    for s in &c.spoil {
        let at = |i: u8| i as usize % n;
        match s {
            Spoil::Symbol(i, j, x) => v[at(*i)].1[*j as usize % CELL] += x.nonzero(),
            Spoil::SetSymbol(i, j, x) => v[at(*i)].1[*j as usize % CELL] = x.fr(),
            Spoil::Column(j, x) => v.iter_mut().for_each(|c| c.1[*j as usize % CELL] += x.nonzero()),
            Spoil::CellFrom(i, b, k) => {
                let k = *k as usize % CELLS;
                v[at(*i)].1 = pool(c.ti)[*b as usize % POOL].ext[k * CELL..(k + 1) * CELL].to_vec()
            }
            Spoil::SwapCells(i, j) => {
                let t = v[at(*i)].1.clone();
                v[at(*i)].1 = v[at(*j)].1.clone();
                v[at(*j)].1 = t;
            }
            Spoil::SwapSymbols(i, a, b) => v[at(*i)].1.swap(*a as usize % CELL, *b as usize % CELL),
            Spoil::ZeroCell(i) => v[at(*i)].1 = vec![Fr::ZERO; CELL],
            Spoil::NegCell(i) => v[at(*i)].1.iter_mut().for_each(|x| *x = -*x),
            Spoil::AddCell(i, x) => v[at(*i)].1.iter_mut().for_each(|y| *y += x.nonzero()),
            Spoil::RotateCell(i, r) => v[at(*i)].1.rotate_left(*r as usize % CELL),
            Spoil::Pair(i, a, j, b, x) => {
                v[at(*i)].1[*a as usize % CELL] += x.nonzero();
                v[at(*j)].1[*b as usize % CELL] -= x.nonzero();
            }
            Spoil::HalfCell(i, x) => v[at(*i)].1[..CELL / 2].iter_mut().for_each(|y| *y += x.nonzero()),
        }
    }
    let want = decode(&v);
    let bytes: Vec<Vec<u8>> = v.iter().map(|x| cell_bytes(&x.1)).collect();
    let refs: Vec<&[u8]> = bytes.iter().map(|b| b.as_slice()).collect();
    let ctx = context(Setup::Tau(c.ti), c.variant);
    let got = recover(&ctx, &idx, &refs);
    match (&want, got) {
        (None, Out::Err(_)) => {}
        (None, o) => return Err(format!("{} cells that lie on no polynomial of degree < 4096: recovery gives {}", n, o.brief()).into()),
        (Some(p), Out::Ok(got)) => {
            for (k, b) in idx.iter().zip(&bytes) {
                ensure!(got.cells[*k as usize] == *b, "recovered cell {k} contradicts the given one");
            }
            let (ext, cells) = model_cells(p);
            compare(&got, &cells, &model_proofs(tau(c.ti), p, &ext), &idx)?
        }
        (Some(_), o) => return Err(format!("{} cells on one polynomial: recovery gives {}", n, o.brief()).into()),
    }
    Ok(Seen::new(want.is_none() || n == 64)
        .label(if want.is_some() { "decodable" } else { "inconsistent" })
        .label(match n {
            64 => "given:64",
            65 => "given:65",
            66..=96 => "given:66-96",
            97..=127 => "given:97-127",
            _ => "given:128",
        })
        .label(match c.word {
            Word::Pool(_) | Word::Code(_) => "word:codeword",
            Word::High(..) => "word:high degree",
            Word::Mono(..) => "word:plus monomial",
            Word::Band(..) => "word:plus band",
            Word::AlmostZero(..) => "word:plus near-vanishing",
            _ => "word:noise",
        }))
}
fn c08_subset() -> BoxedStrategy<Subset> {
    prop_oneof![
        3 => subset(),
        2 => (any::<u64>(), 65u8..=70, order()).prop_map(|(s, k, order)| Subset { shape: Shape::Random(s, k), order }),
        1 => (prop::collection::vec(0u8..128, 0..3), order()).prop_map(|(m, order)| Subset { shape: Shape::Missing(m), order }),
        2 => (any::<u64>(), 65u8..=128, order()).prop_map(|(s, k, order)| Subset { shape: Shape::Random(s, k), order }),
    ]
    .boxed()
}

pub fn properties() -> Vec<Property> {
    let assume = vec!["the reference decoder and the known-secret model use blst's field arithmetic"];
    const R7: &str = "a codeword (12 pool or 14 generated families) and a set of 64 to 128 distinct cells in any order (9 shapes, 6 orders); non-trivial: some cell is missing or the order is not ascending";
    vec![
        Property {
            id: "C07",
            assumptions: assume.clone(),
            facets: vec![
                facet("tau-model", R7, 900, 60_000, |_| case(false), c07_tau),
                facet("main-roundtrip", R7, 220, 10_000, |_| case(true), c07_main),
            ],
        },
        Property {
            id: "C08",
            assumptions: assume,
            facets: vec![facet(
                "decoder",
                "64 to 128 cells of a word (codewords, polynomials of degree 4096..8191, codewords plus single high terms, bands or near-vanishing errors, noise) with 0-3 spoilings of 12 kinds; an independent decoder decides; non-trivial: no polynomial fits, or exactly 64 cells are given",
                2200,
                150_000,
                |_| {
                    (0..TAUS, rvariant(), c08_subset(), word(), prop::collection::vec(spoil(), 0..4))
                        .prop_map(|(ti, variant, subset, word, spoil)| Inconsistent {
                            ti,
                            variant: if ti == 0 { variant } else { WIDE },
                            subset,
                            word,
                            spoil,
                        })
                        .boxed()
                },
                c08,
            )],
        },
    ]
}
