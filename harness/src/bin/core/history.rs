//! C12: results do not depend on earlier or simultaneous calls.
use harness::batch::{make, pool_spec, Made, POOL};
use harness::gen::*;
use harness::kzg::*;
use harness::model::*;
use harness::pbt::*;
use proptest::prelude::*;
use rust_eth_kzg::DASContext;
use serde::{Deserialize, Serialize};
use std::sync::Barrier;

const TI: u8 = 0;

/// A polynomial: one of the pool, with some blob elements changed.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct P {
    base: u8,
    edits: Vec<(u16, S)>,
}
fn made(p: &P) -> Made {
    made_under(TI, p)
}
fn made_under(ti: u8, p: &P) -> Made {
    if p.edits.is_empty() {
        return make(tau(ti), &pool_spec(p.base as usize));
    }
    let (mut b, _) = pool_spec(p.base as usize).expand();
    for (i, s) in &p.edits {
        b[*i as usize % N] = s.fr();
    }
    // by way of its coefficients
    let coeffs = blob_coeffs(&b);
    from_coeffs(tau(ti), &coeffs)
}
fn from_coeffs(t: &Tau, coeffs: &[Fr]) -> Made {
    let (ext, cells) = model_cells(coeffs);
    let c = t.at(coeffs);
    let q: Vec<Fr> = (0..CELLS).map(|k| t.proof_log(c, k, &ext[k * CELL..(k + 1) * CELL])).collect();
    Made { blob: blob_bytes(&ext[..N]), c, com: g1(c), proofs: q.iter().map(|x| g1(*x)).collect(), q, ext, cells, coeffs: coeffs.to_vec() }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Commit(u8),
    Compute(u8),
    Recover(u8, Subset),
    /// entries (polynomial, cell), and at most one that is false: which, how
    Verify(Vec<(u8, u8)>, Option<(u8, u8)>),
    /// the same entries as Verify but the commitment of another polynomial for one
    CommitBad(u8, u16),
    ComputeBad(u8, u16),
    RecoverFew(u8, u8),
    RecoverRepeated(u8, Subset),
    RecoverInconsistent(u8, Subset, u8, u8),
    RecoverBadScalar(u8, Subset, u8),
    VerifyLengths(Vec<(u8, u8)>, u8),
    VerifyBadPoint(Vec<(u8, u8)>, u8),
    /// the same call as the previous one
    Again,
    /// the previous call with one thing about its arguments made false
    AgainFalse(u8, u8),
    /// the previous call on the next polynomial
    AgainOther,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    threads: u8,
    width: u8,
    polys: Vec<P>,
    programs: Vec<Vec<Op>>,
    rounds: u8,
}

fn want_cells<'a>(m: &'a Made, o: Out<CellsProofs>, what: &str) -> Result<(), String> {
    match o {
        Out::Ok(g) if g.cells == m.cells && g.proofs == m.proofs => Ok(()),
        Out::Ok(g) => {
            let c = (0..CELLS).find(|k| g.cells[*k] != m.cells[*k]);
            let p = (0..CELLS).find(|k| g.proofs[*k] != m.proofs[*k]);
            Err(format!("{what}: first wrong cell {c:?}, first wrong proof {p:?}"))
        }
        o => Err(format!("{what}: {}", o.brief())),
    }
}
fn want_err<T>(o: Out<T>, what: &str) -> Result<(), String> {
    if o.is_err() {
        Ok(())
    } else {
        Err(format!("{what}: {}", o.brief()))
    }
}
fn bad_blob(m: &Made, pos: u16) -> Vec<u8> {
    let mut b = m.blob.clone();
    let p = pos as usize % N;
    b[p * 32..p * 32 + 32].copy_from_slice(&r_be());
    b
}
fn step(ctx: &DASContext, ms: &[Made], op: &Op) -> Result<(), String> {
    let m = |i: &u8| &ms[*i as usize % ms.len()];
    let entries = |v: &Vec<(u8, u8)>| -> Vec<Entry> {
        v.iter()
            .map(|(b, k)| {
                let (m, k) = (m(b), *k as usize % CELLS);
                Entry { commitment: m.com, index: k as u64, cell: m.cells[k].clone(), proof: m.proofs[k] }
            })
            .collect()
    };
    match op {
        Op::Commit(i) => match commit(ctx, &m(i).blob) {
            Out::Ok(c) if c == m(i).com => Ok(()),
            Out::Ok(c) => Err(format!("commitment of polynomial {i}: {}", hex::encode(c))),
            o => Err(format!("commitment of polynomial {i}: {}", o.brief())),
        },
        Op::Compute(i) => {
            let b = m(i).blob.clone();
            let r = want_cells(m(i), compute(ctx, &b), "cells and proofs");
            if b != m(i).blob {
                return Err("the blob was modified".into());
            }
            r
        }
        Op::Recover(i, s) => {
            let idx = s.indices();
            let cells: Vec<&[u8]> = idx.iter().map(|k| m(i).cells[*k as usize].as_slice()).collect();
            want_cells(m(i), recover(ctx, &idx, &cells), "recovery")
        }
        Op::Verify(v, bad) => {
            let mut es = entries(v);
            let mut truth = true;
            if let (Some((i, how)), false) = (bad, es.is_empty()) {
                let n = es.len();
                let i = *i as usize % n;
                truth = false;
                match how % 4 {
                    0 => {
                        let e = 32 * (*how as usize / 4);
                        let v = fr_from_be_reduced(&es[i].cell[e..e + 32]) + Fr::from(1u64);
                        es[i].cell[e..e + 32].copy_from_slice(&v.to_bytes_be());
                    }
                    1 => es[i].proof = g1(Fr::from(77u64)),
                    2 => es[i].commitment = g1(Fr::from(78u64)),
                    _ => {
                        // false unless the polynomial has equal cells there
                        es[i].index ^= 1;
                        let k = es[i].index as usize;
                        let mm = m(&v[i].0);
                        truth = es[i].cell == mm.cells[k] && es[i].proof == mm.proofs[k];
                    }
                }
            }
            let o = verify(ctx, &es);
            let want = if truth { Out::Ok(()) } else { Out::InvalidProof };
            if o == want {
                Ok(())
            } else {
                Err(format!("verification of {} entries must give {} but gives {}", es.len(), want.brief(), o.brief()))
            }
        }
        Op::CommitBad(i, p) => want_err(commit(ctx, &bad_blob(m(i), *p)), "commitment of a bad blob"),
        Op::ComputeBad(i, p) => want_err(compute(ctx, &bad_blob(m(i), *p)), "cells of a bad blob"),
        Op::RecoverFew(i, n) => {
            let idx: Vec<u64> = (0..(*n as u64 % 64)).collect();
            let cells: Vec<&[u8]> = idx.iter().map(|k| m(i).cells[*k as usize].as_slice()).collect();
            want_err(recover(ctx, &idx, &cells), "recovery from too few cells")
        }
        Op::RecoverRepeated(i, s) => {
            let mut idx = s.indices();
            idx[0] = idx[1];
            let cells: Vec<&[u8]> = idx.iter().map(|k| m(i).cells[*k as usize].as_slice()).collect();
            want_err(recover(ctx, &idx, &cells), "recovery with a repeated index")
        }
        Op::RecoverInconsistent(i, s, c, j) => {
            let idx = s.indices();
            let mut cells: Vec<Vec<u8>> = idx.iter().map(|k| m(i).cells[*k as usize].clone()).collect();
            let (c, j) = (*c as usize % cells.len(), *j as usize % CELL);
            let v = fr_from_be_reduced(&cells[c][j * 32..j * 32 + 32]) + Fr::from(1u64);
            cells[c][j * 32..j * 32 + 32].copy_from_slice(&v.to_bytes_be());
            let refs: Vec<&[u8]> = cells.iter().map(|x| x.as_slice()).collect();
            let o = recover(ctx, &idx, &refs);
            if idx.len() > 64 {
                want_err(o, "recovery from inconsistent cells")
            } else if let Out::Ok(g) = o {
                if g.cells[idx[c] as usize] == cells[c] {
                    Ok(())
                } else {
                    Err("recovery contradicts a given cell".into())
                }
            } else {
                Err(format!("recovery from 64 cells: {}", o.brief()))
            }
        }
        Op::RecoverBadScalar(i, s, c) => {
            let idx = s.indices();
            let mut cells: Vec<Vec<u8>> = idx.iter().map(|k| m(i).cells[*k as usize].clone()).collect();
            let c = *c as usize % cells.len();
            cells[c][..32].copy_from_slice(&r_be());
            let refs: Vec<&[u8]> = cells.iter().map(|x| x.as_slice()).collect();
            want_err(recover(ctx, &idx, &refs), "recovery with a bad scalar")
        }
        Op::VerifyLengths(v, l) => {
            let es = entries(v);
            if es.is_empty() {
                return Ok(());
            }
            let mut coms: Vec<_> = es.iter().map(|e| e.commitment).collect();
            let mut idx: Vec<_> = es.iter().map(|e| e.index).collect();
            let mut cells: Vec<&[u8]> = es.iter().map(|e| e.cell.as_slice()).collect();
            let mut proofs: Vec<_> = es.iter().map(|e| e.proof).collect();
            match l % 4 {
                0 => drop(coms.pop()),
                1 => drop(idx.pop()),
                2 => drop(cells.pop()),
                _ => drop(proofs.pop()),
            }
            want_err(verify_raw(ctx, &coms, &idx, &cells, &proofs), "verification with unequal lengths")
        }
        Op::VerifyBadPoint(v, i) => {
            let mut es = entries(v);
            if es.is_empty() {
                return Ok(());
            }
            let i = *i as usize;
            let n = es.len();
            if i % 2 == 0 {
                es[i % n].proof = [0xff; 48];
            } else {
                es[i % n].commitment = non_subgroup_point(0).to_compressed();
            }
            want_err(verify(ctx, &es), "verification with a bad point")
        }
        Op::Again | Op::AgainFalse(..) | Op::AgainOther => Ok(()),
    }
}
/// What a call that refers to the previous one stands for.
fn resolve(op: &Op, last: Option<&Op>) -> Op {
    let next = |i: &u8| i.wrapping_add(1);
    match (op, last) {
        (Op::Again, Some(l)) => l.clone(),
        (Op::AgainFalse(i, how), Some(l)) => match l {
            Op::Verify(v, None) => Op::Verify(v.clone(), Some((*i, *how))),
            Op::Verify(v, Some(_)) => Op::Verify(v.clone(), None),
            Op::Recover(p, s) => Op::RecoverInconsistent(*p, s.clone(), *i, *how % 64),
            Op::RecoverInconsistent(p, s, ..) => Op::Recover(*p, s.clone()),
            Op::Commit(p) => Op::CommitBad(*p, *i as u16 * 16 + 3),
            Op::CommitBad(p, _) => Op::Commit(*p),
            Op::Compute(p) => Op::ComputeBad(*p, *i as u16 * 16 + 3),
            Op::ComputeBad(p, _) => Op::Compute(*p),
            l => l.clone(),
        },
        (Op::AgainOther, Some(l)) => match l {
            Op::Verify(v, b) => Op::Verify(v.iter().map(|(p, k)| (next(p), *k)).collect(), *b),
            Op::Recover(p, s) => Op::Recover(next(p), s.clone()),
            Op::Commit(p) => Op::Commit(next(p)),
            Op::Compute(p) => Op::Compute(next(p)),
            l => l.clone(),
        },
        _ => op.clone(),
    }
}
fn run_program(ctx: &DASContext, ms: &[Made], prog: &[Op], round: usize) -> Result<(), String> {
    let mut last: Option<Op> = None;
    for (i, op) in prog.iter().enumerate() {
        let op = resolve(op, last.as_ref());
        step(ctx, ms, &op).map_err(|e| format!("round {round}, step {i} ({}): {e}", name(&op)))?;
        last = Some(op);
    }
    Ok(())
}
fn name(op: &Op) -> String {
    format!("{op:?}").split('(').next().unwrap_or("").to_string()
}
fn c12(c: &History) -> TestResult {
    let ctx = new_context(Setup::Tau(TI), Variant { threads: c.threads, width: c.width });
    let ms: Vec<Made> = c.polys.iter().map(made).collect();
    for round in 0..c.rounds.max(1) as usize {
        if c.programs.len() == 1 {
            run_program(&ctx, &ms, &c.programs[0], round)?;
        } else {
            let start = Barrier::new(c.programs.len());
            let rs: Vec<Result<(), String>> = std::thread::scope(|s| {
                let hs: Vec<_> = c
                    .programs
                    .iter()
                    .map(|p| {
                        let (start, ctx, ms) = (&start, &ctx, &ms);
                        s.spawn(move || {
                            start.wait();
                            run_program(ctx, ms, p, round)
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
            });
            for (i, r) in rs.into_iter().enumerate() {
                r.map_err(|e| format!("thread {i} of {}: {e}", c.programs.len()))?;
            }
        }
    }
    let total: usize = c.programs.iter().map(|p| p.len()).sum();
    let mut s = Seen::new(total > 1);
    for p in &c.programs {
        for op in p {
            s = s.label(format!("op:{}", name(op)));
        }
    }
    Ok(s.label(format!("pool:{} width:{}", c.threads, c.width)))
}
/// Contexts with setups of their own, used alternately and at the same time.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Several {
    /// setup, threads, precomputation
    contexts: Vec<(u8, u8, u8)>,
    polys: Vec<P>,
    programs: Vec<Vec<(u8, Do)>>,
    /// 0: threads of their own; n: workers of a pool of n threads of the caller
    pool: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Do {
    Own(Op),
    /// verification of openings made under the setup of another context
    Foreign(u8, Vec<(u8, u8)>),
}
fn several(c: &Several) -> TestResult {
    use rayon::prelude::*;
    let made: Vec<Vec<Made>> = c.contexts.iter().map(|x| c.polys.iter().map(|p| made_under(x.0, p)).collect()).collect();
    let n = c.contexts.len();
    let new = |x: &(u8, u8, u8)| new_context(Setup::Tau(x.0), Variant { threads: x.1, width: x.2 });
    let run = |ctxs: &[DASContext], prog: &[(u8, Do)]| -> Result<(), String> {
        let mut last: Option<Op> = None;
        for (i, (on, d)) in prog.iter().enumerate() {
            let on = *on as usize % n;
            let at = |what: &str, e: String| format!("step {i} ({what}) on context {on}: {e}");
            match d {
                Do::Own(op) => {
                    let op = resolve(op, last.as_ref());
                    step(&ctxs[on], &made[on], &op).map_err(|e| at(&name(&op), e))?;
                    last = Some(op);
                }
                Do::Foreign(from, v) => {
                    let t = tau(c.contexts[on].0);
                    let ms = &made[*from as usize % n];
                    let es: Vec<(&Made, usize)> = v.iter().map(|(b, k)| (&ms[*b as usize % ms.len()], *k as usize % CELLS)).collect();
                    let truth = es.iter().all(|(m, k)| bool::from(ff::Field::is_zero(&t.residual(m.c, *k, &m.ext[k * CELL..(k + 1) * CELL], m.q[*k]))));
                    let es: Vec<Entry> = es
                        .iter()
                        .map(|(m, k)| Entry { commitment: m.com, index: *k as u64, cell: m.cells[*k].clone(), proof: m.proofs[*k] })
                        .collect();
                    let want = if truth { Out::Ok(()) } else { Out::InvalidProof };
                    let got = verify(&ctxs[on], &es);
                    if got != want {
                        return Err(at("openings under another setup", format!("{} instead of {}", got.brief(), want.brief())));
                    }
                }
            }
        }
        Ok(())
    };
    let rs: Vec<Result<(), String>> = if c.pool == 0 {
        let ctxs: Vec<DASContext> = c.contexts.iter().map(new).collect();
        let start = Barrier::new(c.programs.len());
        std::thread::scope(|s| {
            let hs: Vec<_> = c
                .programs
                .iter()
                .map(|p| {
                    let (start, ctxs, run) = (&start, &ctxs, &run);
                    s.spawn(move || {
                        start.wait();
                        run(ctxs, p)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
        })
    } else {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(c.pool as usize).build().map_err(|e| e.to_string())?;
        pool.install(|| {
            let ctxs: Vec<DASContext> = c.contexts.par_iter().map(new).collect();
            c.programs.par_iter().with_max_len(1).map(|p| run(&ctxs, p)).collect()
        })
    };
    for (i, r) in rs.into_iter().enumerate() {
        r.map_err(|e| format!("program {i} of {}: {e}", c.programs.len()))?;
    }
    let total: usize = c.programs.iter().map(|p| p.len()).sum();
    let mut s = Seen::new(total > 1);
    for p in &c.programs {
        for (_, d) in p {
            s = s.label(match d {
                Do::Own(op) => format!("op:{}", name(op)),
                Do::Foreign(..) => "op:Foreign".into(),
            });
        }
    }
    let mut setups: Vec<u8> = c.contexts.iter().map(|x| x.0).collect();
    setups.sort();
    setups.dedup();
    Ok(s.label(format!("caller:{}", if c.pool == 0 { "threads".into() } else { format!("pool of {}", c.pool) })).label(format!("setups:{}", setups.len())))
}
fn several_strategy(op: fn() -> BoxedStrategy<Op>, programs: std::ops::Range<usize>) -> BoxedStrategy<Several> {
    let on = || 0u8..3;
    let d = move || {
        prop_oneof![
            6 => op().prop_map(Do::Own),
            1 => (on(), prop::collection::vec((0u8..3, 0u8..128), 1..4)).prop_map(|(a, b)| Do::Foreign(a, b)),
        ]
    };
    (
        prop::collection::vec((0u8..TAUS, prop_oneof![2 => Just(1u8), 1 => Just(2u8), 1 => Just(0u8)], prop_oneof![3 => Just(0u8), 1 => Just(3u8)]), 2..4),
        polys(),
        prop::collection::vec(prop::collection::vec((on(), d()), 1..7), programs),
        prop_oneof![1 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8), 1 => Just(4u8)],
    )
        .prop_map(|(contexts, polys, programs, pool)| Several { contexts, polys, programs, pool })
        .boxed()
}
fn polys() -> BoxedStrategy<Vec<P>> {
    // closely related polynomials: same base, few elements different
    let edit = || prop::collection::vec((position(), scalar()), 0..3);
    prop_oneof![
        3 => (0u8..POOL as u8, prop::collection::vec(edit(), 2..4))
            .prop_map(|(base, v)| v.into_iter().map(|edits| P { base, edits }).collect::<Vec<_>>()),
        1 => prop::collection::vec((0u8..POOL as u8, edit()), 2..4)
            .prop_map(|v| v.into_iter().map(|(base, edits)| P { base, edits }).collect::<Vec<_>>()),
    ]
    .boxed()
}
/// Sets that resemble one another: equal sizes, equal first or last members.
fn related_subset() -> BoxedStrategy<Subset> {
    let o = || prop_oneof![3 => Just(Order::Sorted), 1 => order()];
    prop_oneof![
        2 => o().prop_map(|order| Subset { shape: Shape::Even, order }),
        2 => o().prop_map(|order| Subset { shape: Shape::Odd, order }),
        2 => (prop_oneof![Just(0u8), Just(64), Just(32), Just(1)], o()).prop_map(|(s, order)| Subset { shape: Shape::Window(s, 64), order }),
        2 => (1u8..127, o()).prop_map(|(m, order)| Subset { shape: Shape::Missing(vec![m]), order }),
        2 => (0u8..128, 0u8..128, o()).prop_map(|(m, n, order)| Subset { shape: Shape::Missing(vec![m, n]), order }),
        1 => (0u64..3, prop_oneof![Just(64u8), Just(65), Just(100)], o()).prop_map(|(s, k, order)| Subset { shape: Shape::Random(s, k), order }),
        1 => o().prop_map(|order| Subset { shape: Shape::All, order }),
        1 => subset(),
    ]
    .boxed()
}
fn op() -> BoxedStrategy<Op> {
    let i = || 0u8..3;
    let es = || prop_oneof![4 => prop::collection::vec((0u8..3, 0u8..128), 1..5), 1 => prop::collection::vec((0u8..3, 0u8..4), 0..40)];
    prop_oneof![
        4 => i().prop_map(Op::Commit),
        4 => i().prop_map(Op::Compute),
        6 => (i(), related_subset()).prop_map(|(a, b)| Op::Recover(a, b)),
        8 => (es(), prop::option::of((any::<u8>(), any::<u8>()))).prop_map(|(a, b)| Op::Verify(a, b)),
        1 => (i(), position()).prop_map(|(a, b)| Op::CommitBad(a, b)),
        1 => (i(), position()).prop_map(|(a, b)| Op::ComputeBad(a, b)),
        1 => (i(), 0u8..64).prop_map(|(a, b)| Op::RecoverFew(a, b)),
        1 => (i(), related_subset()).prop_map(|(a, b)| Op::RecoverRepeated(a, b)),
        2 => (i(), related_subset(), any::<u8>(), 0u8..64).prop_map(|(a, b, c, d)| Op::RecoverInconsistent(a, b, c, d)),
        1 => (i(), related_subset(), any::<u8>()).prop_map(|(a, b, c)| Op::RecoverBadScalar(a, b, c)),
        1 => (es(), any::<u8>()).prop_map(|(a, b)| Op::VerifyLengths(a, b)),
        2 => (es(), any::<u8>()).prop_map(|(a, b)| Op::VerifyBadPoint(a, b)),
        2 => Just(Op::Again),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op::AgainFalse(a, b)),
        2 => Just(Op::AgainOther),
    ]
    .boxed()
}
/// Mostly calls that cost little, for long histories.
fn cheap_op() -> BoxedStrategy<Op> {
    let i = || 0u8..3;
    let es = || prop::collection::vec((0u8..3, prop_oneof![0u8..3, 0u8..128]), 0..4);
    prop_oneof![
        2 => i().prop_map(Op::Commit),
        12 => (es(), prop::option::of((any::<u8>(), any::<u8>()))).prop_map(|(a, b)| Op::Verify(a, b)),
        2 => (i(), position()).prop_map(|(a, b)| Op::CommitBad(a, b)),
        1 => (i(), position()).prop_map(|(a, b)| Op::ComputeBad(a, b)),
        2 => (i(), 0u8..64).prop_map(|(a, b)| Op::RecoverFew(a, b)),
        2 => (i(), related_subset()).prop_map(|(a, b)| Op::RecoverRepeated(a, b)),
        1 => (i(), related_subset(), any::<u8>()).prop_map(|(a, b, c)| Op::RecoverBadScalar(a, b, c)),
        2 => (es(), any::<u8>()).prop_map(|(a, b)| Op::VerifyLengths(a, b)),
        2 => (es(), any::<u8>()).prop_map(|(a, b)| Op::VerifyBadPoint(a, b)),
        3 => Just(Op::Again),
        6 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op::AgainFalse(a, b)),
        4 => Just(Op::AgainOther),
    ]
    .boxed()
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C12",
        assumptions: vec![
            "expected results come from the known-secret model, so they cannot share a context's state",
            "thread interleavings are those the operating system produces; a race that needs a rarer schedule is not forced",
        ],
        facets: vec![
            facet(
                "sequential",
                "a fresh context, then 2-14 calls (13 kinds, failing ones included) on 2-3 closely related polynomials and similar index sets; every result is compared with the model; non-trivial: at least two calls",
                85,
                20_000,
                |_| {
                    (
                        prop_oneof![4 => Just(1u8), 1 => Just(2u8)],
                        prop_oneof![4 => Just(0u8), 1 => Just(3u8)],
                        polys(),
                        prop::collection::vec(op(), 2..15),
                    )
                        .prop_map(|(threads, width, polys, p)| History { threads, width, polys, programs: vec![p], rounds: 1 })
                        .boxed()
                },
                c12,
            ),
            facet(
                "long",
                "one context, 20-60 mostly cheap calls repeated 5-14 times (100-800 calls, a few of them recoveries at the end); every result is compared with the model; non-trivial: at least two calls",
                32,
                6_000,
                |_| {
                    (polys(), prop::collection::vec(cheap_op(), 20..60), prop::collection::vec(op(), 0..3), 5u8..15)
                        .prop_map(|(polys, mut p, end, rounds)| {
                            // The dear calls only once, after everything else
                            let long = p.clone();
                            for _ in 1..rounds {
                                p.extend(long.iter().cloned());
                            }
                            p.extend(end);
                            History { threads: 1, width: 0, polys, programs: vec![p], rounds: 1 }
                        })
                        .boxed()
                },
                c12,
            ),
            facet_w(
                "concurrent",
                "2-8 threads start together on one shared context, each running 1-5 calls, two rounds; non-trivial: at least two calls",
                14,
                4_000,
                2,
                |_| {
                    (
                        prop_oneof![1 => Just(1u8), 1 => Just(2u8), 1 => Just(4u8), 1 => Just(0u8)],
                        prop_oneof![3 => Just(0u8), 1 => Just(3u8)],
                        polys(),
                        prop::collection::vec(prop::collection::vec(op(), 1..6), 2..9),
                    )
                        .prop_map(|(threads, width, polys, programs)| History { threads, width, polys, programs, rounds: 2 })
                        .boxed()
                },
                c12,
            ),
            facet_w(
                "contexts",
                "2-3 contexts under setups of their own; 1-7 programs of 1-6 calls on any of them (openings made under another context's setup included), run by threads or by the workers of a thread pool of the caller; every result is compared with the model of its context; non-trivial: at least two calls",
                20,
                4_000,
                2,
                |_| several_strategy(op, 1..8),
                several,
            ),
        ],
    }]
}
