//! C22: the multi-proof scheme over small parameters, against quotients
//! computed by division and points with known discrete logs.
use bls12_381::fixed_base_msm::UsePrecomp;
use bls12_381::{G1Point, G1Projective, G2Point, G2Projective};
use ff::Field;
use group::{Curve, Group};
use harness::ensure;
use harness::gen::*;
use harness::model::*;
use harness::pbt::*;
use kzg_multi_open::commit_key::CommitKey;
use kzg_multi_open::verification_key::VerificationKey;
use kzg_multi_open::{recover_evaluations_in_domain_order, Prover, ProverInput, Verifier};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn g1(s: Fr) -> G1Point {
    (G1Projective::generator() * s).to_affine()
}
fn g2(s: Fr) -> G2Point {
    (G2Projective::generator() * s).to_affine()
}

/// bound: coefficients; l: points per proof; points: size of the opened domain.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Params {
    log_l: u8,
    log_bound: u8,
    log_points: u8,
}
impl Params {
    fn l(self) -> usize {
        1 << self.log_l
    }
    fn bound(self) -> usize {
        1 << self.log_bound
    }
    fn points(self) -> usize {
        1 << self.log_points
    }
    fn cosets(self) -> usize {
        self.points() / self.l()
    }
    fn gen(self, k: usize) -> Fr {
        omega(self.points()).pow_vartime([brp_index(k, self.cosets()) as u64])
    }
    fn gen_pow(self, k: usize) -> Fr {
        self.gen(k).pow_vartime([self.l() as u64])
    }
    /// All evaluations, by coset.
    fn cells(self, p: &[Fr]) -> Vec<Vec<Fr>> {
        let mut c = p.to_vec();
        c.resize(self.points(), Fr::ZERO);
        let v = brp(&dft(&c, omega(self.points())));
        v.chunks(self.l()).map(|c| c.to_vec()).collect()
    }
    /// The value at tau of the interpolant of these (bit-reversed) values on coset k.
    fn interp(self, k: usize, values: &[Fr], tau: Fr) -> Fr {
        let mut c = idft(&brp(values), omega(self.l()));
        let hinv = self.gen(k).invert().unwrap();
        let mut x = Fr::ONE;
        for a in c.iter_mut() {
            *a *= x;
            x *= hinv;
        }
        eval(&c, tau)
    }
}
fn params(max_bound: u8) -> BoxedStrategy<Params> {
    (0u8..=6, prop_oneof![1 => Just(0u8), 6 => 1u8..=6], 0u8..4)
        .prop_map(move |(log_l, more, over)| {
            let log_bound = (log_l + more).min(max_bound.max(log_l));
            Params { log_l, log_bound, log_points: (log_bound + over).max(log_l + 1) }
        })
        .boxed()
}
fn secret(s: &S, p: Params) -> Fr {
    let mut t = s.fr();
    // a well-formed secret is not 0 and not in the opened domain
    while t == Fr::ZERO || t.pow_vartime([p.points() as u64]) == Fr::ONE {
        t += Fr::from(11u64);
    }
    t
}
fn powers(t: Fr, n: usize) -> Vec<Fr> {
    let mut v = vec![Fr::ONE];
    for i in 1..n.max(1) {
        v.push(v[i - 1] * t);
    }
    v
}

// ---------------------------------------------------------------- prover

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prove {
    p: Params,
    /// how much longer than needed the key is
    extra: u16,
    tau: S,
    width: Option<u8>,
    polys: Vec<(VKind, u16, bool)>,
}
fn prove_case(max_bound: u8) -> BoxedStrategy<Prove> {
    (
        params(max_bound),
        prop_oneof![3 => Just(0u16), 1 => Just(1u16), 2 => 1u16..70],
        scalar(),
        prop::option::weighted(0.5, 1u8..=6),
        prop::collection::vec((vkind(), prop_oneof![2 => Just(0u16), 1 => any::<u16>()], any::<bool>()), 1..4),
    )
        .prop_map(|(p, extra, tau, width, polys)| Prove { p, extra, tau, width, polys })
        .boxed()
}
fn prove(c: &Prove) -> TestResult {
    let p = c.p;
    let tau = secret(&c.tau, p);
    let n = p.bound().max(p.l() + 1) + c.extra as usize;
    let key: Vec<G1Point> = powers(tau, n).into_iter().map(g1).collect();
    let pre = match c.width {
        None => UsePrecomp::No,
        Some(w) => UsePrecomp::Yes { width: w as usize },
    };
    let prover = Prover::new(CommitKey::new(key), p.bound(), p.l(), p.points(), pre);
    ensure!(prover.num_proofs() == p.cosets(), "num_proofs {}", prover.num_proofs());
    let mut nontrivial = false;
    let mut short = false;
    for (kind, cut, data) in &c.polys {
        // data always fills the bound; coefficients may stop short of it
        let len = if *data { p.bound() } else { p.bound() - *cut as usize % p.bound() };
        let v = Vect::new(len, kind.clone()).frs();
        short |= len < p.bound();
        let coeffs = if *data { idft(&brp(&v), omega(p.bound())) } else { v.clone() };
        let input = || if *data { ProverInput::Data(v.clone()) } else { ProverInput::PolyCoeff(v.clone()) };
        let what = format!(
            "bound {}, {} points per proof, {} points, key of {n}, {} of {len}, precomputation {:?}",
            p.bound(), p.l(), p.points(), if *data { "data" } else { "coefficients" }, c.width
        );
        let com = prover.commit(input());
        ensure!(com == g1(eval(&coeffs, tau)), "commitment; {what}");
        let (proofs, evals) = prover.compute_multi_opening_proofs(input());
        ensure!(evals == p.cells(&coeffs), "evaluations; {what}");
        if *data {
            let flat: Vec<Fr> = evals.concat();
            ensure!(flat[..p.bound()] == v[..], "the data is not the first part of the evaluations; {what}");
        }
        ensure!(proofs.len() == p.cosets(), "{} proofs; {what}", proofs.len());
        for (k, q) in proofs.iter().enumerate() {
            let (quot, _) = div_xm_c(&coeffs, p.l(), p.gen_pow(k));
            nontrivial |= quot.iter().any(|x| *x != Fr::ZERO);
            ensure!(*q == g1(eval(&quot, tau)), "proof {k}; {what}");
        }
    }
    Ok(Seen::new(nontrivial)
        .label(format!("points-per-proof:{}", p.l()))
        .label(format!("bound:{}", p.bound()))
        .label(format!("expansion:{}", p.points() / p.bound()))
        .label_if(c.extra > 0, "key-longer-than-needed")
        .label_if(short, "short-polynomial")
        .label(if c.width.is_some() { "precomputed" } else { "not-precomputed" }))
}

// ---------------------------------------------------------------- verifier

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Bad {
    Value { at: u16, pos: u16, d: S },
    Proof { at: u16, d: S },
    Coset { at: u16, to: u16 },
    Row { at: u16, to: u16 },
    Commitment { row: u16, d: S },
    SwapProofs { a: u16, b: u16 },
    SwapValues { at: u16, i: u16, j: u16 },
    /// +d on one proof, -d on another
    Cancel { a: u16, b: u16, d: S },
    /// change the values by an interpolant and the proof so that only the degree bound is broken
    IdentityProof { at: u16 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Verify {
    p: Params,
    tau: S,
    g1_extra: u8,
    g2_extra: u8,
    polys: Vec<VKind>,
    picks: Vec<(u16, u16)>,
    bad: Vec<Bad>,
}
fn verify_case() -> BoxedStrategy<Verify> {
    let i = any::<u16>;
    let bad = prop_oneof![
        3 => (i(), i(), scalar()).prop_map(|(at, pos, d)| Bad::Value { at, pos, d }),
        3 => (i(), scalar()).prop_map(|(at, d)| Bad::Proof { at, d }),
        2 => (i(), i()).prop_map(|(at, to)| Bad::Coset { at, to }),
        2 => (i(), i()).prop_map(|(at, to)| Bad::Row { at, to }),
        1 => (i(), scalar()).prop_map(|(row, d)| Bad::Commitment { row, d }),
        1 => (i(), i()).prop_map(|(a, b)| Bad::SwapProofs { a, b }),
        1 => (i(), i(), i()).prop_map(|(at, i, j)| Bad::SwapValues { at, i, j }),
        2 => (i(), i(), scalar()).prop_map(|(a, b, d)| Bad::Cancel { a, b, d }),
        1 => i().prop_map(|at| Bad::IdentityProof { at }),
    ];
    (
        params(8),
        scalar(),
        0u8..4,
        0u8..4,
        prop::collection::vec(vkind(), 1..5),
        prop_oneof![1 => Just(vec![]), 8 => prop::collection::vec((i(), i()), 1..12), 1 => prop::collection::vec((i(), i()), 12..40)],
        prop_oneof![1 => Just(vec![]), 2 => prop::collection::vec(bad, 1..3)],
    )
        .prop_map(|(p, tau, g1_extra, g2_extra, polys, picks, bad)| Verify { p, tau, g1_extra, g2_extra, polys, picks, bad })
        .boxed()
}
fn verify(c: &Verify) -> TestResult {
    let p = c.p;
    let tau = secret(&c.tau, p);
    let pw = powers(tau, p.l() + 8);
    let vk = VerificationKey::new(
        pw[..p.l() + c.g1_extra as usize].iter().map(|s| g1(*s)).collect(),
        pw[..p.l() + 1 + c.g2_extra as usize].iter().map(|s| g2(*s)).collect(),
        p.l(),
        p.bound(),
    );
    let verifier = Verifier::new(vk, p.points(), p.cosets());
    let polys: Vec<Vec<Fr>> = c.polys.iter().map(|k| Vect::new(p.bound(), k.clone()).frs()).collect();
    let mut coms: Vec<Fr> = polys.iter().map(|q| eval(q, tau)).collect();
    let cells: Vec<Vec<Vec<Fr>>> = polys.iter().map(|q| p.cells(q)).collect();
    let mut rows = vec![];
    let mut idx = vec![];
    let mut vals = vec![];
    let mut proofs = vec![];
    for (r, k) in &c.picks {
        let r = *r as usize % polys.len();
        let k = *k as usize % p.cosets();
        rows.push(r as u64);
        idx.push(k as u64);
        vals.push(cells[r][k].clone());
        proofs.push(eval(&div_xm_c(&polys[r], p.l(), p.gen_pow(k)).0, tau));
    }
    let n = rows.len();
    if n > 0 {
        for b in &c.bad {
            match b {
                Bad::Value { at, pos, d } => vals[*at as usize % n][*pos as usize % p.l()] += d.nonzero(),
                Bad::Proof { at, d } => proofs[*at as usize % n] += d.nonzero(),
                Bad::Coset { at, to } => idx[*at as usize % n] = *to as u64 % p.cosets() as u64,
                Bad::Row { at, to } => rows[*at as usize % n] = *to as u64 % polys.len() as u64,
                Bad::Commitment { row, d } => coms[*row as usize % polys.len()] += d.nonzero(),
                Bad::SwapProofs { a, b } => proofs.swap(*a as usize % n, *b as usize % n),
                Bad::SwapValues { at, i, j } => vals[*at as usize % n].swap(*i as usize % p.l(), *j as usize % p.l()),
                Bad::Cancel { a, b, d } => {
                    proofs[*a as usize % n] += d.nonzero();
                    proofs[*b as usize % n] -= d.nonzero();
                }
                Bad::IdentityProof { at } => proofs[*at as usize % n] = Fr::ZERO,
            }
        }
    }
    let tl = tau.pow_vartime([p.l() as u64]);
    let want = (0..n).all(|i| {
        let k = idx[i] as usize;
        coms[rows[i] as usize] - p.interp(k, &vals[i], tau) == proofs[i] * (tl - p.gen_pow(k))
    });
    let pc: Vec<G1Point> = coms.iter().map(|s| g1(*s)).collect();
    let pq: Vec<G1Point> = proofs.iter().map(|s| g1(*s)).collect();
    let got = verifier.verify_multi_opening(&pc, &rows, &idx, &vals, &pq).is_ok();
    ensure!(
        got == want,
        "{n} openings of {} polynomials (bound {}, {} points per proof, {} points) are {} but the verifier says {got}",
        polys.len(), p.bound(), p.l(), p.points(), if want { "all true" } else { "not all true" }
    );
    Ok(Seen::new(n > 0)
        .label(if want { "true" } else { "false" })
        .label(format!("points-per-proof:{}", p.l()))
        .label_if(n == 0, "no-openings")
        .label_if(want && !c.bad.is_empty() && n > 0, "altered-but-true"))
}

// ---------------------------------------------------------------- cosets

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Flaw {
    None,
    Length { at: u16, longer: bool },
    Index { at: u16, to: u64 },
    Empty,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cosets {
    log_len: u8,
    log_cosets: u8,
    poly: VKind,
    keep: u16,
    order: u64,
    flaw: Flaw,
}
fn cosets_case() -> BoxedStrategy<Cosets> {
    let flaw = prop_oneof![
        6 => Just(Flaw::None),
        1 => (any::<u16>(), any::<bool>()).prop_map(|(at, longer)| Flaw::Length { at, longer }),
        1 => (any::<u16>(), prop_oneof![Just(0u64), 0u64..70, any::<u64>()]).prop_map(|(at, to)| Flaw::Index { at, to }),
        1 => Just(Flaw::Empty),
    ];
    (0u8..=6, prop_oneof![3 => 0u8..=7, 2 => 8u8..=11], vkind(), any::<u16>(), any::<u64>(), flaw)
        .prop_map(|(log_len, log_cosets, poly, keep, order, flaw)| (log_len.min(12 - log_cosets), log_cosets, poly, keep, order, flaw))
        .prop_map(|(log_len, log_cosets, poly, keep, order, flaw)| Cosets { log_len, log_cosets, poly, keep, order, flaw })
        .boxed()
}
fn cosets(c: &Cosets) -> TestResult {
    let (l, m) = (1usize << c.log_len, 1usize << c.log_cosets);
    let n = l * m;
    let word = dft(&Vect::new(n, c.poly.clone()).frs(), omega(n));
    let rev = brp(&word);
    let mut idx: Vec<usize> = (0..m).collect();
    shuffle(&mut idx, c.order);
    idx.truncate(1 + c.keep as usize % m);
    let mut evals: Vec<Vec<Fr>> = idx.iter().map(|k| rev[k * l..k * l + l].to_vec()).collect();
    let refused = match &c.flaw {
        Flaw::None => false,
        Flaw::Empty => {
            idx.clear();
            evals.clear();
            true
        }
        Flaw::Length { at, longer } => {
            let i = *at as usize % evals.len();
            if evals.len() == 1 || (!*longer && l == 1 && i == 0) {
                // one coset of another length, or a first coset of no length: no expectation
                return Ok(Seen::new(false));
            }
            if *longer {
                evals[i].push(Fr::ONE);
            } else {
                evals[i].pop();
            }
            true
        }
        Flaw::Index { at, to } => {
            let i = *at as usize % idx.len();
            idx[i] = (*to as usize).saturating_add(m);
            true
        }
    };
    let got = recover_evaluations_in_domain_order(n, idx.clone(), evals);
    if refused {
        ensure!(got.is_none(), "{:?} with {m} cosets of {l} is not refused", c.flaw);
        return Ok(Seen::new(true).label("refused"));
    }
    let Some((new, el)) = got else { return Err(format!("{} of {m} cosets of {l} refused", idx.len()).into()) };
    let want: Vec<usize> = idx.iter().map(|k| brp_index(*k, m)).collect();
    ensure!(new == want, "new indices of cosets {idx:?} of {m}");
    ensure!(el.len() == n, "{} evaluations", el.len());
    for i in 0..n {
        let w = if want.contains(&(i % m)) { word[i] } else { Fr::ZERO };
        ensure!(el[i] == w, "evaluation at position {i} of {n} ({} of {m} cosets of {l} given)", idx.len());
    }
    Ok(Seen::new(idx.len() > 1 || l > 1).label_if(idx.len() == m, "all-cosets").label_if(m == 1, "one-coset").label_if(l == 1, "coset-of-1"))
}

// ---------------------------------------------------------------- keys

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Keys {
    tau: S,
    len: u8,
    poly: VKind,
    cut: u8,
}
fn keys(c: &Keys) -> TestResult {
    let n = 2 + c.len as usize % 40;
    let tau = c.tau.nonzero();
    let pw = powers(tau, n);
    let v = Vect::new(n - c.cut as usize % (n + 1), c.poly.clone()).frs();
    let g1s: Vec<G1Point> = pw.iter().map(|s| g1(*s)).collect();
    let g2s: Vec<G2Point> = pw.iter().map(|s| g2(*s)).collect();
    let want = eval(&v, tau);
    let ck = CommitKey::new(g1s.clone());
    ensure!(ck.commit_g1(&v) == G1Projective::generator() * want, "CommitKey::commit_g1 of {} of {n} coefficients", v.len());
    let vk = VerificationKey::new(g1s, g2s, n - 1, n);
    ensure!(vk.commit_g1(&v) == G1Projective::generator() * want, "VerificationKey::commit_g1 of {} of {n} coefficients", v.len());
    ensure!(vk.commit_g2(&v) == G2Projective::generator() * want, "VerificationKey::commit_g2 of {} of {n} coefficients", v.len());
    ensure!(vk.g2_gen() == g2(Fr::ONE), "VerificationKey::g2_gen");
    Ok(Seen::new(want != Fr::ZERO).label_if(v.len() < n, "shorter-than-key").label_if(v.is_empty(), "empty"))
}

fn build() -> Vec<Property> {
    vec![Property {
        id: "C22",
        assumptions: vec![
            "sizes are powers of two, a proof opens at most as many points as there are coefficients, the opened domain is at least as large as the polynomial and larger than a coset, the secret is not zero and not in the opened domain, data fills the bound, coset indices are in range and not repeated (asserted or stated preconditions)",
            "blstrs arithmetic and the pinned proptest crate are correct",
        ],
        facets: vec![
            facet("prover", "some proof is not the identity", 1600, 20000, |t| prove_case(if t == Tier::Quick { 7 } else { 9 }), prove),
            facet("verifier", "at least one opening", 8000, 100000, |_| verify_case(), verify),
            facet("cosets", "more than one value", 40000, 600000, |_| cosets_case(), cosets),
            facet("keys", "the committed value is not zero", 4000, 60000,
                |_| (scalar(), any::<u8>(), vkind(), any::<u8>()).prop_map(|(tau, len, poly, cut)| Keys { tau, len, poly, cut }).boxed(), keys),
        ],
    }]
}
fn main() {
    harness::pbt::main(build)
}
