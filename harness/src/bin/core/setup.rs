//! C17: trusted setups.
use blstrs::{Bls12, G1Affine, G1Projective, G2Affine, G2Projective};
use ff::Field;
use group::prime::PrimeCurveAffine;
use group::{Curve, Group};
use harness::batch::make;
use harness::ensure;
use harness::gen::*;
use harness::kzg::*;
use harness::model::*;
use harness::pbt::*;
use pairing::{MillerLoopResult, MultiMillerLoop};
use proptest::prelude::*;
use rust_eth_kzg::{DASContext, TrustedSetup, UsePrecomp};
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Which {
    Embedded,
    Tau(u8),
}
fn lists(w: Which) -> &'static [Vec<String>; 3] {
    static E: OnceLock<[Vec<String>; 3]> = OnceLock::new();
    static T: OnceLock<Vec<[Vec<String>; 3]>> = OnceLock::new();
    match w {
        Which::Embedded => E.get_or_init(|| {
            let t = TrustedSetup::default();
            [t.g1_monomial, t.g1_lagrange, t.g2_monomial]
        }),
        Which::Tau(i) => {
            &T.get_or_init(|| {
                (0..TAUS)
                    .map(|i| {
                        let t = tau(i);
                        [t.g1_monomial.clone(), t.g1_lagrange.clone(), t.g2_monomial.clone()]
                    })
                    .collect()
            })[i as usize % TAUS as usize]
        }
    }
}
const NAMES: [&str; 3] = ["g1_monomial", "g1_lagrange", "g2_monomial"];
/// A document, with the lists in the given order and some white space.
fn document(l: &[Vec<String>; 3], perm: u8, space: u8, drop: Option<usize>) -> String {
    let orders = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    let sp = ["", " ", "\n", "\t", "\r\n  "][space as usize % 5];
    let mut parts = vec![];
    for i in orders[perm as usize % 6] {
        if drop == Some(i) {
            continue;
        }
        let items: Vec<String> = l[i].iter().map(|s| serde_json::to_string(s).unwrap()).collect();
        parts.push(format!("{sp}\"{}\"{sp}:{sp}[{sp}{}{sp}]", NAMES[i], items.join(&format!(",{sp}"))));
    }
    format!("{sp}{{{}{sp}}}{sp}", parts.join(","))
}
fn which() -> BoxedStrategy<Which> {
    prop_oneof![1 => Just(Which::Embedded), 2 => (0..TAUS).prop_map(Which::Tau)].boxed()
}

// ---------------------------------------------------------------- exact loading
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Exact {
    which: Which,
    checked: bool,
    perm: u8,
    space: u8,
    /// exchange two entries of a list (for the loader without checks)
    swap: Option<(u8, u16, u16)>,
}
fn exact(c: &Exact) -> TestResult {
    let mut l = lists(c.which).clone();
    if let Some((k, i, j)) = c.swap {
        let v = &mut l[k as usize % 3];
        let n = v.len();
        v.swap(i as usize % n, j as usize % n);
    }
    let doc = document(&l, c.perm, c.space, None);
    let checked = c.checked;
    let t = match no_panic(|| if checked { TrustedSetup::from_json(&doc) } else { TrustedSetup::from_json_unchecked(&doc) }) {
        Ok(t) => t,
        Err(m) => return Err(format!("a well-formed document is refused: {m}").into()),
    };
    for (i, got) in [&t.g1_monomial, &t.g1_lagrange, &t.g2_monomial].into_iter().enumerate() {
        ensure!(got.len() == l[i].len(), "{} has {} entries, the document {}", NAMES[i], got.len(), l[i].len());
        if let Some(j) = (0..got.len()).find(|j| got[*j] != l[i][*j]) {
            return Err(format!("{}[{j}] is {} but the document has {}", NAMES[i], got[j], l[i][j]).into());
        }
    }
    Ok(Seen::new(true).label(if checked { "checked" } else { "unchecked" }))
}

// ---------------------------------------------------------------- defects
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Defect {
    NoPrefix,
    UpperPrefix,
    Short,
    Long,
    Empty,
    OnlyPrefix,
    OddDigits,
    NotHex(u8),
    /// torsion added to this point and taken from another of the list
    TorsionPair(u64, u16),
    /// something added around or inside the digits
    Decorated(u8, u8),
    /// a well-encoded point outside the subgroup
    NonSubgroup(u64),
    PlusTorsion(u64),
    OffCurve(u64),
    BadFlags(u8),
    BadIdentity(u8),
    UnreducedX,
    OtherGroup,
    NotString(u8),
    MissingList,
    Truncated(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Broken {
    which: Which,
    list: u8,
    pos: u16,
    defect: Defect,
}
fn g2_non_subgroup(kind: u64) -> G2Affine {
    let mut r = Mix(kind ^ 0x62);
    loop {
        let mut x = [0u8; 96];
        for c in x.chunks_mut(8) {
            c.copy_from_slice(&r.next().to_be_bytes());
        }
        x[0] = 0x80 | (x[0] & 0x2f);
        x[48] &= 0x0f;
        if let Some(p) = Option::<G2Affine>::from(G2Affine::from_compressed_unchecked(&x)) {
            if !bool::from(p.is_torsion_free()) {
                return p;
            }
        }
    }
}
fn times_r<G: Group>(p: G) -> G {
    let mut acc = G::identity();
    for byte in r_be() {
        for b in (0..8).rev() {
            acc = acc.double();
            if byte >> b & 1 == 1 {
                acc += p;
            }
        }
    }
    acc
}
fn spoil(s: &str, g2: bool, d: &Defect) -> String {
    let n = if g2 { 96 } else { 48 };
    let bytes = hex::decode(&s[2..]).unwrap();
    let h = |b: &[u8]| format!("0x{}", hex::encode(b));
    match d {
        Defect::NoPrefix => s[2..].to_string(),
        Defect::UpperPrefix => format!("0X{}", &s[2..]),
        Defect::Short => s[..s.len() - 2].to_string(),
        Defect::Long => format!("{s}00"),
        Defect::Empty => String::new(),
        Defect::OnlyPrefix => "0x".into(),
        Defect::OddDigits => s[..s.len() - 1].to_string(),
        Defect::NotHex(i) => {
            let mut c: Vec<char> = s.chars().collect();
            let i = 2 + *i as usize % (c.len() - 2);
            c[i] = ['g', ' ', 'x', '-'][i % 4];
            c.into_iter().collect()
        }
        Defect::Decorated(kind, at) => {
            let (p, d) = s.split_at(2);
            let at = *at as usize % d.len();
            match kind % 16 {
                0 => format!("{p}{p}{d}"),
                1 => format!(" {s}"),
                2 => format!("{s} "),
                3 => format!("{s}\\n"),
                4 => format!("{p} {d}"),
                5 => format!("{p}{}_{}", &d[..at], &d[at..]),
                6 => format!("{s}0x"),
                7 => format!("x{d}"),
                8 => format!("{p}00{d}"),
                9 => format!("0X{s}"),
                10 => format!("{s}{s}"),
                11 => format!("\\u0000{s}"),
                12 => format!("+{s}"),
                13 => format!("{p}{} {}", &d[..at], &d[at..]),
                14 => format!("{s}{d}"),
                _ => format!("{p}{p}{p}{d}"),
            }
        }
        Defect::NonSubgroup(k) => {
            if g2 {
                h(&g2_non_subgroup(*k).to_compressed())
            } else {
                h(&non_subgroup_point(*k).to_compressed())
            }
        }
        Defect::PlusTorsion(k) => {
            if g2 {
                let p = G2Affine::from_compressed_unchecked(&bytes.try_into().unwrap()).unwrap();
                h(&(G2Projective::from(p) + times_r(G2Projective::from(g2_non_subgroup(*k)))).to_affine().to_compressed())
            } else {
                let p = G1Affine::from_compressed_unchecked(&bytes.try_into().unwrap()).unwrap();
                h(&(G1Projective::from(p) + times_r(G1Projective::from(non_subgroup_point(*k)))).to_affine().to_compressed())
            }
        }
        Defect::OffCurve(k) => {
            let mut r = Mix(*k);
            loop {
                let mut x = vec![0u8; n];
                for c in x.chunks_mut(8) {
                    c.copy_from_slice(&r.next().to_be_bytes());
                }
                x[0] = 0x80 | (x[0] & 0x2f);
                if g2 {
                    x[48] &= 0x0f;
                    let a: [u8; 96] = x.clone().try_into().unwrap();
                    if bool::from(G2Affine::from_compressed_unchecked(&a).is_none()) {
                        return h(&x);
                    }
                } else {
                    let a: [u8; 48] = x.clone().try_into().unwrap();
                    if bool::from(G1Affine::from_compressed_unchecked(&a).is_none()) {
                        return h(&x);
                    }
                }
            }
        }
        Defect::BadFlags(f) => {
            let mut x = bytes;
            if f % 2 == 0 {
                x[0] &= 0x7f;
            } else {
                x[0] |= 0x40;
            }
            h(&x)
        }
        Defect::BadIdentity(k) => {
            let mut x = vec![0u8; n];
            match k % 4 {
                0 => x[0] = 0xe0,
                1 => x[0] = 0x40,
                2 => {
                    x[0] = 0xc0;
                    x[n - 1] = 1;
                }
                _ => {}
            }
            h(&x)
        }
        Defect::UnreducedX => {
            // x = p in the last coordinate
            let p = hex::decode("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab").unwrap();
            let mut x = vec![0u8; n];
            x[n - 48..].copy_from_slice(&p);
            x[0] |= 0x80;
            h(&x)
        }
        Defect::OtherGroup => {
            if g2 {
                h(&g1(Fr::from(5u64)))
            } else {
                h(&G2Affine::from(G2Projective::generator() * Fr::from(5u64)).to_compressed())
            }
        }
        _ => s.to_string(),
    }
}
fn broken(c: &Broken) -> TestResult {
    let k = c.list as usize % 3;
    let mut l = lists(c.which).clone();
    let n = l[k].len();
    let i = if c.pos == u16::MAX { n - 1 } else { c.pos as usize % n };
    let new = spoil(&l[k][i], k == 2, &c.defect);
    let doc = match &c.defect {
        Defect::MissingList => document(&l, 0, 0, Some(k)),
        Defect::NotString(v) => {
            l[k][i] = "@@".into();
            let v = ["null", "5", "[]", "{}", "true"][*v as usize % 5];
            document(&l, 0, 0, None).replace("\"@@\"", v)
        }
        Defect::Truncated(p) => {
            let d = document(&l, 0, 0, None);
            let cut = d.len() - 1 - (*p as usize * 13) % (d.len() - 1);
            d[..cut].to_string()
        }
        Defect::TorsionPair(t, j) => {
            let j = if *j as usize % n == i { (i + 1) % n } else { *j as usize % n };
            let bytes = |s: &str| hex::decode(&s[2..]).unwrap();
            let (a, b);
            if k == 2 {
                let t = times_r(G2Projective::from(g2_non_subgroup(*t)));
                let p = |s: &str| G2Projective::from(G2Affine::from_compressed_unchecked(&bytes(s).try_into().unwrap()).unwrap());
                a = (p(&l[k][i]) + t).to_affine().to_compressed().to_vec();
                b = (p(&l[k][j]) - t).to_affine().to_compressed().to_vec();
            } else {
                let t = times_r(G1Projective::from(non_subgroup_point(*t)));
                let p = |s: &str| G1Projective::from(G1Affine::from_compressed_unchecked(&bytes(s).try_into().unwrap()).unwrap());
                a = (p(&l[k][i]) + t).to_affine().to_compressed().to_vec();
                b = (p(&l[k][j]) - t).to_affine().to_compressed().to_vec();
            }
            l[k][i] = format!("0x{}", hex::encode(a));
            l[k][j] = format!("0x{}", hex::encode(b));
            document(&l, 0, 0, None)
        }
        _ => {
            l[k][i] = new.clone();
            document(&l, 0, 0, None)
        }
    };
    let r = no_panic(|| TrustedSetup::from_json(&doc));
    ensure!(r.is_err(), "a document with a defect ({:?}) at {}[{i}] is accepted: {}", c.defect, NAMES[k], new.chars().take(120).collect::<String>());
    let class = format!("{:?}", c.defect).split('(').next().unwrap_or("").to_string();
    Ok(Seen::new(true).label(NAMES[k]).label(class))
}
fn defect() -> BoxedStrategy<Defect> {
    let k = || prop_oneof![0u64..4, any::<u64>()];
    prop_oneof![
        1 => Just(Defect::NoPrefix),
        1 => Just(Defect::UpperPrefix),
        1 => Just(Defect::Short),
        1 => Just(Defect::Long),
        1 => Just(Defect::Empty),
        1 => Just(Defect::OnlyPrefix),
        1 => Just(Defect::OddDigits),
        1 => any::<u8>().prop_map(Defect::NotHex),
        4 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Defect::Decorated(a, b)),
        3 => (k(), any::<u16>()).prop_map(|(a, b)| Defect::TorsionPair(a, b)),
        5 => k().prop_map(Defect::NonSubgroup),
        5 => k().prop_map(Defect::PlusTorsion),
        2 => any::<u64>().prop_map(Defect::OffCurve),
        2 => any::<u8>().prop_map(Defect::BadFlags),
        2 => any::<u8>().prop_map(Defect::BadIdentity),
        1 => Just(Defect::UnreducedX),
        1 => Just(Defect::OtherGroup),
        1 => any::<u8>().prop_map(Defect::NotString),
        1 => Just(Defect::MissingList),
        1 => any::<u16>().prop_map(Defect::Truncated),
    ]
    .boxed()
}

// ---------------------------------------------------------------- use
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Used {
    tau: S,
    width: u8,
    checked: bool,
    blob: Blob,
    false_entry: bool,
    k: u8,
}
fn used(c: &Used) -> TestResult {
    let mut x = c.tau.fr();
    if x == Fr::ZERO || x.pow_vartime([EXT as u64]) == Fr::ONE {
        x = Fr::from(5u64);
    }
    let t = Tau::new(x);
    let l = [t.g1_monomial.clone(), t.g1_lagrange.clone(), t.g2_monomial.clone()];
    let doc = document(&l, c.k, 0, None);
    let checked = c.checked;
    let ctx = match no_panic(|| {
        let ts = if checked { TrustedSetup::from_json(&doc) } else { TrustedSetup::from_json_unchecked(&doc) };
        DASContext::with_threads(&ts, rust_eth_kzg::ThreadCount::Single, if c.width == 0 { UsePrecomp::No } else { UsePrecomp::Yes { width: c.width as usize } })
    }) {
        Ok(c) => c,
        Err(m) => return Err(format!("a well-formed setup is refused: {m}").into()),
    };
    let m = make(&t, &c.blob);
    match commit(&ctx, &m.blob) {
        Out::Ok(got) => ensure!(got == m.com, "commitment {} but p(tau)G is {}", hex::encode(got), hex::encode(m.com)),
        o => return Err(format!("commitment: {}", o.brief()).into()),
    }
    match compute(&ctx, &m.blob) {
        Out::Ok(got) => {
            ensure!(got.cells == m.cells, "cells differ");
            if let Some(k) = (0..CELLS).find(|k| got.proofs[*k] != m.proofs[*k]) {
                return Err(format!("proof {k} differs").into());
            }
        }
        o => return Err(format!("cells and proofs: {}", o.brief()).into()),
    }
    let k = c.k as usize % CELLS;
    let mut e = Entry { commitment: m.com, index: k as u64, cell: m.cells[k].clone(), proof: m.proofs[k] };
    if c.false_entry {
        // a true opening under the embedded setup's generator, but not under this secret
        e.proof = g1(m.q[k] + Fr::ONE);
    }
    let r = verify(&ctx, &[e]);
    let want = if c.false_entry { Out::InvalidProof } else { Out::Ok(()) };
    ensure!(r == want, "verification gives {} instead of {}", r.brief(), want.brief());
    Ok(Seen::new(true).label(format!("width:{}", c.width)))
}

// ---------------------------------------------------------------- the embedded setup
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Embedded {
    seed: u64,
}
fn g2_points() -> Vec<G2Affine> {
    lists(Which::Embedded)[2]
        .iter()
        .map(|s| {
            let b: [u8; 96] = hex::decode(&s[2..]).unwrap().try_into().unwrap();
            G2Affine::from_compressed(&b).expect("embedded g2 point")
        })
        .collect()
}
fn pair_eq(a: (G1Affine, G2Affine), b: (G1Affine, G2Affine)) -> bool {
    let na = (-G1Projective::from(a.0)).to_affine();
    let (pa, pb) = (a.1.into(), b.1.into());
    bool::from(Bls12::multi_miller_loop(&[(&na, &pa), (&b.0, &pb)]).final_exponentiation().is_identity())
}
fn embedded(c: &Embedded) -> TestResult {
    let (mono, lagr) = crate::prover::main_points();
    let g2 = g2_points();
    ensure!(mono.len() == N && lagr.len() == N && g2.len() == 65, "list lengths {} {} {}", mono.len(), lagr.len(), g2.len());
    ensure!(mono[0] == G1Affine::generator(), "g1_monomial[0] is not the generator");
    ensure!(g2[0] == G2Affine::generator(), "g2_monomial[0] is not the generator");
    ensure!(mono.iter().chain(lagr).all(|p| bool::from(p.is_torsion_free()) && !bool::from(p.is_identity())), "a G1 point is outside the subgroup");
    let mut r = Mix(c.seed);
    let rho: Vec<Fr> = (0..N).map(|_| r.fr()).collect();
    // powers: sum rho_i g1[i+1] paired with 1 = sum rho_i g1[i] paired with tau
    let hi = crate::prover::msm(&mono[1..], &rho[..N - 1]).to_affine();
    let lo = crate::prover::msm(&mono[..N - 1], &rho[..N - 1]).to_affine();
    ensure!(pair_eq((hi, g2[0]), (lo, g2[1])), "g1_monomial is not a list of powers of the secret of g2_monomial[1]");
    let sum2 = |v: &[G2Affine]| v.iter().zip(&rho).fold(G2Projective::identity(), |a, (p, s)| a + *p * *s).to_affine();
    ensure!(pair_eq((mono[0], sum2(&g2[1..])), (mono[1], sum2(&g2[..64]))), "g2_monomial is not a list of powers of the secret");
    // Lagrange form, natural order of the domain
    let vals = rho.clone();
    let coeffs = idft(&vals, omega(N));
    ensure!(
        crate::prover::msm(lagr, &vals) == crate::prover::msm(mono, &coeffs),
        "g1_lagrange is not the Lagrange form of g1_monomial"
    );
    Ok(Seen::new(true))
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C17",
        assumptions: vec!["blst decides curve and subgroup membership; documents have the sizes of the mainnet setup"],
        facets: vec![
            facet("embedded", "random linear combinations over all points of the embedded setup and pairings; each case is a fresh set of coefficients; non-trivial: always", 40, 2_000, |_| any::<u64>().prop_map(|seed| Embedded { seed }).boxed(), embedded),
            facet(
                "exact",
                "a well-formed document (embedded or known-secret), key order, white space, entries exchanged (unchecked loader only); every string must come back in place; non-trivial: always",
                100,
                10_000,
                |_| {
                    (which(), any::<bool>(), 0u8..6, 0u8..5, prop::option::of((0u8..3, any::<u16>(), any::<u16>())))
                        .prop_map(|(which, checked, perm, space, swap)| Exact { which, checked, perm, space, swap: if checked { None } else { swap } })
                        .boxed()
                },
                exact,
            ),
            facet(
                "defects",
                "a well-formed document with one defect of 20 kinds (one of them decorations of 16 forms) at any position of any of the three lists; the checked loader must panic; non-trivial: always",
                480,
                20_000,
                |_| {
                    let pos = prop_oneof![1 => Just(0u16), 1 => Just(u16::MAX), 1 => 0u16..66, 4 => any::<u16>()];
                    (which(), 0u8..3, pos, defect())
                        .prop_map(|(which, list, pos, defect)| Broken { which, list, pos, defect })
                        .boxed()
                },
                broken,
            ),
            facet(
                "used",
                "a setup with a fresh secret (boundary or random), loaded from its document; commitment, cells, all proofs and one verification (true or false) are compared with the model; non-trivial: always",
                36,
                3_000,
                |_| {
                    (scalar(), prop_oneof![3 => Just(0u8), 1 => 1u8..8], prop::bool::weighted(0.2), blob(), any::<bool>(), any::<u8>())
                        .prop_map(|(tau, width, checked, blob, false_entry, k)| Used { tau, width, checked, blob, false_entry, k })
                        .boxed()
                },
                used,
            ),
        ],
    }]
}
