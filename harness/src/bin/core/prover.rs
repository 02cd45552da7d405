//! C01 commitments, C02 cells, C03 proofs.
use blstrs::{G1Affine, G1Projective};
use harness::ensure;
use harness::gen::*;
use harness::kzg::*;
use harness::model::*;
use harness::pbt::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    setup: Setup,
    variant: Variant,
    blob: Blob,
}
fn tau_case() -> BoxedStrategy<Case> {
    (prop_oneof![4 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)], variant(), blob())
        .prop_map(|(t, variant, blob)| Case { setup: Setup::Tau(t), variant: narrow(t, variant), blob })
        .boxed()
}
/// The rarer setups run in the shared configurations only.
fn narrow(t: u8, v: Variant) -> Variant {
    if t == 0 || v.threads == 8 {
        v
    } else {
        WIDE
    }
}
fn main_case() -> BoxedStrategy<Case> {
    (variant(), blob())
        .prop_map(|(variant, blob)| Case { setup: Setup::Main, variant, blob })
        .boxed()
}
fn any_case() -> BoxedStrategy<Case> {
    prop_oneof![tau_case(), main_case()].boxed()
}
fn tau_of(c: &Case) -> &'static Tau {
    match c.setup {
        Setup::Tau(i) => tau(i),
        Setup::Main => unreachable!(),
    }
}
fn seen(c: &Case) -> Seen {
    Seen::new(c.blob.nontrivial())
        .label(c.blob.class())
        .label(format!("threads:{} width:{}", c.variant.threads, c.variant.width))
}

/// Points of the embedded setup, parsed by the harness.
pub fn main_points() -> &'static (Vec<G1Affine>, Vec<G1Affine>) {
    static P: OnceLock<(Vec<G1Affine>, Vec<G1Affine>)> = OnceLock::new();
    P.get_or_init(|| {
        let ts = rust_eth_kzg::TrustedSetup::default();
        let parse = |v: &Vec<String>| -> Vec<G1Affine> {
            v.iter()
                .map(|s| {
                    let b: [u8; 48] = hex::decode(&s[2..]).unwrap().try_into().unwrap();
                    G1Affine::from_compressed_unchecked(&b).unwrap()
                })
                .collect()
        };
        (parse(&ts.g1_monomial), parse(&ts.g1_lagrange))
    })
}
/// Multi-scalar multiplication for the oracle; no identity points are passed.
pub fn msm(points: &[G1Affine], scalars: &[Fr]) -> G1Projective {
    let p: Vec<G1Projective> = points.iter().map(|p| p.into()).collect();
    G1Projective::multi_exp(&p, scalars)
}

fn c01_tau(c: &Case) -> TestResult {
    let (b, coeffs) = c.blob.expand();
    let t = tau_of(c);
    let ctx = context(c.setup, c.variant);
    let want = g1(t.at(&coeffs));
    match commit(&ctx, &blob_bytes(&b)) {
        Out::Ok(got) => ensure!(got == want, "commitment {} but p(tau)G is {}", hex::encode(got), hex::encode(want)),
        o => ensure!(false, "commitment of a valid blob: {}", o.brief()),
    }
    Ok(seen(c))
}
fn c01_main(c: &Case) -> TestResult {
    let (b, _) = c.blob.expand();
    let ctx = context(c.setup, c.variant);
    // Lagrange form: sum of blob_i * L_{brp(i)}
    let want = g1_bytes(&msm(&main_points().1, &brp(&b)));
    match commit(&ctx, &blob_bytes(&b)) {
        Out::Ok(got) => ensure!(got == want, "commitment {} but the Lagrange form gives {}", hex::encode(got), hex::encode(want)),
        o => ensure!(false, "commitment of a valid blob: {}", o.brief()),
    }
    Ok(seen(c))
}
fn computed(c: &Case, b: &[Fr]) -> Result<CellsProofs, Fail> {
    let ctx = context(c.setup, c.variant);
    match compute(&ctx, &blob_bytes(b)) {
        Out::Ok(v) => Ok(v),
        o => Err(Fail::from(format!("cells and proofs of a valid blob: {}", o.brief()))),
    }
}
fn c02_cells(c: &Case) -> TestResult {
    let (b, coeffs) = c.blob.expand();
    let got = computed(c, &b)?;
    let (ext, want) = model_cells(&coeffs);
    ensure!(got.cells[..64].concat() == blob_bytes(&b), "the first 64 cells are not the blob");
    for k in 0..CELLS {
        if got.cells[k] != want[k] {
            let g = bytes_to_frs(&got.cells[k]);
            let j = (0..CELL).find(|j| got.cells[k][j * 32..j * 32 + 32] != want[k][j * 32..j * 32 + 32]);
            return Err(format!("cell {k} differs first at element {j:?} (canonical: {})", g.is_some()).into());
        }
    }
    let _ = ext;
    Ok(seen(c))
}
fn c03_tau(c: &Case) -> TestResult {
    let (b, coeffs) = c.blob.expand();
    let got = computed(c, &b)?;
    let t = tau_of(c);
    let ext = extended(&coeffs);
    let want = model_proofs(t, &coeffs, &ext);
    for k in 0..CELLS {
        ensure!(got.proofs[k] == want[k], "proof {k} is {} but q(tau)G is {}", hex::encode(got.proofs[k]), hex::encode(want[k]));
    }
    Ok(seen(c))
}
fn c03_main(c: &Case) -> TestResult {
    let (b, coeffs) = c.blob.expand();
    let got = computed(c, &b)?;
    let mut parsed = vec![];
    for (k, p) in got.proofs.iter().enumerate() {
        match Option::<G1Affine>::from(G1Affine::from_compressed(p)) {
            Some(x) => parsed.push(x),
            None => return Err(format!("proof {k} is not a canonical group element").into()),
        }
    }
    // Check all 128 at once: sum rho_k pi_k must commit to sum rho_k q_k.
    let mut rho = Mix(0xab5 ^ coeffs[0].to_bytes_be()[31] as u64);
    let weights: Vec<Fr> = (0..CELLS).map(|_| rho.fr()).collect();
    let mut q = vec![Fr::from(0u64); N];
    for (k, w) in weights.iter().enumerate() {
        let (qk, _) = div_xm_c(&coeffs, CELL, coset_pow(k));
        for (i, x) in qk.iter().enumerate() {
            q[i] += *x * *w;
        }
    }
    let want = msm(&main_points().0, &q);
    let mut sum = G1Projective::from(G1Affine::default());
    for (p, w) in parsed.iter().zip(&weights) {
        if !bool::from(group::prime::PrimeCurveAffine::is_identity(p)) {
            sum += *p * *w;
        }
    }
    if sum != want {
        // find one that is wrong, for the message
        for k in 0..CELLS {
            let (mut qk, _) = div_xm_c(&coeffs, CELL, coset_pow(k));
            qk.resize(N, Fr::from(0u64));
            let wk = g1_bytes(&msm(&main_points().0, &qk));
            ensure!(wk == got.proofs[k], "proof {k} is {} but the quotient commits to {}", hex::encode(got.proofs[k]), hex::encode(wk));
        }
        return Err("proofs do not match the quotients in combination".into());
    }
    Ok(seen(c))
}

pub fn properties() -> Vec<Property> {
    const RULE: &str = "blob drawn from 14 structured families (random, sparse, constant, pools of boundary scalars, runs, low-degree, sparse coefficients, vanishing on chosen cells, strided, mirrored), one of 3 context configurations; non-trivial: not the zero blob";
    let assume = vec![
        "the field and point arithmetic of blst/blstrs is correct (the model uses it too); single scalar multiplications of the generator are the reference",
    ];
    vec![
        Property {
            id: "C01",
            assumptions: assume.clone(),
            facets: vec![
                facet("tau-model", RULE, 3500, 150_000, |_| tau_case(), c01_tau),
                facet("main-lagrange", RULE, 1500, 60_000, |_| main_case(), c01_main),
            ],
        },
        Property {
            id: "C02",
            assumptions: assume.clone(),
            facets: vec![facet("cells-model", RULE, 560, 40_000, |_| any_case(), c02_cells)],
        },
        Property {
            id: "C03",
            assumptions: assume,
            facets: vec![
                facet("tau-model", RULE, 350, 20_000, |_| tau_case(), c03_tau),
                facet("main-quotients", RULE, 250, 12_000, |_| main_case(), c03_main),
            ],
        },
    ]
}
