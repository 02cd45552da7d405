//! The library under test, wrapped: contexts by configuration, and outcomes
//! as plain values.
use crate::model::*;
use crate::pbt::no_panic;
use proptest::prelude::*;
use rust_eth_kzg::{DASContext, Error, TrustedSetup, UsePrecomp};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

/// Which trusted setup: the embedded one, or one whose secret is known.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Setup {
    Main,
    Tau(u8),
}
pub const TAUS: u8 = 3;

pub fn tau(i: u8) -> &'static Tau {
    static T: [OnceLock<Tau>; TAUS as usize] = [OnceLock::new(), OnceLock::new(), OnceLock::new()];
    let i = i % TAUS;
    T[i as usize].get_or_init(|| {
        Tau::new(match i {
            0 => Mix(0x7a0).fr(),
            1 => Fr::from(2u64),
            _ => -Mix(0x7a2).fr(),
        })
    })
}
pub fn setup_of(s: Setup) -> TrustedSetup {
    match s {
        Setup::Main => TrustedSetup::default(),
        Setup::Tau(i) => {
            let t = tau(i);
            TrustedSetup {
                g1_monomial: t.g1_monomial.clone(),
                g1_lagrange: t.g1_lagrange.clone(),
                g2_monomial: t.g2_monomial.clone(),
            }
        }
    }
}

/// Threads and precomputation of a context. threads 0 = the library's "sensible default".
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Variant {
    pub threads: u8,
    pub width: u8,
}
pub const PLAIN: Variant = Variant { threads: 1, width: 0 };

pub fn precomp(width: u8) -> UsePrecomp {
    if width == 0 {
        UsePrecomp::No
    } else {
        UsePrecomp::Yes { width: width as usize }
    }
}
pub fn new_context(s: Setup, v: Variant) -> DASContext {
    let ts = setup_of(s);
    #[cfg(feature = "mt")]
    {
        use rust_eth_kzg::ThreadCount;
        let tc = match v.threads {
            0 => ThreadCount::SensibleDefault,
            1 => ThreadCount::Single,
            n => ThreadCount::Multi(n as usize),
        };
        DASContext::with_threads(&ts, tc, precomp(v.width))
    }
    #[cfg(not(feature = "mt"))]
    {
        DASContext::new(&ts, precomp(v.width))
    }
}

thread_local! {
    static CTX: RefCell<HashMap<(Setup, Variant), Arc<DASContext>>> = RefCell::new(HashMap::new());
}
type SharedMap = Mutex<HashMap<(Setup, Variant), Arc<OnceLock<Arc<DASContext>>>>>;
static SHARED: OnceLock<SharedMap> = OnceLock::new();

/// A context for a configuration, built once per worker thread - or once per
/// process for pools of eight threads, which eight workers can share.
pub fn context(s: Setup, v: Variant) -> Arc<DASContext> {
    if v.threads == 8 {
        let cell = SHARED
            .get_or_init(Default::default)
            .lock()
            .unwrap_or_else(|e| e.into_inner())
            .entry((s, v))
            .or_default()
            .clone();
        return cell.get_or_init(|| Arc::new(new_context(s, v))).clone();
    }
    if let Some(c) = CTX.with(|m| m.borrow().get(&(s, v)).cloned()) {
        return c;
    }
    let c = Arc::new(new_context(s, v));
    CTX.with(|m| {
        let mut m = m.borrow_mut();
        if m.len() >= 12 {
            m.clear();
        }
        m.insert((s, v), c.clone());
    });
    c
}

/// The shared eight-thread contexts, with and without precomputation.
pub const WIDE: Variant = Variant { threads: 8, width: 8 };
pub const WIDE0: Variant = Variant { threads: 8, width: 0 };

/// Mostly the fast configuration, with others mixed in.
pub fn variant() -> BoxedStrategy<Variant> {
    prop_oneof![
        6 => Just(WIDE),
        2 => Just(WIDE0),
        2 => Just(PLAIN),
        1 => Just(Variant { threads: 8, width: 5 }),
    ]
    .boxed()
}

/// An outcome, with errors reduced to the documented distinction.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out<T> {
    Ok(T),
    /// an error that is not "the proof is invalid"
    Err(String),
    InvalidProof,
    Panic(String),
}
impl<T> Out<T> {
    pub fn kind(&self) -> &'static str {
        match self {
            Out::Ok(_) => "ok",
            Out::Err(_) => "error",
            Out::InvalidProof => "invalid-proof",
            Out::Panic(_) => "panic",
        }
    }
    pub fn brief(&self) -> String {
        match self {
            Out::Err(e) => format!("error({})", e.chars().take(120).collect::<String>()),
            Out::Panic(e) => format!("panic({e})"),
            o => o.kind().into(),
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
    pub fn is_err(&self) -> bool {
        matches!(self, Out::Err(_))
    }
}
pub fn out<T>(f: impl FnOnce() -> Result<T, Error>) -> Out<T> {
    match no_panic(f) {
        Ok(Ok(v)) => Out::Ok(v),
        Ok(Err(e)) => {
            if e.invalid_proof() {
                Out::InvalidProof
            } else {
                Out::Err(format!("{e:?}"))
            }
        }
        Err(m) => Out::Panic(m),
    }
}

/// Cells and proofs, flattened.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct CellsProofs {
    pub cells: Vec<Vec<u8>>,
    pub proofs: Vec<[u8; 48]>,
}

pub fn commit(c: &DASContext, blob: &[u8]) -> Out<[u8; 48]> {
    let b: &[u8; BLOB_BYTES] = blob.try_into().expect("blob size");
    out(|| c.blob_to_kzg_commitment(b))
}
pub fn compute(c: &DASContext, blob: &[u8]) -> Out<CellsProofs> {
    let b: &[u8; BLOB_BYTES] = blob.try_into().expect("blob size");
    flat(out(|| c.compute_cells_and_kzg_proofs(b)))
}
type Raw = ([rust_eth_kzg::Cell; CELLS], [rust_eth_kzg::KZGProof; CELLS]);
fn flat(o: Out<Raw>) -> Out<CellsProofs> {
    match o {
        Out::Ok((c, p)) => Out::Ok(CellsProofs {
            cells: c.iter().map(|x| x.to_vec()).collect(),
            proofs: p.to_vec(),
        }),
        Out::Err(e) => Out::Err(e),
        Out::InvalidProof => Out::InvalidProof,
        Out::Panic(e) => Out::Panic(e),
    }
}
pub fn recover(c: &DASContext, idx: &[u64], cells: &[&[u8]]) -> Out<CellsProofs> {
    let cells: Vec<&[u8; CELL_BYTES]> = cells.iter().map(|x| (*x).try_into().expect("cell size")).collect();
    flat(out(|| c.recover_cells_and_kzg_proofs(idx.to_vec(), cells)))
}
pub fn verify_raw(c: &DASContext, coms: &[[u8; 48]], idx: &[u64], cells: &[&[u8]], proofs: &[[u8; 48]]) -> Out<()> {
    let cells: Vec<&[u8; CELL_BYTES]> = cells.iter().map(|x| (*x).try_into().expect("cell size")).collect();
    out(|| c.verify_cell_kzg_proof_batch(coms.iter().collect(), idx.to_vec(), cells, proofs.iter().collect()))
}
pub fn verify(c: &DASContext, es: &[Entry]) -> Out<()> {
    let coms: Vec<_> = es.iter().map(|e| e.commitment).collect();
    let idx: Vec<_> = es.iter().map(|e| e.index).collect();
    let cells: Vec<&[u8]> = es.iter().map(|e| e.cell.as_slice()).collect();
    let proofs: Vec<_> = es.iter().map(|e| e.proof).collect();
    verify_raw(c, &coms, &idx, &cells, &proofs)
}

/// What the model says the library must return for a polynomial, under a known secret.
pub fn model_cells(coeffs: &[Fr]) -> (Vec<Fr>, Vec<Vec<u8>>) {
    let ext = extended(coeffs);
    let cells = ext.chunks(CELL).map(cell_bytes).collect();
    (ext, cells)
}
pub fn model_proofs(t: &Tau, coeffs: &[Fr], ext: &[Fr]) -> Vec<[u8; 48]> {
    let c = t.at(coeffs);
    (0..CELLS).map(|k| g1(t.proof_log(c, k, &ext[k * CELL..(k + 1) * CELL]))).collect()
}
