//! C11: results do not depend on threads, precomputation or build.
use harness::calls::*;
use harness::ensure;
use harness::gen::Blob;
use harness::kzg::*;
use harness::pbt::*;
use harness::proc::Driver;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::process::Command;

/// The three builds: no feature, singlethreaded, multithreaded.
const BUILDS: [&str; 3] = ["default", "singlethreaded", "multithreaded"];
thread_local! {
    static WORKERS: RefCell<[Option<Driver>; 3]> = const { RefCell::new([None, None, None]) };
}
fn ask(build: usize, q: &str) -> Result<Value, String> {
    WORKERS.with(|w| {
        let mut w = w.borrow_mut();
        let mut d = w[build].take().unwrap_or_else(|| {
            let c = Command::new(verif_root().join("work/config").join(BUILDS[build]));
            Driver::spawn(&format!("config-{}", BUILDS[build]), c)
        });
        d.send(format!("{q}\n").as_bytes())?;
        let l = d.line()?;
        w[build] = Some(d);
        serde_json::from_str(&l).map_err(|e| format!("answer {l}: {e}"))
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cfg {
    build: u8,
    variant: Variant,
}
impl Cfg {
    fn name(&self) -> String {
        let b = self.build as usize % 3;
        let t = match self.variant.threads {
            _ if b != 2 => "".to_string(),
            0 => ", default threads".into(),
            n => format!(", {n} threads"),
        };
        let w = match self.variant.width {
            0 => ", no precomputation".to_string(),
            n => format!(", width {n}"),
        };
        format!("{} build{t}{w}", BUILDS[b])
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    setup: Setup,
    cfgs: Vec<Cfg>,
    calls: Vec<Call>,
}
fn c11(c: &Case) -> TestResult {
    let mut first: Option<Vec<Value>> = None;
    let mut kinds = std::collections::BTreeSet::new();
    for cfg in &c.cfgs {
        let q = json!({"setup": c.setup, "variant": cfg.variant, "calls": c.calls}).to_string();
        let r = ask(cfg.build as usize % 3, &q).map_err(|e| format!("{}: {e}", cfg.name()))?;
        if let Some(p) = r["panic"].as_str() {
            return Err(format!("{}: creating the context panics: {p}", cfg.name()).into());
        }
        let a = r["answers"].as_array().ok_or("no answers")?.clone();
        match &first {
            None => {
                for x in &a {
                    kinds.insert(x[1].as_str().unwrap_or("?").to_string());
                }
                first = Some(a);
            }
            Some(f) => {
                for (i, (x, y)) in f.iter().zip(&a).enumerate() {
                    ensure!(
                        x == y,
                        "call {i} ({}): {} gives {} {}, {} gives {} {}{}",
                        c.calls[i].label(),
                        c.cfgs[0].name(),
                        x[1],
                        x[2],
                        cfg.name(),
                        y[1],
                        y[2],
                        if x[0] != y[0] { " (on arguments made by different builds)" } else { "" }
                    );
                }
            }
        }
    }
    for x in first.iter().flatten() {
        ensure!(x[1] != "panic", "every configuration panics: {}", x[2]);
    }
    let mut seen = Seen::new(true);
    for k in kinds {
        seen = seen.label(k);
    }
    for cfg in &c.cfgs {
        seen = seen.label(format!("build {}", BUILDS[cfg.build as usize % 3])).label(format!("width {}", cfg.variant.width));
        if cfg.build % 3 == 2 {
            seen = seen.label(format!("threads {}", cfg.variant.threads));
        }
    }
    Ok(seen)
}
fn cfg(t: Tier) -> BoxedStrategy<Cfg> {
    let top = if t == Tier::Quick { 9u8 } else { 11 };
    let width = prop_oneof![4 => Just(0u8), 5 => 1u8..7, 1 => 7u8..=8, 1 => 1u8..=top];
    let threads = prop_oneof![1 => Just(0u8), 1 => Just(1u8), 4 => 2u8..9, 1 => 9u8..40];
    (0u8..3, threads, width).prop_map(|(build, threads, width)| Cfg { build, variant: Variant { threads, width } }).boxed()
}
const KINDS: Kinds = Kinds { sizes: false, nulls: false, bigs: false };
fn case(t: Tier) -> BoxedStrategy<Case> {
    let setup = prop_oneof![3 => Just(Setup::Main), 4 => (0u8..TAUS).prop_map(Setup::Tau)];
    let pattern = |seed: u64| BlobArg::Spec(if seed % 8 < 6 { Blob::TopMixed(seed) } else { Blob::Mixed(seed) });
    let calls = prop_oneof![
        3 => any::<u64>().prop_map(move |s| Call::Compute(pattern(s))),
        1 => any::<u64>().prop_map(|s| Call::Commit(BlobArg::Spec(Blob::Mixed(s)))),
        3 => call_commit(KINDS),
        2 => call_compute(KINDS),
        2 => call_recover(KINDS),
        6 => call_verify(KINDS),
    ];
    (setup, prop::collection::vec(cfg(t), 2..4), prop::collection::vec(calls, 2..11))
        .prop_map(|(setup, cfgs, calls)| Case { setup, cfgs, calls })
        .boxed()
}
fn build() -> Vec<Property> {
    vec![Property {
        id: "C11",
        assumptions: vec![
            "thread counts up to 39, precomputation widths 0-9 (thorough: 11)",
            "that the results are the right ones is decided by the other properties, mostly in the multi-threaded build",
        ],
        facets: vec![facet_w(
            "configurations",
            "two to ten calls of the four operations, valid and faulty, made under two or three configurations (build, threads, width) in processes of their own; same bytes, same verdict, or errors in all; every case is non-trivial",
            32,
            3_000,
            8,
            case,
            c11,
        )],
    }]
}
fn main() {
    harness::pbt::main(build)
}
