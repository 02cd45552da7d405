//! Answers for one build of the library: reads calls and configurations as
//! lines of JSON, writes digests of the results.  Built three times.
use harness::calls::*;
use harness::kzg::*;
use harness::pbt::no_panic;
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use std::io::{BufRead, Write};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    // The last few contexts are kept: shrinking asks for the same ones again.
    let mut kept: Vec<((Setup, Variant), std::rc::Rc<rust_eth_kzg::DASContext>)> = vec![];
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let q: Value = serde_json::from_str(&line.expect("input")).expect("json");
        let setup: Setup = serde_json::from_value(q["setup"].clone()).expect("setup");
        let variant: Variant = serde_json::from_value(q["variant"].clone()).expect("variant");
        let calls: Vec<Call> = serde_json::from_value(q["calls"].clone()).expect("calls");
        use_setup(setup);
        let answers = no_panic(|| {
            let ctx = match kept.iter().find(|(k, _)| *k == (setup, variant)) {
                Some((_, c)) => c.clone(),
                None => {
                    let c = std::rc::Rc::new(new_context(setup, variant));
                    kept.truncate(3);
                    kept.insert(0, ((setup, variant), c.clone()));
                    c
                }
            };
            calls
                .iter()
                .map(|c| {
                    let a = c.args();
                    // The arguments' digest shows that every build was given the same.
                    let args = hex::encode(Sha256::digest(format!("{a:?}").as_bytes()));
                    let (kind, data) = match expected(&ctx, &a) {
                        Ok(Res::Bytes(b)) => ("bytes", hex::encode(b)),
                        Ok(Res::Cells(c)) => {
                            ("cells", hex::encode(Sha256::digest(c.cells.concat())) + &hex::encode(Sha256::digest(c.proofs.concat())))
                        }
                        Ok(Res::Bool(b)) => (if b { "valid" } else { "invalid" }, String::new()),
                        Ok(Res::Fail(_)) => ("error", String::new()),
                        Err(m) => ("panic", m),
                    };
                    json!([args, kind, data])
                })
                .collect::<Vec<_>>()
        });
        let r = match answers {
            Ok(a) => json!({"answers": a}),
            Err(m) => json!({"panic": m}),
        };
        let mut o = out.lock();
        writeln!(o, "{r}").and_then(|_| o.flush()).expect("output");
    }
}
