//! Properties of the public library, checked through its public API only.
mod encodings;
mod history;
mod malformed;
mod prover;
mod recovery;
mod setup;
mod verifier;
use harness::pbt::{main as run, Property};

fn build() -> Vec<Property> {
    let mut v = vec![];
    v.extend(prover::properties());
    v.extend(verifier::properties());
    v.extend(recovery::properties());
    v.extend(malformed::properties());
    v.extend(encodings::properties());
    v.extend(history::properties());
    v.extend(setup::properties());
    v
}
fn main() {
    run(build)
}
