//! C14, C15, C16: the Java, Node and Go bindings, each driven in processes of
//! its own and compared with the Rust library on the same arguments.  C23: what
//! they and the C interface hold on to.
mod mem;
use harness::calls::*;
use harness::gen::blob;
use harness::kzg::{context, CellsProofs, Setup, WIDE};
use harness::pbt::*;
use harness::proc::Driver;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashMap;
use std::process::Command;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Lang {
    Java,
    Node,
    Go,
    C,
}
#[global_allocator]
static ALLOCATOR: mem::Counting = mem::Counting;

fn start(l: Lang) -> Driver {
    Driver::spawn(&format!("{l:?}"), command(l))
}
fn command(l: Lang) -> Command {
        let root = verif_root();
        match l {
            Lang::Java => {
                let mut c = Command::new("java");
                c.args(["-Xmx2g", "-Xss2m", "-XX:+UseSerialGC", "-XX:-CreateCoredumpOnCrash", "-XX:ErrorFile=/dev/null", "-cp"]);
                c.arg(root.join("work/java")).arg("Driver");
                c
            }
            Lang::Node => {
                let mut c = Command::new("node");
                c.arg("--expose-gc").arg(root.join("drivers/node/driver.js")).arg(root.join("work/ws/bindings/node/index.js"));
                c
            }
            Lang::Go => {
                let mut c = Command::new(root.join("work/go/driver"));
                // Freed memory is overwritten.
                c.env("MALLOC_PERTURB_", "165").env("GOTRACEBACK", "none");
                c
            }
            Lang::C => Command::new(root.join("work/c/driver")),
        }
}
/// Answers of the drivers.
trait Answers {
    fn get_i32(&mut self) -> Result<i32, String>;
    fn get_bytes(&mut self) -> Result<Vec<u8>, String>;
    fn get_list(&mut self) -> Result<Vec<Vec<u8>>, String>;
    fn answer(&mut self) -> Result<Res, String>;
    fn answer_of(&mut self, k: u8) -> Result<Res, String>;
}
impl Answers for Driver {
    fn get_i32(&mut self) -> Result<i32, String> {
        Ok(i32::from_be_bytes(self.get(4)?.try_into().unwrap()))
    }
    fn get_bytes(&mut self) -> Result<Vec<u8>, String> {
        let n = self.get_i32()?;
        if !(0..1 << 28).contains(&n) {
            return Err(format!("a result that is not a byte array (length {n})"));
        }
        self.get(n as usize)
    }
    fn get_list(&mut self) -> Result<Vec<Vec<u8>>, String> {
        let n = self.get_i32()?;
        if !(0..1 << 20).contains(&n) {
            return Err(format!("a result that is not a list (length {n})"));
        }
        (0..n).map(|_| self.get_bytes()).collect()
    }
    fn answer(&mut self) -> Result<Res, String> {
        self.asked();
        let k = self.get(1)?[0];
        self.asked();
        let r = self.answer_of(k);
        // Waiting again starts with the next question or answer.
        self.idle();
        r
    }
    fn answer_of(&mut self, k: u8) -> Result<Res, String> {
        match k {
            0 => Ok(Res::Bytes(self.get_bytes()?)),
            1 => {
                let cells = self.get_list()?;
                let proofs = self.get_list()?;
                let p: Result<Vec<[u8; 48]>, String> =
                    proofs.into_iter().map(|p| p.try_into().map_err(|p: Vec<u8>| format!("a proof of {} bytes", p.len()))).collect();
                Ok(Res::Cells(CellsProofs { cells, proofs: p? }))
            }
            2 => Ok(Res::Bool(self.get(1)?[0] == 1)),
            3 => Ok(Res::Fail(String::from_utf8_lossy(&self.get_bytes()?).into_owned())),
            4 => Ok(Res::Bytes(vec![])),
            5 => Ok(Res::Cells(CellsProofs { cells: self.get_list()?, proofs: vec![] })),
            9 => Err("a null result without an exception".into()),
            10 => Err("the caller's arguments, or memory around them, were changed".into()),
            11 => Err("the same call again gives another answer".into()),
            k => Err(format!("answer of kind {k}")),
        }
    }
}
fn put_bytes(o: &mut Vec<u8>, b: &Bytes) {
    match b {
        None => o.extend((-1i32).to_be_bytes()),
        Some(b) => {
            o.extend((b.len() as i32).to_be_bytes());
            o.extend(b);
        }
    }
}
fn put_list(o: &mut Vec<u8>, l: &List) {
    match l {
        None => o.extend((-1i32).to_be_bytes()),
        Some(l) => {
            o.extend((l.len() as i32).to_be_bytes());
            l.iter().for_each(|b| put_bytes(o, b));
        }
    }
}
fn put_args(o: &mut Vec<u8>, a: &Args, cells_only: bool) {
    o.push(if cells_only && a.op == COMPUTE { 4 } else { a.op });
    put_bytes(o, &a.blob);
    put_list(o, &a.coms);
    match &a.idx {
        None => o.extend((-1i32).to_be_bytes()),
        Some(v) => {
            o.extend((v.len() as i32).to_be_bytes());
            for x in v {
                o.push(x.neg as u8 | (x.wide as u8) << 1);
                o.extend(x.hi.to_be_bytes());
                o.extend(x.lo.to_be_bytes());
            }
        }
    }
    put_list(o, &a.cells);
    put_list(o, &a.proofs);
}

/// The long-lived driver of this thread, with its contexts (slots 0-2).
struct Standing {
    d: Driver,
    open: [bool; 5],
}
thread_local! {
    static STANDING: RefCell<HashMap<Lang, Standing>> = RefCell::new(HashMap::new());
}
/// (flavour, threads): 0 explicit without precomputation, 1 with, 2 the default constructor
const FLAVOURS: [(u8, u8); 5] = [(0, 1), (2, 0), (0, 4), (1, 2), (0, 0)];

fn with_standing<T>(l: Lang, slot: u8, f: impl FnOnce(&mut Driver) -> Result<T, String>) -> Result<T, String> {
    STANDING.with(|m| {
        let mut m = m.borrow_mut();
        let mut s = m.remove(&l).unwrap_or_else(|| Standing { d: start(l), open: [false; 5] });
        let slot = slot as usize % 5;
        let r = (|| {
            if !s.open[slot] {
                let (a, b) = FLAVOURS[slot];
                s.d.send(&[1, slot as u8, 0, a, b])?;
                match s.d.answer()? {
                    Res::Bytes(_) => s.open[slot] = true,
                    r => return Err(format!("creating a context: {}", r.brief())),
                }
            }
            f(&mut s.d)
        })();
        if r.is_ok() {
            m.insert(l, s);
        }
        r
    })
}

fn want(a: &Args, cells_only: bool) -> Result<Res, String> {
    Ok(match expected(&context(Setup::Main, WIDE), a)? {
        Res::Cells(mut c) if cells_only && a.op == COMPUTE => {
            c.proofs.clear();
            Res::Cells(c)
        }
        r => r,
    })
}
fn compare(label: &str, got: &Res, want: &Res) -> Result<(), String> {
    if !got.same(want) {
        return Err(format!("{label}: the binding gives {}, the Rust library {}", got.brief(), want.brief()));
    }
    if let Res::Fail(m) = got {
        if m.is_empty() || m.starts_with("not an Error") {
            return Err(format!("{label}: a failure without a proper error: {m}"));
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct One {
    slot: u8,
    style: u8,
    asynchronous: bool,
    cells_only: bool,
    call: Call,
}
fn one(k: Kinds, call: fn(Kinds) -> BoxedStrategy<Call>, slots: BoxedStrategy<u8>) -> BoxedStrategy<One> {
    (slots, 0u8..4, any::<bool>(), prop::bool::weighted(0.3), call(k))
        .prop_map(|(slot, style, asynchronous, cells_only, call)| One { slot, style, asynchronous, cells_only, call })
        .boxed()
}
fn run_one(l: Lang, c: &One) -> TestResult {
    let cells_only = l == Lang::Node && c.cells_only;
    let a = c.call.args();
    let w = want(&a, cells_only)?;
    let mut m = vec![0, c.slot, c.style | (c.asynchronous as u8) << 7];
    put_args(&mut m, &a, cells_only);
    let got = with_standing(l, c.slot, |d| {
        d.send(&m)?;
        d.answer()
    })
    .map_err(|e| format!("{}: {e}; the Rust library gives {}", c.call.label(), w.brief()))?;
    compare(c.call.label(), &got, &w)?;
    Ok(Seen::new(true).label(format!("{}: {}", c.call.label(), w.kind())))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    New(u8, u8, u8),
    Close(u8, bool),
    Gc,
    Call(u8, u8, bool, Call),
    Together(u8, u8, Vec<Call>, bool),
}
/// Contexts 0-2; the model is which of them exist.
fn run_history(l: Lang, steps: &[Step]) -> TestResult {
    let mut d = start(l);
    #[derive(Clone, Copy, PartialEq)]
    enum St {
        Never,
        Open,
        Closed,
    }
    let mut st = [St::Never; 3];
    let (mut calls, mut fails, mut after_close) = (0, 0, 0);
    for (i, s) in steps.iter().enumerate() {
        let at = |e: String| format!("step {i}: {e}");
        match s {
            Step::New(slot, f, t) => {
                let slot = slot % 3;
                if st[slot as usize] == St::Open && l == Lang::Java {
                    continue; // would leak the open one
                }
                d.send(&[1, slot, 0, f % 3, t % 5]).map_err(at)?;
                match d.answer().map_err(at)? {
                    Res::Bytes(_) => st[slot as usize] = St::Open,
                    r => return Err(at(format!("creating a context: {}", r.brief())).into()),
                }
            }
            Step::Close(slot, k) => {
                let slot = slot % 3;
                if st[slot as usize] != St::Never {
                    d.send(&[2, slot, 0]).map_err(at)?;
                    d.send(&[*k as u8]).map_err(at)?;
                    match d.answer().map_err(at)? {
                        Res::Bytes(_) => st[slot as usize] = St::Closed,
                        r => return Err(at(format!("closing a context: {}", r.brief())).into()),
                    }
                }
            }
            Step::Gc => {
                d.send(&[3, 0, 0]).map_err(at)?;
                d.answer().map_err(at)?;
            }
            Step::Call(slot, style, asynchronous, c) => {
                let slot = slot % 3;
                let s = st[slot as usize];
                if s == St::Never || (s == St::Closed && l != Lang::Java) {
                    continue;
                }
                let a = c.args();
                let w = if s == St::Closed {
                    after_close += 1;
                    Res::Fail("the library is closed".into())
                } else {
                    want(&a, false)?
                };
                fails += matches!(w, Res::Fail(_)) as u32;
                calls += 1;
                let mut m = vec![0, slot, style | (*asynchronous as u8) << 7];
                put_args(&mut m, &a, false);
                d.send(&m).map_err(at)?;
                let got = d.answer().map_err(at)?;
                compare(c.label(), &got, &w).map_err(at)?;
            }
            Step::Together(slot, style, cs, last) => {
                let slot = slot % 3;
                if st[slot as usize] != St::Open || cs.is_empty() {
                    continue;
                }
                let last = *last && l != Lang::Java;
                let cmd = if last && l == Lang::Go { 5 } else { 4 };
                let mut m = vec![cmd, slot, style | (last as u8) << 7];
                m.extend((cs.len() as u32).to_be_bytes());
                let mut ws = vec![];
                for c in cs {
                    let a = c.args();
                    put_args(&mut m, &a, false);
                    let w = want(&a, false)?;
                    fails += matches!(w, Res::Fail(_)) as u32;
                    calls += 1;
                    ws.push((c.label(), w));
                }
                d.send(&m).map_err(at)?;
                // All answers are read before any is judged.
                let got: Vec<Res> = ws.iter().map(|_| d.answer()).collect::<Result<_, _>>().map_err(at)?;
                for ((label, w), g) in ws.iter().zip(&got) {
                    compare(&format!("{} of {} calls at once", label, cs.len()), g, w).map_err(at)?;
                }
                if last {
                    st[slot as usize] = St::Closed;
                }
            }
        }
    }
    // Whatever happened, the library is still usable.
    d.send(&[1, 9, 0, 0, 1])?;
    match d.answer()? {
        Res::Bytes(_) => {}
        r => return Err(format!("creating a context at the end: {}", r.brief()).into()),
    }
    let a = Call::Commit(BlobArg::Row(0)).args();
    let mut m = vec![0, 9, 0];
    put_args(&mut m, &a, false);
    d.send(&m)?;
    let got = d.answer()?;
    compare("a commitment at the end", &got, &want(&a, false)?)?;
    Ok(Seen::new(calls >= 2).label_if(fails > 0, "with failed calls").label_if(after_close > 0, "with calls after close"))
}

const JAVA: Kinds = Kinds { sizes: true, nulls: true, bigs: false };
const NODE: Kinds = Kinds { sizes: true, nulls: false, bigs: true };
const C: Kinds = Kinds { sizes: false, nulls: false, bigs: false };
const GO: Kinds = Kinds { sizes: true, nulls: true, bigs: false };

fn slots() -> BoxedStrategy<u8> {
    prop_oneof![6 => Just(0u8), 2 => Just(1u8), 3 => Just(2u8)].boxed()
}
fn cheap_slots() -> BoxedStrategy<u8> {
    prop_oneof![6 => Just(0u8), 1 => Just(2u8)].boxed()
}
/// `turnover`: contexts come and go, and calls at once are often their last use.
fn history(k: Kinds, call: fn(Kinds) -> BoxedStrategy<Call>, together: fn(Kinds) -> BoxedStrategy<Call>, max: usize, turnover: bool) -> BoxedStrategy<Vec<Step>> {
    let new = (0u8..3, prop_oneof![4 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)], 0u8..5).prop_map(|(a, b, c)| Step::New(a, b, c));
    let w = if turnover { 4 } else { 1 };
    let step = prop_oneof![
        w + 1 => new,
        2 => (0u8..3, any::<bool>()).prop_map(|(a, b)| Step::Close(a, b)),
        1 => Just(Step::Gc),
        9 - w => (0u8..3, 0u8..4, any::<bool>(), call(k)).prop_map(|(a, b, c, d)| Step::Call(a, b, c, d)),
        w + 2 => (0u8..3, 0u8..4, prop::collection::vec(together(k), 2..7), prop::bool::weighted(if turnover { 0.6 } else { 0.3 })).prop_map(|(a, b, c, d)| Step::Together(a, b, c, d)),
    ];
    prop::collection::vec(step, 2..max)
        .prop_map(|mut v| {
            v.insert(0, Step::New(0, 0, 1));
            // Most steps are about the context that certainly exists.
            for (i, s) in v.iter_mut().enumerate() {
                if i % 2 == 1 {
                    if let Step::Call(slot, ..) | Step::Together(slot, ..) = s {
                        *slot = 0;
                    }
                }
            }
            v
        })
        .boxed()
}
fn light(k: Kinds) -> BoxedStrategy<Call> {
    prop_oneof![2 => call_commit(k), 4 => call_verify(k)].boxed()
}
fn mixed(k: Kinds) -> BoxedStrategy<Call> {
    prop_oneof![6 => call_commit(k), 12 => call_verify(k), 1 => call_compute(k), 1 => call_recover(k)].boxed()
}
fn spread(k: Kinds) -> BoxedStrategy<Call> {
    prop_oneof![2 => call_commit(k), 2 => call_compute(k), 2 => call_recover(k), 3 => call_verify(k)].boxed()
}
fn go_call(k: Kinds) -> BoxedStrategy<Call> {
    prop_oneof![
        2 => call_commit(k),
        1 => blob().prop_map(|b| Call::Commit(BlobArg::Spec(b))),
    ]
    .boxed()
}

fn java_one(c: &One) -> TestResult {
    run_one(Lang::Java, c)
}
fn node_one(c: &One) -> TestResult {
    run_one(Lang::Node, c)
}
fn go_one(c: &One) -> TestResult {
    run_one(Lang::Go, c)
}
fn java_history(s: &Vec<Step>) -> TestResult {
    run_history(Lang::Java, s)
}
fn node_history(s: &Vec<Step>) -> TestResult {
    run_history(Lang::Node, s)
}
fn go_history(s: &Vec<Step>) -> TestResult {
    run_history(Lang::Go, s)
}

fn build() -> Vec<Property> {
    const ONE: &str = "one call with valid or faulty arguments (bytes, lengths, sizes, indices) made in the driver process and in-process with the Rust library; same bytes, same verdict, or failures on both sides; every case is non-trivial";
    const HIST: &str = "a fresh process: contexts created, closed, recreated, collections, calls, sets of calls at once (some as the last use of their context), then a final commitment; non-trivial: at least two calls";
    const LOOP: &str = "1-3 calls, valid or faulty in any way, made again and again on one context, each window as often as all before it (up to 64 times the first); what the library, and the runtime after a collection, hold must not grow each time; every case is non-trivial";
    const NEW: &str = "calls of one kind (valid, false, or faulty in one way) with new arguments every time, each window as many as all before it; what the library and the runtime hold must not grow each time; every case is non-trivial";
    const TURN: &str = "a context made, used for 0-2 calls and freed (or dropped and collected), up to 8 times; neither memory nor threads may grow each time; every case is non-trivial";
    vec![
        Property {
            id: "C14",
            assumptions: vec!["a driver process that ends or stops answering is a crash of the virtual machine"],
            facets: vec![
                facet("commitment", ONE, 150, 20_000, |_| one(JAVA, call_commit, slots()), java_one),
                facet("verification", ONE, 1500, 150_000, |_| one(JAVA, call_verify, slots()), java_one),
                facet("compute", ONE, 48, 8_000, |_| one(JAVA, call_compute, cheap_slots()), java_one),
                facet("recovery", ONE, 150, 20_000, |_| one(JAVA, call_recover, cheap_slots()), java_one),
                facet_w("widest", "one verification of over 2^16 entries, mostly with one that is false and not among the first n - 2^16", 2, 24, 2, |_| one(JAVA, |_| call_widest(), cheap_slots()), java_one),
                facet_w("history", HIST, 16, 1_500, 4, |_| history(JAVA, mixed, light, 12, false), java_history),
            ],
        },
        Property {
            id: "C15",
            assumptions: vec!["a driver process that ends or stops answering is an abort of the process"],
            facets: vec![
                facet("commitment", ONE, 200, 20_000, |_| one(NODE, call_commit, slots()), node_one),
                facet("verification", ONE, 1500, 150_000, |_| one(NODE, call_verify, slots()), node_one),
                facet("compute", ONE, 48, 8_000, |_| one(NODE, call_compute, cheap_slots()), node_one),
                facet("recovery", ONE, 150, 20_000, |_| one(NODE, call_recover, cheap_slots()), node_one),
                facet_w("widest", "one verification of over 2^16 entries, mostly with one that is false and not among the first n - 2^16", 2, 24, 2, |_| one(NODE, |_| call_widest(), cheap_slots()), node_one),
                facet_w("history", HIST, 16, 1_500, 4, |_| history(NODE, mixed, mixed, 12, false), node_history),
            ],
        },
        Property {
            id: "C16",
            assumptions: vec!["a driver process that ends or stops answering is a crash", "freed memory is overwritten (MALLOC_PERTURB_), so that a use after release shows"],
            facets: vec![
                facet("calls", ONE, 300, 30_000, |_| one(GO, go_call, Just(0u8).boxed()), go_one),
                facet_w("history", HIST, 14, 2_000, 8, |_| history(GO, go_call, go_call, 9, true), go_history),
            ],
        },
        Property {
            id: "C23",
            assumptions: vec![
                "what is kept for the same arguments every time, or for every context, is counted; what a bounded cache fills itself with is not",
                "allocations are attributed to the library by the address of the caller of malloc",
            ],
            facets: vec![
                facet_w("rust", LOOP, 16, 2_000, 1, |_| mem::repeat(C, spread), mem::rust),
                facet_w("rust-new", NEW, 24, 3000, 1, |_| mem::fresh_calls(false), mem::fresh_rust),
                facet_w("rust-contexts", TURN, 6, 400, 1, |_| mem::turnover(C, light), mem::rust),
                facet_w("c", LOOP, 24, 4_000, 6, |_| mem::repeat(C, spread), |c| mem::binding(Lang::C, c)),
                facet_w("c-new", NEW, 24, 3000, 6, |_| mem::fresh_calls(false), |c| mem::fresh_binding(Lang::C, c)),
                facet_w("c-contexts", TURN, 8, 600, 6, |_| mem::turnover(C, light), |c| mem::binding(Lang::C, c)),
                facet_w("java", LOOP, 18, 2_000, 6, |_| mem::repeat(JAVA, spread), |c| mem::binding(Lang::Java, c)),
                facet_w("java-new", NEW, 12, 1500, 6, |_| mem::fresh_calls(false), |c| mem::fresh_binding(Lang::Java, c)),
                facet_w("java-contexts", TURN, 6, 400, 6, |_| mem::turnover(JAVA, light), |c| mem::binding(Lang::Java, c)),
                facet_w("node", LOOP, 14, 2_000, 6, |_| mem::repeat(NODE, spread), |c| mem::binding(Lang::Node, c)),
                facet_w("node-new", NEW, 12, 1500, 6, |_| mem::fresh_calls(false), |c| mem::fresh_binding(Lang::Node, c)),
                facet_w("node-contexts", TURN, 6, 400, 6, |_| mem::turnover(NODE, light), |c| mem::binding(Lang::Node, c)),
                facet_w("go", LOOP, 12, 800, 6, |_| mem::repeat(GO, go_call), |c| mem::binding(Lang::Go, c)),
                facet_w("go-new", NEW, 4, 400, 6, |_| mem::fresh_calls(true), |c| mem::fresh_binding(Lang::Go, c)),
                facet_w("go-contexts", TURN, 4, 200, 6, |_| mem::turnover(GO, go_call), |c| mem::binding(Lang::Go, c)),
            ],
        },
    ]
}
fn main() {
    harness::pbt::main(build)
}
