//! C23: nothing accumulates, in the Rust library and through each binding.
//!
//! The same calls are made again and again.  What the library has allocated and
//! not given back is counted exactly: by the global allocator for the Rust
//! library, by a preloaded allocator that knows who called it for the bindings
//! (`tools/heapwatch.c`).  Something that is kept grows in every window;
//! caches, pools and tables that are filled once do not.
use super::*;
use harness::calls::*;
use harness::model::*;
use harness::kzg::{new_context, Variant};
use std::alloc::{GlobalAlloc, Layout, System};
use std::os::unix::fs::FileExt;
use std::path::PathBuf;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};

pub struct Counting;
static BYTES: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        BYTES.fetch_add(l.size() as i64, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        BYTES.fetch_add(l.size() as i64, Ordering::Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        BYTES.fetch_sub(l.size() as i64, Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        BYTES.fetch_add(n as i64 - l.size() as i64, Ordering::Relaxed);
        System.realloc(p, l, n)
    }
}

/// What is in use: bytes held by the library, by the caller's runtime, threads.
#[derive(Clone, Copy, Debug, Default)]
struct Use {
    library: i64,
    runtime: i64,
    threads: i64,
}
fn threads_of(pid: &str) -> i64 {
    std::fs::read_dir(format!("/proc/{pid}/task")).map(|d| d.count() as i64).unwrap_or(0)
}
const WINDOWS: usize = 6;
/// What is kept for one unit of work.
#[derive(Clone, Copy)]
struct Least {
    library: i64,
    runtime: i64,
    /// noise of the runtime, whatever the amount of work
    floor: i64,
}
/// Runs windows that each do as much as all before them, until one does not grow;
/// if all do, something accumulates.  (A vector or table that is filled doubles its
/// memory when its contents double, not before.)  `window(k)` does k units of work.
fn settle(first: u32, least: Least, mut window: impl FnMut(u32) -> Result<(), String>, mut used: impl FnMut() -> Result<Use, String>) -> Result<(), String> {
    window(first)?; // tables, pools and buffers that are filled once
    let mut seen = vec![used()?];
    let mut open = [true; 3];
    let t = std::time::Instant::now();
    for k in 0..WINDOWS {
        // After four windows it may end here.
        let late = t.elapsed().as_secs() > 30;
        if late && k < 4 {
            return Ok(());
        } else if late {
            break;
        }
        let units = first << k;
        window(units)?;
        let b = used()?;
        let a = *seen.last().unwrap();
        seen.push(b);
        let floor = if k >= 3 { least.floor } else { 1 };
        open[0] &= b.library - a.library >= least.library * units as i64;
        open[1] &= b.runtime - a.runtime >= floor.max(least.runtime.saturating_mul(units as i64));
        open[2] &= b.threads > a.threads;
        if open == [false; 3] {
            return Ok(());
        }
    }
    // What is kept for each unit of work grows by more in later windows, which do
    // more; a runtime that creeps up with time does not count.
    let late = (seen.len() - 1) / 2;
    let by = |w: &[Use]| w[w.len() - 1].runtime - w[0].runtime;
    open[1] &= by(&seen[seen.len() - 1 - late..]) >= 2 * by(&seen[..=late]);
    if open == [false; 3] {
        return Ok(());
    }
    let what = if open[0] {
        ("bytes that the library allocated and has not freed", seen.iter().map(|u| u.library).collect::<Vec<_>>())
    } else if open[1] {
        ("bytes in use in the runtime", seen.iter().map(|u| u.runtime).collect())
    } else {
        ("threads", seen.iter().map(|u| u.threads).collect())
    };
    Err(format!("{} grow each time as much is done as before: {:?}", what.0, what.1))
}

/// A driver process whose library's memory is counted.
struct Watched {
    d: Driver,
    file: PathBuf,
}
impl Drop for Watched {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.file);
    }
}
impl Watched {
    fn start(l: Lang) -> Watched {
        static N: AtomicU64 = AtomicU64::new(0);
        let root = verif_root();
        let n = N.fetch_add(1, Ordering::Relaxed);
        let file = root.join(format!("work/heap-{}-{n}", std::process::id()));
        let _ = std::fs::remove_file(&file);
        let module = match l {
            Lang::Java => "libjava_eth_kzg",
            Lang::Node => ".node",
            Lang::Go => "@exe",
            Lang::C => "libc_eth_kzg",
        };
        let mut c = command(l);
        c.env("LD_PRELOAD", root.join("work/heapwatch.so")).env("HEAPWATCH_FILE", &file).env("HEAPWATCH_MODULE", module);
        Watched { d: Driver::spawn(&format!("{l:?}"), c), file }
    }
    fn ask(&mut self, m: &[u8]) -> Result<Res, String> {
        self.d.send(m)?;
        self.d.answer()
    }
    fn done(&mut self, m: &[u8], what: &str) -> Result<(), String> {
        match self.ask(m)? {
            Res::Bytes(_) => Ok(()),
            r => Err(format!("{what}: {}", r.brief())),
        }
    }
    fn counters(&self) -> [i64; 5] {
        let mut b = [0u8; 40];
        let f = std::fs::File::open(&self.file).and_then(|f| f.read_exact_at(&mut b, 0));
        if f.is_err() {
            eprintln!("no counters: {f:?}");
            std::process::exit(2);
        }
        std::array::from_fn(|i| i64::from_ne_bytes(b[8 * i..8 * i + 8].try_into().unwrap()))
    }
    fn used(&mut self) -> Result<Use, String> {
        let runtime = match self.ask(&[7, 0, 0])? {
            Res::Bytes(b) if b.len() == 8 => i64::from_be_bytes(b.try_into().unwrap()),
            r => return Err(format!("memory in use: {}", r.brief())),
        };
        let c = self.counters();
        if c[3] == 0 || c[4] != 0 {
            eprintln!("the library's memory is not counted: {c:?}");
            std::process::exit(2);
        }
        Ok(Use { library: c[0], runtime, threads: threads_of(&self.d.pid().to_string()) })
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Repeat {
    precomp: bool,
    threads: u8,
    style: u8,
    asynchronous: bool,
    calls: Vec<Call>,
    /// contexts are made and freed, too
    contexts: bool,
}
/// How often in a window: what takes long, less often.
fn want_reps(a: &Args, c: &Repeat) -> Result<(Res, u32), String> {
    let t = std::time::Instant::now();
    let w = want(a, false)?;
    let n = match c.contexts {
        true => 1,
        // elements of the lists take the bindings some time, too
        false => {
            let len = |l: &List| l.as_ref().map_or(0, |v| v.len());
            let us = t.elapsed().as_micros() as usize + 4 * (len(&a.coms) + len(&a.cells) + len(&a.proofs) + a.idx.as_ref().map_or(0, |v| v.len()));
            (25_000 / (us as u32 + 1)).clamp(2, 100)
        }
    };
    Ok((w, n))
}
/// Something that is kept is kept for each repetition of some call.
/// What ended threads leave in the collector of crossbeam (2 KB each) is freed
/// some time later, and not counted.
fn least(reps: impl Iterator<Item = u32>, c: &Repeat) -> (u32, Least) {
    if c.contexts {
        let n = match c.threads {
            0 => std::thread::available_parallelism().map_or(64, |n| n.get() as i64),
            n => n as i64,
        };
        return (1, Least { library: 6000 * (n + 1), runtime: 1 << 16, floor: 1 << 16 });
    }
    let n = reps.min().unwrap_or(1);
    (4u32.div_ceil(n), Least { library: n as i64, runtime: n as i64 * 64, floor: 1 << 14 })
}
pub fn binding(l: Lang, c: &Repeat) -> TestResult {
    let mut w = Watched::start(l);
    let mut jobs = vec![];
    let mut s = Seen::new(true);
    for k in &c.calls {
        let a = k.args();
        let (want, n) = want_reps(&a, c)?;
        let mut m = vec![6, 0, c.style | (c.asynchronous as u8) << 7];
        m.extend(n.to_be_bytes());
        put_args(&mut m, &a, false);
        s = s.label(format!("{}: {}", k.label(), want.kind()));
        jobs.push((m, n, want, k.label()));
    }
    let new = [1, 0, 0, c.precomp as u8, c.threads];
    let run = |w: &mut Watched, k: u32| -> Result<(), String> {
        for (m, n, want, label) in &jobs {
            let mut m = m.clone();
            m[3..7].copy_from_slice(&(n * k).to_be_bytes());
            let got = w.ask(&m).map_err(|e| format!("{label}, {n} * {k} times: {e}"))?;
            compare(label, &got, want)?;
        }
        Ok(())
    };
    let (first, at) = least(jobs.iter().map(|j| j.1), c);
    let cell = RefCell::new(w);
    if c.contexts {
        settle(
            first,
            at,
            |k| {
                let w = &mut *cell.borrow_mut();
                for _ in 0..k {
                    w.done(&new, "creating a context")?;
                    run(w, 1)?;
                    w.done(&[2, 0, 0, 0], "freeing a context")?;
                }
                Ok(())
            },
            || {
                // Finalizers and ending threads take a moment.
                let w = &mut *cell.borrow_mut();
                let mut best = w.used()?;
                for _ in 0..12 {
                    std::thread::sleep(std::time::Duration::from_millis(40));
                    w.ask(&[3, 0, 0])?;
                    let u = w.used()?;
                    best = Use { library: best.library.min(u.library), runtime: best.runtime.min(u.runtime), threads: best.threads.min(u.threads) };
                }
                Ok(best)
            },
        )?;
    } else {
        cell.borrow_mut().done(&new, "creating a context")?;
        settle(first, at, |k| run(&mut cell.borrow_mut(), k), || cell.borrow_mut().used())?;
    }
    w = cell.into_inner();
    drop(w);
    Ok(s.label(format!("threads:{} precomp:{}", c.threads, c.precomp)))
}
/// After some time if threads may still be ending or emptying their queues.
fn rust_use(wait: bool) -> Result<Use, String> {
    let now = || Use { library: BYTES.load(Ordering::Relaxed), runtime: 0, threads: threads_of("self") };
    let mut best = now();
    for _ in 0..if wait { 20 } else { 0 } {
        std::thread::sleep(std::time::Duration::from_millis(10));
        let u = now();
        best = Use { library: best.library.min(u.library), runtime: 0, threads: best.threads.min(u.threads) };
    }
    Ok(best)
}
pub fn rust(c: &Repeat) -> TestResult {
    let v = Variant { threads: c.threads, width: if c.precomp { 3 } else { 0 } };
    let mut s = Seen::new(true);
    let standing = (!c.contexts).then(|| new_context(Setup::Main, v));
    let mut jobs = vec![];
    for k in &c.calls {
        let a = k.args();
        let (want, n) = want_reps(&a, c)?;
        s = s.label(format!("{}: {}", k.label(), want.kind()));
        jobs.push((a, n, want, k.label()));
    }
    let (first, at) = least(jobs.iter().map(|j| j.1), c);
    let run = |ctx: &rust_eth_kzg::DASContext, k: u32| -> Result<(), String> {
        for (a, n, want, label) in &jobs {
            for _ in 0..n * k {
                compare(label, &expected(ctx, a)?, want)?;
            }
        }
        Ok(())
    };
    settle(
        first,
        at,
        |k| match &standing {
            Some(ctx) => run(ctx, k),
            None => (0..k).try_for_each(|_| run(&new_context(Setup::Main, v), 1)),
        },
        || rust_use(c.contexts || c.threads != 1),
    )?;
    Ok(s.label(format!("threads:{} precomp:{}", c.threads, c.precomp)))
}
/// Calls that go on to the end, and calls that stop at each possible point.
pub fn repeat(k: Kinds, call: fn(Kinds) -> BoxedStrategy<Call>) -> BoxedStrategy<Repeat> {
    (prop::bool::weighted(0.1), prop_oneof![3 => Just(1u8), 2 => Just(2u8), 1 => Just(0u8)], 0u8..4, any::<bool>(), prop::collection::vec(call(k), 1..4))
        .prop_map(|(precomp, threads, style, asynchronous, calls)| Repeat { precomp, threads, style, asynchronous, calls, contexts: false })
        .boxed()
}
pub fn turnover(k: Kinds, call: fn(Kinds) -> BoxedStrategy<Call>) -> BoxedStrategy<Repeat> {
    (prop::bool::weighted(0.15), prop_oneof![2 => Just(1u8), 2 => Just(3u8), 1 => Just(0u8)], 0u8..4, any::<bool>(), prop::collection::vec(call(k), 0..3))
        .prop_map(|(precomp, threads, style, asynchronous, calls)| Repeat { precomp, threads, style, asynchronous, calls, contexts: true })
        .boxed()
}

/// Calls whose arguments are different every time.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fresh {
    precomp: bool,
    threads: u8,
    style: u8,
    asynchronous: bool,
    kind: Kind,
    seed: u64,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Kind {
    Verified(u8),
    FalseProof(u8),
    FalseCommitment(u8),
    BadCommitment,
    BadProof,
    BadCell,
    BadIndex,
    Committed,
    BadBlob,
    Computed,
    Recovered,
    Inconsistent,
}
use Kind::*;
/// The arguments, and what must come of them: openings of constant polynomials,
/// whose cells are constant and whose proofs are the point at infinity.
fn fresh(kind: Kind, r: &mut Mix) -> (Args, Res) {
    let mut a = Args { op: VERIFY, blob: None, coms: None, idx: None, cells: None, proofs: None };
    let infinity = || [&[0xc0u8][..], &[0; 47]].concat();
    let undecodable = |r: &mut Mix, n: usize| -> Vec<u8> { std::iter::once(0xff).chain((1..n).map(|_| r.next() as u8)).collect() };
    let index = |k: u64| Big { neg: false, hi: 0, wide: false, lo: k };
    let fail = Res::Fail("expected".into());
    match kind {
        Verified(n) | FalseProof(n) | FalseCommitment(n) => {
            let v: Vec<Fr> = (0..n).map(|_| r.fr()).collect();
            a.coms = Some(v.iter().map(|c| Some(g1(*c).to_vec())).collect());
            a.idx = Some(v.iter().map(|_| index(r.below(128))).collect());
            a.cells = Some(v.iter().map(|c| Some(cell_bytes(&[*c; 64]))).collect());
            a.proofs = Some(v.iter().map(|_| Some(infinity())).collect());
            let at = r.below(n as u64) as usize;
            match kind {
                FalseProof(_) => a.proofs.as_mut().unwrap()[at] = Some(g1(r.fr()).to_vec()),
                FalseCommitment(_) => a.coms.as_mut().unwrap()[at] = Some(g1(r.fr()).to_vec()),
                _ => return (a, Res::Bool(true)),
            }
            (a, Res::Bool(false))
        }
        BadCommitment | BadProof | BadCell | BadIndex => {
            let (mut a, _) = fresh(Verified(2), r);
            let at = r.below(2) as usize;
            match kind {
                BadCommitment => a.coms.as_mut().unwrap()[at] = Some(undecodable(r, 48)),
                BadProof => a.proofs.as_mut().unwrap()[at] = Some(undecodable(r, 48)),
                BadCell => a.cells.as_mut().unwrap()[at] = Some(undecodable(r, 2048)),
                _ => a.idx.as_mut().unwrap()[at] = index(128 + (r.next() >> 1)),
            }
            (a, fail)
        }
        Committed | BadBlob | Computed => {
            a.op = if matches!(kind, Computed) { COMPUTE } else { COMMIT };
            let c = r.fr();
            let mut b = blob_bytes(&[c; 4096]);
            if let BadBlob = kind {
                b[32 * r.below(4096) as usize] = 0xff;
            }
            a.blob = Some(b);
            match kind {
                BadBlob => (a, fail),
                Committed => (a, Res::Bytes(g1(c).to_vec())),
                _ => (a, constant(c)),
            }
        }
        Recovered | Inconsistent => {
            a.op = RECOVER;
            let c = r.fr();
            let mut k: Vec<u64> = (0..128).collect();
            harness::gen::shuffle(&mut k, r.next());
            k.truncate(65 + r.below(63) as usize);
            let cell = cell_bytes(&[c; 64]);
            a.cells = Some(k.iter().map(|_| Some(cell.clone())).collect());
            if let Inconsistent = kind {
                let n = k.len() as u64;
                a.cells.as_mut().unwrap()[r.below(n) as usize] = Some(cell_bytes(&[r.fr(); 64]));
            }
            a.idx = Some(k.into_iter().map(index).collect());
            (a, if let Inconsistent = kind { fail } else { constant(c) })
        }
    }
}
fn constant(c: Fr) -> Res {
    let cell = cell_bytes(&[c; 64]);
    let mut infinity = [0u8; 48];
    infinity[0] = 0xc0;
    Res::Cells(harness::kzg::CellsProofs { cells: vec![cell; 128], proofs: vec![infinity; 128] })
}
impl Fresh {
    fn per_unit(&self) -> u32 {
        match self.kind {
            Verified(n) | FalseProof(n) | FalseCommitment(n) => (64 / n as u32).max(1),
            BadCommitment | BadProof | BadCell | BadIndex => 24,
            Committed | BadBlob => 6,
            Computed | Recovered | Inconsistent => 3,
        }
    }
    fn least(&self) -> (u32, Least) {
        let n = self.per_unit() as i64;
        (4u32.div_ceil(self.per_unit()), Least { library: n, runtime: n * 64, floor: 1 << 14 })
    }
    fn seen(&self) -> Seen {
        let k = format!("{:?}", self.kind);
        Seen::new(true).label(k.split('(').next().unwrap().to_string()).label(format!("threads:{} precomp:{}", self.threads, self.precomp))
    }
}
pub fn fresh_binding(l: Lang, c: &Fresh) -> TestResult {
    let w = RefCell::new(Watched::start(l));
    w.borrow_mut().done(&[1, 0, 0, c.precomp as u8, c.threads], "creating a context")?;
    let mut r = Mix(c.seed);
    let (first, at) = c.least();
    settle(
        first,
        at,
        |k| {
            for _ in 0..k * c.per_unit() {
                let (a, want) = fresh(c.kind, &mut r);
                let mut m = vec![6, 0, c.style | (c.asynchronous as u8) << 7];
                m.extend(1u32.to_be_bytes());
                put_args(&mut m, &a, false);
                compare("calls with new arguments", &w.borrow_mut().ask(&m)?, &want)?;
            }
            Ok(())
        },
        || w.borrow_mut().used(),
    )?;
    Ok(c.seen())
}
pub fn fresh_rust(c: &Fresh) -> TestResult {
    let v = Variant { threads: c.threads, width: if c.precomp { 3 } else { 0 } };
    let ctx = new_context(Setup::Main, v);
    let mut r = Mix(c.seed);
    let (first, at) = c.least();
    settle(
        first,
        at,
        |k| {
            for _ in 0..k * c.per_unit() {
                let (a, want) = fresh(c.kind, &mut r);
                compare("calls with new arguments", &expected(&ctx, &a)?, &want)?;
            }
            Ok(())
        },
        || rust_use(c.threads != 1),
    )?;
    Ok(c.seen())
}
pub fn fresh_calls(only_commit: bool) -> BoxedStrategy<Fresh> {
    let n = || prop_oneof![Just(1u8), 2u8..65];
    let kind = if only_commit {
        prop_oneof![Just(Committed), Just(BadBlob)].boxed()
    } else {
        prop_oneof![
            4 => n().prop_map(Verified),
            2 => n().prop_map(FalseProof),
            2 => n().prop_map(FalseCommitment),
            2 => Just(BadCommitment),
            2 => Just(BadProof),
            2 => Just(BadCell),
            1 => Just(BadIndex),
            2 => Just(Committed),
            1 => Just(BadBlob),
            1 => Just(Computed),
            1 => Just(Recovered),
            1 => Just(Inconsistent),
        ]
        .boxed()
    };
    (prop::bool::weighted(0.1), prop_oneof![3 => Just(1u8), 2 => Just(2u8), 1 => Just(0u8)], 0u8..4, any::<bool>(), kind, any::<u64>())
        .prop_map(|(precomp, threads, style, asynchronous, kind, seed)| Fresh { precomp, threads, style, asynchronous, kind, seed })
        .boxed()
}
