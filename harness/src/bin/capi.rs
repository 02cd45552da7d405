//! C13: the C interface, called on guarded memory and compared with the Rust one.
use harness::calls::*;
use harness::ensure;
use harness::kzg::{context, Setup, WIDE};
use harness::model::*;
use harness::pbt::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::ffi::CStr;
use std::os::raw::c_char;
use std::sync::OnceLock;

/// The functions as a C program declares them, from the shared library.
#[repr(C)]
pub struct CResult {
    status: std::os::raw::c_int,
    error_msg: *mut c_char,
}
pub enum DASContext {}
type P = *mut u8;
type Q = *const u8;
macro_rules! c_functions {
    ($($name:ident($($a:ident: $t:ty),*) $(-> $r:ty)?;)*) => {
        #[allow(non_snake_case)]
        struct Api { $($name: unsafe extern "C" fn($($t),*) $(-> $r)?),* }
        fn api() -> &'static Api {
            static A: OnceLock<Api> = OnceLock::new();
            A.get_or_init(|| unsafe {
                let path = verif_root().join("target/ws/release/libc_eth_kzg.so");
                let cpath = std::ffi::CString::new(path.to_str().unwrap()).unwrap();
                let h = libc::dlopen(cpath.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
                if h.is_null() {
                    eprintln!("cannot load {}: {:?}", path.display(), CStr::from_ptr(libc::dlerror()));
                    std::process::exit(2);
                }
                Api { $($name: {
                    let s = libc::dlsym(h, concat!(stringify!($name), "\0").as_ptr().cast());
                    if s.is_null() {
                        eprintln!("no function {}", stringify!($name));
                        std::process::exit(2);
                    }
                    std::mem::transmute(s)
                }),* }
            })
        }
        $(#[allow(clippy::too_many_arguments)]
        fn $name($($a: $t),*) $(-> $r)? {
            unsafe { (api().$name)($($a),*) }
        })*
    };
}
c_functions! {
    eth_kzg_das_context_new(p: bool, n: u32) -> *mut DASContext;
    eth_kzg_das_context_free(c: *mut DASContext);
    eth_kzg_free_error_message(m: *mut c_char);
    eth_kzg_blob_to_kzg_commitment(c: *const DASContext, b: Q, o: P) -> CResult;
    eth_kzg_compute_cells_and_kzg_proofs(c: *const DASContext, b: Q, oc: *mut P, op: *mut P) -> CResult;
    eth_kzg_verify_cell_kzg_proof_batch(c: *const DASContext, nm: u64, m: *const Q, ni: u64, i: *const u64, nc: u64, e: *const Q, np: u64, p: *const Q, v: *mut bool) -> CResult;
    eth_kzg_recover_cells_and_proofs(c: *const DASContext, nc: u64, e: *const Q, ni: u64, i: *const u64, oc: *mut P, op: *mut P) -> CResult;
    eth_kzg_constant_bytes_per_cell() -> u64;
    eth_kzg_constant_bytes_per_proof() -> u64;
    eth_kzg_constant_cells_per_ext_blob() -> u64;
}
const OK: i32 = 0;
const ERR: i32 = 1;

const KINDS: Kinds = Kinds { sizes: false, nulls: false, bigs: false };
const PAGE: usize = 4096;
const FILL: u8 = 0xa5;

/// Where a buffer lies in its own pages, which are between inaccessible ones.
#[derive(Clone, Copy)]
enum Place {
    /// the next byte after the buffer is inaccessible
    End,
    /// the byte before it is
    Start,
    /// this many bytes into its pages (any alignment)
    At(usize),
}
struct Slot {
    page: usize,
    pages: usize,
    off: usize,
    len: usize,
}
/// Buffers in one mapping, each with inaccessible pages on both sides.
struct Slab {
    base: *mut u8,
    total: usize,
    slots: Vec<Slot>,
    image: Vec<Vec<u8>>,
}
impl Slab {
    fn new(reqs: Vec<(Vec<u8>, Place)>, read_only: bool) -> Slab {
        let mut slots = vec![];
        let mut page = 1;
        for (d, p) in &reqs {
            let room = match p {
                Place::At(s) => d.len() + s + 64,
                _ => d.len(),
            };
            let pages = room.div_ceil(PAGE).max(1);
            let off = match p {
                Place::End => pages * PAGE - d.len(),
                Place::Start => 0,
                Place::At(s) => *s,
            };
            slots.push(Slot { page, pages, off, len: d.len() });
            page += pages + 1;
        }
        let total = page * PAGE;
        unsafe {
            let base = libc::mmap(std::ptr::null_mut(), total, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            assert!(base != libc::MAP_FAILED, "mmap");
            let base = base as *mut u8;
            let mut image = vec![];
            for (s, (d, _)) in slots.iter().zip(&reqs) {
                let p = base.add(s.page * PAGE);
                let n = s.pages * PAGE;
                assert_eq!(libc::mprotect(p.cast(), n, libc::PROT_READ | libc::PROT_WRITE), 0);
                let mut img = vec![FILL; n];
                img[s.off..s.off + s.len].copy_from_slice(d);
                std::ptr::copy_nonoverlapping(img.as_ptr(), p, n);
                if read_only {
                    assert_eq!(libc::mprotect(p.cast(), n, libc::PROT_READ), 0);
                    image.push(vec![]);
                } else {
                    image.push(img);
                }
            }
            Slab { base, total, slots, image }
        }
    }
    fn ptr(&self, i: usize) -> *mut u8 {
        unsafe { self.base.add(self.slots[i].page * PAGE + self.slots[i].off) }
    }
    /// The pages hold what was put there, with `new` in place of the buffers.
    fn check(&self, new: Option<&[Vec<u8>]>, what: &str) -> Result<(), String> {
        for (i, s) in self.slots.iter().enumerate() {
            let now = unsafe { std::slice::from_raw_parts(self.base.add(s.page * PAGE), s.pages * PAGE) };
            let mut want = self.image[i].clone();
            if let Some(n) = new {
                want[s.off..s.off + s.len].copy_from_slice(&n[i]);
            }
            if now != want {
                let d = now.iter().zip(&want).position(|(a, b)| a != b).unwrap() as i64 - s.off as i64;
                let n = now.iter().zip(&want).filter(|(a, b)| a != b).count();
                return Err(format!("{what} {i}: {n} bytes differ, the first at offset {d} of a buffer of {} bytes", s.len));
            }
        }
        Ok(())
    }
}
impl Drop for Slab {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.base.cast(), self.total);
        }
    }
}

/// How the buffers of a call are laid out.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct Layout {
    /// 0 ends at a guard, 1 starts at a guard, 2 mixed with any alignment,
    /// 3 lists packed in one buffer, 4 equal elements share a buffer,
    /// 5 runs of adjacent elements
    style: u8,
    seed: u64,
}
fn layout() -> BoxedStrategy<Layout> {
    (0u8..6, any::<u64>()).prop_map(|(style, seed)| Layout { style, seed }).boxed()
}
impl Layout {
    fn place(&self, r: &mut Mix) -> Place {
        match self.style {
            0 | 3 => Place::End,
            1 => Place::Start,
            _ => match r.below(4) {
                0 => Place::End,
                1 => Place::Start,
                _ => Place::At(1 + r.below(200) as usize),
            },
        }
    }
    /// Arrays of words must be aligned.
    fn place_words(&self, r: &mut Mix) -> Place {
        match self.style {
            0 | 3 => Place::End,
            1 => Place::Start,
            _ => match r.below(3) {
                0 => Place::End,
                1 => Place::Start,
                _ => Place::At(8 * (1 + r.below(30) as usize)),
            },
        }
    }
    fn null(&self, r: &mut Mix) -> *const u8 {
        match r.below(3) {
            0 => 8 as *const u8,
            _ => std::ptr::null(),
        }
    }
}

/// A list of byte strings in memory, and the array of pointers to them.
struct Lists {
    _bufs: Option<Slab>,
    arrays: Option<Slab>,
    ptrs: Vec<*mut u8>,
    null: *const u8,
    /// which elements are in which buffer, when they are in runs
    runs: Option<Vec<Vec<usize>>>,
}
impl Lists {
    fn new(items: &[Vec<u8>], l: &Layout, r: &mut Mix, read_only: bool) -> Lists {
        let null = l.null(r);
        if items.is_empty() {
            return Lists { _bufs: None, arrays: None, ptrs: vec![], null, runs: None };
        }
        let mut order = None;
        // Too many buffers of their own would be too many mappings.
        let (bufs, ptrs): (Slab, Vec<*mut u8>) = if l.style == 3 || (items.len() > 800 && !(l.style == 4 && read_only)) {
            let place = if r.below(2) == 0 { Place::End } else { Place::At(1 + r.below(64) as usize) };
            let s = Slab::new(vec![(items.concat(), place)], read_only);
            let mut p = s.ptr(0);
            let ptrs = items
                .iter()
                .map(|i| {
                    let q = p;
                    p = unsafe { p.add(i.len()) };
                    q
                })
                .collect();
            (s, ptrs)
        } else if l.style == 4 && read_only {
            let mut uniq: Vec<&Vec<u8>> = vec![];
            let which: Vec<usize> = items
                .iter()
                .map(|i| {
                    uniq.iter().position(|u| *u == i).unwrap_or_else(|| {
                        uniq.push(i);
                        uniq.len() - 1
                    })
                })
                .collect();
            let s = Slab::new(uniq.iter().map(|u| ((*u).clone(), l.place(r))).collect(), read_only);
            let ptrs = which.iter().map(|w| s.ptr(*w)).collect();
            (s, ptrs)
        } else if l.style == 5 {
            // runs: the next element follows at once, precedes, or lies elsewhere
            let mut runs: Vec<Vec<usize>> = vec![vec![0]];
            let p = [2, 8, 64][r.below(3) as usize];
            for i in 1..items.len() {
                match r.below(p) {
                    0 => runs.push(vec![i]),
                    1 if p > 2 => runs.last_mut().unwrap().insert(0, i),
                    _ => runs.last_mut().unwrap().push(i),
                }
            }
            let s = Slab::new(
                runs.iter().map(|v| (v.iter().flat_map(|i| items[*i].clone()).collect(), l.place(r))).collect(),
                read_only,
            );
            let mut ptrs = vec![std::ptr::null_mut(); items.len()];
            for (k, v) in runs.iter().enumerate() {
                let mut p = s.ptr(k);
                for i in v {
                    ptrs[*i] = p;
                    p = unsafe { p.add(items[*i].len()) };
                }
            }
            order = Some(runs);
            (s, ptrs)
        } else {
            let s = Slab::new(items.iter().map(|i| (i.clone(), l.place(r))).collect(), read_only);
            let ptrs = (0..items.len()).map(|i| s.ptr(i)).collect();
            (s, ptrs)
        };
        let words: Vec<u8> = ptrs.iter().flat_map(|p: &*mut u8| (*p as usize).to_ne_bytes()).collect();
        let arrays = Slab::new(vec![(words, l.place_words(r))], true);
        Lists { _bufs: Some(bufs), arrays: Some(arrays), ptrs, null, runs: order }
    }
    fn array(&self) -> *mut *mut u8 {
        match &self.arrays {
            Some(a) => a.ptr(0).cast(),
            None => self.null as *mut *mut u8,
        }
    }
    fn len(&self) -> u64 {
        self.ptrs.len() as u64
    }
    /// Outputs: unchanged, or holding exactly these.
    fn check(&self, style: u8, new: Option<&[Vec<u8>]>, what: &str) -> Result<(), String> {
        let s = self._bufs.as_ref().unwrap();
        match new {
            Some(n) if style == 3 => s.check(Some(&[n.concat()]), what),
            Some(n) if self.runs.is_some() => {
                let v: Vec<Vec<u8>> = self.runs.iter().flatten().map(|r| r.iter().flat_map(|i| n[*i].clone()).collect()).collect();
                s.check(Some(&v), what)
            }
            n => s.check(n, what),
        }
    }
}

/// A C context that may be used from every thread.
struct Ctx(*mut DASContext);
unsafe impl Send for Ctx {}
unsafe impl Sync for Ctx {}
const FLAVOURS: [(bool, u32); 5] = [(true, 8), (false, 8), (true, 1), (false, 1), (false, 0)];
fn c_context(f: u8) -> *mut DASContext {
    static C: [OnceLock<Ctx>; 5] = [const { OnceLock::new() }; 5];
    let f = f as usize % 5;
    C[f].get_or_init(|| Ctx(eth_kzg_das_context_new(FLAVOURS[f].0, FLAVOURS[f].1))).0
}

/// An error message owned by the caller.
struct Msg {
    p: *mut c_char,
    text: Vec<u8>,
}
fn message(r: &CResult) -> Result<Option<Msg>, String> {
    match r.status {
        OK => {
            if !r.error_msg.is_null() {
                return Err("a successful call returns an error message".into());
            }
            Ok(None)
        }
        ERR => {
            if r.error_msg.is_null() {
                return Err("a failed call returns no error message".into());
            }
            let text = unsafe { CStr::from_ptr(r.error_msg) }.to_bytes().to_vec();
            if text.is_empty() || std::str::from_utf8(&text).is_err() {
                return Err(format!("a failed call's message is {text:?}"));
            }
            Ok(Some(Msg { p: r.error_msg, text }))
        }
        s => Err(format!("status {s}")),
    }
}

fn list(l: &List) -> Vec<Vec<u8>> {
    l.as_ref().unwrap().iter().map(|b| b.clone().unwrap()).collect()
}
/// Makes the call on guarded memory and checks everything about it.
fn call_c(ctx: *mut DASContext, a: &Args, l: &Layout, want: &Res) -> Result<Option<Msg>, String> {
    let mut r = Mix(l.seed);
    let mut noise = |n: usize| -> Vec<u8> {
        let mut m = Mix(r.next());
        (0..n).map(|_| m.next() as u8).collect()
    };
    let failed = matches!(want, Res::Fail(_));
    match a.op {
        COMMIT => {
            let o = noise(48);
            let inp = Slab::new(vec![(a.blob.clone().unwrap(), l.place(&mut r))], true);
            let out = Slab::new(vec![(o, l.place(&mut r))], false);
            let res = eth_kzg_blob_to_kzg_commitment(ctx, inp.ptr(0), out.ptr(0));
            let m = message(&res)?;
            if m.is_some() != failed {
                return Err(format!("the C call {}, the Rust call gives {}", if failed { "succeeds" } else { "fails" }, want.brief()));
            }
            let new = match want {
                Res::Bytes(b) => Some(vec![b.clone()]),
                _ => None,
            };
            out.check(new.as_deref(), "commitment output")?;
            Ok(m)
        }
        COMPUTE | RECOVER => {
            let oc: Vec<Vec<u8>> = (0..CELLS).map(|_| noise(CELL_BYTES)).collect();
            let op: Vec<Vec<u8>> = (0..CELLS).map(|_| noise(48)).collect();
            let oc = Lists::new(&oc, l, &mut r, false);
            let op = Lists::new(&op, l, &mut r, false);
            let res = if a.op == COMPUTE {
                let inp = Slab::new(vec![(a.blob.clone().unwrap(), l.place(&mut r))], true);
                eth_kzg_compute_cells_and_kzg_proofs(ctx, inp.ptr(0), oc.array(), op.array())
            } else {
                let cells = Lists::new(&list(&a.cells), l, &mut r, true);
                let idx = Words::new(a, l, &mut r);
                eth_kzg_recover_cells_and_proofs(ctx, cells.len(), cells.array() as *const *const u8, idx.n, idx.p, oc.array(), op.array())
            };
            let m = message(&res)?;
            if m.is_some() != failed {
                return Err(format!("the C call {}, the Rust call gives {}", if failed { "succeeds" } else { "fails" }, want.brief()));
            }
            match want {
                Res::Cells(c) => {
                    let p: Vec<Vec<u8>> = c.proofs.iter().map(|p| p.to_vec()).collect();
                    oc.check(l.style, Some(&c.cells), "cell output")?;
                    op.check(l.style, Some(&p), "proof output")?;
                }
                _ => {
                    oc.check(l.style, None, "after a failure, cell output")?;
                    op.check(l.style, None, "after a failure, proof output")?;
                }
            }
            Ok(m)
        }
        _ => {
            let coms = Lists::new(&list(&a.coms), l, &mut r, true);
            let cells = Lists::new(&list(&a.cells), l, &mut r, true);
            let proofs = Lists::new(&list(&a.proofs), l, &mut r, true);
            let idx = Words::new(a, l, &mut r);
            let before = r.below(2) as u8;
            let out = Slab::new(vec![(vec![before], l.place(&mut r))], false);
            let res = eth_kzg_verify_cell_kzg_proof_batch(
                ctx,
                coms.len(),
                coms.array() as *const *const u8,
                idx.n,
                idx.p,
                cells.len(),
                cells.array() as *const *const u8,
                proofs.len(),
                proofs.array() as *const *const u8,
                out.ptr(0) as *mut bool,
            );
            let m = message(&res)?;
            if m.is_some() != failed {
                return Err(format!("the C call {}, the Rust call gives {}", if failed { "succeeds" } else { "fails" }, want.brief()));
            }
            let new = match want {
                Res::Bool(b) => Some(vec![vec![*b as u8]]),
                _ => None,
            };
            out.check(new.as_deref(), "verdict output")?;
            Ok(m)
        }
    }
}
struct Words {
    _slab: Option<Slab>,
    p: *const u64,
    n: u64,
}
impl Words {
    fn new(a: &Args, l: &Layout, r: &mut Mix) -> Words {
        let v: Vec<u64> = a.idx.as_ref().unwrap().iter().map(|b| b.lo).collect();
        if v.is_empty() {
            return Words { _slab: None, p: l.null(r) as *const u64, n: 0 };
        }
        let s = Slab::new(vec![(v.iter().flat_map(|x| x.to_ne_bytes()).collect(), l.place_words(r))], true);
        let p = s.ptr(0) as *const u64;
        Words { n: v.len() as u64, p, _slab: Some(s) }
    }
}
fn free(m: Msg) -> Result<(), String> {
    let now = unsafe { CStr::from_ptr(m.p) }.to_bytes().to_vec();
    if now != m.text {
        return Err("an error message changed while the caller owned it".into());
    }
    eth_kzg_free_error_message(m.p);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct One {
    flavour: u8,
    call: Call,
    layout: Layout,
}
fn one(k: fn(Kinds) -> BoxedStrategy<Call>) -> BoxedStrategy<One> {
    (prop_oneof![4 => Just(0u8), 3 => Just(1u8), 1 => 2u8..5], k(KINDS), layout())
        .prop_map(|(flavour, call, layout)| One { flavour, call, layout })
        .boxed()
}
fn c13_one(c: &One) -> TestResult {
    let a = c.call.args();
    let want = expected(&context(Setup::Main, WIDE), &a)?;
    let m = call_c(c_context(c.flavour), &a, &c.layout, &want)?;
    if let Some(m) = m {
        free(m)?;
    }
    Ok(Seen::new(true).label(format!("{}: {}", c.call.label(), want.kind())).label(format!("layout {}", c.layout.style)))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    New(bool, u8),
    Free(u8),
    FreeNull,
    Call(u8, Call, Layout),
    FreeMessage(u8),
    FreeNullMessage,
    /// the same call from several threads at once
    Together(u8, Vec<Call>, Layout),
}
fn step() -> BoxedStrategy<Step> {
    prop_oneof![
        2 => (prop::bool::weighted(0.25), 0u8..4).prop_map(|(a, b)| Step::New(a, b)),
        1 => any::<u8>().prop_map(Step::Free),
        1 => Just(Step::FreeNull),
        8 => (any::<u8>(), call(KINDS), layout()).prop_map(|(a, b, c)| Step::Call(a, b, c)),
        2 => any::<u8>().prop_map(Step::FreeMessage),
        1 => Just(Step::FreeNullMessage),
        1 => (any::<u8>(), prop::collection::vec(prop_oneof![call_commit(KINDS), call_verify(KINDS)], 2..5), layout())
            .prop_map(|(a, b, c)| Step::Together(a, b, c)),
    ]
    .boxed()
}
fn c13_history(steps: &Vec<Step>) -> TestResult {
    let rust = context(Setup::Main, WIDE);
    let mut live: Vec<*mut DASContext> = vec![];
    let mut held: Vec<Msg> = vec![];
    let (mut calls, mut fails) = (0, 0);
    for s in steps {
        match s {
            Step::New(p, t) => {
                if live.len() < 3 {
                    let c = eth_kzg_das_context_new(*p, *t as u32);
                    ensure!(!c.is_null(), "no context");
                    live.push(c);
                }
            }
            Step::Free(i) => {
                if !live.is_empty() {
                    let c = live.remove(*i as usize % live.len());
                    eth_kzg_das_context_free(c);
                }
            }
            Step::FreeNull => eth_kzg_das_context_free(std::ptr::null_mut()),
            Step::Call(i, c, l) => {
                if !live.is_empty() {
                    let a = c.args();
                    let want = expected(&rust, &a)?;
                    calls += 1;
                    let m = call_c(live[*i as usize % live.len()], &a, l, &want).map_err(|e| format!("call {calls} ({}): {e}", c.label()))?;
                    if let Some(m) = m {
                        fails += 1;
                        held.push(m);
                    }
                }
            }
            Step::FreeMessage(i) => {
                if !held.is_empty() {
                    free(held.remove(*i as usize % held.len()))?;
                }
            }
            Step::FreeNullMessage => eth_kzg_free_error_message(std::ptr::null_mut()),
            Step::Together(i, cs, l) => {
                if !live.is_empty() {
                    let ctx = Ctx(live[*i as usize % live.len()]);
                    let todo: Vec<(Args, Res)> = cs
                        .iter()
                        .map(|c| {
                            let a = c.args();
                            expected(&rust, &a).map(|w| (a, w))
                        })
                        .collect::<Result<_, _>>()?;
                    calls += cs.len();
                    let ctx = &ctx;
                    std::thread::scope(|sc| -> Result<(), String> {
                        let hs: Vec<_> = todo
                            .iter()
                            .map(|(a, w)| {
                                sc.spawn(move || -> Result<(), String> {
                                    for _ in 0..2 {
                                        if let Some(m) = call_c(ctx.0, a, l, w)? {
                                            free(m)?;
                                        }
                                    }
                                    Ok(())
                                })
                            })
                            .collect();
                        for h in hs {
                            h.join().map_err(|_| "a thread panicked".to_string())?.map_err(|e| format!("calls from several threads: {e}"))?;
                        }
                        Ok(())
                    })?;
                }
            }
        }
        for m in &held {
            let now = unsafe { CStr::from_ptr(m.p) }.to_bytes();
            ensure!(now == &m.text[..], "an error message changed while the caller owned it");
        }
    }
    for m in held {
        free(m)?;
    }
    for c in live {
        eth_kzg_das_context_free(c);
    }
    Ok(Seen::new(calls >= 2).label_if(fails > 0, "with failed calls").label(format!("calls:{}", calls.min(8))))
}
fn history() -> BoxedStrategy<Vec<Step>> {
    prop::collection::vec(step(), 1..14)
        .prop_map(|mut v| {
            v.insert(0, Step::New(false, 1));
            v
        })
        .boxed()
}

fn c13_constants(_: &u8) -> TestResult {
    ensure!(eth_kzg_constant_bytes_per_cell() == CELL_BYTES as u64, "bytes per cell");
    ensure!(eth_kzg_constant_bytes_per_proof() == 48, "bytes per proof");
    ensure!(eth_kzg_constant_cells_per_ext_blob() == CELLS as u64, "cells per extended blob");
    Ok(Seen::new(true))
}

fn build() -> Vec<Property> {
    const RULE: &str = "arguments valid or with corrupted bytes, indices, lengths; every buffer between inaccessible pages, inputs and pointer arrays read-only, outputs compared page by page with the expected image (result bytes from the Rust library, or unchanged); layouts: ending at or starting after a guard page, odd alignments, packed, in runs of adjacent elements, shared; every case is non-trivial";
    vec![Property {
        id: "C13",
        assumptions: vec![
            "a read outside a documented range is seen when it leaves the buffer's pages; one layout in two leaves no slack on one side",
            "null contexts and null buffers of non-zero length are outside the documented interface",
        ],
        facets: vec![
            facet("commitment", RULE, 600, 60_000, |_| one(call_commit), c13_one),
            facet("verification", RULE, 6000, 250_000, |_| one(call_verify), c13_one),
            facet_w("widest", "one verification of over 2^16 entries, mostly with one that is false and not among the first n - 2^16", 2, 24, 2, |_| one(|_| call_widest()).prop_map(|mut c| { c.layout.style = 3 + c.layout.style % 2; c }).boxed(), c13_one),
            facet("compute", RULE, 120, 12_000, |_| one(call_compute), c13_one),
            facet("recovery", RULE, 250, 30_000, |_| one(call_recover), c13_one),
            facet(
                "history",
                "sequences of up to 14 context creations and releases, calls, concurrent calls, message releases (in any order, some late), null releases; non-trivial: at least two calls",
                40,
                4_000,
                |_| history(),
                c13_history,
            ),
            facet("constants", "the three constants exported for other languages", 1, 1, |_| Just(0u8).boxed(), c13_constants),
        ],
    }]
}
fn main() {
    harness::pbt::main(build)
}
