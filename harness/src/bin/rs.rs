//! C19: the erasure code at every size, against interpolation by the model.
use erasure_codes::{BlockErasureIndices, ReedSolomon};
use ff::Field;
use harness::ensure;
use harness::gen::*;
use harness::model::*;
use harness::pbt::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Params {
    log_len: u8,
    log_exp: u8,
    log_block: u8,
}
impl Params {
    fn n(self) -> usize {
        1 << self.log_len
    }
    fn e(self) -> usize {
        1 << self.log_exp
    }
    fn total(self) -> usize {
        self.n() * self.e()
    }
    fn block(self) -> usize {
        1 << self.log_block
    }
    fn num_blocks(self) -> usize {
        self.total() / self.block()
    }
    /// Most block indices that can be erased with n symbols left.
    fn tolerated(self) -> usize {
        (self.total() - self.n()) / self.num_blocks()
    }
    fn rs(self) -> ReedSolomon {
        ReedSolomon::new(self.n(), self.e(), self.block())
    }
    fn erased(self, i: usize, idx: &[usize]) -> bool {
        idx.contains(&(i % self.block()))
    }
}
fn params(max_total: u8) -> BoxedStrategy<Params> {
    (0u8..=max_total, 0u8..=4, any::<u8>())
        .prop_map(move |(log_len, log_exp, b)| {
            let log_len = log_len.min(max_total - log_exp.min(max_total));
            let log_exp = log_exp.min(max_total);
            Params { log_len, log_exp, log_block: b % (log_len + log_exp + 1) }
        })
        .boxed()
}
/// How many block indices are erased, as a part of what is tolerated.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Amount {
    None,
    One,
    Most,
    AllButOne,
    Some(u16),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Garbage {
    Zero,
    Honest,
    Random(u64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    p: Params,
    msg: VKind,
    short: u16,
    amount: Amount,
    order: u64,
    window: bool,
    garbage: Garbage,
    extra: Vec<(u16, S)>,
    /// add s * X^d for some d from the message length on
    high: Option<(u16, S)>,
}
fn case(max: u8, corrupt: bool) -> BoxedStrategy<Case> {
    let amount = prop_oneof![
        1 => Just(Amount::None), 1 => Just(Amount::One), 4 => Just(Amount::Most), 2 => Just(Amount::AllButOne),
        4 => any::<u16>().prop_map(Amount::Some)
    ];
    let garbage = prop_oneof![1 => Just(Garbage::Zero), 1 => Just(Garbage::Honest), 2 => any::<u64>().prop_map(Garbage::Random)];
    let small = params(6.min(max));
    (
        prop_oneof![2 => small, 2 => params(max)],
        vkind(),
        prop_oneof![2 => Just(0u16), 1 => any::<u16>()],
        amount,
        any::<u64>(),
        prop::bool::weighted(0.3),
        garbage,
        prop::collection::vec((any::<u16>(), scalar()), if corrupt { 0..5 } else { 0..1 }),
        prop::option::weighted(0.4, (prop_oneof![2 => 0u16..3, 2 => any::<u16>()], scalar())).prop_map(move |h| h.filter(|_| corrupt)),
    )
        .prop_map(|(p, msg, short, amount, order, window, garbage, extra, high)| Case { p, msg, short, amount, order, window, garbage, extra, high })
        .boxed()
}
impl Case {
    fn message(&self) -> Vec<Fr> {
        let n = self.p.n();
        Vect::new(n - self.short as usize % (n + 1), self.msg.clone()).frs()
    }
    fn erasures(&self) -> Vec<usize> {
        let t = self.p.tolerated();
        let k = match self.amount {
            Amount::None => 0,
            Amount::One => 1.min(t),
            Amount::Most => t,
            Amount::AllButOne => t.saturating_sub(1),
            Amount::Some(x) => x as usize % (t + 1),
        };
        let b = self.p.block();
        let mut all: Vec<usize> = (0..b).collect();
        if self.window {
            all.rotate_left(self.order as usize % b);
        } else {
            shuffle(&mut all, self.order);
        }
        all.truncate(k);
        all
    }
    fn blot(&self, word: &mut [Fr], idx: &[usize]) {
        let mut rng = Mix(0);
        if let Garbage::Random(s) = self.garbage {
            rng = Mix(s);
        }
        for (i, x) in word.iter_mut().enumerate() {
            if self.p.erased(i, idx) {
                match self.garbage {
                    Garbage::Zero => *x = Fr::ZERO,
                    Garbage::Honest => {}
                    Garbage::Random(_) => *x = rng.fr(),
                }
            }
        }
    }
    fn seen(&self, idx: &[usize], nontrivial: bool) -> Seen {
        let p = self.p;
        let left = p.total() - idx.len() * p.num_blocks();
        Seen::new(nontrivial)
            .label(format!("expansion:{}", p.e()))
            .label(format!("log-total:{}", p.log_len + p.log_exp))
            .label_if(left == p.n(), "exactly-message-length-survives")
            .label_if(p.num_blocks() == 1, "one-block")
            .label_if(p.block() == 1, "block-size-1")
            .label_if(p.n() == 1, "message-length-1")
    }
}
fn padded(m: &[Fr], n: usize) -> Vec<Fr> {
    let mut v = m.to_vec();
    v.resize(n, Fr::ZERO);
    v
}

fn decode_honest(c: &Case) -> TestResult {
    let p = c.p;
    let rs = p.rs();
    ensure!(rs.codeword_length() == p.total(), "codeword_length {}", rs.codeword_length());
    ensure!(rs.acceptable_num_block_erasures() == p.tolerated(), "acceptable_num_block_erasures {}", rs.acceptable_num_block_erasures());
    let m = c.message();
    let full = padded(&m, p.n());
    let want = dft(&padded(&m, p.total()), omega(p.total()));
    let word = rs.encode(m.clone()).map_err(|e| format!("encode of {} coefficients: {e:?}", m.len()))?;
    ensure!(word == want, "encode of {} coefficients into {} symbols", m.len(), p.total());
    let idx = c.erasures();
    let mut word = word;
    c.blot(&mut word, &idx);
    match rs.recover_polynomial_coefficient(word, BlockErasureIndices(idx.clone())) {
        Ok(got) => ensure!(got == full, "decoding with {} of {} block indices erased gives another message", idx.len(), p.block()),
        Err(e) => return Err(format!("decoding with {} of {} block indices erased ({} tolerated): {e:?}", idx.len(), p.block(), p.tolerated()).into()),
    }
    Ok(c.seen(&idx, !idx.is_empty()))
}

/// Surviving symbols are changed; the oracle interpolates the first n
/// survivors and evaluates at the others.
fn decode_corrupt(c: &Case) -> TestResult {
    let p = c.p;
    let rs = p.rs();
    let m = c.message();
    let mut word = dft(&padded(&m, p.total()), omega(p.total()));
    let idx = c.erasures();
    let alive: Vec<usize> = (0..p.total()).filter(|i| !p.erased(*i, &idx)).collect();
    let honest = word.clone();
    let w = omega(p.total());
    let mut touched = false;
    for (i, s) in &c.extra {
        let at = alive[*i as usize % alive.len()];
        word[at] += s.nonzero();
    }
    if let (Some((d, s)), true) = (&c.high, p.total() > p.n()) {
        let d = p.n() + *d as usize % (p.total() - p.n());
        for i in &alive {
            word[*i] += s.nonzero() * w.pow_vartime([(*i * d) as u64]);
        }
    }
    for i in &alive {
        touched |= word[*i] != honest[*i];
    }
    let given = word.clone();
    c.blot(&mut word, &idx);
    let got = rs.recover_polynomial_coefficient(word, BlockErasureIndices(idx.clone()));
    if alive.len() == p.n() {
        // No redundancy: decodes to the one polynomial through the survivors.
        let got = got.map_err(|e| format!("decoding from exactly {} symbols: {e:?}", p.n()))?;
        ensure!(got.len() == p.n(), "decoded {} coefficients", got.len());
        for i in &alive {
            ensure!(eval(&got, w.pow_vartime([*i as u64])) == given[*i], "decoded polynomial misses surviving symbol {i}");
        }
        return Ok(c.seen(&idx, touched).label("no-redundancy"));
    }
    // Errors of weight below alive - n + 1 always leave the code (it is MDS);
    // heavier ones are decided by comparing with what was returned.
    match got {
        Ok(got) => {
            ensure!(got.len() == p.n(), "decoded {} coefficients", got.len());
            for i in &alive {
                ensure!(
                    eval(&got, w.pow_vartime([*i as u64])) == given[*i],
                    "accepted a word of {} survivors for {} coefficients though surviving symbol {i} is not on the decoded polynomial",
                    alive.len(), p.n()
                );
            }
            ensure!(!touched || alive.iter().filter(|i| given[**i] != honest[**i]).count() > alive.len() - p.n(),
                "accepted a word with too few errors to be a codeword");
        }
        Err(e) => {
            ensure!(touched, "rejected an honest word: {e:?}");
            // It must really be inconsistent: the survivors are honest + error,
            // so consistent exactly when the error alone is a codeword.
            let weight = alive.iter().filter(|i| given[**i] != honest[**i]).count();
            if weight > alive.len() - p.n() {
                ensure!(!consistent(p, &alive, &given), "rejected survivors that lie on one polynomial of the right degree: {e:?}");
            }
        }
    }
    Ok(c.seen(&idx, touched).label("redundant").label_if(c.high.is_some(), "high-degree-term"))
}
/// Do the survivors lie on one polynomial of degree below n?  (Newton's
/// divided differences, n <= 64; larger cases are not asked.)
fn consistent(p: Params, alive: &[usize], word: &[Fr]) -> bool {
    let n = p.n();
    if n > 64 {
        return false;
    }
    let w = omega(p.total());
    let x = |i: usize| w.pow_vartime([alive[i] as u64]);
    let mut d: Vec<Fr> = (0..n).map(|i| word[alive[i]]).collect();
    for l in 1..n {
        for i in (l..n).rev() {
            d[i] = (d[i] - d[i - 1]) * (x(i) - x(i - l)).invert().unwrap();
        }
    }
    (n..alive.len()).all(|k| {
        let mut v = Fr::ZERO;
        for i in (0..n).rev() {
            v = v * (x(k) - x(i)) + d[i];
        }
        v == word[alive[k]]
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Refuse {
    base: Case,
    more: u16,
    bad: u64,
    at: u16,
    kind: u8,
}
fn refuse(c: &Refuse) -> TestResult {
    let p = c.base.p;
    let rs = p.rs();
    match c.kind % 3 {
        0 => {
            let v = Vect::new(p.n() + 1 + c.more as usize % 40, c.base.msg.clone()).frs();
            let n = v.len();
            ensure!(rs.encode(v).is_err(), "encode accepted {n} coefficients for message length {}", p.n());
            Ok(Seen::new(true).label("message-too-long"))
        }
        1 => {
            // too many (distinct) block indices
            let b = p.block();
            let mut idx: Vec<usize> = (0..b).collect();
            shuffle(&mut idx, c.base.order);
            let k = p.tolerated() + 1 + c.more as usize % (b - p.tolerated());
            idx.truncate(k.min(b));
            let word = dft(&padded(&c.base.message(), p.total()), omega(p.total()));
            ensure!(
                rs.recover_polynomial_coefficient(word, BlockErasureIndices(idx.clone())).is_err(),
                "decoding accepted {} of {} block indices erased ({} tolerated)", idx.len(), b, p.tolerated()
            );
            Ok(Seen::new(true).label("too-many-erasures"))
        }
        _ => {
            // an index outside the block
            let mut idx = c.base.erasures();
            let bad = p.block() as u64 + match c.bad % 4 { 0 => 0, 1 => c.bad >> 2 & 63, 2 => (c.bad >> 2) % (3 * p.total() as u64), _ => c.bad >> 2 };
            if idx.is_empty() {
                idx.push(bad as usize);
            } else {
                let i = c.at as usize % idx.len();
                idx[i] = bad as usize;
            }
            let word = dft(&padded(&c.base.message(), p.total()), omega(p.total()));
            ensure!(
                rs.recover_polynomial_coefficient(word, BlockErasureIndices(idx)).is_err(),
                "decoding accepted block index {bad} for block size {}", p.block()
            );
            Ok(Seen::new(true).label("index-out-of-range"))
        }
    }
}

fn build() -> Vec<Property> {
    vec![Property {
        id: "C19",
        assumptions: vec![
            "sizes are powers of two and the block size divides the codeword (asserted by the constructor); block indices are not repeated and the word has the codeword's length (stated preconditions)",
            "blstrs field arithmetic and the pinned proptest crate are correct",
        ],
        facets: vec![
            facet("decode-honest", "at least one block index is erased", 24000, 300000,
                |t| case(if t == Tier::Quick { 11 } else { 13 }, false), decode_honest),
            facet("decode-corrupted", "at least one surviving symbol differs from the codeword", 40000, 600000,
                |t| case(if t == Tier::Quick { 9 } else { 11 }, true), decode_corrupt),
            facet("refuse", "every case (an input that must be refused)", 20000, 200000,
                |_| (case(9, false), any::<u16>(), any::<u64>(), any::<u16>(), any::<u8>())
                    .prop_map(|(base, more, bad, at, kind)| Refuse { base, more, bad, at, kind }).boxed(), refuse),
        ],
    }]
}
fn main() {
    harness::pbt::main(build)
}
