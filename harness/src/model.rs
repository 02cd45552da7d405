//! Reference model: field arithmetic, transforms, interpolation and discrete-log
//! shadows written directly from the specification, without the code under test.
use blstrs::{G1Affine, G1Projective, G2Affine, G2Projective};
use ff::Field;
use group::{Curve, Group};
use sha2::{Digest, Sha256};

pub type Fr = blstrs::Scalar;
pub const N: usize = 4096;
pub const EXT: usize = 8192;
pub const CELL: usize = 64;
pub const CELLS: usize = 128;
pub const BLOB_BYTES: usize = N * 32;
pub const CELL_BYTES: usize = CELL * 32;

/// The order of the scalar field, little-endian limbs.
pub const R: [u64; 4] = [
    0xffffffff00000001,
    0x53bda402fffe5bfe,
    0x3339d80809a1d805,
    0x73eda753299d7d48,
];
/// The same, as 32 big-endian bytes.
pub fn r_be() -> [u8; 32] {
    let mut o = [0u8; 32];
    for (i, l) in R.iter().rev().enumerate() {
        o[i * 8..i * 8 + 8].copy_from_slice(&l.to_be_bytes());
    }
    o
}

/// splitmix64, for expanding the seeds inside generated cases.
#[derive(Clone)]
pub struct Mix(pub u64);
impl Mix {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn fr(&mut self) -> Fr {
        loop {
            let mut b = [0u8; 32];
            for c in b.chunks_mut(8) {
                c.copy_from_slice(&self.next().to_le_bytes());
            }
            b[0] &= 0x7f;
            if let Some(s) = Option::<Fr>::from(Fr::from_bytes_be(&b)) {
                return s;
            }
        }
    }
}

/// Bytes (big-endian, any value) modulo the order, by schoolbook reduction.
pub fn fr_from_be_reduced(b: &[u8]) -> Fr {
    let mut acc = Fr::ZERO;
    let k = Fr::from(256u64);
    for x in b {
        acc = acc * k + Fr::from(*x as u64);
    }
    acc
}
pub fn fr_canonical(b: &[u8; 32]) -> Option<Fr> {
    // Compare as integers with the order, independently of the library.
    if b.as_slice() < r_be().as_slice() {
        Some(fr_from_be_reduced(b))
    } else {
        None
    }
}

fn shr(limbs: [u64; 4], k: u32) -> [u64; 4] {
    let mut o = limbs;
    for _ in 0..k {
        let mut carry = 0;
        for l in o.iter_mut().rev() {
            let c = *l & 1;
            *l = (*l >> 1) | (carry << 63);
            carry = c;
        }
    }
    o
}
/// 7^((r-1)/n): the specification's primitive n-th root of unity.
pub fn omega(n: usize) -> Fr {
    assert!(n.is_power_of_two());
    let mut e = R;
    e[0] -= 1;
    Fr::from(7u64).pow_vartime(shr(e, n.trailing_zeros()))
}

pub fn brp_index(i: usize, n: usize) -> usize {
    if n <= 1 {
        return i;
    }
    i.reverse_bits() >> (usize::BITS - n.trailing_zeros())
}
pub fn brp<T: Clone>(v: &[T]) -> Vec<T> {
    (0..v.len()).map(|i| v[brp_index(i, v.len())].clone()).collect()
}

pub trait Lin: Copy + std::ops::Add<Output = Self> + std::ops::Sub<Output = Self> + std::ops::Mul<Fr, Output = Self> {}
impl Lin for Fr {}
impl Lin for G1Projective {}

/// Recursive radix-2 transform: out[i] = sum_j a[j] w^{ij}, w of order a.len().
pub fn dft<T: Lin>(a: &[T], w: Fr) -> Vec<T> {
    let n = a.len();
    if n == 1 {
        return vec![a[0]];
    }
    let even: Vec<T> = a.iter().step_by(2).copied().collect();
    let odd: Vec<T> = a.iter().skip(1).step_by(2).copied().collect();
    let (e, o) = (dft(&even, w * w), dft(&odd, w * w));
    let mut out = Vec::with_capacity(n);
    let mut hi = Vec::with_capacity(n / 2);
    let mut x = Fr::ONE;
    for i in 0..n / 2 {
        let t = o[i] * x;
        out.push(e[i] + t);
        hi.push(e[i] - t);
        x *= w;
    }
    out.extend(hi);
    out
}
pub fn idft<T: Lin>(a: &[T], w: Fr) -> Vec<T> {
    let winv = w.invert().unwrap();
    let ninv = Fr::from(a.len() as u64).invert().unwrap();
    dft(a, winv).into_iter().map(|x| x * ninv).collect()
}
pub fn eval(p: &[Fr], x: Fr) -> Fr {
    let mut acc = Fr::ZERO;
    for c in p.iter().rev() {
        acc = acc * x + *c;
    }
    acc
}

/// Coefficients of the polynomial a blob denotes.
pub fn blob_coeffs(blob: &[Fr]) -> Vec<Fr> {
    idft(&brp(blob), omega(blob.len()))
}
pub fn coeffs_to_blob(c: &[Fr]) -> Vec<Fr> {
    let mut c = c.to_vec();
    c.resize(N, Fr::ZERO);
    brp(&dft(&c, omega(N)))
}
/// The 8192 values, bit-reversed: cell k is values[64k..64k+64].
pub fn extended(coeffs: &[Fr]) -> Vec<Fr> {
    let mut c = coeffs.to_vec();
    assert!(c.len() <= EXT);
    c.resize(EXT, Fr::ZERO);
    brp(&dft(&c, omega(EXT)))
}
/// h_k^64 where h_k generates cell k's coset.
pub fn coset_pow(k: usize) -> Fr {
    omega(EXT).pow_vartime([(brp_index(k, CELLS) * CELL) as u64])
}
/// (quotient, remainder) of p by X^m - c.
pub fn div_xm_c(p: &[Fr], m: usize, c: Fr) -> (Vec<Fr>, Vec<Fr>) {
    let mut q = vec![Fr::ZERO; p.len().saturating_sub(m)];
    for i in (0..q.len()).rev() {
        let next = if i + m < q.len() { q[i + m] } else { Fr::ZERO };
        q[i] = p[i + m] + c * next;
    }
    let mut r: Vec<Fr> = (0..m).map(|i| if i < p.len() { p[i] } else { Fr::ZERO }).collect();
    for i in 0..m.min(q.len()) {
        r[i] += c * q[i];
    }
    (q, r)
}

/// An independent decoder: the polynomial of degree < 4096 through the given
/// cells (at least 64 different ones), or None if there is none.
///
/// On the coset of cell k, X^64 is a constant c_k, so p = sum_j X^j P_j(X^64)
/// has the remainder sum_j P_j(c_k) X^j there; each P_j has degree < 64.
pub fn decode(cells: &[(usize, Vec<Fr>)]) -> Option<Vec<Fr>> {
    assert!(cells.len() >= 64);
    let w8 = omega(EXT);
    let w64 = omega(CELL);
    // values of every P_j at c_k
    let mut cs = vec![];
    let mut vals: Vec<Vec<Fr>> = vec![];
    for (k, v) in cells {
        let h = w8.pow_vartime([brp_index(*k, CELLS) as u64]);
        let hinv = h.invert().unwrap();
        let mut r = idft(&brp(v), w64);
        let mut x = Fr::ONE;
        for c in r.iter_mut() {
            *c *= x;
            x *= hinv;
        }
        cs.push(coset_pow(*k));
        vals.push(r);
    }
    // inverse differences of the first 64 points, for Newton interpolation
    let n = 64;
    let mut inv = vec![vec![Fr::ZERO; n]; n];
    for i in 0..n {
        for j in 0..i {
            inv[i][j] = (cs[i] - cs[j]).invert().unwrap();
        }
    }
    let mut coeffs = vec![Fr::ZERO; N];
    for j in 0..CELL {
        // divided differences
        let mut d: Vec<Fr> = (0..n).map(|i| vals[i][j]).collect();
        for l in 1..n {
            for i in (l..n).rev() {
                d[i] = (d[i] - d[i - 1]) * inv[i][i - l];
            }
        }
        // Newton to monomial
        let mut p = vec![Fr::ZERO; n];
        for i in (0..n).rev() {
            // p = p * (X - c_i) + d_i
            for t in (1..n).rev() {
                p[t] = p[t - 1] - p[t] * cs[i];
            }
            p[0] = d[i] - p[0] * cs[i];
        }
        for i in n..cells.len() {
            if eval(&p, cs[i]) != vals[i][j] {
                return None;
            }
        }
        for (t, c) in p.into_iter().enumerate() {
            coeffs[t * CELL + j] = c;
        }
    }
    Some(coeffs)
}

pub fn g1(s: Fr) -> [u8; 48] {
    G1Affine::from(G1Projective::generator() * s).to_compressed()
}
pub fn g1_bytes(p: &G1Projective) -> [u8; 48] {
    p.to_affine().to_compressed()
}
pub fn blob_bytes(v: &[Fr]) -> Vec<u8> {
    v.iter().flat_map(|s| s.to_bytes_be()).collect()
}
pub fn cell_bytes(v: &[Fr]) -> Vec<u8> {
    blob_bytes(v)
}
pub fn bytes_to_frs(b: &[u8]) -> Option<Vec<Fr>> {
    b.chunks(32).map(|c| fr_canonical(c.try_into().unwrap())).collect()
}

/// A trusted setup whose secret is known, with what is needed to decide
/// every statement about it by field arithmetic.
pub struct Tau {
    pub tau: Fr,
    pub powers: Vec<Fr>,
    /// lag[64k+j]: value at tau of the j-th Lagrange polynomial of cell k's coset.
    pub lag: Vec<Fr>,
    /// tau^64 - h_k^64
    pub z: Vec<Fr>,
    pub z_inv: Vec<Fr>,
    pub g1_monomial: Vec<String>,
    pub g1_lagrange: Vec<String>,
    pub g2_monomial: Vec<String>,
}

fn hex0x(b: &[u8]) -> String {
    format!("0x{}", hex::encode(b))
}

fn par_map<A: Sync, B: Send>(v: &[A], f: impl Fn(&A) -> B + Sync) -> Vec<B> {
    let n = v.len().div_ceil(8).max(1);
    std::thread::scope(|s| {
        let hs: Vec<_> = v.chunks(n).map(|c| s.spawn(|| c.iter().map(&f).collect::<Vec<_>>())).collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    })
}

impl Tau {
    pub fn new(tau: Fr) -> Tau {
        assert!(tau.pow_vartime([EXT as u64]) != Fr::ONE && tau != Fr::ZERO);
        let mut powers = vec![Fr::ONE];
        for i in 1..N {
            powers.push(powers[i - 1] * tau);
        }
        let w = omega(EXT);
        let mut roots = vec![Fr::ONE];
        for i in 1..EXT {
            roots.push(roots[i - 1] * w);
        }
        let t64 = tau.pow_vartime([64u64]);
        let z: Vec<Fr> = (0..CELLS).map(|k| t64 - coset_pow(k)).collect();
        let z_inv: Vec<Fr> = z.iter().map(|x| x.invert().unwrap()).collect();
        let mut lag = Vec::with_capacity(EXT);
        for i in 0..EXT {
            let x = roots[brp_index(i, EXT)];
            let k = i / CELL;
            let den = Fr::from(64u64) * coset_pow(k) * (tau - x);
            lag.push(z[k] * x * den.invert().unwrap());
        }
        // Lagrange basis of the 4096-point domain at tau, natural order.
        let w4 = omega(N);
        let tn = tau.pow_vartime([N as u64]) - Fr::ONE;
        let ninv = Fr::from(N as u64).invert().unwrap();
        let mut x = Fr::ONE;
        let mut lagr = vec![];
        for _ in 0..N {
            lagr.push(tn * ninv * x * (tau - x).invert().unwrap());
            x *= w4;
        }
        let g1_monomial = par_map(&powers, |p| hex0x(&g1(*p)));
        let g1_lagrange = par_map(&lagr, |p| hex0x(&g1(*p)));
        let g2_monomial = par_map(&powers[..65], |p| {
            hex0x(&G2Affine::from(G2Projective::generator() * *p).to_compressed())
        });
        Tau { tau, powers, lag, z, z_inv, g1_monomial, g1_lagrange, g2_monomial }
    }
    /// p(tau)
    pub fn at(&self, coeffs: &[Fr]) -> Fr {
        coeffs.iter().zip(&self.powers).fold(Fr::ZERO, |a, (c, p)| a + *c * *p)
    }
    /// I_k(tau) for the given 64 values on cell k.
    pub fn interp(&self, k: usize, evals: &[Fr]) -> Fr {
        evals.iter().zip(&self.lag[k * CELL..]).fold(Fr::ZERO, |a, (e, l)| a + *e * *l)
    }
    /// Discrete log of the proof for cell k with these values, for a commitment with log c.
    pub fn proof_log(&self, c: Fr, k: usize, evals: &[Fr]) -> Fr {
        (c - self.interp(k, evals)) * self.z_inv[k]
    }
    /// The residual of a claim; the claim is true exactly when it is zero.
    pub fn residual(&self, c: Fr, k: usize, evals: &[Fr], q: Fr) -> Fr {
        c - self.interp(k, evals) - q * self.z[k]
    }
}

/// One entry of a verification batch, as bytes.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Entry {
    pub commitment: [u8; 48],
    pub index: u64,
    pub cell: Vec<u8>,
    pub proof: [u8; 48],
}

/// Which parts of the transcript to leave out of the challenge computation.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Omit {
    pub separator: bool,
    pub degree: bool,
    pub cell_len: bool,
    pub num_commitments: bool,
    pub num_cells: bool,
    /// Keep only this many of each (None: all).
    pub commitments: Option<Part>,
    pub row_indices: Option<Part>,
    pub cell_indices: Option<Part>,
    pub proofs: Option<Part>,
    pub cells: Option<Part>,
    /// Within every cell that is hashed, which elements are left out.
    pub elements: Option<Part>,
}
/// A set of positions among n that is left out.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Part {
    All,
    First,
    Last,
    AllButFirst,
    AllButLast,
    SecondHalf,
    FirstHalf,
    Odd,
    One(usize),
    From(usize),
}
impl Part {
    pub fn omits(self, i: usize, n: usize) -> bool {
        match self {
            Part::All => true,
            Part::First => i == 0,
            Part::Last => i + 1 == n,
            Part::AllButFirst => i != 0,
            Part::AllButLast => i + 1 != n,
            Part::SecondHalf => i >= n.div_ceil(2),
            Part::FirstHalf => i < n / 2,
            Part::Odd => i % 2 == 1,
            Part::One(k) => i == k,
            Part::From(k) => i >= k,
        }
    }
}
fn left_out(p: Option<Part>, i: usize, n: usize) -> bool {
    p.is_some_and(|p| p.omits(i, n))
}

/// The specification's Fiat-Shamir challenge, or a weakened variant of it.
pub fn challenge(entries: &[Entry], omit: &Omit) -> [u8; 32] {
    let mut rows: Vec<[u8; 48]> = vec![];
    let mut idx = vec![];
    for e in entries {
        let i = match rows.iter().position(|c| *c == e.commitment) {
            Some(i) => i,
            None => {
                rows.push(e.commitment);
                rows.len() - 1
            }
        };
        idx.push(i as u64);
    }
    let mut h = Sha256::new();
    if !omit.separator {
        h.update(b"RCKZGCBATCH__V1_");
    }
    if !omit.degree {
        h.update((N as u64).to_be_bytes());
    }
    if !omit.cell_len {
        h.update((CELL as u64).to_be_bytes());
    }
    if !omit.num_commitments {
        h.update((rows.len() as u64).to_be_bytes());
    }
    if !omit.num_cells {
        h.update((entries.len() as u64).to_be_bytes());
    }
    for (i, c) in rows.iter().enumerate() {
        if !left_out(omit.commitments, i, rows.len()) {
            h.update(c);
        }
    }
    let n = entries.len();
    for (i, e) in entries.iter().enumerate() {
        if !left_out(omit.row_indices, i, n) {
            h.update(idx[i].to_be_bytes());
        }
        if !left_out(omit.cell_indices, i, n) {
            h.update(e.index.to_be_bytes());
        }
        if !left_out(omit.cells, i, n) {
            for (j, s) in e.cell.chunks(32).enumerate() {
                if !left_out(omit.elements, j, CELL) {
                    h.update(s);
                }
            }
        }
        if !left_out(omit.proofs, i, n) {
            h.update(e.proof);
        }
    }
    h.finalize().into()
}

/// On-curve points outside the prime-order subgroup, for encoding tests.
/// `kind`: 0 and 1 are the points (0, +-2) of order 3; others are found by
/// trying x coordinates from a seed.
pub fn non_subgroup_point(kind: u64) -> G1Affine {
    use group::prime::PrimeCurveAffine;
    let mut x = [0u8; 48];
    let mut rng = Mix(kind);
    let mut first = true;
    loop {
        if kind < 2 && first {
            x = [0u8; 48];
        } else {
            for c in x.chunks_mut(8) {
                c.copy_from_slice(&rng.next().to_be_bytes());
            }
            x[0] = 0x0f & x[0];
        }
        first = false;
        let mut e = x;
        e[0] |= 0x80;
        if kind % 2 == 1 {
            e[0] |= 0x20;
        }
        let p = G1Affine::from_compressed_unchecked(&e);
        if bool::from(p.is_some()) {
            let p = p.unwrap();
            if !bool::from(p.is_torsion_free()) && !bool::from(p.is_identity()) {
                return p;
            }
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn model_is_consistent() {
        let t = Tau::new(Fr::from(12345u64));
        let mut rng = Mix(7);
        let p: Vec<Fr> = (0..N).map(|_| rng.fr()).collect();
        let blob = coeffs_to_blob(&p);
        assert_eq!(blob_coeffs(&blob), p);
        let ext = extended(&p);
        assert_eq!(&ext[..N], &blob[..]);
        let c = t.at(&p);
        assert_eq!(c, eval(&p, t.tau));
        for k in [0usize, 1, 5, 64, 127] {
            let (q, r) = div_xm_c(&p, 64, coset_pow(k));
            let e = &ext[k * 64..k * 64 + 64];
            assert_eq!(t.interp(k, e), eval(&r, t.tau));
            assert_eq!(t.proof_log(c, k, e), eval(&q, t.tau));
        }
        let mut cells: Vec<(usize, Vec<Fr>)> = (30..100).map(|k| (k, ext[k * 64..k * 64 + 64].to_vec())).collect();
        assert_eq!(decode(&cells), Some(p.clone()));
        cells[66].1[3] += Fr::ONE;
        assert_eq!(decode(&cells), None);
        assert_eq!(omega(8), omega(16) * omega(16));
    }
}
