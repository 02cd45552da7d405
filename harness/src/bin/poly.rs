//! C18: the polynomial crate, against direct evaluation and a recursive
//! transform written from the definition.
use bls12_381::G1Projective;
use ff::Field;
use group::Group;
use harness::ensure;
use harness::gen::*;
use harness::model::*;
use harness::pbt::*;
use polynomial::domain::Domain;
use polynomial::poly_coeff::*;
use polynomial::CosetFFT;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn domain(logn: u32) -> std::sync::Arc<Domain> {
    use std::collections::HashMap;
    use std::sync::{Arc, Mutex};
    static D: Mutex<Option<HashMap<u32, Arc<Domain>>>> = Mutex::new(None);
    let mut g = D.lock().unwrap();
    g.get_or_insert_with(HashMap::new).entry(logn).or_insert_with(|| Arc::new(Domain::new(1 << logn))).clone()
}

// ---------------------------------------------------------------- domains

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Dom {
    size: u32,
}
fn domains(c: &Dom) -> TestResult {
    let size = c.size as usize;
    let n = size.next_power_of_two();
    let d = Domain::new(size);
    ensure!(d.roots.len() == n, "Domain::new({size}) has {} roots, not {n}", d.roots.len());
    let w = omega(n);
    ensure!(d.generator == w, "generator of the domain of size {n}");
    ensure!(d.generator * d.generator_inv == Fr::ONE, "generator_inv, size {n}");
    ensure!(d.domain_size == Fr::from(n as u64), "domain_size, size {n}");
    ensure!(d.domain_size * d.domain_size_inv == Fr::ONE, "domain_size_inv, size {n}");
    let mut x = Fr::ONE;
    for (i, r) in d.roots.iter().enumerate() {
        ensure!(*r == x, "root {i} of the domain of size {n}");
        x *= w;
    }
    ensure!(x == Fr::ONE && (n == 1 || d.roots[n / 2] == -Fr::ONE), "order of the domain of size {n}");
    Ok(Seen::new(n > 1).label_if(size != n, "rounded-up"))
}

// ---------------------------------------------------------------- scalar transforms

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fft {
    logn: u8,
    v: Vect,
    coset: S,
    probe: Vec<u16>,
}
fn fit(v: &Vect, logn: u8) -> Vec<Fr> {
    let n = 1usize << logn;
    let v = Vect { len: (v.len as usize % (n + 1)) as u16, kind: v.kind.clone() };
    v.frs()
}
fn lens() -> BoxedStrategy<u16> {
    // reduced modulo size + 1; u16::MAX-like values and exact sizes are both frequent
    prop_oneof![2 => any::<u16>(), 2 => (0u16..=15).prop_map(|k| 1u16 << k), 1 => (1u16..=15).prop_map(|k| (1u16 << k) - 1)].boxed()
}
fn fft_case(max: u8) -> BoxedStrategy<Fft> {
    (prop_oneof![3 => 0..=6u8.min(max), 2 => 0..=max], lens(), vkind(), scalar(), prop::collection::vec(any::<u16>(), 3))
        .prop_map(|(logn, len, kind, coset, probe)| {
            // half of the time the vector has exactly the domain's size
            let n = 1u16 << logn;
            let len = if len % 2 == 0 { n } else { len % (n + 1) };
            Fft { logn, v: Vect { len, kind }, coset, probe }
        })
        .boxed()
}
fn scalar_transforms(c: &Fft) -> TestResult {
    let n = 1usize << c.logn;
    let v = fit(&c.v, c.logn);
    let mut padded = v.clone();
    padded.resize(n, Fr::ZERO);
    let d = domain(c.logn as u32);
    let w = omega(n);
    let g = c.coset.nonzero();
    let coset = CosetFFT::new(g);
    ensure!(coset.generator == g && coset.generator * coset.generator_inv == Fr::ONE, "CosetFFT::new");
    let wpow = |i: usize| w.pow_vartime([i as u64]);

    let fwd = d.fft_scalars(v.clone());
    let want = dft(&padded, w);
    ensure!(fwd.len() == n, "fft length {}", fwd.len());
    for i in 0..n {
        ensure!(fwd[i] == want[i], "fft output {i} of {n} (input length {})", v.len());
    }
    for p in &c.probe {
        let i = *p as usize % n;
        ensure!(fwd[i] == eval(&padded, wpow(i)), "fft output {i} is not the evaluation there");
    }
    ensure!(d.ifft_scalars(fwd) == padded, "ifft(fft(v)) != v, size {n}, input length {}", v.len());
    let inv = d.ifft_scalars(v.clone());
    ensure!(inv == idft(&padded, w), "ifft of {} values, size {n}", v.len());
    ensure!(d.fft_scalars(inv) == padded, "fft(ifft(v)) != v, size {n}");

    let cf = d.coset_fft_scalars(v.clone(), &coset);
    ensure!(cf.len() == n, "coset fft length");
    let mut scaled = padded.clone();
    let mut x = Fr::ONE;
    for s in scaled.iter_mut() {
        *s *= x;
        x *= g;
    }
    ensure!(cf == dft(&scaled, w), "coset fft, size {n}, input length {}", v.len());
    for p in &c.probe {
        let i = *p as usize % n;
        ensure!(cf[i] == eval(&padded, g * wpow(i)), "coset fft output {i} is not the evaluation there");
    }
    ensure!(d.coset_ifft_scalars(cf, &coset) == padded, "coset_ifft(coset_fft(v)) != v, size {n}");
    let ci = d.coset_ifft_scalars(v.clone(), &coset);
    ensure!(ci.len() == n, "coset ifft length");
    for p in &c.probe {
        let i = *p as usize % n;
        ensure!(eval(&ci, g * wpow(i)) == padded[i], "coset ifft: value {i} is not interpolated");
    }
    ensure!(d.coset_fft_scalars(ci, &coset) == padded, "coset_fft(coset_ifft(v)) != v, size {n}");
    Ok(Seen::new(v.iter().any(|x| *x != Fr::ZERO))
        .label(format!("log-size:{}", c.logn))
        .label(c.v.class())
        .label_if(v.len() < n, "shorter-than-domain")
        .label_if(v.is_empty(), "empty-input"))
}

// ---------------------------------------------------------------- group transforms

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FftG1 {
    logn: u8,
    v: Vect,
    take: u16,
}
fn g1_case(max: u8) -> BoxedStrategy<FftG1> {
    (prop_oneof![3 => 0..=4u8.min(max), 2 => 0..=max], lens(), vkind(), any::<u16>())
        .prop_map(|(logn, len, kind, take)| {
            let n = 1u16 << logn;
            let len = if len % 2 == 0 { n } else { len % (n + 1) };
            FftG1 { logn, v: Vect { len, kind }, take }
        })
        .boxed()
}
fn lift(v: &[Fr]) -> Vec<G1Projective> {
    v.iter().map(|s| G1Projective::generator() * s).collect()
}
fn group_transforms(c: &FftG1) -> TestResult {
    let n = 1usize << c.logn;
    let v = fit(&c.v, c.logn);
    let mut padded = v.clone();
    padded.resize(n, Fr::ZERO);
    let d = domain(c.logn as u32);
    let w = omega(n);
    let pts = lift(&v);
    let fwd = d.fft_g1(pts.clone());
    ensure!(fwd.len() == n, "fft_g1 length {}", fwd.len());
    for (i, (a, b)) in fwd.iter().zip(dft(&padded, w)).enumerate() {
        ensure!(*a == G1Projective::generator() * b, "fft_g1 output {i} of {n} (input length {})", v.len());
    }
    let want_inv = lift(&idft(&padded, w));
    let inv = d.ifft_g1(pts.clone());
    ensure!(inv == want_inv, "ifft_g1, size {n}, input length {}", v.len());
    ensure!(d.ifft_g1_take_n(pts.clone(), None) == want_inv, "ifft_g1_take_n(None), size {n}");
    let take = c.take as usize % n;
    let got = d.ifft_g1_take_n(pts, Some(take));
    ensure!(got == want_inv[..take], "ifft_g1_take_n({take}) of {n}: {} outputs or a wrong value", got.len());
    let back = d.ifft_g1(fwd);
    ensure!(back == lift(&padded), "ifft_g1(fft_g1(v)) != v, size {n}");
    Ok(Seen::new(v.iter().any(|x| *x != Fr::ZERO))
        .label(format!("log-size:{}", c.logn))
        .label(c.v.class())
        .label_if(padded.contains(&Fr::ZERO), "has-identity")
        .label_if(v.len() < n, "shorter-than-domain"))
}

// ---------------------------------------------------------------- ring laws

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ring {
    a: Vect,
    b: Vect,
    c: Vect,
    x: S,
    same: bool,
}
fn ring_case() -> BoxedStrategy<Ring> {
    let v = || prop_oneof![2 => vect(0..=6), 1 => vect(0..=70)];
    (v(), v(), v(), scalar(), prop::bool::weighted(0.1)).prop_map(|(a, b, c, x, same)| Ring { a, b, c, x, same }).boxed()
}
fn trim(v: &[Fr]) -> &[Fr] {
    let n = v.iter().rposition(|x| *x != Fr::ZERO).map_or(0, |i| i + 1);
    &v[..n]
}
fn same_poly(a: &[Fr], b: &[Fr]) -> bool {
    trim(a) == trim(b)
}
/// Multiplication by evaluation of the Cauchy sum, index by index.
fn mul_ref(a: &[Fr], b: &[Fr]) -> Vec<Fr> {
    let n = (a.len() + b.len()).max(1);
    (0..n)
        .map(|k| {
            (0..=k)
                .filter(|i| *i < a.len() && k - *i < b.len())
                .fold(Fr::ZERO, |s, i| s + a[i] * b[k - i])
        })
        .collect()
}
fn at(v: &[Fr], i: usize) -> Fr {
    v.get(i).copied().unwrap_or(Fr::ZERO)
}
fn ring(c: &Ring) -> TestResult {
    let a = c.a.frs();
    let b = if c.same { a.clone() } else { c.b.frs() };
    let d = c.c.frs();
    let x = c.x.fr();
    let n = a.len().max(b.len());
    let add = poly_add(a.clone(), b.clone());
    let want: Vec<Fr> = (0..n).map(|i| at(&a, i) + at(&b, i)).collect();
    ensure!(same_poly(&add, &want), "poly_add of lengths {} and {}", a.len(), b.len());
    let sub = poly_sub(a.clone(), b.clone());
    let want: Vec<Fr> = (0..n).map(|i| at(&a, i) - at(&b, i)).collect();
    ensure!(same_poly(&sub, &want), "poly_sub of lengths {} and {}", a.len(), b.len());
    let neg = poly_neg(a.clone());
    let want: Vec<Fr> = a.iter().map(|x| -*x).collect();
    ensure!(same_poly(&neg, &want), "poly_neg of length {}", a.len());
    for (what, p) in [("a", &a), ("b", &b), ("a+b", &add), ("a-b", &sub)] {
        let naive = p.iter().enumerate().fold(Fr::ZERO, |s, (i, c)| s + *c * x.pow_vartime([i as u64]));
        ensure!(poly_eval(p, &x) == naive, "poly_eval of {what} (length {})", p.len());
    }
    // poly_mul has no result for two empty lists (its precondition)
    let mut seen = Seen::new(n > 0 && (a != b || c.same)).label(c.a.class()).label_if(a.len() != b.len(), "unequal-lengths");
    if !a.is_empty() && !b.is_empty() {
        let mul = poly_mul(a.clone(), b.clone());
        ensure!(same_poly(&mul, &mul_ref(&a, &b)), "poly_mul of lengths {} and {}", a.len(), b.len());
        ensure!(poly_eval(&mul, &x) == poly_eval(&a, &x) * poly_eval(&b, &x), "(a*b)(x) != a(x) b(x)");
        ensure!(same_poly(&mul, &poly_mul(b.clone(), a.clone())), "a*b != b*a");
        if !d.is_empty() {
            let l = poly_mul(a.clone(), poly_add(b.clone(), d.clone()));
            let r = poly_add(mul.clone(), poly_mul(a.clone(), d.clone()));
            ensure!(same_poly(&l, &r), "a*(b+d) != a*b + a*d");
        }
        seen = seen.label("product");
        if trim(&a).len() < a.len() || trim(&b).len() < b.len() {
            seen = seen.label("trailing-zeros");
        }
    }
    Ok(seen)
}

// ---------------------------------------------------------------- vanishing, interpolation

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Interp {
    roots: Vect,
    xs: Vect,
    ys: Vect,
    x: S,
}
fn interp_case() -> BoxedStrategy<Interp> {
    (vect(0..=40), vect(2..=24), vect(24..=24), scalar()).prop_map(|(roots, xs, ys, x)| Interp { roots, xs, ys, x }).boxed()
}
fn interp(c: &Interp) -> TestResult {
    let roots = c.roots.frs();
    let x = c.x.fr();
    let z = vanishing_poly(&roots);
    ensure!(trim(&z).len() == roots.len() + 1, "vanishing polynomial of {} roots has {} coefficients", roots.len(), z.len());
    let want = roots.iter().fold(Fr::ONE, |p, r| p * (x - *r));
    ensure!(eval(&z, x) == want, "vanishing polynomial at a point");
    ensure!(z[roots.len()] == Fr::ONE, "vanishing polynomial is not monic");
    for r in &roots {
        ensure!(eval(&z, *r) == Fr::ZERO, "vanishing polynomial at a root");
    }
    let mut xs = vec![];
    for x in c.xs.frs() {
        if !xs.contains(&x) {
            xs.push(x);
        }
    }
    let mut seen = Seen::new(!roots.is_empty()).label(format!("roots:{}", if roots.len() > 8 { ">8" } else { "<=8" }));
    if xs.len() >= 2 {
        let pts: Vec<(Fr, Fr)> = xs.iter().copied().zip(c.ys.frs()).collect();
        let Some(p) = lagrange_interpolate(&pts) else {
            return Err("lagrange_interpolate of distinct points returned None".into());
        };
        ensure!(trim(&p).len() <= pts.len(), "interpolant of {} points has {} coefficients", pts.len(), p.len());
        for (x, y) in &pts {
            ensure!(eval(&p, *x) == *y, "interpolant of {} points misses one", pts.len());
        }
        seen = seen.label("interpolated");
    }
    Ok(seen)
}

fn build() -> Vec<Property> {
    vec![Property {
        id: "C18",
        assumptions: vec![
            "inputs fit the domain; poly_mul gets a non-empty operand; interpolation gets at least two distinct abscissae (documented or asserted preconditions)",
            "blstrs field and group arithmetic and the pinned proptest crate are correct",
        ],
        facets: vec![
            facet("domain", "the domain has more than one element", 300, 3000,
                |_| prop_oneof![(1u32..=70), (0u32..=14).prop_map(|k| 1 << k), (1u32..=16384)].prop_map(|size| Dom { size }).boxed(), domains),
            facet("scalar-transforms", "the input vector is not all zero", 16000, 120000,
                |t| fft_case(if t == Tier::Quick { 13 } else { 15 }), scalar_transforms),
            facet("group-transforms", "the input vector is not all identity", 1200, 10000,
                |t| g1_case(if t == Tier::Quick { 8 } else { 11 }), group_transforms),
            facet("ring-laws", "the polynomials are not both empty", 100000, 2000000, |_| ring_case(), ring),
            facet("vanishing-and-interpolation", "at least one root", 40000, 800000, |_| interp_case(), interp),
        ],
    }]
}
fn main() {
    harness::pbt::main(build)
}
