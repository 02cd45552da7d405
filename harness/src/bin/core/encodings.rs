//! C10: only canonical encodings are accepted, and all of them are.
use blstrs::{G1Affine, G1Projective};
use group::Curve;
use harness::batch::{pool, shape, small_shape, Shape, POOL};
use harness::ensure;
use harness::gen::{order, position, scalar, subset, Order, Subset, S};
use harness::kzg::*;
use harness::model::*;
use harness::pbt::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

const TI: u8 = 0;

/// A 32-byte string around the boundary of the field.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Enc {
    /// r + n
    RPlus(u64),
    /// r - 1 - n
    RMinus(u64),
    /// r + 2^k (mod 2^256)
    RPlusPow(u8),
    RMinusPow(u8),
    /// a canonical value plus r, when it fits in 32 bytes
    Shifted(S),
    /// 2r + n
    TwoR(u32),
    Ones,
    /// 2^256 - 1 - n
    Top(u64),
    /// r with byte i replaced
    RByte(u8, u8),
    /// r's bytes before i, then a repeated byte
    RPrefix(u8, u8),
    /// top byte set to this, rest random
    TopByte(u8, u64),
    Rand(u64),
    Canonical(S),
}
fn add_be(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    let mut o = [0u8; 32];
    let mut c = 0u16;
    for i in (0..32).rev() {
        c += a[i] as u16 + b[i] as u16;
        o[i] = c as u8;
        c >>= 8;
    }
    o
}
fn neg_be(a: &[u8; 32]) -> [u8; 32] {
    let mut inv = *a;
    inv.iter_mut().for_each(|x| *x = !*x);
    add_be(&inv, &u64_be(1))
}
fn u64_be(x: u64) -> [u8; 32] {
    let mut o = [0u8; 32];
    o[24..].copy_from_slice(&x.to_be_bytes());
    o
}
fn pow_be(k: u8) -> [u8; 32] {
    let mut o = [0u8; 32];
    o[31 - (k / 8) as usize] = 1 << (k % 8);
    o
}
fn rand32(s: u64) -> [u8; 32] {
    let mut r = Mix(s);
    let mut o = [0u8; 32];
    for c in o.chunks_mut(8) {
        c.copy_from_slice(&r.next().to_be_bytes());
    }
    o
}
impl Enc {
    fn bytes(&self) -> [u8; 32] {
        let r = r_be();
        match self {
            Enc::RPlus(n) => add_be(&r, &u64_be(*n)),
            Enc::RMinus(n) => add_be(&add_be(&r, &neg_be(&u64_be(1))), &neg_be(&u64_be(*n))),
            Enc::RPlusPow(k) => add_be(&r, &pow_be(*k)),
            Enc::RMinusPow(k) => add_be(&r, &neg_be(&pow_be(*k))),
            Enc::Shifted(s) => {
                let x = s.fr().to_bytes_be();
                let y = add_be(&x, &r);
                if y < r {
                    x
                } else {
                    y
                }
            }
            Enc::TwoR(n) => add_be(&add_be(&r, &r), &u64_be(*n as u64)),
            Enc::Ones => [0xff; 32],
            Enc::Top(n) => neg_be(&add_be(&u64_be(*n), &u64_be(1))),
            Enc::RByte(i, b) => {
                let mut x = r;
                x[*i as usize % 32] = *b;
                x
            }
            Enc::RPrefix(i, b) => {
                let mut x = r;
                x[*i as usize % 32..].iter_mut().for_each(|y| *y = *b);
                x
            }
            Enc::TopByte(b, s) => {
                let mut x = rand32(*s);
                x[0] = *b;
                x
            }
            Enc::Rand(s) => rand32(*s),
            Enc::Canonical(s) => s.fr().to_bytes_be(),
        }
    }
}
fn canonical(b: &[u8; 32]) -> bool {
    fr_canonical(b).is_some()
}
fn enc() -> BoxedStrategy<Enc> {
    prop_oneof![
        3 => Just(Enc::RPlus(0)),
        2 => (0u64..10).prop_map(Enc::RPlus),
        1 => any::<u64>().prop_map(Enc::RPlus),
        2 => (0u64..10).prop_map(Enc::RMinus),
        2 => any::<u8>().prop_map(Enc::RPlusPow),
        1 => any::<u8>().prop_map(Enc::RMinusPow),
        2 => scalar().prop_map(Enc::Shifted),
        1 => prop_oneof![Just(0u32), any::<u32>()].prop_map(Enc::TwoR),
        1 => Just(Enc::Ones),
        1 => any::<u64>().prop_map(Enc::Top),
        3 => (0u8..32, any::<u8>()).prop_map(|(a, b)| Enc::RByte(a, b)),
        2 => (0u8..32, prop_oneof![Just(0u8), Just(0xff), any::<u8>()]).prop_map(|(a, b)| Enc::RPrefix(a, b)),
        2 => (prop_oneof![Just(0x73u8), Just(0x74), Just(0x7f), Just(0x80), Just(0xe7), any::<u8>()], any::<u64>()).prop_map(|(a, b)| Enc::TopByte(a, b)),
        1 => any::<u64>().prop_map(Enc::Rand),
        2 => scalar().prop_map(Enc::Canonical),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BlobCase {
    compute: bool,
    variant: Variant,
    base: u8,
    edits: Vec<(u16, Enc)>,
}
fn c10_blob(c: &BlobCase) -> TestResult {
    let mut b = pool(TI)[c.base as usize % POOL].blob.clone();
    for (p, e) in &c.edits {
        let p = *p as usize % N;
        b[p * 32..p * 32 + 32].copy_from_slice(&e.bytes());
    }
    let bad = b.chunks(32).position(|x| !canonical(x.try_into().unwrap()));
    let ctx = context(Setup::Tau(TI), c.variant);
    let (kind, brief) = if c.compute {
        let o = compute(&ctx, &b);
        (o.kind(), o.brief())
    } else {
        let o = commit(&ctx, &b);
        (o.kind(), o.brief())
    };
    match bad {
        Some(i) => ensure!(kind == "error", "blob element {i} is {}: the result is {brief}", hex::encode(&b[i * 32..i * 32 + 32])),
        None => ensure!(kind == "ok", "every element is canonical: the result is {brief}"),
    }
    Ok(Seen::new(true)
        .label(if bad.is_some() { "not canonical" } else { "canonical" })
        .label(if c.compute { "compute" } else { "commit" }))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RecoverCase {
    variant: Variant,
    base: u8,
    subset: Subset,
    edits: Vec<(u8, u8, Enc)>,
}
fn c10_recover(c: &RecoverCase) -> TestResult {
    let m = &pool(TI)[c.base as usize % POOL];
    let idx = c.subset.indices();
    let mut cells: Vec<Vec<u8>> = idx.iter().map(|k| m.cells[*k as usize].clone()).collect();
    let n = cells.len();
    for (i, j, e) in &c.edits {
        let i = if *i == 255 { n - 1 } else { *i as usize % n };
        let j = *j as usize % CELL;
        cells[i][j * 32..j * 32 + 32].copy_from_slice(&e.bytes());
    }
    let bad = cells.iter().any(|c| c.chunks(32).any(|x| !canonical(x.try_into().unwrap())));
    let refs: Vec<&[u8]> = cells.iter().map(|c| c.as_slice()).collect();
    let r = recover(&context(Setup::Tau(TI), c.variant), &idx, &refs);
    if bad {
        ensure!(r.is_err(), "a cell has an element that is not canonical; recovery gives {}", r.brief());
    } else if n == 64 {
        ensure!(r.is_ok(), "64 canonical cells; recovery gives {}", r.brief());
    } else {
        ensure!(r.is_ok() || r.is_err(), "canonical cells; recovery gives {}", r.brief());
    }
    Ok(Seen::new(bad || n == 64).label(if bad { "not canonical" } else { "canonical" }))
}

/// A 48-byte string around the set of valid compressed points. `log` is the
/// discrete logarithm of the point that belongs in this place.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum GEnc {
    /// canonical
    Log(S),
    Identity,
    /// the right point with the other sign
    Neg,
    /// the right point plus a point outside the subgroup
    PlusTorsion(u64),
    /// a point outside the subgroup
    NonSubgroup(u64),
    /// an x coordinate with no point
    OffCurve(u64),
    /// x + p instead of x, for some subgroup point
    XPlusP(u64),
    /// the identity with the sign bit
    IdentitySign,
    /// the identity without the compression bit
    IdentityRaw,
    /// the identity with other bits set
    IdentityJunk(u8, u8),
    /// the right point without the compression bit
    NoCompression,
    /// the right point with the infinity bit
    InfinityBit,
    Flip(u16),
    Zeros,
    Ones,
    /// x = p, with flags
    XisP(u8),
    Rand(u64),
    /// valid flags, random x
    RandX(u64),
}
fn genc() -> BoxedStrategy<GEnc> {
    prop_oneof![
        3 => scalar().prop_map(GEnc::Log),
        2 => Just(GEnc::Identity),
        1 => Just(GEnc::Neg),
        4 => prop_oneof![0u64..4, any::<u64>()].prop_map(GEnc::PlusTorsion),
        3 => prop_oneof![0u64..4, any::<u64>()].prop_map(GEnc::NonSubgroup),
        2 => any::<u64>().prop_map(GEnc::OffCurve),
        2 => any::<u64>().prop_map(GEnc::XPlusP),
        2 => Just(GEnc::IdentitySign),
        1 => Just(GEnc::IdentityRaw),
        2 => (0u8..48, 1u8..=255).prop_map(|(a, b)| GEnc::IdentityJunk(a, b)),
        1 => Just(GEnc::NoCompression),
        1 => Just(GEnc::InfinityBit),
        3 => (0u16..384).prop_map(GEnc::Flip),
        1 => Just(GEnc::Zeros),
        1 => Just(GEnc::Ones),
        1 => (0u8..8).prop_map(GEnc::XisP),
        1 => any::<u64>().prop_map(GEnc::Rand),
        1 => any::<u64>().prop_map(GEnc::RandX),
    ]
    .boxed()
}
const P_BE: &str = "1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab";
fn p_be() -> [u8; 48] {
    hex::decode(P_BE).unwrap().try_into().unwrap()
}
fn rand48(s: u64) -> [u8; 48] {
    let mut r = Mix(s);
    let mut o = [0u8; 48];
    for c in o.chunks_mut(8) {
        c.copy_from_slice(&r.next().to_be_bytes());
    }
    o
}
fn times(base: G1Projective, be: &[u8]) -> G1Projective {
    let mut acc = G1Projective::from(G1Affine::default());
    for byte in be {
        for b in (0..8).rev() {
            acc = acc + acc;
            if byte >> b & 1 == 1 {
                acc += base;
            }
        }
    }
    acc
}
/// A point with no component in the subgroup: r * P, as the cofactor is
/// coprime to r; of order 3 or 11 for the first values.
fn torsion(k: u64) -> G1Projective {
    let identity = G1Projective::from(G1Affine::default());
    match k % 8 {
        0 | 1 => {
            let other = if k % 8 == 0 { 11 } else { 3u32 };
            let mut i = k;
            loop {
                let mut t = times(non_subgroup_point(i).into(), &r_be());
                for f in [other, 10177, 859267, 52437899] {
                    t = times(t, &f.to_be_bytes());
                }
                if t != identity {
                    return t;
                }
                i = i.wrapping_add(8);
            }
        }
        _ => times(non_subgroup_point(k).into(), &r_be()),
    }
}
fn add_point(b: &[u8; 48], t: G1Projective) -> [u8; 48] {
    match Option::<G1Affine>::from(G1Affine::from_compressed_unchecked(b)) {
        Some(p) => (G1Projective::from(p) + t).to_affine().to_compressed(),
        None => *b,
    }
}
impl GEnc {
    /// (bytes, Some(valid?) when the class settles it)
    fn bytes(&self, log: Fr) -> ([u8; 48], Option<bool>) {
        let own = || g1(log);
        let mut inf = [0u8; 48];
        inf[0] = 0xc0;
        match self {
            GEnc::Log(s) => (g1(s.fr()), Some(true)),
            GEnc::Identity => (inf, Some(true)),
            GEnc::Neg => (g1(-log), Some(true)),
            GEnc::PlusTorsion(k) => {
                let rt = torsion(*k);
                let p = G1Projective::from(G1Affine::from_compressed(&own()).unwrap()) + rt;
                (p.to_affine().to_compressed(), Some(false))
            }
            GEnc::NonSubgroup(k) => (non_subgroup_point(*k).to_compressed(), Some(false)),
            GEnc::OffCurve(s) => {
                let mut k = *s;
                loop {
                    let mut x = rand48(k);
                    x[0] = 0x80 | (x[0] & 0x2f & !0x10);
                    if bool::from(G1Affine::from_compressed_unchecked(&x).is_none()) {
                        return (x, Some(false));
                    }
                    k = k.wrapping_add(1);
                }
            }
            GEnc::XPlusP(s) => {
                let mut r = Mix(*s);
                let p = p_be();
                loop {
                    let mut x = g1(r.fr());
                    let flags = x[0] & 0xe0;
                    x[0] &= 0x1f;
                    let mut c = 0u16;
                    for i in (0..48).rev() {
                        c += x[i] as u16 + p[i] as u16;
                        x[i] = c as u8;
                        c >>= 8;
                    }
                    if x[0] & 0xe0 == 0 {
                        x[0] |= flags;
                        return (x, Some(false));
                    }
                }
            }
            GEnc::IdentitySign => {
                inf[0] = 0xe0;
                (inf, Some(false))
            }
            GEnc::IdentityRaw => {
                inf[0] = 0x40;
                (inf, Some(false))
            }
            GEnc::IdentityJunk(i, b) => {
                let i = *i as usize % 48;
                inf[i] |= if i == 0 { (b & 0x1f).max(1) } else { *b };
                (inf, Some(false))
            }
            GEnc::NoCompression => {
                let mut x = own();
                x[0] &= 0x7f;
                (x, Some(false))
            }
            GEnc::InfinityBit => {
                let mut x = own();
                x[0] |= 0x40;
                let same = x == inf;
                (x, if same { Some(true) } else { Some(false) })
            }
            GEnc::Flip(b) => {
                let mut x = own();
                x[*b as usize / 8 % 48] ^= 0x80 >> (b % 8);
                (x, None)
            }
            GEnc::Zeros => ([0; 48], Some(false)),
            GEnc::Ones => ([0xff; 48], Some(false)),
            GEnc::XisP(f) => {
                let mut x = p_be();
                x[0] |= f << 5;
                (x, Some(false))
            }
            GEnc::Rand(s) => (rand48(*s), None),
            GEnc::RandX(s) => {
                let mut x = rand48(*s);
                x[0] = (x[0] & 0x3f) | 0x80;
                (x, None)
            }
        }
    }
    fn class(&self) -> &'static str {
        match self {
            GEnc::Log(_) | GEnc::Identity | GEnc::Neg => "point:canonical",
            GEnc::PlusTorsion(_) => "point:right + torsion",
            GEnc::NonSubgroup(_) => "point:outside the subgroup",
            GEnc::OffCurve(_) => "point:off the curve",
            GEnc::XPlusP(_) | GEnc::XisP(_) => "point:x not reduced",
            GEnc::IdentitySign | GEnc::IdentityRaw | GEnc::IdentityJunk(..) => "point:bad identity",
            GEnc::NoCompression | GEnc::InfinityBit => "point:bad flags",
            _ => "point:random/flip",
        }
    }
}
fn valid_point(b: &[u8; 48]) -> bool {
    match Option::<G1Affine>::from(G1Affine::from_compressed(b)) {
        Some(p) => p.to_compressed() == *b,
        None => false,
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Edit {
    Commitment(u16, GEnc),
    /// every occurrence of the entry's commitment
    Commitments(u16, GEnc),
    Proof(u16, GEnc),
    Scalar(u16, u8, Enc),
    /// torsion added to several points (commitment or proof of an entry, with
    /// a factor), so that the sum of all points stays in the subgroup
    Torsion(u64, Vec<(u16, bool, i8)>, bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct VerifyCase {
    plain: bool,
    shape: Shape,
    order: Order,
    edits: Vec<Edit>,
}
fn c10_verify(c: &VerifyCase) -> TestResult {
    let p = pool(TI);
    let es = c.shape.entries();
    let n = es.len();
    if n == 0 {
        return Ok(Seen::new(false));
    }
    let logs: Vec<(Fr, Fr)> = es.iter().map(|(b, k)| (p[*b].c, p[*b].q[*k])).collect();
    let honest: Vec<Entry> = es
        .iter()
        .map(|(b, k)| Entry { commitment: p[*b].com, index: *k as u64, cell: p[*b].cells[*k].clone(), proof: p[*b].proofs[*k] })
        .collect();
    let mut v = honest.clone();
    let at = |i: u16| if i == u16::MAX { n - 1 } else { i as usize % n };
    let mut settled_bad = false;
    let mut labels = vec![];
    for e in &c.edits {
        match e {
            Edit::Commitment(i, g) => {
                v[at(*i)].commitment = g.bytes(logs[at(*i)].0).0;
                labels.push(g.class());
            }
            Edit::Commitments(i, g) => {
                let old = v[at(*i)].commitment;
                let new = g.bytes(logs[at(*i)].0).0;
                v.iter_mut().filter(|x| x.commitment == old).for_each(|x| x.commitment = new);
                labels.push(g.class());
            }
            Edit::Proof(i, g) => {
                v[at(*i)].proof = g.bytes(logs[at(*i)].1).0;
                labels.push(g.class());
            }
            Edit::Scalar(i, j, s) => {
                let j = *j as usize % CELL;
                v[at(*i)].cell[j * 32..j * 32 + 32].copy_from_slice(&s.bytes());
                labels.push("scalar");
            }
            Edit::Torsion(k, places, balance) => {
                let t = torsion(*k);
                let mut sum = G1Projective::from(G1Affine::default());
                for (m, (i, com, f)) in places.iter().enumerate() {
                    let x = &mut v[at(*i)];
                    let mut d = times(t, &[f.unsigned_abs()]);
                    if *f < 0 {
                        d = -d;
                    }
                    if *balance && m + 1 == places.len() {
                        d = -sum;
                    }
                    sum += d;
                    let b = if *com { &mut x.commitment } else { &mut x.proof };
                    *b = add_point(b, d);
                }
                labels.push(if *balance { "torsion summing to zero" } else { "torsion" });
            }
        }
    }
    // Classes that settle validity by construction check the oracle too.
    if let [Edit::Commitment(i, g) | Edit::Commitments(i, g)] = &c.edits[..] {
        if let (b, Some(ok)) = g.bytes(logs[at(*i)].0) {
            assert_eq!(valid_point(&b), ok, "oracle for points");
            settled_bad = !ok;
        }
    }
    let bad = v.iter().position(|e| {
        !valid_point(&e.commitment) || !valid_point(&e.proof) || e.cell.chunks(32).any(|x| !canonical(x.try_into().unwrap()))
    });
    let ctx = context(Setup::Tau(TI), if c.plain { PLAIN } else { WIDE0 });
    let r = verify(&ctx, &v);
    match bad {
        Some(i) => ensure!(
            r.is_err(),
            "entry {i} of {n} is not canonically encoded (commitment {}, proof {}): the result is {}",
            hex::encode(v[i].commitment),
            hex::encode(v[i].proof),
            r.brief()
        ),
        None if v == honest => ensure!(r.is_ok(), "honest batch: {}", r.brief()),
        None => ensure!(r.is_ok() || r == Out::InvalidProof, "every encoding is canonical: the result is {}", r.brief()),
    }
    ensure!(!settled_bad || bad.is_some(), "inconsistent oracle");
    let mut s = Seen::new(true).label(if bad.is_some() { "not canonical" } else { "canonical" });
    for l in labels {
        s = s.label(l);
    }
    Ok(s)
}
fn vedit() -> BoxedStrategy<Edit> {
    let i = || prop_oneof![1 => Just(0u16), 1 => Just(u16::MAX), 3 => any::<u16>()];
    prop_oneof![
        3 => (i(), genc()).prop_map(|(a, b)| Edit::Commitment(a, b)),
        2 => (i(), genc()).prop_map(|(a, b)| Edit::Commitments(a, b)),
        4 => (i(), genc()).prop_map(|(a, b)| Edit::Proof(a, b)),
        2 => (0u64..12, prop::collection::vec((i(), any::<bool>(), -2i8..3), 1..4), any::<bool>()).prop_map(|(a, b, c)| Edit::Torsion(a, b, c)),
        3 => (i(), 0u8..64, enc()).prop_map(|(a, b, c)| Edit::Scalar(a, b, c)),
    ]
    .boxed()
}

pub fn properties() -> Vec<Property> {
    let v = || prop_oneof![3 => Just(WIDE), 1 => Just(PLAIN)];
    vec![Property {
        id: "C10",
        assumptions: vec!["validity of a random 48-byte string is decided by blst's checked decoder (which the library must use too); constructed invalid classes are checked against it"],
        facets: vec![
            facet(
                "blob",
                "a blob with 1-3 elements replaced by strings around the group order (13 kinds) at any position, for commitment and for cells; canonical exactly when below the order as an integer; non-trivial: always",
                3000,
                200_000,
                move |_| {
                    (prop::bool::weighted(0.15), v(), 0u8..POOL as u8, prop::collection::vec((position(), enc()), 1..4))
                        .prop_map(|(compute, variant, base, edits)| BlobCase { compute, variant, base, edits })
                        .boxed()
                },
                c10_blob,
            ),
            facet(
                "recovery",
                "64-128 cells with 1-3 elements replaced as above; non-trivial: not canonical, or exactly 64 cells",
                1500,
                100_000,
                move |_| {
                    (v(), 0u8..POOL as u8, subset(), prop::collection::vec((prop_oneof![any::<u8>(), Just(0u8), Just(255)], 0u8..64, enc()), 1..4))
                        .prop_map(|(variant, base, subset, edits)| RecoverCase { variant, base, subset, edits })
                        .boxed()
                },
                c10_recover,
            ),
            facet(
                "verification",
                "a batch with 1-3 commitments, proofs or cell elements replaced by strings around the valid encodings (18 kinds of points: outside the subgroup, right point plus torsion, off the curve, unreduced x, malformed identity, flags, flips); non-trivial: batch not empty",
                7000,
                500_000,
                |_| {
                    (any::<bool>(), small_shape(), order(), prop::collection::vec(vedit(), 1..4))
                        .prop_map(|(plain, shape, order, edits)| VerifyCase { plain, shape, order, edits })
                        .boxed()
                },
                c10_verify,
            ),
            facet(
                "torsion",
                "a batch of 2-700 entries, with points of order 3, 11 or larger and outside the subgroup added to 1-5 commitments and proofs, mostly so that their sum stays in the subgroup; non-trivial: always",
                1200,
                60_000,
                |_| {
                    let i = || prop_oneof![3 => 0u16..6, 1 => Just(u16::MAX), 4 => any::<u16>()];
                    let f = || prop_oneof![4 => Just(1i8), 2 => Just(-1i8), 1 => -4i8..5];
                    let com = || prop::bool::weighted(0.2);
                    let all = any::<bool>();
                    (any::<bool>(), shape(), order(), prop_oneof![Just(0u64), Just(1), 2u64..40], prop::collection::vec((i(), com(), f()), 1..6), prop::bool::weighted(0.8), all)
                        .prop_map(|(plain, shape, order, k, mut places, balance, all)| {
                            if all {
                                let c = places[0].1;
                                places.iter_mut().for_each(|p| p.1 = c);
                            }
                            VerifyCase { plain, shape, order, edits: vec![Edit::Torsion(k, places, balance)] }
                        })
                        .boxed()
                },
                c10_verify,
            ),
        ],
    }]
}
