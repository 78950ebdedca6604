//! BigNum and GroupG1 stand-ins. A BigNum without a symbolic part behaves exactly like amcl's BIG
//! (it *is* amcl's BIG); a BigNum with a symbolic part stands for the canonical integer of a term.
use super::amcl::arch::Chunk;
use super::ECCurve::big::{BIG, MODBYTES, NLEN};
use super::ECCurve::dbig::DBIG;
pub use super::ECCurve::fp::FP;
use std::fmt;
use symcore::{arena, decide, unsupported, Cond, Fr, PointId, TermId};

pub type Limb = Chunk;
pub type BigNum = SBig;
pub type DoubleBigNum = DBIG;
pub type GroupG1 = SPoint;

#[derive(Clone, Copy)]
pub struct SBig {
    pub w: [Chunk; NLEN],
    pub sym: Option<TermId>,
}

pub(crate) fn big_to_fr(b: &BIG) -> Fr {
    let base = Fr::from_u64(1u64 << 58);
    let mut acc = Fr::zero();
    for i in (0..NLEN).rev() {
        acc = acc.mul(&base).add(&Fr::from_i64(b.w[i] as i64));
    }
    acc
}
pub(crate) fn fr_to_big(f: &Fr) -> BIG {
    BIG::frombytes(&f.to_be_bytes(MODBYTES))
}
// The encodings follow the real layouts: a scalar is 48 bytes of which the top 16 are zero; a point is
// 0x04 | x (48) | y (48), and x is the same for P and -P.
pub(crate) const FE_MAGIC: &[u8; 6] = b"\xFDSYMFE";
pub(crate) const G1_MAGIC: &[u8; 6] = b"\xFDSYMG1";
pub(crate) const GY_MAGIC: &[u8; 6] = b"\xFDSYMGY";
fn id_at(b: &[u8], at: usize, magic: &[u8; 6]) -> Option<u32> {
    if b.len() >= at + 10 && &b[at..at + 6] == magic {
        Some(u32::from_be_bytes([b[at + 6], b[at + 7], b[at + 8], b[at + 9]]))
    } else {
        None
    }
}
/// the 32 (or 48) significant bytes: a mark, the id, filler that depends on the id and the place
fn carry(out: &mut [u8], magic: &[u8; 6], id: u32) {
    out[0..6].copy_from_slice(magic);
    out[6..10].copy_from_slice(&id.to_be_bytes());
    for j in 10..out.len() {
        out[j] = symcore::filler(id, j);
    }
}
pub(crate) fn sym_of_bytes(b: &[u8]) -> Option<TermId> {
    // at 0: the bytes of a challenge
    id_at(b, 0, FE_MAGIC).or_else(|| if b.len() == MODBYTES && b[..16].iter().all(|x| *x == 0) { id_at(b, 16, FE_MAGIC) } else { None })
}
pub(crate) fn bytes_of_sym(t: TermId, out: &mut [u8]) {
    for x in out.iter_mut() {
        *x = 0;
    }
    carry(&mut out[16..48], FE_MAGIC, t);
}
/// bit i of a symbolic value; needs a registered decomposition
pub(crate) fn sym_bit(t: TermId, i: usize) -> bool {
    let b = {
        let a = arena();
        match a.bits.get(&t) {
            Some(v) => {
                if i < v.len() {
                    Some(Some(v[i]))
                } else {
                    Some(None)
                }
            }
            None => None,
        }
    };
    match b {
        Some(Some(bt)) => !decide(Cond::Zero(bt)),
        Some(None) => false,
        None => unsupported("bit of a symbolic value without a bit decomposition"),
    }
}
pub(crate) fn sym_shr(t: TermId, k: usize) -> TermId {
    let mut a = arena();
    let bits = match a.bits.get(&t) {
        Some(v) => v.clone(),
        None => {
            drop(a);
            unsupported("shift of a symbolic value without a bit decomposition")
        }
    };
    let rest: Vec<TermId> = if k < bits.len() { bits[k..].to_vec() } else { vec![] };
    from_bits(&mut a, &rest)
}
pub fn from_bits(a: &mut symcore::Arena, bits: &[TermId]) -> TermId {
    let mut acc = a.cst(Fr::zero());
    let mut p = Fr::one();
    for b in bits {
        let x = a.scale(p, *b);
        acc = a.add(acc, x);
        p = p.add(&p);
    }
    if a.as_const(acc).is_none() {
        a.bits.insert(acc, bits.to_vec());
    }
    acc
}
/// force a symbolic value with a registered decomposition to a concrete one (forks on its bits)
pub(crate) fn concretise(t: TermId) -> BIG {
    let n = {
        let a = arena();
        match a.bits.get(&t) {
            Some(v) => v.len(),
            None => {
                drop(a);
                unsupported("integer value of a symbolic field element needed")
            }
        }
    };
    let mut f = Fr::zero();
    let mut p = Fr::one();
    for i in 0..n {
        if sym_bit(t, i) {
            f = f.add(&p);
        }
        p = p.add(&p);
    }
    fr_to_big(&f)
}

impl SBig {
    fn of(b: BIG) -> SBig {
        SBig { w: b.w, sym: None }
    }
    pub fn of_term(t: TermId) -> SBig {
        let c = arena().as_const(t);
        match c {
            Some(c) => SBig::of(fr_to_big(&c)),
            None => SBig { w: [0; NLEN], sym: Some(t) },
        }
    }
    pub fn conc(&self) -> BIG {
        match self.sym {
            None => BIG::new_ints(&self.w),
            Some(t) => concretise(t),
        }
    }
    pub fn term(&self) -> TermId {
        match self.sym {
            Some(t) => t,
            None => {
                let f = big_to_fr(&self.conc());
                arena().cst(f)
            }
        }
    }
    fn upd<R, F: FnOnce(&mut BIG) -> R>(&mut self, f: F) -> R {
        let mut b = self.conc();
        let r = f(&mut b);
        self.w = b.w;
        self.sym = None;
        r
    }
    pub fn new() -> SBig {
        SBig { w: [0; NLEN], sym: None }
    }
    pub fn new_int(x: isize) -> SBig {
        SBig::of(BIG::new_int(x))
    }
    pub fn new_ints(a: &[Chunk]) -> SBig {
        SBig::of(BIG::new_ints(a))
    }
    pub fn new_copy(y: &SBig) -> SBig {
        *y
    }
    pub fn new_big(y: &SBig) -> SBig {
        *y
    }
    pub fn new_dcopy(y: &DBIG) -> SBig {
        SBig::of(BIG::new_dcopy(y))
    }
    pub fn get(&self, i: usize) -> Chunk {
        self.conc().get(i)
    }
    pub fn set(&mut self, i: usize, x: Chunk) {
        self.upd(|b| b.set(i, x))
    }
    pub fn iszilch(&self) -> bool {
        match self.sym {
            None => self.conc().iszilch(),
            Some(t) => decide(Cond::Zero(t)),
        }
    }
    pub fn zero(&mut self) {
        *self = SBig::new()
    }
    pub fn isunity(&self) -> bool {
        match self.sym {
            None => self.conc().isunity(),
            Some(t) => {
                let d = {
                    let mut a = arena();
                    let one = a.cst(Fr::one());
                    a.sub(t, one)
                };
                decide(Cond::Zero(d))
            }
        }
    }
    pub fn one(&mut self) {
        *self = SBig::new_int(1)
    }
    pub fn copy(&mut self, x: &SBig) {
        *self = *x
    }
    pub fn dcopy(&mut self, x: &DBIG) {
        *self = SBig::new_dcopy(x)
    }
    pub fn norm(&mut self) -> Chunk {
        match self.sym {
            None => self.upd(|b| b.norm()),
            Some(_) => 0,
        }
    }
    pub fn fshr(&mut self, k: usize) -> isize {
        match self.sym {
            None => self.upd(|b| b.fshr(k)),
            Some(t) => {
                let mut r = 0isize;
                for i in 0..k {
                    if sym_bit(t, i) {
                        r |= 1 << i;
                    }
                }
                *self = SBig::of_term(sym_shr(t, k));
                r
            }
        }
    }
    pub fn shr(&mut self, k: usize) {
        match self.sym {
            None => self.upd(|b| b.shr(k)),
            Some(t) => *self = SBig::of_term(sym_shr(t, k)),
        }
    }
    pub fn fshl(&mut self, k: usize) -> isize {
        self.upd(|b| b.fshl(k))
    }
    pub fn shl(&mut self, k: usize) {
        self.upd(|b| b.shl(k))
    }
    pub fn nbits(&self) -> usize {
        self.conc().nbits()
    }
    pub fn tostring(&mut self) -> String {
        match self.sym {
            None => self.conc().tostring(),
            Some(t) => format!("sym:{}", t),
        }
    }
    pub fn fromstring(val: String) -> SBig {
        SBig::from_hex(val)
    }
    pub fn from_hex(val: String) -> SBig {
        if val.starts_with("sym:") {
            return SBig::of_term(val[4..].parse().unwrap());
        }
        SBig::of(BIG::from_hex(val))
    }
    pub fn to_hex(&mut self) -> String {
        self.tostring()
    }
    pub fn add(&mut self, r: &SBig) {
        let y = r.conc();
        self.upd(|b| b.add(&y))
    }
    pub fn or(&mut self, r: &SBig) {
        let y = r.conc();
        self.upd(|b| b.or(&y))
    }
    pub fn dbl(&mut self) {
        self.upd(|b| b.dbl())
    }
    pub fn plus(&self, x: &SBig) -> SBig {
        SBig::of(self.conc().plus(&x.conc()))
    }
    pub fn minus(&self, x: &SBig) -> SBig {
        SBig::of(self.conc().minus(&x.conc()))
    }
    pub fn inc(&mut self, x: isize) {
        self.upd(|b| b.inc(x))
    }
    pub fn dec(&mut self, x: isize) {
        self.upd(|b| b.dec(x))
    }
    pub fn sub(&mut self, x: &SBig) {
        let y = x.conc();
        self.upd(|b| b.sub(&y))
    }
    pub fn rsub(&mut self, x: &SBig) {
        let y = x.conc();
        self.upd(|b| b.rsub(&y))
    }
    pub fn imul(&mut self, c: isize) {
        self.upd(|b| b.imul(c))
    }
    pub fn tobytes(&mut self, out: &mut [u8]) {
        self.upd(|b| b.tobytes(out))
    }
    pub fn tobytearray(&mut self, out: &mut [u8], n: usize) {
        self.upd(|b| b.tobytearray(out, n))
    }
    pub fn frombytes(b: &[u8]) -> SBig {
        match sym_of_bytes(b) {
            Some(t) => SBig::of_term(t),
            None => SBig::of(BIG::frombytes(b)),
        }
    }
    pub fn frombytearray(b: &[u8], n: usize) -> SBig {
        SBig::of(BIG::frombytearray(b, n))
    }
    pub fn comp(a: &SBig, b: &SBig) -> isize {
        if a.sym.is_none() && b.sym.is_none() {
            return BIG::comp(&a.conc(), &b.conc());
        }
        let (ta, tb) = (a.term(), b.term());
        let d = arena().sub(ta, tb);
        if decide(Cond::Zero(d)) {
            return 0;
        }
        BIG::comp(&a.conc(), &b.conc())
    }
    pub fn mod2m(&mut self, m: usize) {
        match self.sym {
            None => self.upd(|b| b.mod2m(m)),
            Some(t) => {
                let mut f = Fr::zero();
                let mut p = Fr::one();
                for i in 0..m {
                    if sym_bit(t, i) {
                        f = f.add(&p);
                    }
                    p = p.add(&p);
                }
                *self = SBig::of(fr_to_big(&f));
            }
        }
    }
    pub fn parity(&self) -> isize {
        match self.sym {
            None => self.conc().parity(),
            Some(t) => sym_bit(t, 0) as isize,
        }
    }
    pub fn bit(&self, n: usize) -> isize {
        match self.sym {
            None => self.conc().bit(n),
            Some(t) => sym_bit(t, n) as isize,
        }
    }
    pub fn lastbits(&mut self, n: usize) -> isize {
        match self.sym {
            None => self.upd(|b| b.lastbits(n)),
            Some(t) => {
                let mut r = 0isize;
                for i in 0..n {
                    if sym_bit(t, i) {
                        r |= 1 << i;
                    }
                }
                r
            }
        }
    }
    pub fn rmod(&mut self, n: &SBig) {
        if self.sym.is_some() {
            // reduction modulo the group order leaves a canonical value alone
            if BIG::comp(&n.conc(), &super::constants::CurveOrder.conc()) == 0 {
                return;
            }
        }
        let y = n.conc();
        self.upd(|b| b.rmod(&y))
    }
    pub fn div(&mut self, n: &SBig) {
        let y = n.conc();
        self.upd(|b| b.div(&y))
    }
    pub fn mul(a: &SBig, b: &SBig) -> DBIG {
        BIG::mul(&a.conc(), &b.conc())
    }
    pub fn sqr(a: &SBig) -> DBIG {
        BIG::sqr(&a.conc())
    }
    pub fn smul(a: &SBig, b: &SBig) -> SBig {
        SBig::of(BIG::smul(&a.conc(), &b.conc()))
    }
    pub fn modmul(a: &SBig, b: &SBig, m: &SBig) -> SBig {
        if a.sym.is_none() && b.sym.is_none() {
            return SBig::of(BIG::modmul(&a.conc(), &b.conc(), &m.conc()));
        }
        let (x, y) = (a.term(), b.term());
        let t = arena().mul(x, y);
        SBig::of_term(t)
    }
    pub fn modsqr(a: &SBig, m: &SBig) -> SBig {
        SBig::modmul(a, a, m)
    }
    pub fn modneg(a: &SBig, m: &SBig) -> SBig {
        match a.sym {
            None => SBig::of(BIG::modneg(&a.conc(), &m.conc())),
            Some(t) => {
                let t = arena().neg(t);
                SBig::of_term(t)
            }
        }
    }
    pub fn powmod(&mut self, e: &SBig, m: &SBig) -> SBig {
        SBig::of(self.conc().powmod(&e.conc(), &m.conc()))
    }
    pub fn invmodp(&mut self, p: &SBig) {
        match self.sym {
            None => {
                let y = p.conc();
                self.upd(|b| b.invmodp(&y))
            }
            Some(t) => {
                let i = arena().inv(t);
                *self = SBig::of_term(i)
            }
        }
    }
    pub fn jacobi(&mut self, p: &SBig) -> isize {
        self.conc().jacobi(&p.conc())
    }
    pub fn randomnum(q: &SBig, rng: &mut super::amcl::rand::RAND) -> SBig {
        SBig::of(BIG::randomnum(&q.conc(), rng))
    }
    pub fn random(rng: &mut super::amcl::rand::RAND) -> SBig {
        SBig::of(BIG::random(rng))
    }
}
impl fmt::Debug for SBig {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let mut c = *self;
        write!(f, "BIG: [ {} ]", c.tostring())
    }
}
impl fmt::Display for SBig {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let mut c = *self;
        write!(f, "BIG: [ {} ]", c.tostring())
    }
}
impl PartialEq for SBig {
    fn eq(&self, o: &SBig) -> bool {
        SBig::comp(self, o) == 0
    }
}
impl Eq for SBig {}

/// An element of the group as a formal combination of independent basis points.
#[derive(Clone, Copy)]
pub struct SPoint {
    pub id: PointId,
}
impl SPoint {
    fn from_items(items: &[(PointId, TermId)]) -> SPoint {
        SPoint { id: arena().lincomb(items) }
    }
    pub fn new() -> SPoint {
        SPoint { id: arena().point(vec![]) }
    }
    pub fn inf(&mut self) {
        *self = SPoint::new()
    }
    pub fn generator() -> SPoint {
        SPoint { id: arena().basis_point("GENERATOR") }
    }
    pub fn is_infinity(&self) -> bool {
        decide(Cond::PointZero(self.id))
    }
    pub fn equals(&self, o: &SPoint) -> bool {
        let mut d = *self;
        d.sub(o);
        d.is_infinity()
    }
    pub fn mapit(h: &[u8]) -> SPoint {
        let n: String = h.iter().map(|b| format!("{:02x}", b)).collect();
        SPoint { id: arena().basis_point(&format!("HASH:{}", n)) }
    }
    pub fn copy(&mut self, o: &SPoint) {
        *self = *o
    }
    pub fn affine(&mut self) {}
    pub fn add(&mut self, o: &SPoint) {
        let one = arena().cst(Fr::one());
        *self = SPoint::from_items(&[(self.id, one), (o.id, one)])
    }
    pub fn sub(&mut self, o: &SPoint) {
        let (one, m1) = {
            let mut a = arena();
            (a.cst(Fr::one()), a.cst(Fr::one().neg()))
        };
        *self = SPoint::from_items(&[(self.id, one), (o.id, m1)])
    }
    pub fn neg(&mut self) {
        let m1 = arena().cst(Fr::one().neg());
        *self = SPoint::from_items(&[(self.id, m1)])
    }
    pub fn dbl(&mut self) {
        let two = arena().cst(Fr::from_u64(2));
        *self = SPoint::from_items(&[(self.id, two)])
    }
    pub fn mul(&self, e: &SBig) -> SPoint {
        let t = e.term();
        SPoint::from_items(&[(self.id, t)])
    }
    pub fn mul2(&self, e: &SBig, q: &SPoint, f: &SBig) -> SPoint {
        let (te, tf) = (e.term(), f.term());
        SPoint::from_items(&[(self.id, te), (q.id, tf)])
    }
    pub fn tobytes(&self, b: &mut [u8], compress: bool) {
        for x in b.iter_mut() {
            *x = 0;
        }
        let mut n = *self;
        n.neg();
        carry(&mut b[1..49], G1_MAGIC, self.id.min(n.id));
        if compress {
            b[0] = if self.id <= n.id { 2 } else { 3 };
        } else {
            b[0] = 4;
            carry(&mut b[49..97], GY_MAGIC, self.id);
        }
    }
    pub fn frombytes(b: &[u8]) -> SPoint {
        match (id_at(b, 49, GY_MAGIC), id_at(b, 1, G1_MAGIC)) {
            (Some(id), Some(_)) if b[0] == 4 => SPoint { id },
            (None, Some(id)) if b[0] == 2 => SPoint { id },
            (None, Some(id)) if b[0] == 3 => {
                let mut p = SPoint { id };
                p.neg();
                p
            }
            _ => SPoint::new(),
        }
    }
    pub fn tostring(&mut self) -> String {
        self.to_hex()
    }
    pub fn to_hex(&self) -> String {
        format!("g1:{}", self.id)
    }
}
impl fmt::Debug for SPoint {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "g1:{}", self.id)
    }
}
impl fmt::Display for SPoint {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "g1:{}", self.id)
    }
}
impl PartialEq for SPoint {
    fn eq(&self, o: &SPoint) -> bool {
        self.equals(o)
    }
}
impl Eq for SPoint {}
