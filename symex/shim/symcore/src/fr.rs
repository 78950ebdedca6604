//! Arithmetic in F_r, r = order of the BLS12-381 group G1 (what amcl_wrapper calls CurveOrder).
use std::fmt;

/// r, little-endian 64-bit limbs
pub const MODULUS: [u64; 4] = [
    0xFFFF_FFFF_0000_0001,
    0x53BD_A402_FFFE_5BFE,
    0x3339_D808_09A1_D805,
    0x73ED_A753_299D_7D48,
];

/// Montgomery form, always fully reduced.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Fr(pub [u64; 4]);

const fn neg_inv64(m: u64) -> u64 {
    let mut inv = 1u64;
    let mut i = 0;
    while i < 63 {
        inv = inv.wrapping_mul(inv);
        inv = inv.wrapping_mul(m);
        i += 1;
    }
    inv.wrapping_neg()
}
const NINV: u64 = neg_inv64(MODULUS[0]);

fn geq(a: &[u64; 4], b: &[u64; 4]) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
fn sub_raw(a: &[u64; 4], b: &[u64; 4]) -> ([u64; 4], bool) {
    let mut r = [0u64; 4];
    let mut bo = 0u64;
    for i in 0..4 {
        let t = (a[i] as i128) - (b[i] as i128) - (bo as i128);
        r[i] = t as u64;
        bo = if t < 0 { 1 } else { 0 };
    }
    (r, bo == 1)
}
fn add_raw(a: &[u64; 4], b: &[u64; 4]) -> ([u64; 4], bool) {
    let mut r = [0u64; 4];
    let mut c = 0u128;
    for i in 0..4 {
        let t = a[i] as u128 + b[i] as u128 + c;
        r[i] = t as u64;
        c = t >> 64;
    }
    (r, c != 0)
}
fn add_mod(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    // r < 2^255, no carry out
    let (s, _) = add_raw(a, b);
    if geq(&s, &MODULUS) {
        sub_raw(&s, &MODULUS).0
    } else {
        s
    }
}
fn mont_mul(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut t = [0u64; 6];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 {
            let v = t[j] as u128 + (a[j] as u128) * (b[i] as u128) + c;
            t[j] = v as u64;
            c = v >> 64;
        }
        let v = t[4] as u128 + c;
        t[4] = v as u64;
        t[5] = (v >> 64) as u64;
        let m = t[0].wrapping_mul(NINV);
        let v = t[0] as u128 + (m as u128) * (MODULUS[0] as u128);
        let mut c = v >> 64;
        for j in 1..4 {
            let v = t[j] as u128 + (m as u128) * (MODULUS[j] as u128) + c;
            t[j - 1] = v as u64;
            c = v >> 64;
        }
        let v = t[4] as u128 + c;
        t[3] = v as u64;
        t[4] = t[5] + ((v >> 64) as u64);
        t[5] = 0;
    }
    let r = [t[0], t[1], t[2], t[3]];
    if t[4] != 0 || geq(&r, &MODULUS) {
        sub_raw(&r, &MODULUS).0
    } else {
        r
    }
}

fn r_mod() -> [u64; 4] {
    // 2^256 mod r by doubling 1 256 times
    let mut x = [1u64, 0, 0, 0];
    for _ in 0..256 {
        x = add_mod(&x, &x);
    }
    x
}
struct Consts {
    one: [u64; 4],
    r2: [u64; 4],
}
fn consts() -> &'static Consts {
    use std::sync::OnceLock;
    static C: OnceLock<Consts> = OnceLock::new();
    C.get_or_init(|| {
        let one = r_mod();
        let mut r2 = one;
        for _ in 0..256 {
            r2 = add_mod(&r2, &r2);
        }
        Consts { one, r2 }
    })
}

impl Fr {
    pub fn zero() -> Fr {
        Fr([0; 4])
    }
    pub fn one() -> Fr {
        Fr(consts().one)
    }
    pub fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
    pub fn is_one(&self) -> bool {
        self.0 == consts().one
    }
    pub fn from_u64(x: u64) -> Fr {
        Fr::from_raw([x, 0, 0, 0])
    }
    pub fn from_i64(x: i64) -> Fr {
        if x < 0 {
            Fr::from_u64(x.unsigned_abs()).neg()
        } else {
            Fr::from_u64(x as u64)
        }
    }
    /// value (any 256-bit) taken mod r
    pub fn from_raw(mut v: [u64; 4]) -> Fr {
        while geq(&v, &MODULUS) {
            v = sub_raw(&v, &MODULUS).0;
        }
        Fr(mont_mul(&v, &consts().r2))
    }
    /// canonical integer in [0,r)
    pub fn to_raw(&self) -> [u64; 4] {
        mont_mul(&self.0, &[1, 0, 0, 0])
    }
    pub fn add(&self, o: &Fr) -> Fr {
        Fr(add_mod(&self.0, &o.0))
    }
    pub fn neg(&self) -> Fr {
        if self.is_zero() {
            *self
        } else {
            Fr(sub_raw(&MODULUS, &self.0).0)
        }
    }
    pub fn sub(&self, o: &Fr) -> Fr {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Fr) -> Fr {
        Fr(mont_mul(&self.0, &o.0))
    }
    pub fn pow(&self, e: &[u64; 4]) -> Fr {
        let mut r = Fr::one();
        for i in (0..256).rev() {
            r = r.mul(&r);
            if (e[i / 64] >> (i % 64)) & 1 == 1 {
                r = r.mul(self);
            }
        }
        r
    }
    /// inverse(0) = 0, as in amcl_wrapper
    pub fn inv(&self) -> Fr {
        let (e, _) = sub_raw(&MODULUS, &[2, 0, 0, 0]);
        self.pow(&e)
    }
    /// big-endian bytes of any length, reduced mod r
    pub fn from_be_bytes(b: &[u8]) -> Fr {
        let mut acc = Fr::zero();
        let m = Fr::from_u64(256);
        for x in b {
            acc = acc.mul(&m).add(&Fr::from_u64(*x as u64));
        }
        acc
    }
    pub fn to_be_bytes(&self, len: usize) -> Vec<u8> {
        let raw = self.to_raw();
        let mut v = vec![0u8; len];
        for i in 0..32.min(len) {
            v[len - 1 - i] = (raw[i / 8] >> (8 * (i % 8))) as u8;
        }
        v
    }
    pub fn bit(&self, i: usize) -> bool {
        if i >= 256 {
            return false;
        }
        let raw = self.to_raw();
        (raw[i / 64] >> (i % 64)) & 1 == 1
    }
    pub fn to_dec(&self) -> String {
        raw_to_dec(&self.to_raw())
    }
    pub fn to_hex(&self) -> String {
        let r = self.to_raw();
        format!("{:016x}{:016x}{:016x}{:016x}", r[3], r[2], r[1], r[0])
    }
    pub fn from_hex(s: &str) -> Option<Fr> {
        let mut acc = Fr::zero();
        let m = Fr::from_u64(16);
        for c in s.chars() {
            let d = c.to_digit(16)?;
            acc = acc.mul(&m).add(&Fr::from_u64(d as u64));
        }
        Some(acc)
    }
    pub fn from_dec(s: &str) -> Option<Fr> {
        let (neg, s) = if s.starts_with('-') { (true, &s[1..]) } else { (false, s) };
        let mut acc = Fr::zero();
        let m = Fr::from_u64(10);
        for c in s.chars() {
            let d = c.to_digit(10)?;
            acc = acc.mul(&m).add(&Fr::from_u64(d as u64));
        }
        Some(if neg { acc.neg() } else { acc })
    }
    pub fn to_u64(&self) -> Option<u64> {
        let r = self.to_raw();
        if r[1] == 0 && r[2] == 0 && r[3] == 0 {
            Some(r[0])
        } else {
            None
        }
    }
    /// true if the value is > r/2 (so printing it as a negative number is shorter)
    pub fn is_neg(&self) -> bool {
        let n = self.neg().to_raw();
        let p = self.to_raw();
        !geq(&n, &p)
    }
    /// signed decimal of the representative of least absolute value
    pub fn to_signed_dec(&self) -> String {
        if self.is_neg() {
            format!("-{}", self.neg().to_dec())
        } else {
            self.to_dec()
        }
    }
}
pub fn raw_to_dec(r: &[u64; 4]) -> String {
    let mut v = *r;
    let mut out = vec![];
    loop {
        let mut rem = 0u128;
        for i in (0..4).rev() {
            let cur = (rem << 64) | v[i] as u128;
            v[i] = (cur / 10_000_000_000_000_000_000) as u64;
            rem = cur % 10_000_000_000_000_000_000;
        }
        out.push(rem as u64);
        if v == [0; 4] {
            break;
        }
    }
    let mut s = format!("{}", out.pop().unwrap());
    while let Some(x) = out.pop() {
        s += &format!("{:019}", x);
    }
    s
}
impl fmt::Debug for Fr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.to_signed_dec())
    }
}
