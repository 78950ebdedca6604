use crate::fr::Fr;
use std::collections::HashMap;
use std::sync::{Mutex, MutexGuard};

pub type TermId = u32;
pub type PointId = u32;
pub type BasisId = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(Fr),
    Var(u32),
    Add(TermId, TermId),
    Mul(TermId, TermId),
    /// inv0: inverse(0) = 0
    Inv(TermId),
}

/// A branch condition the code under execution asked about.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Cond {
    /// term == 0
    Zero(TermId),
    /// the formal combination is the identity of the group
    PointZero(PointId),
    /// something the encoding does not interpret (both outcomes explored)
    Opaque(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum TEvent {
    Init(Vec<u8>),
    Append(Vec<u8>, Vec<u8>),
    Challenge(Vec<u8>, usize, TermId),
}

#[derive(Clone, Debug)]
pub struct RandEvent {
    pub var: TermId,
    /// "os" for FieldElement::random(), "rng" when a caller's generator was used
    pub kind: &'static str,
    /// 32 bytes drawn from the generator (to recognise a generator with a fixed seed)
    pub bytes: Vec<u8>,
}

pub type Oracle = Box<dyn FnMut(&[(Cond, bool)], &Cond) -> (bool, bool) + Send>;

#[derive(Default)]
pub struct Arena {
    pub nodes: Vec<Node>,
    index: HashMap<Node, TermId>,
    pub names: Vec<String>,
    name_idx: HashMap<String, u32>,

    pub points: Vec<Vec<(BasisId, TermId)>>,
    point_idx: HashMap<Vec<(BasisId, TermId)>, PointId>,
    pub basis: Vec<String>,
    basis_idx: HashMap<String, BasisId>,

    /// bit decomposition registered for a term (least significant first)
    pub bits: HashMap<TermId, Vec<TermId>>,

    // transcript states, a trie of histories
    tr_idx: HashMap<(u32, TEvent), u32>,
    tr_parent: Vec<(u32, Option<TEvent>)>,
    pub transcripts: Vec<u32>, // live instances of this run: current state, in creation order
    tr_chal: HashMap<u32, TermId>,
    /// total order of everything observable in this run
    pub tlog: Vec<(u32, TEvent)>, // (instance, event)

    pub rand_ctr: u32,
    pub rand_log: Vec<RandEvent>,
    pub pzero_log: Vec<(PointId, bool)>,
    pub msm_sizes: Vec<(usize, usize)>,

    /// replay: programmed challenges, in the order they are drawn, and programmed random draws
    pub chal_prog: Option<Vec<Fr>>,
    pub chal_ctr: usize,
    pub rand_prog: Option<Vec<Fr>>,

    // exploration
    pub exploring: bool,
    pub prefix: Vec<bool>,
    pub trail: Vec<(Cond, bool)>,
    pub pending: Vec<Vec<bool>>,
    known: HashMap<Cond, bool>,
    pub unsupported: Option<String>,
    pub max_decisions: usize,
}

pub static ARENA: Mutex<Option<Arena>> = Mutex::new(None);
static ORACLE: Mutex<Option<Oracle>> = Mutex::new(None);

pub struct Guard(MutexGuard<'static, Option<Arena>>);
impl std::ops::Deref for Guard {
    type Target = Arena;
    fn deref(&self) -> &Arena {
        self.0.as_ref().unwrap()
    }
}
impl std::ops::DerefMut for Guard {
    fn deref_mut(&mut self) -> &mut Arena {
        self.0.as_mut().unwrap()
    }
}
pub fn arena() -> Guard {
    // single-threaded: a held lock can only mean re-entry
    let mut g = match ARENA.try_lock() {
        Ok(g) => g,
        Err(std::sync::TryLockError::Poisoned(p)) => p.into_inner(),
        Err(std::sync::TryLockError::WouldBlock) => panic!("arena re-entered"),
    };
    if g.is_none() {
        let mut a = Arena::default();
        a.max_decisions = 4000;
        a.tr_parent.push((0, None));
        let id = a.point(vec![]);
        let gen = a.basis_point("GENERATOR");
        debug_assert!(id == 0 && gen == 1);
        *g = Some(a);
    }
    Guard(g)
}

pub fn set_oracle(o: Option<Oracle>) {
    let mut g = match ORACLE.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    };
    *g = o;
}

impl Arena {
    fn intern(&mut self, n: Node) -> TermId {
        if let Some(i) = self.index.get(&n) {
            return *i;
        }
        let i = self.nodes.len() as TermId;
        self.nodes.push(n);
        self.index.insert(n, i);
        i
    }
    pub fn cst(&mut self, c: Fr) -> TermId {
        self.intern(Node::Const(c))
    }
    pub fn var(&mut self, name: &str) -> TermId {
        let k = match self.name_idx.get(name) {
            Some(k) => *k,
            None => {
                let k = self.names.len() as u32;
                self.names.push(name.to_string());
                self.name_idx.insert(name.to_string(), k);
                k
            }
        };
        self.intern(Node::Var(k))
    }
    pub fn as_const(&self, t: TermId) -> Option<Fr> {
        match self.nodes[t as usize] {
            Node::Const(c) => Some(c),
            _ => None,
        }
    }
    pub fn name_of(&self, t: TermId) -> Option<&str> {
        match self.nodes[t as usize] {
            Node::Var(k) => Some(&self.names[k as usize]),
            _ => None,
        }
    }
    fn neg_parts(&self, t: TermId) -> (Fr, TermId) {
        // t = c * u
        match self.nodes[t as usize] {
            Node::Mul(a, b) => {
                if let Node::Const(c) = self.nodes[a as usize] {
                    return (c, b);
                }
                (Fr::one(), t)
            }
            _ => (Fr::one(), t),
        }
    }
    pub fn add(&mut self, a: TermId, b: TermId) -> TermId {
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => return self.cst(x.add(&y)),
            (Some(x), None) if x.is_zero() => return b,
            (None, Some(y)) if y.is_zero() => return a,
            _ => {}
        }
        let (ca, ua) = self.neg_parts(a);
        let (cb, ub) = self.neg_parts(b);
        if ua == ub {
            let c = ca.add(&cb);
            return self.scale(c, ua);
        }
        // (u + v) - v and u + (w - u): the cancellations that sums of differences produce
        if cb.neg() == Fr::one() || ca.neg() == Fr::one() {
            for (p, q) in [(a, b), (b, a)].iter() {
                if let Node::Add(l, r) = self.nodes[*p as usize] {
                    let nq = {
                        let (c, u) = self.neg_parts(*q);
                        (c.neg(), u)
                    };
                    if self.neg_parts(l) == nq {
                        return r;
                    }
                    if self.neg_parts(r) == nq {
                        return l;
                    }
                }
            }
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.intern(Node::Add(a, b))
    }
    pub fn scale(&mut self, c: Fr, t: TermId) -> TermId {
        if c.is_zero() {
            return self.cst(Fr::zero());
        }
        if c.is_one() {
            return t;
        }
        match self.nodes[t as usize] {
            Node::Const(d) => return self.cst(c.mul(&d)),
            Node::Mul(a, b) => {
                if let Node::Const(d) = self.nodes[a as usize] {
                    return self.scale(c.mul(&d), b);
                }
            }
            _ => {}
        }
        let k = self.cst(c);
        self.intern(Node::Mul(k, t))
    }
    pub fn mul(&mut self, a: TermId, b: TermId) -> TermId {
        if let Some(c) = self.as_const(a) {
            return self.scale(c, b);
        }
        if let Some(c) = self.as_const(b) {
            return self.scale(c, a);
        }
        let (ca, ua) = self.neg_parts(a);
        let (cb, ub) = self.neg_parts(b);
        let c = ca.mul(&cb);
        let (ua, ub) = if ua <= ub { (ua, ub) } else { (ub, ua) };
        let m = self.intern(Node::Mul(ua, ub));
        self.scale(c, m)
    }
    pub fn neg(&mut self, a: TermId) -> TermId {
        let m1 = Fr::one().neg();
        self.scale(m1, a)
    }
    pub fn sub(&mut self, a: TermId, b: TermId) -> TermId {
        if a == b {
            return self.cst(Fr::zero());
        }
        let nb = self.neg(b);
        self.add(a, nb)
    }
    pub fn inv(&mut self, a: TermId) -> TermId {
        match self.nodes[a as usize] {
            Node::Const(c) => return self.cst(c.inv()),
            Node::Inv(x) => return x, // inv0 is an involution
            _ => {}
        }
        let (c, u) = self.neg_parts(a);
        if !c.is_one() {
            let i = self.inv(u);
            return self.scale(c.inv(), i);
        }
        if let Node::Mul(x, y) = self.nodes[a as usize] {
            // inv0 is multiplicative
            let (ix, iy) = (self.inv(x), self.inv(y));
            return self.mul(ix, iy);
        }
        self.intern(Node::Inv(a))
    }

    // ---- group ----
    pub fn basis_id(&mut self, name: &str) -> BasisId {
        if let Some(b) = self.basis_idx.get(name) {
            return *b;
        }
        let b = self.basis.len() as BasisId;
        self.basis.push(name.to_string());
        self.basis_idx.insert(name.to_string(), b);
        b
    }
    pub fn point(&mut self, mut v: Vec<(BasisId, TermId)>) -> PointId {
        v.sort();
        let mut out: Vec<(BasisId, TermId)> = Vec::with_capacity(v.len());
        for (b, t) in v {
            let merge = match out.last() {
                Some((lb, _)) => *lb == b,
                None => false,
            };
            if merge {
                let (_, lt) = out.pop().unwrap();
                let s = self.add(lt, t);
                out.push((b, s));
            } else {
                out.push((b, t));
            }
        }
        let nodes = &self.nodes;
        out.retain(|(_, t)| match nodes[*t as usize] {
            Node::Const(c) => !c.is_zero(),
            _ => true,
        });
        if let Some(i) = self.point_idx.get(&out) {
            return *i;
        }
        let i = self.points.len() as PointId;
        self.points.push(out.clone());
        self.point_idx.insert(out, i);
        i
    }
    pub fn basis_point(&mut self, name: &str) -> PointId {
        let b = self.basis_id(name);
        let one = self.cst(Fr::one());
        self.point(vec![(b, one)])
    }
    pub fn lincomb(&mut self, items: &[(PointId, TermId)]) -> PointId {
        let mut acc: HashMap<BasisId, TermId> = HashMap::new();
        let mut order = vec![];
        for (p, s) in items {
            let pv = self.points[*p as usize].clone();
            for (b, t) in pv {
                let x = self.mul(t, *s);
                match acc.get(&b).cloned() {
                    Some(o) => {
                        let y = self.add(o, x);
                        acc.insert(b, y);
                    }
                    None => {
                        order.push(b);
                        acc.insert(b, x);
                    }
                }
            }
        }
        let v = order.into_iter().map(|b| (b, acc[&b])).collect();
        self.point(v)
    }

    // ---- transcript ----
    pub fn tr_new(&mut self, label: &[u8]) -> u32 {
        let inst = self.transcripts.len() as u32;
        self.transcripts.push(0);
        self.tr_push(inst, TEvent::Init(label.to_vec()));
        inst
    }
    pub fn tr_clone(&mut self, inst: u32) -> u32 {
        let s = self.transcripts[inst as usize];
        self.transcripts.push(s);
        (self.transcripts.len() - 1) as u32
    }
    pub fn tr_push(&mut self, inst: u32, e: TEvent) -> u32 {
        let s = self.transcripts[inst as usize];
        let k = (s, e.clone());
        let n = match self.tr_idx.get(&k) {
            Some(n) => *n,
            None => {
                let n = self.tr_parent.len() as u32;
                self.tr_parent.push((s, Some(e.clone())));
                self.tr_idx.insert(k, n);
                n
            }
        };
        self.transcripts[inst as usize] = n;
        self.tlog.push((inst, e));
        n
    }
    /// A challenge is a function of the whole history of the transcript instance.
    pub fn tr_challenge(&mut self, inst: u32, label: &[u8], len: usize) -> TermId {
        if let Some(v) = &self.chal_prog {
            let c = v.get(self.chal_ctr).cloned().unwrap_or(Fr::from_u64(1000 + self.chal_ctr as u64));
            self.chal_ctr += 1;
            let t = self.cst(c);
            self.tr_push(inst, TEvent::Challenge(label.to_vec(), len, t));
            return t;
        }
        let s = self.transcripts[inst as usize];
        // probe event without symbol, so that equal histories meet
        let probe = (s, TEvent::Challenge(label.to_vec(), len, u32::max_value()));
        let n = match self.tr_idx.get(&probe) {
            Some(n) => *n,
            None => {
                let n = self.tr_parent.len() as u32;
                self.tr_parent.push((s, Some(probe.1.clone())));
                self.tr_idx.insert(probe, n);
                n
            }
        };
        let t = match self.tr_chal.get(&n) {
            Some(t) => *t,
            None => {
                let nm = format!("ch{}_{}", n, String::from_utf8_lossy(label));
                let t = self.var(&nm);
                self.tr_chal.insert(n, t);
                t
            }
        };
        self.transcripts[inst as usize] = n;
        self.tlog.push((inst, TEvent::Challenge(label.to_vec(), len, t)));
        t
    }

    /// forget every term (only between configurations: no term or point may survive)
    pub fn hard_reset(&mut self) {
        let md = self.max_decisions;
        *self = Arena::default();
        self.max_decisions = md;
        self.tr_parent.push((0, None));
        self.point(vec![]);
        self.basis_point("GENERATOR");
    }
    pub fn reset_run(&mut self) {
        self.transcripts.clear();
        self.tlog.clear();
        self.rand_ctr = 0;
        self.chal_ctr = 0;
        self.rand_log.clear();
        self.pzero_log.clear();
        self.msm_sizes.clear();
        self.trail.clear();
        self.known.clear();
        self.unsupported = None;
    }
}

// ---------------- exploration ----------------

pub const ABORT_MSG: &str = "symcore: path abandoned";

pub fn unsupported(why: &str) -> ! {
    {
        let mut a = arena();
        if a.unsupported.is_none() {
            a.unsupported = Some(why.to_string());
        }
    }
    panic!("{}: {}", ABORT_MSG, why)
}

pub fn decide(c: Cond) -> bool {
    let (trail, pos) = {
        let mut a = arena();
        if let Cond::Zero(t) = c {
            if let Some(k) = a.as_const(t) {
                return k.is_zero();
            }
        }
        if let Cond::PointZero(p) = c {
            let v = &a.points[p as usize];
            if v.is_empty() {
                a.pzero_log.push((p, true));
                return true;
            }
            if v.iter().all(|(_, t)| match a.nodes[*t as usize] {
                Node::Const(_) => true,
                _ => false,
            }) {
                // only non-zero constant coefficients on independent basis points
                a.pzero_log.push((p, false));
                return false;
            }
        }
        if let Some(b) = a.known.get(&c) {
            return *b;
        }
        let pos = a.trail.len();
        if pos < a.prefix.len() {
            let b = a.prefix[pos];
            record(&mut a, c, b);
            return b;
        }
        if pos >= a.max_decisions {
            drop(a);
            unsupported("decision limit reached");
        }
        (a.trail.clone(), pos)
    };
    let (can_t, can_f) = {
        let mut g = match ORACLE.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        };
        match g.as_mut() {
            Some(o) => o(&trail, &c),
            None => (true, true),
        }
    };
    let mut a = arena();
    let b = match (can_t, can_f) {
        (true, true) => {
            let mut alt: Vec<bool> = a.trail.iter().map(|(_, b)| *b).collect();
            debug_assert_eq!(alt.len(), pos);
            alt.push(true);
            a.pending.push(alt);
            false
        }
        (true, false) => true,
        (false, true) => false,
        (false, false) => {
            drop(a);
            panic!("{}: infeasible path", ABORT_MSG)
        }
    };
    record(&mut a, c, b);
    b
}

fn record(a: &mut Arena, c: Cond, b: bool) {
    if let Cond::PointZero(p) = c {
        a.pzero_log.push((p, b));
    }
    a.known.insert(c.clone(), b);
    a.trail.push((c, b));
}
