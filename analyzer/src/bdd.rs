//! Reduced ordered binary decision diagrams.  A node denotes a predicate over
//! the bits of the (unknown) parser input; it is the domain in which every
//! abstract value, path condition and proof obligation is expressed.
use std::cell::RefCell;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type B = u32;
pub const F: B = 0;
pub const T: B = 1;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
}
pub type FxB = BuildHasherDefault<Fx>;

#[derive(Clone, Copy)]
struct Node {
    var: u32,
    lo: B,
    hi: B,
}

struct Mgr {
    nodes: Vec<Node>,
    uniq: HashMap<(u32, B, B), B, FxB>,
    cache: HashMap<(B, B, B), B, FxB>,
    names: Vec<String>,
    work: u64,
}

/// the payload of the panic that gives up when a limit is reached
pub struct GaveUp;
pub const MAX_NODES: usize = 120_000_000;
thread_local! { static UNTIL: std::cell::Cell<Option<std::time::Instant>> = const { std::cell::Cell::new(None) }; }
/// the moment after which no more work is done on the current question
pub fn set_until(t: std::time::Instant) {
    UNTIL.with(|u| u.set(Some(t)))
}
fn enough(nodes: usize) -> bool {
    nodes > MAX_NODES || UNTIL.with(|u| u.get()).is_some_and(|t| std::time::Instant::now() > t)
}

thread_local! {
    static M: RefCell<Mgr> = RefCell::new(Mgr::new());
}

impl Mgr {
    fn new() -> Self {
        Mgr {
            nodes: vec![Node { var: u32::MAX, lo: F, hi: F }, Node { var: u32::MAX, lo: T, hi: T }],
            uniq: HashMap::default(),
            cache: HashMap::default(),
            names: vec![],
            work: 0,
        }
    }
    fn mk(&mut self, var: u32, lo: B, hi: B) -> B {
        if lo == hi {
            return lo;
        }
        if let Some(&b) = self.uniq.get(&(var, lo, hi)) {
            return b;
        }
        let id = self.nodes.len() as B;
        self.nodes.push(Node { var, lo, hi });
        self.uniq.insert((var, lo, hi), id);
        id
    }
    fn ite(&mut self, f: B, g: B, h: B) -> B {
        if f == T {
            return g;
        }
        if f == F {
            return h;
        }
        if g == h {
            return g;
        }
        if g == T && h == F {
            return f;
        }
        let g = if g == f { T } else { g };
        let h = if h == f { F } else { h };
        if g == T && h == F {
            return f;
        }
        if g == h {
            return g;
        }
        // normalise and/or argument order for the cache
        let (f, g, h) = if h == F && g < f && g > 1 {
            (g, f, F)
        } else if g == T && h < f && h > 1 {
            (h, T, f)
        } else {
            (f, g, h)
        };
        if let Some(&r) = self.cache.get(&(f, g, h)) {
            return r;
        }
        self.work += 1;
        if self.work & 0xFFFFF == 0 && enough(self.nodes.len()) {
            std::panic::resume_unwind(Box::new(GaveUp));
        }
        let (nf, ng, nh) = (self.nodes[f as usize], self.nodes[g as usize], self.nodes[h as usize]);
        let v = nf.var.min(ng.var).min(nh.var);
        let (f0, f1) = if nf.var == v { (nf.lo, nf.hi) } else { (f, f) };
        let (g0, g1) = if ng.var == v { (ng.lo, ng.hi) } else { (g, g) };
        let (h0, h1) = if nh.var == v { (nh.lo, nh.hi) } else { (h, h) };
        let lo = self.ite(f0, g0, h0);
        let hi = self.ite(f1, g1, h1);
        let r = self.mk(v, lo, hi);
        self.cache.insert((f, g, h), r);
        r
    }
}

thread_local! { static EPOCH: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
pub fn reset() {
    EPOCH.with(|e| e.set(e.get() + 1));
    M.with(|m| *m.borrow_mut() = Mgr::new())
}
/// changes whenever all predicates are forgotten
pub fn epoch() -> u64 {
    EPOCH.with(|e| e.get())
}
pub fn node_count() -> usize {
    M.with(|m| m.borrow().nodes.len())
}
/// A new variable, ordered after all existing ones.
pub fn new_var(name: &str) -> B {
    M.with(|m| {
        let mut m = m.borrow_mut();
        let v = m.names.len() as u32;
        m.names.push(name.to_string());
        m.mk(v, F, T)
    })
}
pub fn var_name(v: u32) -> String {
    M.with(|m| m.borrow().names[v as usize].clone())
}
pub fn top_var(b: B) -> u32 {
    M.with(|m| m.borrow().nodes[b as usize].var)
}
pub fn cof(b: B) -> (u32, B, B) {
    M.with(|m| {
        let n = m.borrow().nodes[b as usize];
        (n.var, n.lo, n.hi)
    })
}
pub fn ite(f: B, g: B, h: B) -> B {
    M.with(|m| m.borrow_mut().ite(f, g, h))
}
pub fn and(a: B, b: B) -> B {
    if a == F || b == F {
        return F;
    }
    if a == T {
        return b;
    }
    if b == T || a == b {
        return a;
    }
    ite(a, b, F)
}
pub fn or(a: B, b: B) -> B {
    if a == T || b == T {
        return T;
    }
    if a == F {
        return b;
    }
    if b == F || a == b {
        return a;
    }
    ite(a, T, b)
}
pub fn not(a: B) -> B {
    ite(a, F, T)
}
pub fn xor(a: B, b: B) -> B {
    if a == b {
        return F;
    }
    if a == F {
        return b;
    }
    if b == F {
        return a;
    }
    let nb = not(b);
    ite(a, nb, b)
}
pub fn implies(a: B, b: B) -> bool {
    and(a, not(b)) == F
}
/// Generalised cofactor (Coudert/Madre restrict): simplifies `f` given that
/// only the points of `c` matter.
pub fn restrict(f: B, c: B) -> B {
    if c == T || f <= 1 || c == F {
        return f;
    }
    let mut memo: HashMap<(B, B), B, FxB> = HashMap::default();
    fn go(m: &mut Mgr, f: B, c: B, memo: &mut HashMap<(B, B), B, FxB>) -> B {
        if c == T || f <= 1 {
            return f;
        }
        if let Some(&r) = memo.get(&(f, c)) {
            return r;
        }
        let nf = m.nodes[f as usize];
        let nc = m.nodes[c as usize];
        let r = if nc.var < nf.var {
            let cc = m.ite(nc.lo, T, nc.hi);
            go(m, f, cc, memo)
        } else {
            let (c0, c1) = if nc.var == nf.var { (nc.lo, nc.hi) } else { (c, c) };
            if c0 == F {
                go(m, nf.hi, c1, memo)
            } else if c1 == F {
                go(m, nf.lo, c0, memo)
            } else {
                let lo = go(m, nf.lo, c0, memo);
                let hi = go(m, nf.hi, c1, memo);
                m.mk(nf.var, lo, hi)
            }
        };
        memo.insert((f, c), r);
        r
    }
    M.with(|m| go(&mut m.borrow_mut(), f, c, &mut memo))
}
/// One satisfying assignment as (var, value) pairs.
pub fn sat_one(mut b: B) -> Option<Vec<(u32, bool)>> {
    if b == F {
        return None;
    }
    let mut r = vec![];
    while b != T {
        let (v, lo, hi) = cof(b);
        if lo != F {
            r.push((v, false));
            b = lo;
        } else {
            r.push((v, true));
            b = hi;
        }
    }
    Some(r)
}
pub fn support(bs: &[B]) -> Vec<u32> {
    let mut seen: std::collections::HashSet<B> = Default::default();
    let mut vars: std::collections::BTreeSet<u32> = Default::default();
    let mut st: Vec<B> = bs.to_vec();
    while let Some(b) = st.pop() {
        if b <= 1 || !seen.insert(b) {
            continue;
        }
        let (v, lo, hi) = cof(b);
        vars.insert(v);
        st.push(lo);
        st.push(hi);
    }
    vars.into_iter().collect()
}
pub fn and_all(it: impl IntoIterator<Item = B>) -> B {
    it.into_iter().fold(T, and)
}
pub fn or_all(it: impl IntoIterator<Item = B>) -> B {
    it.into_iter().fold(F, or)
}
pub fn evalb(mut b: B, asg: &HashMap<u32, bool>) -> bool {
    while b > 1 {
        let (v, lo, hi) = cof(b);
        b = if *asg.get(&v).unwrap_or(&false) { hi } else { lo };
    }
    b == T
}
/// Existential quantification over the given variables.
pub fn exists(b: B, vars: &std::collections::BTreeSet<u32>) -> B {
    fn go(b: B, vars: &std::collections::BTreeSet<u32>, memo: &mut HashMap<B, B, FxB>) -> B {
        if b <= 1 {
            return b;
        }
        if let Some(&r) = memo.get(&b) {
            return r;
        }
        let (v, lo, hi) = cof(b);
        let l = go(lo, vars, memo);
        let h = go(hi, vars, memo);
        let r = if vars.contains(&v) {
            or(l, h)
        } else {
            M.with(|m| m.borrow_mut().mk(v, l, h))
        };
        memo.insert(b, r);
        r
    }
    go(b, vars, &mut HashMap::default())
}

/// the positive literal of a variable
pub fn var_b(v: u32) -> B {
    M.with(|m| m.borrow_mut().mk(v, F, T))
}
/// a satisfying assignment chosen by a seeded walk
pub fn sat_random(mut b: B, seed: u64) -> Option<HashMap<u32, bool>> {
    if b == F {
        return None;
    }
    let mut r = HashMap::new();
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(0x1234567);
    let n = M.with(|m| m.borrow().names.len()) as u32;
    for v in 0..n {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        let want = x >> 33 & 1 == 1;
        let mut val = want;
        if b > 1 {
            let (top, lo, hi) = cof(b);
            if top == v {
                let (t, e) = if want { (hi, lo) } else { (lo, hi) };
                if t != F {
                    b = t;
                } else {
                    b = e;
                    val = !want;
                }
            }
        }
        r.insert(v, val);
    }
    Some(r)
}
