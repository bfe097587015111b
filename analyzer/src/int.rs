//! Abstract machine integers.
//!
//! A value is a constant, a vector of bits (each a predicate over the input),
//! or an affine form `c + sum(k_i * b_i)` over such predicates.  Operations stay
//! in the cheapest exact representation; nothing is rounded.  An operation that
//! has no exact representation within the size limits returns `None`, which the
//! interpreter turns into an explicit "unknown" value.
use crate::bdd::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub struct Lin {
    pub c: i128,
    pub t: Vec<(B, i128)>,
    /// the mathematical value is exactly `c + sum`, not only modulo 2^w
    pub exact: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Rep {
    C(u128),
    Bits(Rc<[B]>),
    Lin(Rc<Lin>),
    Mod(Rc<ModSum>),
}
/// `(l mod 2^m) + x`, exactly; m is smaller than the width
#[derive(Clone, Debug, PartialEq)]
pub struct ModSum {
    pub l: Lin,
    pub m: u16,
    pub x: Lin,
}
impl ModSum {
    fn range(&self) -> (i128, i128) {
        (self.x.min(), self.x.max() + (1i128 << self.m) - 1)
    }
    /// the whole value modulo 2^k, k <= m
    fn low(&self) -> Lin {
        Lin::new(self.l.c + self.x.c, self.l.t.iter().chain(&self.x.t).copied(), false)
    }
}
const NIL: Lin = Lin { c: 0, t: vec![], exact: true };

#[derive(Clone, Debug, PartialEq)]
pub struct Int {
    pub w: u16,
    pub s: bool,
    pub r: Rep,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
const SMALL: usize = 18;
const MAXCASES: usize = 5000;

thread_local! {
    static ATOMS: RefCell<HashMap<(u8, u16, i128, Vec<(B, i128)>), B>> = RefCell::new(HashMap::new());
    static DEFS: RefCell<Vec<(u32, u16, Lin)>> = const { RefCell::new(vec![]) };
}
pub fn reset_atoms() {
    ATOMS.with(|a| a.borrow_mut().clear());
    DEFS.with(|a| a.borrow_mut().clear());
}
/// an assignment that satisfies `g` and gives every equation that is kept as an
/// opaque predicate its actual value; None if none was found
pub fn solve(g: B) -> Option<HashMap<u32, bool>> {
    let defs = DEFS.with(|d| d.borrow().clone());
    if defs.is_empty() {
        return sat_one(g).map(|a| a.into_iter().collect());
    }
    for seed in 0..4000u64 {
        let mut a = if seed == 0 { sat_one(g)?.into_iter().collect() } else { sat_random(g, seed)? };
        for (v, w, l) in &defs {
            let sum = l.t.iter().fold(l.c, |x, (b, k)| if evalb(*b, &a) { x.wrapping_add(*k) } else { x });
            let zero = if *w < 127 { sum.rem_euclid(1i128 << w) == 0 } else { sum == 0 };
            a.insert(*v, zero);
        }
        if evalb(g, &a) {
            return Some(a);
        }
    }
    None
}
pub fn atom_count() -> usize {
    ATOMS.with(|a| a.borrow().len())
}

impl Lin {
    fn new(c: i128, terms: impl IntoIterator<Item = (B, i128)>, exact: bool) -> Lin {
        let mut m: BTreeMap<B, i128> = BTreeMap::new();
        let mut c = c;
        for (b, k) in terms {
            if b == F {
                continue;
            }
            if b == T {
                c = c.wrapping_add(k);
                continue;
            }
            let e = m.entry(b).or_insert(0);
            *e = e.wrapping_add(k);
        }
        Lin { c, t: m.into_iter().filter(|x| x.1 != 0).collect(), exact }
    }
    pub fn min(&self) -> i128 {
        self.c + self.t.iter().filter(|x| x.1 < 0).map(|x| x.1).sum::<i128>()
    }
    fn eval(&self, a: &HashMap<u32, bool>) -> i128 {
        self.c + self.t.iter().map(|(b, k)| if evalb(*b, a) { *k } else { 0 }).sum::<i128>()
    }
    pub fn max(&self) -> i128 {
        self.c + self.t.iter().filter(|x| x.1 > 0).map(|x| x.1).sum::<i128>()
    }
    /// predicate of `self == o`, if it can be expressed
    pub fn sub_is_zero(&self, o: &Lin) -> Option<B> {
        let l = Lin::new(self.c - o.c, self.t.iter().copied().chain(o.t.iter().map(|x| (x.0, -x.1))), true).tidy();
        if l.t.is_empty() {
            return Some(if l.c == 0 { T } else { F });
        }
        pb_eq(&l, None)
    }
    /// merge terms k*x + k*y with x,y disjoint into k*(x|y)
    fn tidy(self) -> Lin {
        self.tidy_up_to(8)
    }
    fn tidy_up_to(mut self, n: usize) -> Lin {
        let mut by: BTreeMap<i128, Vec<B>> = BTreeMap::new();
        for (b, k) in &self.t {
            by.entry(*k).or_default().push(*b);
        }
        if by.values().any(|v| v.len() > 1 && v.len() <= n) {
            let mut out = vec![];
            for (k, mut v) in by {
                if v.len() <= n {
                    let mut i = 0;
                    while i < v.len() {
                        let mut j = i + 1;
                        while j < v.len() {
                            if and(v[i], v[j]) == F {
                                v[i] = or(v[i], v[j]);
                                v.remove(j);
                                j = i + 1;
                            } else {
                                j += 1;
                            }
                        }
                        i += 1;
                    }
                }
                out.extend(v.into_iter().map(|b| (b, k)));
            }
            self = Lin::new(self.c, out, self.exact);
        }
        self
    }
}

/// BDD of `lin <= k` (exact lin)
fn pb_le(l: &Lin, k: i128) -> Option<B> {
    // a sum that is either added up or taken away, never both
    if l.t.iter().any(|x| x.1 < 0) && l.t.iter().any(|x| x.1 > 0) && l.t.len() > 16 {
        let neg = l.t.iter().filter(|x| x.1 < 0).fold(F, |a, x| or(a, x.0));
        if neg != T && l.t.iter().all(|x| x.1 < 0 || and(x.0, neg) == F) {
            let part = |pos: bool| pb_le1(&Lin { c: l.c, t: l.t.iter().filter(|x| (x.1 > 0) == pos).copied().collect(), exact: true }, k);
            return Some(ite(neg, part(false)?, part(true)?));
        }
    }
    pb_le1(l, k)
}

fn pb_le1(l: &Lin, k: i128) -> Option<B> {
    let mut t = l.t.clone();
    t.sort_by_key(|x| (std::cmp::Reverse(x.1.abs()), x.0));
    let n = t.len();
    let mut lo = vec![0i128; n + 1];
    let mut hi = vec![0i128; n + 1];
    for i in (0..n).rev() {
        lo[i] = lo[i + 1] + t[i].1.min(0);
        hi[i] = hi[i + 1] + t[i].1.max(0);
    }
    fn go(i: usize, acc: i128, k: i128, t: &[(B, i128)], lo: &[i128], hi: &[i128], memo: &mut HashMap<(usize, i128), B>) -> Option<B> {
        if acc + hi[i] <= k {
            return Some(T);
        }
        if acc + lo[i] > k {
            return Some(F);
        }
        if let Some(&b) = memo.get(&(i, acc)) {
            return Some(b);
        }
        if memo.len() > 60000 {
            return None;
        }
        let h = go(i + 1, acc + t[i].1, k, t, lo, hi, memo)?;
        let l = go(i + 1, acc, k, t, lo, hi, memo)?;
        let r = ite(t[i].0, h, l);
        memo.insert((i, acc), r);
        Some(r)
    }
    go(0, l.c, k, &t, &lo, &hi, &mut HashMap::new())
}

/// BDD of `lin == 0` exact, or modulo 2^w
fn pb_eq(l: &Lin, modw: Option<u16>) -> Option<B> {
    let mut t = l.t.clone();
    let small = modw.is_some_and(|w| w <= 8);
    if small {
        // few residues: follow the variable order
        t.sort_by_key(|x| (top_var(x.0), x.0));
    } else {
        t.sort_by_key(|x| (std::cmp::Reverse(x.1.abs()), x.0));
    }
    let n = t.len();
    let mut lo = vec![0i128; n + 1];
    let mut hi = vec![0i128; n + 1];
    for i in (0..n).rev() {
        lo[i] = lo[i + 1] + t[i].1.min(0);
        hi[i] = hi[i + 1] + t[i].1.max(0);
    }
    struct Cx<'a> {
        t: &'a [(B, i128)],
        lo: &'a [i128],
        hi: &'a [i128],
        m: Option<i128>,
        limit: usize,
        memo: HashMap<(usize, i128), B>,
    }
    fn go(c: &mut Cx, i: usize, acc: i128) -> Option<B> {
        let acc = match c.m {
            Some(m) => acc.rem_euclid(m),
            None => acc,
        };
        if i == c.t.len() {
            return Some(if acc == 0 { T } else { F });
        }
        if c.m.is_none() && (acc + c.lo[i] > 0 || acc + c.hi[i] < 0) {
            return Some(F);
        }
        if let Some(&b) = c.memo.get(&(i, acc)) {
            return Some(b);
        }
        if c.memo.len() > c.limit {
            return None;
        }
        let h = go(c, i + 1, acc + c.t[i].1)?;
        let l = go(c, i + 1, acc)?;
        let r = ite(c.t[i].0, h, l);
        c.memo.insert((i, acc), r);
        Some(r)
    }
    let m = match modw {
        Some(w) if w < 127 => Some(1i128 << w),
        Some(_) => return None,
        None => None,
    };
    go(&mut Cx { t: &t, lo: &lo, hi: &hi, m, limit: if small { 700000 } else { 60000 }, memo: HashMap::new() }, 0, l.c)
}

fn atom(kind: u8, w: u16, l: &Lin) -> B {
    let key = (kind, w, l.c, l.t.clone());
    if let Some(b) = ATOMS.with(|a| a.borrow().get(&key).copied()) {
        return b;
    }
    let b = new_var(&format!("atom{}", atom_count()));
    ATOMS.with(|a| a.borrow_mut().insert(key, b));
    DEFS.with(|d| d.borrow_mut().push((top_var(b), w, l.clone())));
    b
}

fn lin_zero(l: &Lin, w: u16) -> B {
    let l = l.clone().tidy();
    if l.exact {
        if l.t.is_empty() {
            return if l.c == 0 { T } else { F };
        }
        if l.min() > 0 || l.max() < 0 {
            return F;
        }
        if l.t.len() <= 80 {
            if let Some(b) = pb_eq(&l, None) {
                return b;
            }
        }
        if let Some(b) = small_bits(&l) {
            return not(b.into_iter().fold(F, or));
        }
    } else {
        if l.t.is_empty() {
            return if (l.c as u128) & mask(w) == 0 { T } else { F };
        }
        if l.t.len() <= if w <= 8 { 2500 } else { 64 } {
            if let Some(b) = pb_eq(&l, Some(w)) {
                return b;
            }
        }
    }
    // canonical predicate "sum == 0 (mod 2^w)": reduce coefficients mod 2^w and
    // fix the sign so that x==y and y==x give the same atom.
    let (a, neg) = if w < 127 {
        let m = 1i128 << w;
        let a = Lin::new(l.c.rem_euclid(m), l.t.iter().map(|x| (x.0, x.1.rem_euclid(m))), false);
        let n = Lin::new((-l.c).rem_euclid(m), l.t.iter().map(|x| (x.0, (-x.1).rem_euclid(m))), false);
        (a, n)
    } else {
        let n = Lin::new(-l.c, l.t.iter().map(|x| (x.0, -x.1)), false);
        (l.clone(), n)
    };
    let pick = if (a.c, &a.t) <= (neg.c, &neg.t) { a } else { neg };
    atom(if l.exact { 1 } else { 0 }, w, &pick)
}

impl Int {
    pub fn c(v: u128, w: u16, s: bool) -> Int {
        Int { w, s, r: Rep::C(v & mask(w)) }
    }
    pub fn ci(v: i128, w: u16, s: bool) -> Int {
        Int::c(v as u128, w, s)
    }
    /// `c + sum(k * b)`, known to fit
    pub fn sum(c: i128, t: Vec<(B, i128)>, w: u16, s: bool) -> Int {
        Int::from_lin(Lin::new(c, t, true), w, s)
    }
    pub fn usize(v: u64) -> Int {
        Int::c(v as u128, 64, false)
    }
    pub fn bool(b: B) -> Int {
        Int::bits(vec![b], false)
    }
    /// bits, least significant first
    pub fn bits(b: Vec<B>, s: bool) -> Int {
        let w = b.len() as u16;
        if b.iter().all(|x| *x <= 1) {
            let mut v = 0u128;
            for (i, x) in b.iter().enumerate() {
                v |= (*x as u128) << i;
            }
            return Int { w, s, r: Rep::C(v) };
        }
        Int { w, s, r: Rep::Bits(b.into()) }
    }
    pub fn as_const(&self) -> Option<u128> {
        match &self.r {
            Rep::C(v) => Some(*v),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<B> {
        match &self.r {
            Rep::C(v) => Some(if v & 1 == 1 { T } else { F }),
            Rep::Bits(b) => Some(b[0]),
            _ => None,
        }
    }
    fn sx(&self, v: u128) -> i128 {
        if self.s && self.w < 128 && v >> (self.w - 1) & 1 == 1 {
            (v | !mask(self.w)) as i128
        } else {
            v as i128
        }
    }
    pub fn const_i(&self) -> Option<i128> {
        self.as_const().map(|v| self.sx(v))
    }
    fn lin(&self) -> Lin {
        match &self.r {
            Rep::C(v) => Lin { c: self.sx(*v), t: vec![], exact: true },
            Rep::Bits(b) => {
                let n = b.len();
                Lin::new(0, b.iter().enumerate().map(|(i, x)| (*x, if self.s && i == n - 1 { -(1i128 << i.min(126)) } else { 1i128 << i.min(126) })), true)
            }
            Rep::Lin(l) => (**l).clone(),
            Rep::Mod(_) => unreachable!("a masked sum has no affine form"),
        }
    }
    fn is_mod(&self) -> bool {
        matches!(self.r, Rep::Mod(_))
    }
    /// `(l mod 2^m) + x` of width w
    fn modsum(l: Lin, m: u16, x: Lin, w: u16, s: bool) -> Option<Int> {
        let md = 1i128 << m;
        let l = Lin::new(l.c.rem_euclid(md), l.t.into_iter().map(|x| (x.0, x.1.rem_euclid(md))), false);
        let x = x.tidy();
        if l.t.is_empty() {
            let k = l.c;
            return Some(Int::from_lin(Lin::new(x.c + k, x.t, true), w, s));
        }
        if support(&l.t.iter().map(|x| x.0).collect::<Vec<_>>()).len() <= SMALL {
            let b = Int::bits(lin_bits(&l, m), false).cast(w, s)?;
            return Some(b.arith('+', &Int::from_lin(x, w, s), T, true)?.0);
        }
        let p = Int::c(0, w, s);
        let r = ModSum { l, m, x };
        let (lo, hi) = r.range();
        if m >= w || lo < p.tmin() || hi > p.tmax() {
            return None;
        }
        Some(Int { w, s, r: Rep::Mod(Rc::new(r)) })
    }
    /// the masked sum this is, with modulus 2^m
    fn as_mod(&self, m: u16) -> Option<ModSum> {
        match &self.r {
            Rep::Mod(r) => (r.m == m).then(|| (**r).clone()),
            _ => {
                let l = self.lin();
                l.exact.then(|| ModSum { l: NIL, m, x: l })
            }
        }
    }
    pub fn tmin(&self) -> i128 {
        if self.s { -(1i128 << (self.w - 1)) } else { 0 }
    }
    pub fn tmax(&self) -> i128 {
        if self.w >= 127 { i128::MAX / 4 } else if self.s { (1i128 << (self.w - 1)) - 1 } else { (1i128 << self.w) - 1 }
    }
    fn from_lin(l: Lin, w: u16, s: bool) -> Int {
        let l = l.tidy();
        if l.t.is_empty() {
            return Int::ci(l.c, w, s);
        }
        // disjoint powers of two -> plain bits
        if l.c == 0 && l.t.iter().all(|x| x.1 > 0 && (x.1 as u128).is_power_of_two() && (x.1.trailing_zeros() as u16) < w) {
            let mut b = vec![F; w as usize];
            let mut ok = l.exact && (!s || l.t.iter().all(|x| (x.1.trailing_zeros() as u16) < w - 1));
            if !l.exact {
                ok = true;
            }
            for (x, k) in &l.t {
                let i = k.trailing_zeros() as usize;
                if b[i] != F {
                    ok = false;
                    break;
                }
                b[i] = *x;
            }
            if ok {
                return Int::bits(b, s);
            }
        }
        if s && l.exact && l.c == 0 {
            // signed with a negative msb term
            let top = -(1i128 << (w - 1));
            if l.t.iter().all(|x| x.1 == top || (x.1 > 0 && (x.1 as u128).is_power_of_two() && (x.1.trailing_zeros() as u16) < w - 1)) {
                let mut b = vec![F; w as usize];
                let mut ok = true;
                for (x, k) in &l.t {
                    let i = if *k == top { (w - 1) as usize } else { k.trailing_zeros() as usize };
                    if b[i] != F {
                        ok = false;
                        break;
                    }
                    b[i] = *x;
                }
                if ok {
                    return Int::bits(b, s);
                }
            }
        }
        let sup = support(&l.t.iter().map(|x| x.0).collect::<Vec<_>>()).len();
        if sup <= SMALL {
            return Int::bits(lin_bits(&l, w), s);
        }
        Int { w, s, r: Rep::Lin(Rc::new(l)) }
    }
    pub fn to_bits(&self) -> Option<Vec<B>> {
        match &self.r {
            Rep::C(v) => Some((0..self.w).map(|i| if v >> i & 1 == 1 { T } else { F }).collect()),
            Rep::Bits(b) => Some(b.to_vec()),
            Rep::Lin(_) | Rep::Mod(_) => None,
        }
    }
    /// distinct values with the predicate under which each is taken
    pub fn cases(&self, guard: B, max: usize) -> Option<Vec<(u128, B)>> {
        if let Some(v) = self.as_const() {
            return Some(vec![(v, guard)]);
        }
        let bits = match (self.to_bits(), &self.r) {
            (Some(b), _) => b,
            (_, Rep::Lin(l)) if l.exact => {
                let b = small_bits(l)?;
                let top = b[b.len() - 1];
                b.into_iter().chain(std::iter::repeat(top)).take(self.w as usize).collect()
            }
            _ => return None,
        };
        let mut cur: Vec<(u128, B)> = vec![(0, guard)];
        for b in bits.iter().rev() {
            let mut nx = Vec::with_capacity(cur.len() + 8);
            for (v, g) in cur {
                let h = and(g, *b);
                let l = and(g, not(*b));
                if l != F {
                    nx.push((v << 1, l));
                }
                if h != F {
                    nx.push((v << 1 | 1, h));
                }
            }
            if nx.len() > max {
                return None;
            }
            cur = nx;
        }
        Some(cur)
    }
    pub fn from_cases(cs: &[(u128, B)], w: u16, s: bool) -> Int {
        let mut b = vec![F; w as usize];
        for (v, g) in cs {
            for i in 0..w as usize {
                if v >> i & 1 == 1 {
                    b[i] = or(b[i], *g);
                }
            }
        }
        Int::bits(b, s)
    }
    fn map2(a: &Int, b: &Int, w: u16, s: bool, f: impl Fn(u128, u128) -> u128) -> Option<Int> {
        let ca = a.cases(T, MAXCASES)?;
        let mut out: BTreeMap<u128, B> = BTreeMap::new();
        let mut n = 0;
        for (va, ga) in ca {
            for (vb, gb) in b.cases(ga, MAXCASES)? {
                n += 1;
                if n > 4 * MAXCASES {
                    return None;
                }
                let e = out.entry(f(va, vb) & mask(w)).or_insert(F);
                *e = or(*e, gb);
            }
        }
        Some(Int::from_cases(&out.into_iter().collect::<Vec<_>>(), w, s))
    }
    pub fn map1(a: &Int, w: u16, s: bool, f: impl Fn(u128) -> u128) -> Option<Int> {
        Int::map2(a, &Int::c(0, 1, false), w, s, |x, _| f(x))
    }
    /// Overflow predicate and result of an arithmetic operation whose
    /// mathematical value is the exact form `l`.  Where overflow is impossible
    /// under `g` (or `trusted`: the result is only used where it did not
    /// happen) the result stays exact, otherwise it is taken modulo 2^w.
    fn settle(l: Lin, w: u16, s: bool, g: B, trusted: bool) -> Option<(Int, B)> {
        if w >= 127 {
            return None;
        }
        let probe = Int::c(0, w, s);
        let (lo, hi) = (probe.tmin(), probe.tmax());
        if l.min() >= lo && l.max() <= hi {
            return Some((Int::from_lin(l, w, s), F));
        }
        let above = if l.max() > hi { not(pb_le(&l, hi)?) } else { F };
        let below = if l.min() < lo { pb_le(&l, lo - 1)? } else { F };
        let ov = or(above, below);
        if trusted || and(ov, g) == F {
            // from_lin must not assume the bits fit outside the guard; affine
            // forms with few variables are re-expressed modulo 2^w, which agrees
            return Some((Int::from_lin(l, w, s), ov));
        }
        Some((Int::modlin(l, w, s), ov))
    }
    /// `op` is one of + - *; result mod 2^w and overflow predicate
    pub fn arith(&self, op: char, o: &Int, g: B, trusted: bool) -> Option<(Int, B)> {
        if self.w >= 127 {
            return None;
        }
        if self.is_mod() || o.is_mod() {
            let m = if let Rep::Mod(r) = &self.r { r.m } else if let Rep::Mod(r) = &o.r { r.m } else { return None };
            let (a, b) = (self.as_mod(m)?, o.as_mod(m)?);
            return match op {
                '+' if a.l == NIL || b.l == NIL => {
                    let l = if a.l == NIL { b.l } else { a.l };
                    let x = Lin::new(a.x.c + b.x.c, a.x.t.into_iter().chain(b.x.t), true);
                    Some((Int::modsum(l, m, x, self.w, self.s)?, F))
                }
                '-' if b.l == NIL => {
                    let x = Lin::new(a.x.c - b.x.c, a.x.t.into_iter().chain(b.x.t.into_iter().map(|t| (t.0, -t.1))), true);
                    Some((Int::modsum(a.l, m, x, self.w, self.s)?, F))
                }
                _ => None,
            };
        }
        let l = match op {
            '+' | '-' => {
                let k = if op == '+' { 1 } else { -1 };
                let (a, b) = (self.lin(), o.lin());
                let ex = a.exact && b.exact;
                Lin::new(a.c.checked_add(k * b.c)?, a.t.into_iter().chain(b.t.into_iter().map(|x| (x.0, k * x.1))), ex)
            }
            _ => {
                let (x, k) = if let Some(k) = o.const_i() {
                    (self, k)
                } else if let Some(k) = self.const_i() {
                    (o, k)
                } else {
                    let (w, s) = (self.w, self.s);
                    let (sa, sb) = (self.clone(), o.clone());
                    let r = Int::map2(self, o, w, s, |a, b| (sa.sx(a).wrapping_mul(sb.sx(b))) as u128)?;
                    let p = Int::c(0, w, s);
                    let ov = Int::map2(self, o, 1, false, |a, b| {
                        let v = sa.sx(a).wrapping_mul(sb.sx(b));
                        (v < p.tmin() || v > p.tmax()) as u128
                    })?;
                    return Some((r, ov.as_bool()?));
                };
                let a = x.lin();
                let mut t = vec![];
                for (b, c) in a.t {
                    t.push((b, c.checked_mul(k)?));
                }
                Lin::new(a.c.checked_mul(k)?, t, a.exact)
            }
        };
        if l.exact {
            Int::settle(l, self.w, self.s, g, trusted)
        } else if trusted {
            None
        } else {
            // operand already reduced modulo 2^w: the wrapped result is known,
            // the overflow bit is not
            None
        }
    }
    /// result modulo 2^w
    pub fn wrapping(&self, op: char, o: &Int) -> Option<Int> {
        if let Some((v, _)) = self.arith(op, o, T, false) {
            return Some(v);
        }
        if self.w >= 127 {
            return None;
        }
        if self.is_mod() || o.is_mod() {
            return None;
        }
        let k = if op == '+' { 1 } else { -1 };
        let (a, b) = (self.lin(), o.lin());
        match op {
            '+' | '-' => Some(Int::modlin(
                Lin::new(a.c.wrapping_add(k * b.c), a.t.into_iter().chain(b.t.into_iter().map(|x| (x.0, k * x.1))), false),
                self.w,
                self.s,
            )),
            _ => {
                let (a, k) = if let Some(k) = o.const_i() { (a, k) } else { (b, self.const_i()?) };
                Some(Int::modlin(Lin::new(a.c.wrapping_mul(k), a.t.into_iter().map(|x| (x.0, x.1.wrapping_mul(k))), false), self.w, self.s))
            }
        }
    }
    fn modlin(mut l: Lin, w: u16, s: bool) -> Int {
        let p = Int::c(0, w, s);
        let fits = |l: &Lin| l.min() >= p.tmin() && l.max() <= p.tmax();
        if l.exact && !fits(&l) {
            let t = l.clone().tidy_up_to(64);
            if fits(&t) {
                l = t;
            } else {
                l.exact = false;
            }
        }
        if !l.exact && w < 127 {
            let m = 1i128 << w;
            l = Lin::new(l.c.rem_euclid(m), l.t.into_iter().map(|x| (x.0, x.1.rem_euclid(m))), false);
        }
        Int::from_lin(l, w, s)
    }
    pub fn div_rem(&self, o: &Int, rem: bool) -> Option<Int> {
        if let (Some(k), false) = (o.as_const(), self.s) {
            if k.is_power_of_two() {
                if rem && k > 1 && self.to_bits().is_none() {
                    return self.low_bits(k.trailing_zeros() as u16);
                }
                let bits = self.to_bits()?;
                let n = k.trailing_zeros() as usize;
                let r = if rem {
                    (0..bits.len()).map(|i| if i < n { bits[i] } else { F }).collect()
                } else {
                    (0..bits.len()).map(|i| if i + n < bits.len() { bits[i + n] } else { F }).collect()
                };
                return Some(Int::bits(r, false));
            }
        }
        let (sa, sb) = (self.clone(), o.clone());
        Int::map2(self, o, self.w, self.s, |a, b| {
            let (x, y) = (sa.sx(a), sb.sx(b));
            if y == 0 {
                0
            } else if rem {
                x.wrapping_rem(y) as u128
            } else {
                x.wrapping_div(y) as u128
            }
        })
    }
    pub fn bitop(&self, o: &Int, op: char) -> Option<Int> {
        if let (Some(a), Some(b)) = (self.as_const(), o.as_const()) {
            return Some(Int::c(
                match op {
                    '&' => a & b,
                    '|' => a | b,
                    _ => a ^ b,
                },
                self.w,
                self.s,
            ));
        }
        if op == '&' {
            for (x, y) in [(self, o), (o, self)] {
                if let (Some(k), None) = (y.as_const(), x.to_bits()) {
                    if k != 0 && (k + 1).is_power_of_two() {
                        return x.low_bits(k.trailing_ones() as u16);
                    }
                }
            }
        }
        let (a, b) = (self.to_bits()?, o.to_bits()?);
        Some(Int::bits(
            a.iter()
                .zip(&b)
                .map(|(x, y)| match op {
                    '&' => and(*x, *y),
                    '|' => or(*x, *y),
                    _ => xor(*x, *y),
                })
                .collect(),
            self.s,
        ))
    }
    /// the value modulo 2^k, in the same width
    fn low_bits(&self, k: u16) -> Option<Int> {
        if k >= self.w {
            return Some(self.clone());
        }
        match &self.r {
            Rep::Lin(l) => Int::modsum((**l).clone(), k, NIL, self.w, self.s),
            Rep::Mod(r) if k <= r.m => Int::modsum(r.low(), k, NIL, self.w, self.s),
            Rep::Mod(r) => (r.range().0 >= 0 && r.range().1 < 1i128 << k).then(|| self.clone()),
            _ => None,
        }
    }
    pub fn not(&self) -> Option<Int> {
        Some(Int::bits(self.to_bits()?.iter().map(|x| not(*x)).collect(), self.s))
    }
    pub fn neg(&self) -> Option<(Int, B)> {
        Int::c(0, self.w, self.s).arith('-', self, T, true)
    }
    /// shift; `o` taken modulo w. Returns (result, amount out of range)
    pub fn shift(&self, o: &Int, left: bool) -> Option<(Int, B)> {
        let w = self.w as usize;
        let bits = match self.to_bits() {
            Some(b) => b,
            None if self.is_mod() => return None,
            None => {
                // shifting an affine value left by a constant is multiplication
                let k = o.const_i()?;
                if left && k >= 0 && (k as usize) < w {
                    let a = self.lin();
                    let m = 1i128 << k;
                    let l = Lin::new(a.c.wrapping_mul(m), a.t.into_iter().map(|t| (t.0, t.1.wrapping_mul(m))), a.exact);
                    return Some((Int::modlin(l, self.w, self.s), F));
                }
                return None;
            }
        };
        let fill = if self.s { bits[w - 1] } else { F };
        let sh = |n: usize| -> Vec<B> {
            (0..w)
                .map(|i| if left { if i >= n { bits[i - n] } else { F } } else if i + n < w { bits[i + n] } else { fill })
                .collect()
        };
        if let Some(k) = o.const_i() {
            let oob = k < 0 || k >= w as i128;
            return Some((Int::bits(sh((k as u128 % w as u128) as usize), self.s), if oob { T } else { F }));
        }
        let cs = o.cases(T, 300)?;
        let mut acc = vec![F; w];
        let mut oob = F;
        for (v, g) in cs {
            let sv = o.sx(v);
            if sv < 0 || sv >= w as i128 {
                oob = or(oob, g);
            }
            let r = sh((v % w as u128) as usize);
            for i in 0..w {
                acc[i] = or(acc[i], and(g, r[i]));
            }
        }
        Some((Int::bits(acc, self.s), oob))
    }
    pub fn eq(&self, o: &Int) -> Option<B> {
        if self == o {
            return Some(T);
        }
        if let (Some(a), Some(b)) = (self.to_bits(), o.to_bits()) {
            let mut r = T;
            for (x, y) in a.iter().zip(&b) {
                r = and(r, not(xor(*x, *y)));
                if r == F {
                    break;
                }
            }
            return Some(r);
        }
        for (x, y) in [(self, o), (o, self)] {
            if let Rep::Mod(r) = &x.r {
                let a = y.as_mod(r.m)?;
                if a.x == r.x {
                    let l = Lin::new(r.l.c - a.l.c, r.l.t.iter().copied().chain(a.l.t.iter().map(|t| (t.0, -t.1))), false);
                    return Some(lin_zero(&l, r.m));
                }
                // the other side is an ordinary number: within range, and equal modulo 2^m
                if a.l != NIL {
                    return None;
                }
                let d = Lin::new(a.x.c - r.x.c, a.x.t.iter().copied().chain(r.x.t.iter().map(|t| (t.0, -t.1))), true).tidy();
                let fits = if d.min() >= 0 && d.max() < 1i128 << r.m {
                    T
                } else {
                    and(not(pb_le(&d, -1)?), pb_le(&d, (1i128 << r.m) - 1)?)
                };
                let l = Lin::new(r.l.c - d.c, r.l.t.iter().copied().chain(d.t.iter().map(|t| (t.0, -t.1))), false);
                return Some(and(fits, lin_zero(&l, r.m)));
            }
        }
        let (a, b) = (self.lin(), o.lin());
        let ex = a.exact && b.exact;
        let mut l = Lin::new(a.c.wrapping_sub(b.c), a.t.into_iter().chain(b.t.into_iter().map(|x| (x.0, -x.1))), ex);
        if !ex {
            let m = 1i128 << self.w;
            l = Lin::new(l.c.rem_euclid(m), l.t.into_iter().map(|x| (x.0, x.1.rem_euclid(m))), false);
        }
        Some(lin_zero(&l, self.w))
    }
    /// self < o
    pub fn lt(&self, o: &Int) -> Option<B> {
        if let (Some(mut a), Some(mut b)) = (self.to_bits(), o.to_bits()) {
            let n = a.len();
            if self.s {
                a[n - 1] = not(a[n - 1]);
                b[n - 1] = not(b[n - 1]);
            }
            let mut r = F;
            for i in 0..n {
                // from lsb: r = (!a & b) | (a==b & r)
                let x = xor(a[i], b[i]);
                r = ite(x, b[i], r);
            }
            return Some(r);
        }
        if self.is_mod() || o.is_mod() {
            let range = |i: &Int| match &i.r {
                Rep::Mod(r) => Some(r.range()),
                _ => {
                    let l = i.lin();
                    l.exact.then(|| (l.min(), l.max()))
                }
            };
            let ((al, ah), (bl, bh)) = (range(self)?, range(o)?);
            return if ah < bl { Some(T) } else if al >= bh { Some(F) } else { None };
        }
        let (a, b) = (self.lin(), o.lin());
        if !(a.exact && b.exact) {
            return None;
        }
        let l = Lin::new(a.c - b.c, a.t.into_iter().chain(b.t.into_iter().map(|x| (x.0, -x.1))), true);
        if l.max() < 0 {
            return Some(T);
        }
        if l.min() >= 0 {
            return Some(F);
        }
        if l.t.len() <= 200 {
            if let Some(b) = pb_le(&l, -1) {
                return Some(b);
            }
        }
        match small_bits(&l) {
            Some(b) => b.last().copied(),
            None if l.t.len() > 200 => pb_le(&l, -1),
            None => None,
        }
    }
    pub fn cast(&self, w: u16, s: bool) -> Option<Int> {
        match &self.r {
            Rep::C(v) => Some(Int::c(self.sx(*v) as u128, w, s)),
            Rep::Bits(b) => {
                let fill = if self.s { b[b.len() - 1] } else { F };
                Some(Int::bits((0..w as usize).map(|i| if i < b.len() { b[i] } else { fill }).collect(), s))
            }
            Rep::Lin(l) => {
                if !l.exact && w > self.w {
                    return if self.s { None } else { Int::modsum((**l).clone(), self.w, NIL, w, s) };
                }
                Some(Int::modlin((**l).clone(), w, s))
            }
            Rep::Mod(r) if w <= r.m => Some(Int::modlin(r.low(), w, s)),
            Rep::Mod(r) => Int::modsum(r.l.clone(), r.m, r.x.clone(), w, s),
        }
    }
    pub fn ite(g: B, a: &Int, b: &Int) -> Int {
        Int::choose(g, a, b).unwrap_or_else(|| std::panic::panic_any(GaveUp))
    }
    pub fn choose(g: B, a: &Int, b: &Int) -> Option<Int> {
        if g == T || a == b {
            return Some(a.clone());
        }
        if g == F {
            return Some(b.clone());
        }
        if a.is_mod() || b.is_mod() {
            let m = if let Rep::Mod(r) = &a.r { r.m } else if let Rep::Mod(r) = &b.r { r.m } else { return None };
            let (x, y) = (a.as_mod(m)?, b.as_mod(m)?);
            let n = not(g);
            let both = |p: &Lin, q: &Lin| {
                let t = p.t.iter().map(|t| (and(t.0, g), t.1)).chain([(g, p.c)]).chain(q.t.iter().map(|t| (and(t.0, n), t.1))).chain([(n, q.c)]);
                Lin::new(0, t.collect::<Vec<_>>(), true).tidy()
            };
            return Int::modsum(both(&x.l, &y.l), m, both(&x.x, &y.x), a.w, a.s);
        }
        Some(Int::choose_plain(g, a, b))
    }
    fn choose_plain(g: B, a: &Int, b: &Int) -> Int {
        if let (Some(x), Some(y)) = (a.to_bits(), b.to_bits()) {
            return Int::bits(x.iter().zip(&y).map(|(p, q)| ite(g, *p, *q)).collect(), a.s);
        }
        let (x, y) = (a.lin(), b.lin());
        let ex = x.exact && y.exact;
        // y + g*(x-y)
        let d = Lin::new(x.c.wrapping_sub(y.c), x.t.iter().copied().chain(y.t.iter().map(|t| (t.0, -t.1))), true);
        let mut ts: Vec<(B, i128)> = vec![];
        // terms present identically in both stay unguarded, the rest is guarded
        let xm: BTreeMap<B, i128> = x.t.iter().copied().collect();
        let ym: BTreeMap<B, i128> = y.t.iter().copied().collect();
        for (b2, k) in &xm {
            if ym.get(b2) == Some(k) {
                ts.push((*b2, *k));
            } else {
                ts.push((and(*b2, g), *k));
            }
        }
        let ng = not(g);
        for (b2, k) in &ym {
            if xm.get(b2) != Some(k) {
                ts.push((and(*b2, ng), *k));
            }
        }
        let mut c = y.c;
        if x.c != y.c {
            ts.push((g, x.c.wrapping_sub(y.c)));
        } else {
            c = x.c;
        }
        let _ = d;
        Int::from_lin(Lin::new(c, ts, ex), a.w, a.s)
    }
    /// canonical affine form valid under `g`: two values equal under `g` by
    /// term cancellation get the same form
    pub fn under(&self, g: B) -> Option<Lin> {
        if self.is_mod() {
            return None;
        }
        let a = self.lin();
        let l = Lin::new(0, a.t.iter().map(|x| (and(x.0, g), x.1)).chain([(g, a.c)]), true).tidy();
        if !a.exact {
            // only known modulo 2^w: the same thing if it cannot wrap here
            let (lo, hi) = if self.s { (-(1i128 << (self.w - 1)), 1i128 << (self.w - 1)) } else { (0, 1i128 << self.w) };
            if self.w > 64 || l.min() < lo || l.max() >= hi {
                return None;
            }
        }
        Some(l)
    }
    pub fn exact_lin(&self) -> Option<Lin> {
        if self.is_mod() {
            return None;
        }
        Some(self.lin()).filter(|l| l.exact)
    }
    /// `Lin` difference test used by the specification comparison
    pub fn restrict(&self, g: B) -> Int {
        match &self.r {
            Rep::C(_) => self.clone(),
            Rep::Bits(b) => Int::bits(b.iter().map(|x| restrict(*x, g)).collect(), self.s),
            Rep::Lin(l) => Int::from_lin(Lin::new(l.c, l.t.iter().map(|x| (restrict(x.0, g), x.1)), l.exact), self.w, self.s),
            Rep::Mod(r) => {
                let cut = |l: &Lin| Lin::new(l.c, l.t.iter().map(|x| (restrict(x.0, g), x.1)), l.exact);
                Int::modsum(cut(&r.l), r.m, cut(&r.x), self.w, self.s).unwrap_or_else(|| self.clone())
            }
        }
    }
    pub fn show(&self) -> String {
        match &self.r {
            Rep::C(_) => format!("{}", self.const_i().unwrap()),
            Rep::Bits(b) => format!("<{} bits over {} vars>", b.len(), support(b).len()),
            Rep::Lin(l) => format!("<lin {} terms>", l.t.len()),
            Rep::Mod(r) => format!("<sum of {} terms modulo 2^{}, plus {} terms>", r.l.t.len(), r.m, r.x.t.len()),
        }
    }
    pub fn eval(&self, a: &HashMap<u32, bool>) -> u128 {
        match &self.r {
            Rep::C(v) => *v,
            Rep::Bits(b) => b.iter().enumerate().map(|(i, x)| (evalb(*x, a) as u128) << i).sum(),
            Rep::Lin(l) => l.eval(a) as u128 & mask(self.w),
            Rep::Mod(r) => (r.l.eval(a).rem_euclid(1i128 << r.m) + r.x.eval(a)) as u128 & mask(self.w),
        }
    }
    pub fn eval_i(&self, a: &HashMap<u32, bool>) -> i128 {
        self.sx(self.eval(a))
    }
}

/// two's complement bits of an exact form with a small range and many terms,
/// added up in the order of the input so that partial sums stay small
fn small_bits(l: &Lin) -> Option<Vec<B>> {
    let (lo, hi) = (l.min(), l.max());
    if !l.exact || lo < -(1 << 14) || hi >= 1 << 14 || l.t.len() > 3000 {
        return None;
    }
    thread_local!(static LAST: RefCell<(u64, HashMap<(i128, Vec<(B, i128)>), Option<Vec<B>>>)> = RefCell::new((0, HashMap::new())));
    let key = (l.c, l.t.clone());
    let known = LAST.with(|m| {
        let mut m = m.borrow_mut();
        if m.0 != epoch() {
            *m = (epoch(), HashMap::new());
        }
        m.1.get(&key).cloned()
    });
    if let Some(r) = known {
        return r;
    }
    let mut t: Vec<(u32, B, i128)> = l.t.iter().map(|x| (support(&[x.0]).into_iter().max().unwrap_or(0), x.0, x.1)).collect();
    t.sort();
    let w = 16;
    let start = node_count();
    let mut acc: Vec<B> = (0..w).map(|i| if l.c >> i & 1 == 1 { T } else { F }).collect();
    let mut ok = true;
    for (_, b, k) in &t {
        let mut carry = F;
        for (i, a) in acc.iter_mut().enumerate() {
            let kb = if k >> i & 1 == 1 { *b } else { F };
            let x = xor(*a, kb);
            let c2 = or(and(*a, kb), and(carry, x));
            *a = xor(x, carry);
            carry = c2;
        }
        if node_count() > start + 3_000_000 {
            ok = false;
            break;
        }
    }
    let r = ok.then_some(acc);
    LAST.with(|m| m.borrow_mut().1.insert(key, r.clone()));
    r
}

/// enough two's complement bits of `c` plus the terms to tell whether it is zero
pub fn sum_bits(c: i128, t: &[(B, i128)]) -> Vec<B> {
    lin_bits(&Lin::new(c, t.iter().copied(), true), 100)
}

fn lin_bits(l: &Lin, w: u16) -> Vec<B> {
    let w = w as usize;
    let mut acc: Vec<B> = (0..w).map(|i| if (l.c as u128) >> i & 1 == 1 { T } else { F }).collect();
    for (b, k) in &l.t {
        let mut carry = F;
        for i in 0..w {
            let kb = if (*k as u128) >> i.min(127) & 1 == 1 { *b } else { F };
            let x = xor(acc[i], kb);
            let c2 = or(and(acc[i], kb), and(carry, x));
            acc[i] = xor(x, carry);
            carry = c2;
        }
    }
    acc
}
