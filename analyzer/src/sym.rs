//! Setting up a root: symbolic input bytes, symbolic length, argument values.
use crate::bdd::*;
use crate::int::*;
use crate::interp::*;
use crate::ir::*;
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use std::collections::HashMap;
use std::rc::Rc;

pub struct Sym {
    pub bytes: Vec<Int>,
    pub len: Int,
    pub n: usize,
    pub pre: B,
}

impl Sym {
    /// `n` symbolic bytes of which a symbolic number `0..=n` is visible
    pub fn new(n: usize) -> Sym {
        let k = (usize::BITS - n.leading_zeros()) as usize;
        let mut lb: Vec<B> = (0..k).rev().map(|i| new_var(&format!("len.{i}"))).collect();
        lb.reverse();
        lb.resize(64, F);
        let len = Int::bits(lb, false);
        let pre = not(Int::usize(n as u64).lt(&len).unwrap());
        let bytes = byte_vars("in", n);
        Sym { bytes, len, n, pre }
    }
    /// exactly `n` visible bytes
    pub fn exact(n: usize) -> Sym {
        let bytes = byte_vars("in", n);
        Sym { bytes, len: Int::usize(n as u64), n, pre: T }
    }
    pub fn ptr(&self) -> Val {
        Val::ptr(Ptr { base: Base::Local(0, 0), path: Rc::new([]), idx: Some(0), meta: Meta::Len(self.len.clone()) })
    }
    /// frame 0: [bytes, input]
    pub fn state(&self, bits: bool) -> (State, Val) {
        let arr = Val::agg(self.bytes.iter().map(|b| Val::Int(b.clone())).collect());
        let inp = if bits { Val::agg(vec![self.ptr(), Val::usize(0)]) } else { self.ptr() };
        let st = State { g: self.pre, fr: vec![Rc::new(vec![arr, inp])] };
        let arg = Val::ptr(Ptr { base: Base::Local(0, 1), path: Rc::new([]), idx: None, meta: Meta::No });
        (st, arg)
    }
    pub fn at_least(&self, n: usize) -> B {
        not(self.len.lt(&Int::usize(n as u64)).unwrap())
    }
    pub fn is_len(&self, n: usize) -> B {
        self.len.eq(&Int::usize(n as u64)).unwrap()
    }
    /// bit `k` (0 = least significant) of byte `i`
    pub fn bit(&self, i: usize, k: usize) -> B {
        self.bytes[i].to_bits().unwrap()[k]
    }
    /// `hi..=lo` bits of byte i, as integer of width w
    pub fn field(&self, i: usize, hi: usize, lo: usize, w: u16, s: bool) -> Int {
        let b = self.bytes[i].to_bits().unwrap();
        let mut v: Vec<B> = b[lo..=hi].to_vec();
        v.resize(w as usize, F);
        Int::bits(v, s)
    }
    /// little-endian unsigned integer from `n` bytes at `o`
    pub fn le(&self, o: usize, n: usize, w: u16, s: bool) -> Int {
        let mut v = vec![];
        for i in o..o + n {
            v.extend(self.bytes[i].to_bits().unwrap());
        }
        let fill = if s { *v.last().unwrap_or(&F) } else { F };
        v.resize(w as usize, fill);
        Int::bits(v, s)
    }
    pub fn is(&self, i: usize, v: u128) -> B {
        self.bytes[i].eq(&Int::c(v, 8, false)).unwrap()
    }
    pub fn within(&self, i: usize, lo: u128, hi: u128) -> B {
        crate::models::in_range(&self.bytes[i], lo, hi).unwrap()
    }
}

pub fn byte_vars(name: &str, n: usize) -> Vec<Int> {
    (0..n)
        .map(|i| {
            let mut b: Vec<B> = (0..8).rev().map(|k| new_var(&format!("{name}[{i}].{k}"))).collect();
            b.reverse();
            Int::bits(b, false)
        })
        .collect()
}
pub fn int_vars(name: &str, w: u16, s: bool) -> Int {
    let mut b: Vec<B> = (0..w).rev().map(|k| new_var(&format!("{name}.{k}"))).collect();
    b.reverse();
    Int::bits(b, s)
}

/// concrete witness of a condition over the input
pub struct Wit {
    pub text: String,
    /// the witness was confirmed against every equation kept opaque
    pub firm: bool,
}
impl From<String> for Wit {
    fn from(text: String) -> Wit {
        Wit { text, firm: true }
    }
}
impl std::fmt::Display for Wit {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.text)
    }
}
pub fn witness(s: Option<&Sym>, g: B) -> Wit {
    let Some(a) = solve(g) else { return Wit { text: "none".into(), firm: g == T } };
    let mut out = String::new();
    if let Some(s) = s {
        let n = s.len.eval(&a) as usize;
        out.push_str("input bytes [");
        for i in 0..n.min(s.n) {
            if i > 0 {
                out.push(' ');
            }
            out.push_str(&format!("{:02x}", s.bytes[i].eval(&a)));
        }
        out.push(']');
    }
    let mut other: Vec<(String, bool)> = a.iter().map(|(k, v)| (var_name(*k), *v)).filter(|(n, _)| !n.starts_with("in[") && !n.starts_with("len.")).collect();
    other.sort();
    // recompose multi-bit variables
    let mut vals: std::collections::BTreeMap<String, u128> = Default::default();
    for (n, v) in other {
        match n.rsplit_once('.').and_then(|(b, k)| k.parse::<u32>().ok().map(|k| (b.to_string(), k))) {
            Some((b, k)) => {
                let e = vals.entry(b).or_insert(0);
                if v {
                    *e |= 1 << k;
                }
            }
            None => {
                vals.insert(n, v as u128);
            }
        }
    }
    for (n, v) in vals {
        out.push_str(&format!(" {n}={v:#x}"));
    }
    out.trim().to_string().into()
}

pub struct Root {
    pub inst: Instance,
    pub ret: Ty,
    pub arg_tys: Vec<Ty>,
}
pub fn find_root(roots: &HashMap<String, FnDef>, name: &str) -> Option<Root> {
    let d = roots.get(name)?;
    let inst = Instance::resolve(*d, &GenericArgs(vec![])).ok()?;
    let sig = inst.ty().kind().fn_sig()?.skip_binder();
    Some(Root { inst, ret: sig.output(), arg_tys: sig.inputs().to_vec() })
}
pub fn run_root(it: &mut Interp, r: &Root, args: Vec<Val>, st: State) -> Vec<(State, Val)> {
    let c = call_info(r.inst);
    it.call(&c, args, st)
}
