//! Abstract values and states.
use crate::bdd::*;
use crate::int::*;
use rustc_public::mir::mono::Instance;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum El {
    F(u32),
    V(u32),
    I(i64),
    /// a run of elements seen as an array: first, count
    S(i64, u32),
    Me,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Base {
    Local(u32, u32),
    Static(u32),
    Dangling(u64),
}
#[derive(Clone, PartialEq, Debug)]
pub enum Meta {
    No,
    Len(Int),
    /// points at a whole `Val::Str`
    Str,
    /// trait object: the concrete type
    Vt(rustc_public::ty::Ty),
}
#[derive(Clone, PartialEq, Debug)]
pub struct Ptr {
    pub base: Base,
    pub path: Rc<[El]>,
    pub idx: Option<i64>,
    pub meta: Meta,
}

#[derive(Clone)]
pub struct Arm {
    pub v: usize,
    pub g: B,
    pub f: Rc<Vec<Val>>,
}

#[derive(Clone)]
pub enum Val {
    Undef,
    Top(Rc<str>),
    Int(Int),
    Agg(Rc<Vec<Val>>),
    Enum(Rc<Vec<Arm>>),
    /// guarded alternatives (almost always exactly one)
    Ptr(Rc<Vec<(B, Ptr)>>),
    Fn(Instance),
    Vec(Rc<Vec<Val>>),
    /// text as a sequence of Unicode scalar values
    Str(Rc<Vec<Val>>),
    Opq(Rc<str>),
}

impl Val {
    pub fn unit() -> Val {
        Val::Agg(Rc::new(vec![]))
    }
    pub fn agg(v: Vec<Val>) -> Val {
        Val::Agg(Rc::new(v))
    }
    pub fn variant(v: usize, f: Vec<Val>) -> Val {
        Val::Enum(Rc::new(vec![Arm { v, g: T, f: Rc::new(f) }]))
    }
    pub fn bool(b: B) -> Val {
        Val::Int(Int::bool(b))
    }
    pub fn usize(n: u64) -> Val {
        Val::Int(Int::usize(n))
    }
    pub fn ptr(p: Ptr) -> Val {
        Val::Ptr(Rc::new(vec![(T, p)]))
    }
    pub fn top(s: impl Into<String>) -> Val {
        Val::Top(s.into().into())
    }
    pub fn opq(s: &str) -> Val {
        Val::Opq(s.into())
    }
    /// Option<..>: None = 0, Some = 1
    pub fn none() -> Val {
        Val::variant(0, vec![])
    }
    pub fn some(v: Val) -> Val {
        Val::variant(1, vec![v])
    }
    pub fn ok(v: Val) -> Val {
        Val::variant(0, vec![v])
    }
    pub fn err(v: Val) -> Val {
        Val::variant(1, vec![v])
    }
    pub fn int(&self) -> Option<&Int> {
        match self {
            Val::Int(i) => Some(i),
            Val::Agg(a) if a.len() == 1 => a[0].int(),
            _ => None,
        }
    }
    pub fn show(&self) -> String {
        match self {
            Val::Undef => "undef".into(),
            Val::Top(r) => format!("?({r})"),
            Val::Int(i) => i.show(),
            Val::Agg(a) => format!("({})", a.iter().map(|x| x.show()).collect::<Vec<_>>().join(", ")),
            Val::Enum(a) => format!(
                "enum[{}]",
                a.iter().map(|x| format!("#{}({})", x.v, x.f.iter().map(|x| x.show()).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(" | ")
            ),
            Val::Ptr(p) => p.iter().map(|p| format!("&{:?}.{:?}@{:?}/{}", p.1.base, p.1.path, p.1.idx, match &p.1.meta { Meta::Len(n) => n.show(), Meta::No => "".into(), Meta::Str => "str".into(), Meta::Vt(_) => "vt".into() })).collect::<Vec<_>>().join(" | "),
            Val::Fn(_) => "fn".into(),
            Val::Vec(a) => format!("vec[{}]", a.iter().map(|x| x.show()).collect::<Vec<_>>().join(", ")),
            Val::Str(a) => format!("str[{}]", a.len()),
            Val::Opq(s) => format!("<{s}>"),
        }
    }
}

#[derive(Clone)]
pub struct State {
    pub g: B,
    pub fr: Vec<Rc<Vec<Val>>>,
}

fn merge_vecs(g: B, ga: B, gb: B, a: &Rc<Vec<Val>>, b: &Rc<Vec<Val>>, pad: bool) -> Option<Rc<Vec<Val>>> {
    if Rc::ptr_eq(a, b) {
        return Some(a.clone());
    }
    if a.len() != b.len() && !pad {
        return None;
    }
    let n = a.len().max(b.len());
    let mut out = Vec::with_capacity(n);
    for i in 0..n {
        match (a.get(i), b.get(i)) {
            (Some(x), Some(y)) => out.push(merge(g, ga, gb, x, y)?),
            (Some(x), None) | (None, Some(x)) => out.push(x.clone()),
            _ => unreachable!(),
        }
    }
    Some(Rc::new(out))
}

/// Join of `a` (taken where `ga`) and `b` (taken where `gb`); `g` separates
/// them.  `None` if the two have different shapes, in which case the states are
/// kept apart (trace partitioning).
pub fn merge(g: B, ga: B, gb: B, a: &Val, b: &Val) -> Option<Val> {
    Some(match (a, b) {
        (Val::Undef, x) | (x, Val::Undef) => x.clone(),
        (Val::Top(_), Val::Top(_)) => a.clone(),
        (Val::Int(x), Val::Int(y)) => {
            if x.w != y.w {
                return None;
            }
            Val::Int(Int::choose(g, x, y)?)
        }
        (Val::Agg(x), Val::Agg(y)) => Val::Agg(merge_vecs(g, ga, gb, x, y, true)?),
        (Val::Vec(x), Val::Vec(y)) => Val::Vec(merge_vecs(g, ga, gb, x, y, false)?),
        (Val::Str(x), Val::Str(y)) => Val::Str(merge_vecs(g, ga, gb, x, y, false)?),
        (Val::Opq(x), Val::Opq(y)) => {
            if x == y {
                a.clone()
            } else {
                return None;
            }
        }
        (Val::Fn(x), Val::Fn(y)) => {
            if x == y {
                a.clone()
            } else {
                return None;
            }
        }
        (Val::Ptr(x), Val::Ptr(y)) => {
            if Rc::ptr_eq(x, y) {
                return Some(a.clone());
            }
            if x.len() == 1 && y.len() == 1 {
                let (p, q) = (&x[0].1, &y[0].1);
                if p == q {
                    return Some(a.clone());
                }
                if p.base == q.base && p.path == q.path && p.idx == q.idx {
                    if let (Meta::Len(m), Meta::Len(n)) = (&p.meta, &q.meta) {
                        return Some(Val::ptr(Ptr { meta: Meta::Len(Int::ite(g, m, n)), ..p.clone() }));
                    }
                }
            }
            if x.iter().chain(y.iter()).all(|p| matches!(p.1.base, Base::Static(_))) {
                let mut out: Vec<(B, Ptr)> = vec![];
                let ng = not(g);
                for (cond, list) in [(g, x), (ng, y)] {
                    for (h, p) in list.iter() {
                        let h = and(*h, cond);
                        if h == F {
                            continue;
                        }
                        if let Some(e) = out.iter_mut().find(|e| e.1 == *p) {
                            e.0 = or(e.0, h);
                        } else {
                            out.push((h, p.clone()));
                        }
                    }
                }
                return Some(Val::Ptr(Rc::new(out)));
            }
            return None;
        }
        (Val::Enum(x), Val::Enum(y)) => {
            if Rc::ptr_eq(x, y) {
                return Some(a.clone());
            }
            let xs: Vec<&Arm> = x.iter().filter(|r| and(r.g, ga) != F).collect();
            let ys: Vec<&Arm> = y.iter().filter(|r| and(r.g, gb) != F).collect();
            let ng = not(g);
            let mut out: Vec<Arm> = vec![];
            for r in &xs {
                if let Some(s) = ys.iter().find(|s| s.v == r.v) {
                    let f = merge_vecs(g, and(ga, r.g), and(gb, s.g), &r.f, &s.f, true)?;
                    out.push(Arm { v: r.v, g: ite(g, r.g, s.g), f });
                } else {
                    out.push(Arm { v: r.v, g: if ys.is_empty() { r.g } else { and(g, r.g) }, f: r.f.clone() });
                }
            }
            for s in &ys {
                if !xs.iter().any(|r| r.v == s.v) {
                    out.push(Arm { v: s.v, g: if xs.is_empty() { s.g } else { and(ng, s.g) }, f: s.f.clone() });
                }
            }
            out.sort_by_key(|r| r.v);
            if out.is_empty() {
                return Some(a.clone());
            }
            if out.len() == 1 {
                out[0].g = T;
            }
            Val::Enum(Rc::new(out))
        }
        _ => return None,
    })
}

pub fn merge_states(a: &State, b: &State) -> Option<State> {
    if a.fr.len() != b.fr.len() {
        return None;
    }
    // cheap rejection first: compare from the innermost frame outwards
    let g = a.g;
    let mut fr = Vec::with_capacity(a.fr.len());
    for (x, y) in a.fr.iter().zip(&b.fr).rev() {
        fr.push(merge_vecs(g, a.g, b.g, x, y, true)?);
    }
    fr.reverse();
    Some(State { g: or(a.g, b.g), fr })
}
