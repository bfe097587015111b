//! Comparing what the analysis inferred with a declarative specification.
//!
//! A specification says, in terms of the input bits, when a parse must succeed,
//! what the result must be and how much input is consumed.  Results are compared
//! by variant and field *names* taken from the type definitions in /repo, under
//! the condition of each abstract state.
use crate::bdd::*;
use crate::int::*;
use crate::interp::*;
use crate::sym::*;
use crate::val::*;
use rustc_public::ty::*;
use rustc_public::CrateDefType;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone)]
pub enum Exp {
    /// not constrained
    Any,
    Int(Int),
    En(Vec<Var>),
    St(Vec<(String, Exp)>),
    /// given the inferred number of elements: when is that the right number,
    /// and what are the elements
    Seq(Rc<dyn Fn(usize) -> (B, Vec<Exp>)>),
    Text(Rc<dyn Fn(usize) -> (B, Vec<Int>)>),
    /// one of several constant texts
    Lit(Vec<(B, String)>),
    /// alternatives for the same position
    Cond(Vec<(B, Exp)>),
    /// the result of a sub-parser that is covered separately
    Opq(String),
}
#[derive(Clone)]
pub struct Var {
    pub g: B,
    pub name: String,
    pub f: Vec<(String, Exp)>,
}
pub fn var(g: B, name: &str) -> Var {
    Var { g, name: name.into(), f: vec![] }
}
pub fn var1(g: B, name: &str, e: Exp) -> Var {
    Var { g, name: name.into(), f: vec![("0".into(), e)] }
}
pub fn varn(g: B, name: &str, e: Vec<Exp>) -> Var {
    Var { g, name: name.into(), f: e.into_iter().enumerate().map(|(i, e)| (i.to_string(), e)).collect() }
}
pub fn varf(g: B, name: &str, f: Vec<(&str, Exp)>) -> Var {
    Var { g, name: name.into(), f: f.into_iter().map(|(n, e)| (n.to_string(), e)).collect() }
}
pub fn en(v: Vec<Var>) -> Exp {
    Exp::En(v)
}
pub fn st(f: Vec<(&str, Exp)>) -> Exp {
    Exp::St(f.into_iter().map(|(n, e)| (n.to_string(), e)).collect())
}
pub fn int(i: Int) -> Exp {
    Exp::Int(i)
}
pub fn boolean(b: B) -> Exp {
    Exp::Int(Int::bool(b))
}
/// a vector of exactly these elements
pub fn seq(v: Vec<Exp>) -> Exp {
    Exp::Seq(Rc::new(move |n| (if n == v.len() { T } else { F }, if n == v.len() { v.clone() } else { vec![Exp::Any; n] })))
}
/// the bytes of the input from `o` to its end
pub fn rest(s: &Sym, o: usize) -> Exp {
    let (bytes, len) = (s.bytes.clone(), s.len.clone());
    Exp::Seq(Rc::new(move |n| {
        if o + n > bytes.len() {
            return (F, vec![Exp::Any; n]);
        }
        (len.eq(&Int::usize((o + n) as u64)).unwrap(), (0..n).map(|i| Exp::Int(bytes[o + i].clone())).collect())
    }))
}

pub struct Mismatch {
    pub g: B,
    pub what: String,
}
#[derive(Default)]
pub struct Cmp {
    pub bad: Vec<Mismatch>,
    pub unsure: Vec<(B, String)>,
    pub checked: u64,
}
pub fn def_last(s: &str) -> String {
    s.rsplit("::").next().unwrap_or("").to_string()
}
fn ty_args(t: Ty) -> Option<(AdtDef, GenericArgs)> {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, a)) => Some((d, a)),
        TyKind::RigidTy(RigidTy::Ref(_, t, _)) => ty_args(t),
        _ => None,
    }
}
pub fn variants(t: Ty) -> Option<Vec<(String, Vec<(String, Ty)>)>> {
    let (d, a) = ty_args(t)?;
    Some(
        d.variants_iter()
            .map(|v| {
                (
                    def_last(&v.name().to_string()),
                    v.fields().iter().map(|f| (f.name.to_string(), f.ty_with_args(&a))).collect(),
                )
            })
            .collect(),
    )
}
fn elem_ty(t: Ty) -> Option<Ty> {
    let (_, a) = ty_args(t)?;
    a.0.iter().find_map(|x| if let GenericArgKind::Type(t) = x { Some(*t) } else { None })
}

/// are two exact sums equal under `g` because their difference splits into
/// parts over disjoint variables, each of which is constant under `g`?
fn same_by_parts(x: &Lin, y: &Lin, g: B, depth: u32) -> bool {
    let mut by: BTreeMap<B, i128> = BTreeMap::new();
    for (t, sign) in x.t.iter().map(|t| (t, 1)).chain(y.t.iter().map(|t| (t, -1))) {
        *by.entry(restrict(t.0, g)).or_default() += sign * t.1;
    }
    let mut total = x.c - y.c;
    by.retain(|_, k| *k != 0);
    if by.len() <= 400 {
        // terms that are one and the same (or opposite) wherever `g` holds
        let mut reps: Vec<(B, i128)> = vec![];
        for (b, k) in by {
            if and(b, g) == F {
                continue;
            }
            if and(not(b), g) == F {
                total += k;
                continue;
            }
            let mut k = Some(k);
            for r in reps.iter_mut() {
                let d = and(xor(b, r.0), g);
                if d == F {
                    r.1 += k.take().unwrap();
                    break;
                }
                if d == g {
                    let k = k.take().unwrap();
                    r.1 -= k;
                    total += k;
                    break;
                }
            }
            if let Some(k) = k {
                reps.push((b, k));
            }
        }
        by = reps.into_iter().fold(BTreeMap::new(), |mut m, (b, k)| {
            *m.entry(b).or_default() += k;
            m
        });
    }
    // parts: (variables, terms)
    let mut parts: Vec<(BTreeSet<u32>, Vec<(B, i128)>)> = vec![];
    for (b, k) in by {
        if k == 0 || b == F {
            continue;
        }
        if b == T {
            total += k;
            continue;
        }
        let mut sup: BTreeSet<u32> = support(&[b]).into_iter().collect();
        let mut terms = vec![(b, k)];
        let mut i = 0;
        while i < parts.len() {
            if parts[i].0.is_disjoint(&sup) {
                i += 1;
            } else {
                let p = parts.swap_remove(i);
                sup.extend(p.0);
                terms.extend(p.1);
            }
        }
        parts.push((sup, terms));
    }
    let Some(point) = sat_random(g, 1) else { return true };
    for (sup, terms) in parts {
        if sup.len() > 20 {
            // the variable most terms have in common, both ways
            let mut uses: BTreeMap<u32, usize> = BTreeMap::new();
            for t in &terms {
                for v in support(&[t.0]) {
                    *uses.entry(v).or_default() += 1;
                }
            }
            let Some((v, _)) = uses.into_iter().max_by_key(|u| u.1).filter(|_| depth > 0) else { return false };
            let v = var_b(v);
            return [v, not(v)].into_iter().all(|v| {
                let g = and(g, v);
                g == F || same_by_parts(x, y, g, depth - 1)
            });
        }
        let here: i128 = terms.iter().filter(|t| evalb(t.0, &point)).map(|t| t.1).sum();
        for b in sum_bits(-here, &terms) {
            if and(b, g) != F {
                return false;
            }
        }
        total += here;
    }
    total == 0
}

/// where do two integers differ under `g`? `Err` if that cannot be settled
pub fn differ(got: &Int, exp: &Int, g: B) -> Result<B, ()> {
    if got == exp {
        return Ok(F);
    }
    if let (Some(a), Some(b)) = (got.to_bits(), exp.to_bits()) {
        if a.len() != b.len() {
            // compare the common part; the rest must be zero
        }
        let n = a.len().max(b.len());
        let mut d = F;
        for i in 0..n {
            let x = a.get(i).copied().unwrap_or(F);
            let y = b.get(i).copied().unwrap_or(F);
            if x != y {
                d = or(d, and(xor(x, y), g));
            }
        }
        return Ok(d);
    }
    let (Some(a), Some(b)) = (got.under(g), exp.under(g)) else { return Err(()) };
    if a == b {
        return Ok(F);
    }
    let whole = |i: &Int, l: &Lin| i.exact_lin().unwrap_or_else(|| l.clone());
    if same_by_parts(&whole(got, &a), &whole(exp, &b), g, 6) {
        return Ok(F);
    }
    // a concrete point at which the two affine forms disagree
    for seed in 0..64u64 {
        let Some(asg) = sat_random(g, seed) else { break };
        if got.eval(&asg) != exp.eval(&asg) {
            let mut cube = g;
            let sup = support(&[g]);
            let _ = sup;
            let vars: Vec<u32> = asg.keys().copied().collect();
            for v in vars {
                let lit = var_b(v);
                cube = and(cube, if asg[&v] { lit } else { not(lit) });
            }
            return Ok(if cube == F { g } else { cube });
        }
    }
    if std::env::var("MBA_D").is_ok() {
        eprintln!("affine: got {a:?}\n exp {b:?}");
    }
    match a.sub_is_zero(&b) {
        Some(z) => Ok(and(g, not(z))),
        None => Err(()),
    }
}

pub fn compare(it: &Interp, s: &State, ty: Ty, v: &Val, e: &Exp, g: B, path: &str, out: &mut Cmp) {
    if g == F {
        return;
    }
    match (v, e) {
        (_, Exp::Any) => {}
        (Val::Top(r), _) => out.unsure.push((g, format!("{path}: value not inferred ({r})"))),
        (_, Exp::Cond(cs)) => {
            let mut left = g;
            for (c, x) in cs {
                compare(it, s, ty, v, x, and(left, *c), path, out);
                left = and(left, not(*c));
            }
            if left != F {
                out.unsure.push((left, format!("{path}: not specified")));
            }
        }
        (Val::Int(a), Exp::Int(b)) => {
            out.checked += 1;
            match differ(a, b, g) {
                Ok(F) => {}
                Ok(d) => {
                    let asg: HashMap<u32, bool> = sat_one(d).unwrap_or_default().into_iter().collect();
                    out.bad.push(Mismatch { g: d, what: format!("{path} is {} where the property requires {}", a.eval_i(&asg), if b.s { b.eval_i(&asg) } else { b.eval(&asg) as i128 }) })
                }
                Err(()) => out.unsure.push((g, format!("{path}: equality of two affine forms"))),
            }
        }
        (Val::Agg(a), Exp::Int(_)) if a.len() == 1 => {
            let t = variants(ty).and_then(|v| v.first().and_then(|v| v.1.first().map(|f| f.1))).unwrap_or(ty);
            compare(it, s, t, &a[0], e, g, path, out)
        }
        (Val::Enum(arms), Exp::En(vars)) => {
            let Some(vs) = variants(ty) else {
                out.unsure.push((g, format!("{path}: no enum type")));
                return;
            };
            for x in vars {
                if and(x.g, g) != F && !vs.iter().any(|v| v.0 == x.name) {
                    out.unsure.push((g, format!("{path}: variant {} no longer exists", x.name)));
                    return;
                }
            }
            let feasible = arms.iter().filter(|a| and(a.g, g) != F).count();
            for a in arms.iter() {
                if and(g, a.g) == F {
                    continue;
                }
                let ga = if feasible == 1 { g } else { and(g, a.g) };
                let Some((name, fields)) = vs.get(a.v) else {
                    out.unsure.push((ga, format!("{path}: variant index {}", a.v)));
                    continue;
                };
                let mut left = ga;
                for x in vars {
                    let gx = and(ga, x.g);
                    if gx == F {
                        continue;
                    }
                    left = and(left, not(x.g));
                    out.checked += 1;
                    if *name != x.name {
                        if std::env::var("MBA_D").is_ok() {
                            let asg: HashMap<u32, bool> = sat_one(gx).unwrap().into_iter().collect();
                            eprintln!("{path}: {name} vs {} asg {:?}", x.name, asg.iter().map(|(k, v)| (var_name(*k), *v)).collect::<BTreeMap<_, _>>());
                            for b in arms.iter() {
                                eprintln!("   arm {} g {} (and g: {})", vs[b.v].0, evalb(b.g, &asg), and(b.g, gx) != F);
                            }
                        }
                        out.bad.push(Mismatch { g: gx, what: format!("{path} is {name} where the property requires {}", x.name) });
                        continue;
                    }
                    for (fname, fe) in &x.f {
                        let Some(i) = fields.iter().position(|f| f.0 == *fname) else {
                            out.unsure.push((gx, format!("{path}.{name}: no field {fname}")));
                            continue;
                        };
                        match a.f.get(i) {
                            Some(fv) => compare(it, s, fields[i].1, fv, fe, gx, &format!("{path}.{name}.{fname}"), out),
                            None => out.unsure.push((gx, format!("{path}.{name}.{fname}: missing"))),
                        }
                    }
                }
                if left != F {
                    out.bad.push(Mismatch { g: left, what: format!("{path} is {name} where the property allows no such value") });
                }
            }
        }
        (Val::Agg(a), Exp::St(fs)) => {
            let Some(vs) = variants(ty) else {
                out.unsure.push((g, format!("{path}: no struct type")));
                return;
            };
            for (fname, fe) in fs {
                match vs[0].1.iter().position(|f| f.0 == *fname) {
                    Some(i) if i < a.len() => compare(it, s, vs[0].1[i].1, &a[i], fe, g, &format!("{path}.{fname}"), out),
                    _ => out.unsure.push((g, format!("{path}: no field {fname}"))),
                }
            }
        }
        (Val::Opq(a), Exp::Opq(b)) => {
            out.checked += 1;
            if **a != **b {
                out.bad.push(Mismatch { g, what: format!("{path} is {a} where the property requires {b}") });
            }
        }
        // a tuple
        (Val::Agg(a), Exp::En(vars)) if vars.len() == 1 && vars[0].name == "tuple" => {
            let TyKind::RigidTy(RigidTy::Tuple(ts)) = ty.kind() else {
                out.unsure.push((g, format!("{path}: no tuple")));
                return;
            };
            for (i, (_, fe)) in vars[0].f.iter().enumerate() {
                compare(it, s, ts[i], &a[i], fe, g, &format!("{path}.{i}"), out);
            }
        }
        (Val::Vec(a), Exp::Seq(f)) => {
            let (ok, es) = f(a.len());
            out.checked += 1;
            let bad = and(g, not(ok));
            if bad != F {
                out.bad.push(Mismatch { g: bad, what: format!("{path} has {} elements, which the property does not allow here", a.len()) });
            }
            let gk = and(g, ok);
            let et = elem_ty(ty).unwrap_or(ty);
            for (i, (x, e)) in a.iter().zip(&es).enumerate() {
                compare(it, s, et, x, e, gk, &format!("{path}[{i}]"), out);
            }
        }
        // a string that was never written to
        (Val::Agg(a), Exp::Text(_)) if a.len() == 1 => compare(it, s, ty, &a[0], e, g, path, out),
        (Val::Vec(a), Exp::Text(f)) if a.is_empty() => {
            out.checked += 1;
            let bad = and(g, not(f(0).0));
            if bad != F {
                out.bad.push(Mismatch { g: bad, what: format!("{path} is empty, which the property does not allow here") });
            }
        }
        (Val::Str(a), Exp::Text(f)) => {
            let (ok, es) = f(a.len());
            out.checked += 1;
            let bad = and(g, not(ok));
            if bad != F {
                out.bad.push(Mismatch { g: bad, what: format!("{path} has {} characters, which the property does not allow here", a.len()) });
            }
            let gk = and(g, ok);
            for (i, (x, e)) in a.iter().zip(&es).enumerate() {
                compare(it, s, ty, x, &Exp::Int(e.clone()), gk, &format!("{path}[char {i}]"), out);
            }
        }
        (Val::Ptr(ps), Exp::Lit(ls)) => {
            for (h, p) in ps.iter() {
                let gp = if ps.len() == 1 { g } else { and(g, *h) };
                if gp == F {
                    continue;
                }
                let one = Val::ptr(p.clone());
                let txt: Option<String> = it.text(s, &one).ok().and_then(|cs| cs.iter().map(|c| c.int().and_then(|i| i.as_const()).and_then(|c| char::from_u32(c as u32))).collect());
                let Some(txt) = txt else {
                    out.unsure.push((gp, format!("{path}: text not constant")));
                    continue;
                };
                let mut left = gp;
                for (c, want) in ls {
                    let gc = and(gp, *c);
                    if gc == F {
                        continue;
                    }
                    left = and(left, not(*c));
                    out.checked += 1;
                    if *want != txt {
                        out.bad.push(Mismatch { g: gc, what: format!("{path} is {txt:?} where the property requires {want:?}") });
                    }
                }
                if left != F {
                    out.bad.push(Mismatch { g: left, what: format!("{path} is {txt:?} where the property allows no text") });
                }
            }
        }
        (v, _) => out.unsure.push((g, format!("{path}: shape not comparable: {}", v.show().chars().take(80).collect::<String>()))),
    }
}

/// everything inferred about one root
pub struct Run {
    pub name: String,
    pub sym: Sym,
    pub bits: bool,
    pub ret: Ty,
    pub results: Vec<(State, Val)>,
}

/// what a parser must do
pub struct Spec {
    /// inputs the statement speaks about
    pub pre: B,
    /// when it must succeed (and otherwise must return an error)
    pub ok: B,
    pub val: Exp,
    /// bytes consumed on success (None: not constrained)
    pub used: Option<Int>,
    /// errors must carry at least this much context
    pub ctx: bool,
}

pub struct Report {
    pub prop: String,
    pub violations: Vec<Violation>,
    pub undecided: Vec<String>,
    pub obligations: u64,
    pub funcs: BTreeSet<String>,
    pub blocks: BTreeSet<(String, usize)>,
    pub sites: BTreeSet<String>,
    pub modelled: BTreeSet<String>,
    pub roots: Vec<String>,
    pub notes: Vec<String>,
    pub counts: BTreeMap<String, u64>,
    pub missing: Vec<String>,
    pub steps: u64,
    pub merges: u64,
    pub nodes: u64,
}
#[derive(Clone)]
pub struct Violation {
    /// stable identification (no line numbers)
    pub key: String,
    pub what: String,
    pub at: Vec<String>,
    pub witness: String,
}
impl Report {
    pub fn new(prop: &str) -> Report {
        Report {
            prop: prop.into(),
            violations: vec![],
            undecided: vec![],
            obligations: 0,
            funcs: Default::default(),
            blocks: Default::default(),
            sites: Default::default(),
            modelled: Default::default(),
            roots: vec![],
            notes: vec![],
            counts: Default::default(),
            missing: vec![],
            steps: 0,
            merges: 0,
            nodes: 0,
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.into()).or_insert(0) += n;
    }
    pub fn violation(&mut self, key: String, what: String, at: Vec<String>, witness: impl Into<Wit>) {
        let w = witness.into();
        if !w.firm {
            self.undecided.push(format!("{what}: no input found that shows it"));
            return;
        }
        let witness = w.text;
        if !self.violations.iter().any(|v| v.key == key) {
            self.violations.push(Violation { key, what, at, witness });
        }
    }
    /// record what the interpreter saw
    pub fn absorb(&mut self, it: &Interp, root: &str) {
        self.roots.push(root.into());
        for (f, b) in it.reach.keys() {
            let f = &it.infos[*f];
            self.funcs.insert(f.name.clone());
            self.blocks.insert((f.name.clone(), *b));
        }
        self.steps += it.steps;
        self.merges += it.merges;
        self.nodes = self.nodes.max(node_count() as u64);
        self.modelled.extend(it.modelled.iter().cloned());
        for (_, why, stack) in &it.undecided {
            let t = format!("{root}: {why} <- {}", stack.iter().take(3).cloned().collect::<Vec<_>>().join(" <- "));
            if !self.undecided.contains(&t) {
                self.undecided.push(t);
            }
        }
    }
}

/// the places in /repo most specific to the inputs in `g`
pub fn blame(it: &Interp, g: B) -> Vec<String> {
    let Some(a) = sat_one(g) else { return vec![] };
    let a: HashMap<u32, bool> = a.into_iter().collect();
    let mut hits: Vec<(f64, usize, usize)> = vec![];
    let mut memo = HashMap::new();
    for ((f, b), c) in &it.reach {
        if evalb(*c, &a) {
            hits.push((density(*c, &mut memo), *f, *b));
        }
    }
    hits.sort_by(|x, y| x.partial_cmp(y).unwrap());
    let mut out: Vec<String> = vec![];
    for (_, f, b) in hits {
        let fun = &it.infos[f];
        let blk = &fun.blocks[b];
        let sp = blk.spans.first().copied().unwrap_or(blk.span);
        let s = format!("{} in {}", crate::interp::span_str(sp), fun.name);
        if !out.contains(&s) {
            out.push(s);
        }
        if out.len() == 4 {
            break;
        }
    }
    out
}
/// fraction of all assignments satisfying `b`
pub fn density(b: B, memo: &mut HashMap<B, f64>) -> f64 {
    if b == F {
        return 0.0;
    }
    if b == T {
        return 1.0;
    }
    if let Some(&d) = memo.get(&b) {
        return d;
    }
    let (_, l, h) = cof(b);
    let d = 0.5 * density(l, memo) + 0.5 * density(h, memo);
    memo.insert(b, d);
    d
}

/// Ok/Err split of a `Result`-typed abstract value
pub fn split(v: &Val, g: B) -> Option<Vec<(bool, B, Val)>> {
    match v {
        Val::Enum(arms) => {
            let fe: Vec<&Arm> = arms.iter().filter(|a| and(a.g, g) != F).collect();
            let one = fe.len() == 1;
            Some(fe.iter().map(|a| (a.v == 0, if one { g } else { and(g, a.g) }, a.f.first().cloned().unwrap_or(Val::unit()))).collect())
        }
        _ => None,
    }
}
fn first_int(v: &Val) -> Vec<(B, Int)> {
    match v {
        Val::Int(i) => vec![(T, i.clone())],
        Val::Agg(a) => a.first().map(first_int).unwrap_or_default(),
        Val::Enum(arms) => arms.iter().flat_map(|a| a.f.first().map(first_int).unwrap_or_default().into_iter().map(|(h, i)| (and(h, a.g), i)).collect::<Vec<_>>()).collect(),
        _ => vec![],
    }
}
/// bytes consumed, from the final value of the input slice
pub fn consumed(s: &State, bits: bool) -> Option<(i64, Int, Int)> {
    let v = &s.fr[0][1];
    let (p, off) = match v {
        Val::Agg(a) if bits => (a[0].clone(), a[1].int()?.clone()),
        v => (v.clone(), Int::usize(0)),
    };
    match p {
        Val::Ptr(ps) if ps.len() == 1 => match (&ps[0].1.base, &ps[0].1.meta) {
            (Base::Local(0, 0), Meta::Len(n)) => Some((ps[0].1.idx.unwrap_or(0), n.clone(), off)),
            _ => None,
        },
        _ => None,
    }
}

pub fn check(it: &Interp, r: &Run, sp: &Spec, rep: &mut Report) {
    let (tok, terr) = match variants(r.ret) {
        Some(v) if v.len() == 2 => (v[0].1[0].1, v[1].1[0].1),
        _ => {
            rep.undecided.push(format!("{}: result type changed", r.name));
            return;
        }
    };
    let _ = terr;
    let w = |g: B| witness(Some(&r.sym), g);
    let name = &r.name;
    for (s, v) in &r.results {
        let g0 = and(s.g, sp.pre);
        if g0 == F {
            continue;
        }
        let Some(parts) = split(v, g0) else {
            rep.undecided.push(format!("{name}: result not inferred: {}", v.show().chars().take(100).collect::<String>()));
            continue;
        };
        for (ok, g, pv) in parts {
            rep.obligations += 1;
            if !ok {
                let bad = and(g, sp.ok);
                if bad != F {
                    rep.violation(format!("{name}: rejects input that must be accepted"), "returns an error for input that must be accepted".into(), blame(it, bad), w(bad));
                }
                if sp.ctx {
                    for (h, n) in first_int(&pv) {
                        let gh = and(g, h);
                        rep.obligations += 1;
                        let z = n.eq(&Int::c(0, n.w, n.s)).unwrap_or(F);
                        let bad = and(gh, z);
                        if bad != F {
                            rep.violation(format!("{name}: error without context"), "returns an error that carries no context".into(), blame(it, bad), w(bad));
                        }
                    }
                }
                continue;
            }
            let bad = and(g, not(sp.ok));
            if bad != F {
                rep.violation(format!("{name}: accepts input that must be rejected"), "accepts input that must be rejected".into(), blame(it, bad), w(bad));
            }
            let g = and(g, sp.ok);
            if g == F {
                continue;
            }
            let mut c = Cmp::default();
            compare(it, s, tok, &pv, &sp.val, g, "result", &mut c);
            rep.obligations += c.checked;
            for m in c.bad {
                let short: String = m.what.split(" is ").next().unwrap_or("").split(" has ").next().unwrap_or("").to_string();
                rep.violation(format!("{name}: wrong {short}"), m.what.clone(), blame(it, m.g), w(m.g));
            }
            for (g, u) in c.unsure {
                let t = format!("{name}: {u}");
                if !rep.undecided.contains(&t) && std::env::var("MBA_V").is_ok() {
                    println!("UNSURE {t} at {}", w(g));
                }
                if !rep.undecided.contains(&t) {
                    rep.undecided.push(t);
                }
            }
            if let Some(u) = &sp.used {
                rep.obligations += 1;
                match consumed(s, r.bits) {
                    Some((idx, left, off)) => {
                        let d1 = differ(u, &Int::usize(idx as u64), g).unwrap_or(F);
                        let total = left.arith('+', &Int::usize(idx as u64), g, true).map(|x| x.0);
                        let d2 = total.map(|t| differ(&t, &r.sym.len, g).unwrap_or(F)).unwrap_or(F);
                        let d3 = if r.bits { differ(&off, &Int::usize(0), g).unwrap_or(F) } else { F };
                        let bad = or(d1, or(d2, d3));
                        if bad != F {
                            rep.violation(format!("{name}: wrong number of bytes consumed"), format!("consumes {idx} bytes where the property requires another number"), blame(it, bad), w(bad));
                        }
                    }
                    None => rep.undecided.push(format!("{name}: final input position not inferred")),
                }
            }
        }
    }
}
