//! The call graph of everything reachable from the roots, and the effect rule:
//! decoding uses nothing but its input.
use crate::ir::*;
use crate::props::Cx;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::*;
use rustc_public::mir::visit::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};

/// environment a decoder must not touch
const EFFECTS: &[(&str, &str)] = &[
    ("std::io::", "input or output"),
    ("std::fs::", "the file system"),
    ("std::env::", "the process environment"),
    ("std::net::", "the network"),
    ("std::process::", "processes"),
    ("std::time::", "the clock"),
    ("std::thread::", "threads or thread-local state"),
    ("std::os::", "the operating system"),
    ("std::sync::mpsc", "channels"),
    ("std::collections::hash_map::Iter", "hash iteration order"),
    ("std::collections::hash_map::IntoIter", "hash iteration order"),
    ("std::collections::hash_map::Keys", "hash iteration order"),
    ("std::collections::hash_map::Values", "hash iteration order"),
    ("std::collections::hash_map::IntoKeys", "hash iteration order"),
    ("std::collections::hash_map::IntoValues", "hash iteration order"),
    ("std::collections::hash_map::Drain", "hash iteration order"),
    ("std::collections::hash_set::Iter", "hash iteration order"),
    ("std::collections::hash_set::IntoIter", "hash iteration order"),
    ("std::intrinsics::volatile", "volatile memory"),
    ("core::intrinsics::volatile", "volatile memory"),
    ("std::ptr::read_volatile", "volatile memory"),
    ("std::ptr::write_volatile", "volatile memory"),
];
pub fn effect(name: &str) -> Option<&'static str> {
    EFFECTS.iter().find(|e| name.starts_with(e.0) || name.contains(&format!("<{}", e.0)) || name.contains(&format!(" {}", e.0))).map(|e| e.1)
}

#[derive(Default)]
pub struct Graph {
    pub seen: HashMap<Instance, Option<Instance>>,
    pub edges: u64,
    pub libmbus: Vec<String>,
    pub bodyless: BTreeMap<String, u64>,
    pub dynamic: u64,
    pub statics: BTreeMap<String, u64>,
    pub bad: Vec<(String, Instance, String, String)>,
}
struct V<'a> {
    body: &'a Body,
    calls: Vec<(Instance, Span)>,
    statics: Vec<(StaticDef, bool, Span)>,
    tls: Vec<Span>,
    dynamic: u64,
    span: Span,
}
impl V<'_> {
    fn alloc(&mut self, id: rustc_public::mir::alloc::AllocId, raw: bool, depth: u8) {
        match GlobalAlloc::from(id) {
            GlobalAlloc::Static(s) => self.statics.push((s, raw, self.span)),
            GlobalAlloc::Function(i) => self.calls.push((crate::ir::through_shim(i), self.span)),
            GlobalAlloc::Memory(a) if depth < 6 => {
                for (_, p) in &a.provenance.ptrs {
                    self.alloc(p.0, raw, depth + 1);
                }
            }
            _ => (),
        }
    }
    fn fn_ty(&mut self, t: Ty) {
        let i = match t.kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, a)) => Instance::resolve(d, &a).ok(),
            TyKind::RigidTy(RigidTy::Closure(d, a)) => Instance::resolve_closure(d, &a, ClosureKind::FnOnce).ok(),
            _ => None,
        };
        if let Some(i) = i {
            self.calls.push((i, self.span));
        }
    }
}
impl MirVisitor for V<'_> {
    fn visit_statement(&mut self, s: &Statement, l: visit::Location) {
        self.span = s.source_info.span;
        self.super_statement(s, l)
    }
    fn visit_rvalue(&mut self, r: &Rvalue, l: visit::Location) {
        match r {
            Rvalue::Cast(CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_) | PointerCoercion::ClosureFnPointer(_)), o, _) => {
                if let Ok(t) = o.ty(self.body.locals()) {
                    self.fn_ty(t);
                }
            }
            Rvalue::ThreadLocalRef(_) => self.tls.push(self.span),
            _ => (),
        }
        self.super_rvalue(r, l)
    }
    fn visit_terminator(&mut self, t: &Terminator, l: visit::Location) {
        self.span = t.source_info.span;
        match &t.kind {
            TerminatorKind::Call { func, target, .. } => match func.ty(self.body.locals()).map(|t| t.kind()) {
                Ok(TyKind::RigidTy(RigidTy::FnDef(d, a))) => {
                    // diverging calls only build a panic
                    if target.is_some() {
                        if let Ok(i) = Instance::resolve(d, &a) {
                            self.calls.push((i, self.span));
                        }
                    }
                }
                _ => self.dynamic += 1,
            },
            TerminatorKind::Drop { place, .. } => {
                if let Ok(t) = place.ty(self.body.locals()) {
                    self.calls.push((Instance::resolve_drop_in_place(t), self.span));
                }
            }
            _ => (),
        }
        self.super_terminator(t, l)
    }
    fn visit_mir_const(&mut self, c: &MirConst, l: visit::Location) {
        if let ConstantKind::Allocated(a) = c.kind() {
            let raw = matches!(c.ty().kind(), TyKind::RigidTy(RigidTy::RawPtr(_, Mutability::Mut)));
            for (_, p) in &a.provenance.ptrs {
                self.alloc(p.0, raw, 0);
            }
        }
        self.super_mir_const(c, l)
    }
}
/// does a value of this type contain memory that can change behind a shared
/// reference?  Cells that are written once, during initialisation, do not count.
/// can a value of this type change behind a shared reference?  Cells that are
/// written once count only when `once` is set
pub fn mutable_inside(t: Ty, once: bool, seen: &mut HashSet<Ty>) -> bool {
    if !seen.insert(t) {
        return false;
    }
    match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, a)) => {
            let n = d.name().to_string();
            let last = n.rsplit("::").next().unwrap_or("");
            if ["OnceLock", "LazyLock", "Once", "OnceCell", "LazyCell"].contains(&last) {
                return once;
            }
            if last == "UnsafeCell" {
                return true;
            }
            d.variants_iter().any(|v| v.fields().iter().any(|f| mutable_inside(f.ty_with_args(&a), once, seen)))
        }
        TyKind::RigidTy(RigidTy::Array(t, _) | RigidTy::Slice(t)) => mutable_inside(t, once, seen),
        TyKind::RigidTy(RigidTy::Tuple(ts)) => ts.iter().any(|t| mutable_inside(*t, once, seen)),
        _ => false,
    }
}

pub fn build(cx: &Cx) -> Graph {
    let mut g = Graph::default();
    let mut todo = VecDeque::new();
    let mut roots: Vec<_> = cx.roots.iter().collect();
    roots.sort_by_key(|r| r.0.clone());
    for (_, d) in roots {
        if let Ok(i) = Instance::resolve(*d, &GenericArgs(vec![])) {
            g.seen.insert(i, None);
            todo.push_back(i);
        }
    }
    while let Some(i) = todo.pop_front() {
        let name = i.def.name().to_string();
        if is_repo_def(&i.def) {
            g.libmbus.push(i.name().to_string());
        }
        if matches!(i.kind, InstanceKind::Virtual { .. }) {
            g.dynamic += 1;
            continue;
        }
        let body = match i.kind {
            InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => None,
            _ => i.body(),
        };
        let Some(body) = body else {
            *g.bodyless.entry(name).or_insert(0) += 1;
            continue;
        };
        let mut v = V { body: &body, calls: vec![], statics: vec![], tls: vec![], dynamic: 0, span: body.span };
        v.visit_body(&body);
        g.dynamic += v.dynamic;
        let (calls, statics, tls) = (v.calls, v.statics, v.tls);
        for sp in tls {
            g.bad.push(("thread-local state".into(), i, crate::interp::span_str(sp), "a thread-local variable".into()));
        }
        for (s, raw, sp) in statics {
            let sn = s.name().to_string();
            *g.statics.entry(sn.clone()).or_insert(0) += 1;
            if raw || mutable_inside(s.ty(), false, &mut HashSet::new()) {
                g.bad.push(("mutable global state".into(), i, crate::interp::span_str(sp), sn));
            } else if let Ok(a) = s.eval_initializer() {
                for (_, p) in &a.provenance.ptrs {
                    if let GlobalAlloc::Function(f) = GlobalAlloc::from(p.0) {
                        let f = crate::ir::through_shim(f);
                        if g.seen.insert(f, Some(i)).is_none() {
                            todo.push_back(f);
                        }
                    }
                }
            }
        }
        for (c, sp) in calls {
            g.edges += 1;
            let cn = c.def.name().to_string();
            if let Some(what) = effect(&cn) {
                g.bad.push((what.into(), i, crate::interp::span_str(sp), cn));
                continue;
            }
            if !g.seen.contains_key(&c) {
                g.seen.insert(c, Some(i));
                todo.push_back(c);
            }
        }
    }
    g
}
pub fn path(g: &Graph, mut i: Instance) -> Vec<String> {
    let mut out = vec![i.name().to_string()];
    while let Some(Some(p)) = g.seen.get(&i) {
        out.push(p.name().to_string());
        i = *p;
    }
    out.reverse();
    out
}

pub fn purity(cx: &mut Cx) {
    let g = build(cx);
    if std::env::var("MBA_V").is_ok() {
        for (n, c) in &g.bodyless {
            eprintln!("no body: {n} x{c}");
        }
        for (n, c) in &g.statics {
            eprintln!("static: {n} x{c}");
        }
    }
    let rep = &mut cx.rep;
    rep.obligations = g.edges + g.statics.values().sum::<u64>();
    rep.count("functions in the call graph", g.seen.len() as u64);
    rep.count("functions of libmbus in the call graph", g.libmbus.len() as u64);
    rep.count("call edges examined", g.edges);
    rep.count("roots analysed", cx.roots.len() as u64);
    rep.count("statics examined", g.statics.len() as u64);
    rep.count("calls through function pointers or trait objects", g.dynamic);
    rep.funcs.extend(g.libmbus.iter().cloned());
    rep.roots.extend(cx.roots.keys().map(|k| format!("everything reachable from {k}")));
    rep.notes.push(format!("functions without a body: {}", g.bodyless.keys().cloned().collect::<Vec<_>>().join(", ")));
    // positive control: the rule must be able to fire
    for n in ["std::io::_print", "std::env::var::<&str>", "<std::time::Instant as std::ops::Sub>::sub", "std::thread::LocalKey::<T>::with"] {
        if effect(n).is_none() {
            rep.missing.push(format!("the effect rule does not recognise {n}"));
        }
    }
    for (what, i, at, callee) in &g.bad {
        let p = path(&g, *i);
        let site = p.iter().rev().find(|x| x.contains("libmbus")).cloned().unwrap_or_else(|| i.name().to_string());
        let short = site.split("::<").next().unwrap_or("").to_string();
        let mut a = vec![format!("{at} in {}", i.name())];
        a.extend(p.iter().rev().take(6).cloned());
        cx.rep.violation(format!("effect: {what} in {short}"), format!("decoding touches {what} ({callee})"), a, String::from("every input that reaches the call"));
    }
}
