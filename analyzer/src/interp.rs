//! Worklist abstract interpreter over lowered MIR.
//!
//! Blocks are processed in reverse postorder; states reaching the same block
//! are joined (val::merge) unless their shapes differ.  Calls are analysed in
//! the calling context.  `reach` collects, per basic block of the repository,
//! the predicate over inputs under which the block is entered.
use crate::bdd::*;
use crate::int::*;
use crate::ir::*;
use crate::val::*;
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateDefType;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub enum Stop {
    Fork(Vec<B>),
    Unk(String),
    Panic(String),
}
pub type R<X> = Result<X, Stop>;
pub fn unk<X>(s: impl Into<String>) -> R<X> {
    Err(Stop::Unk(s.into()))
}

#[derive(Clone, PartialEq)]
pub struct Loc {
    pub base: Base,
    pub path: Vec<El>,
    pub idx: Option<i64>,
    pub meta: Meta,
}

#[derive(Clone)]
pub struct PanicRec {
    pub g: B,
    pub msg: String,
    pub at: String,
    pub stack: Vec<String>,
}

pub type Hook = Rc<dyn Fn(&mut Interp, &mut State, &[Val], &Call) -> R<Vec<(State, Val)>>>;

pub struct Interp {
    pub funs: HashMap<Instance, Rc<Fun>>,
    pub infos: Vec<Rc<Fun>>,
    pub panics: Vec<PanicRec>,
    pub undecided: Vec<(B, String, Vec<String>)>,
    pub reach: HashMap<(usize, usize), B>,
    pub hooks: HashMap<String, Hook>,
    pub hooked: std::collections::BTreeSet<String>,
    /// loops that were abandoned because they kept going
    pub spins: Vec<PanicRec>,
    /// memory set aside for a number of elements: where, how many bytes, and
    /// (unless undecided) when that is more than `reserve_limit`
    pub reserves: Vec<(PanicRec, Option<B>)>,
    pub reserve_limit: u64,
    /// loops seen (function, block) with the largest number of rounds
    pub rounds: HashMap<(usize, usize), u32>,
    /// largest number of simultaneous activations per function
    pub nest: HashMap<usize, u32>,
    active: HashMap<usize, u32>,
    pub max_rounds: u32,
    pub deepest: usize,
    pub stack: Vec<(Rc<Fun>, Span)>,
    pub steps: u64,
    pub max_steps: u64,
    pub calls: u64,
    pub merges: u64,
    pub models: HashMap<String, rustc_public::ty::FnDef>,
    pub modelled: std::collections::BTreeSet<String>,
    pub max_states: usize,
    pub frame_base: u32,
    pub redirect_cache: HashMap<Instance, Option<Rc<Call>>>,
    pub trace: bool,
    pub deadline: std::time::Instant,
}

pub fn span_str(s: Span) -> String {
    let l = s.get_lines();
    let f = s.get_filename().to_string();
    let f = f.strip_prefix("/repo/").unwrap_or(&f).to_string();
    format!("{}:{}", f, l.start_line)
}

impl Ptr {
    pub fn loc(&self) -> Loc {
        let mut path = self.path.to_vec();
        let mut idx = self.idx;
        if self.meta == Meta::No {
            if let Some(i) = idx {
                path.push(El::I(i));
                idx = None;
            }
        }
        Loc { base: self.base, path, idx, meta: self.meta.clone() }
    }
}
impl Loc {
    pub fn ptr(&self) -> Ptr {
        let mut path = self.path.clone();
        let mut idx = self.idx;
        if self.meta == Meta::No && idx.is_none() {
            if let Some(El::I(i)) = path.last().copied() {
                path.pop();
                idx = Some(i);
            }
        }
        Ptr { base: self.base, path: path.into(), idx, meta: self.meta.clone() }
    }
}

/// `Type::method` of a function of the crate under analysis
fn tail2(name: &str) -> Option<&str> {
    if !name.starts_with("libmbus::") {
        return None;
    }
    let n = name.find("::<").map_or(name, |i| &name[..i]);
    let mut at = n.rmatch_indices("::");
    at.next();
    Some(at.next().map_or(n, |x| &n[x.0 + 2..]))
}

impl Interp {
    pub fn new(models: HashMap<String, FnDef>) -> Self {
        Interp {
            funs: HashMap::new(),
            infos: vec![],
            panics: vec![],
            undecided: vec![],
            reach: HashMap::new(),
            hooks: HashMap::new(),
            hooked: Default::default(),
            spins: vec![],
            reserves: vec![],
            reserve_limit: u64::MAX,
            rounds: HashMap::new(),
            nest: HashMap::new(),
            active: HashMap::new(),
            max_rounds: 2000,
            deepest: 0,
            stack: vec![],
            steps: 0,
            max_steps: 200_000_000,
            calls: 0,
            merges: 0,
            models,
            modelled: Default::default(),
            max_states: 6000,
            frame_base: 0,
            redirect_cache: HashMap::new(),
            trace: std::env::var("MBA_TRACE").is_ok(),
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(3600),
        }
    }
    /// forget the results of the previous root, keep lowered functions
    pub fn fresh(&mut self) {
        self.panics.clear();
        self.undecided.clear();
        self.reach.clear();
        self.hooks.clear();
        self.hooked.clear();
        self.spins.clear();
        self.reserves.clear();
        self.rounds.clear();
        self.nest.clear();
        self.active.clear();
        self.deepest = 0;
        self.stack.clear();
        self.steps = 0;
        self.calls = 0;
        self.merges = 0;
    }
    pub fn fun(&mut self, inst: Instance) -> Result<Rc<Fun>, String> {
        if let Some(f) = self.funs.get(&inst) {
            return Ok(f.clone());
        }
        let f = Rc::new(lower(inst, self.infos.len())?);
        self.funs.insert(inst, f.clone());
        self.infos.push(f.clone());
        Ok(f)
    }
    pub fn stack_strs(&self) -> Vec<String> {
        self.stack
            .iter()
            .filter(|f| f.0.repo)
            .map(|(f, s)| format!("{} ({})", f.name, span_str(*s)))
            .collect()
    }
    pub fn repo_at(&self) -> String {
        self.stack.iter().rev().find(|f| f.0.repo).map(|f| format!("{} in {}", span_str(f.1), f.0.name)).unwrap_or_else(|| "?".into())
    }
    pub fn add_unk(&mut self, g: B, why: String) {
        let st = self.stack.iter().rev().take(12).map(|(f, s)| format!("{} ({})", f.name, span_str(*s))).collect();
        self.undecided.push((g, why, st));
    }
    fn add_panic(&mut self, g: B, msg: String) {
        let at = self.repo_at();
        let stack = self.stack_strs();
        if let Some(p) = self.panics.iter_mut().find(|p| p.at == at && p.msg == msg && p.stack == stack) {
            p.g = or(p.g, g);
            return;
        }
        self.panics.push(PanicRec { g, msg, at, stack });
    }

    /// a call that sets aside memory for `n` elements of `size` bytes
    /// (true: there is no point in going on, the limit can be exceeded)
    pub fn add_reserve(&mut self, g: B, n: &Int, size: u64) -> bool {
        if self.reserve_limit == u64::MAX {
            return false;
        }
        let top = self.reserve_limit / size.max(1);
        let over = Int::usize(top).lt(n).map(|o| and(o, g));
        let stop = over.is_some_and(|o| o != F);
        let at = self.repo_at();
        let stack = self.stack_strs();
        let msg = format!("{size} bytes each");
        match self.reserves.iter_mut().find(|(p, o)| p.at == at && p.msg == msg && p.stack == stack && o.is_some() == over.is_some()) {
            Some((p, o)) => {
                p.g = or(p.g, g);
                *o = o.zip(over).map(|(a, b)| or(a, b));
            }
            None => self.reserves.push((PanicRec { g, msg, at, stack }, over)),
        }
        stop
    }

    pub fn reserve_unknown(&mut self, g: B) {
        if self.reserve_limit != u64::MAX {
            let (at, stack) = (self.repo_at(), self.stack_strs());
            self.reserves.push((PanicRec { g, msg: String::new(), at, stack }, None));
        }
    }

    // ---- memory -------------------------------------------------------
    fn root<'a>(&self, st: &'a State, b: Base) -> R<Val> {
        match b {
            Base::Local(f, l) => Ok(st.fr[f as usize][l as usize].clone()),
            Base::Static(i) => Ok(static_val(i)),
            Base::Dangling(_) => unk("read through dangling pointer"),
        }
    }
    pub fn read(&self, st: &State, l: &Loc) -> R<Val> {
        if matches!(l.meta, Meta::Len(_) | Meta::Vt(_)) {
            return unk("read of unsized place");
        }
        let mut p = l.path.clone();
        if let Some(i) = l.idx {
            p.push(El::I(i));
        }
        let v = self.root(st, l.base)?;
        match walk(&v, &p) {
            Err(e) => match vec_part(&v, l, &p) {
                Some(v) => Ok(v),
                None => Err(e),
            },
            r => r,
        }
    }
    pub fn write(&self, st: &mut State, l: &Loc, v: Val) -> R<()> {
        let Base::Local(f, loc) = l.base else { return unk("write to non-local memory") };
        let mut p = l.path.clone();
        if let Some(i) = l.idx {
            p.push(El::I(i));
        }
        if !matches!(l.meta, Meta::No | Meta::Str) {
            return unk("write of unsized place");
        }
        let fr = Rc::make_mut(&mut st.fr[f as usize]);
        put(&mut fr[loc as usize], &p, v)
    }
    pub fn one_ptr<'a>(&self, st: &State, v: &'a Val) -> R<Ptr> {
        match v {
            Val::Ptr(a) => {
                if a.len() == 1 {
                    return Ok(a[0].1.clone());
                }
                let live: Vec<&(B, Ptr)> = a.iter().filter(|x| and(x.0, st.g) != F).collect();
                if live.len() == 1 {
                    return Ok(live[0].1.clone());
                }
                Err(Stop::Fork(live.iter().map(|x| x.0).collect()))
            }
            Val::Agg(a) => {
                // newtype around a pointer (NonNull, Unique, ...)
                let mut c = a.iter().filter(|x| !matches!(x, Val::Agg(v) if v.is_empty()));
                match (c.next(), c.next()) {
                    (Some(x), None) => self.one_ptr(st, x),
                    _ => unk("pointer expected, got aggregate"),
                }
            }
            Val::Top(r) => unk(format!("pointer unknown: {r}")),
            Val::Undef => unk("pointer uninitialised"),
            o => unk(format!("pointer expected, got {}", o.show())),
        }
    }
    pub fn load(&self, st: &State, p: &Val) -> R<Val> {
        let p = self.one_ptr(st, p)?;
        self.read(st, &p.loc())
    }
    pub fn store(&self, st: &mut State, p: &Val, v: Val) -> R<()> {
        let p = self.one_ptr(st, p)?;
        self.write(st, &p.loc(), v)
    }
    pub fn conc(&self, st: &State, i: &Int) -> R<u128> {
        if let Some(v) = i.as_const() {
            return Ok(v);
        }
        let i = &if i.to_bits().is_none() { i.restrict(st.g) } else { i.clone() };
        if let Some(v) = i.as_const() {
            return Ok(v);
        }
        match i.cases(st.g, 300) {
            Some(cs) if cs.len() == 1 => Ok(cs[0].0),
            Some(cs) => Err(Stop::Fork(cs.into_iter().map(|c| c.1).collect())),
            None => unk(format!("too many values for an index or length: {}", i.show())),
        }
    }
    pub fn conc_v(&self, st: &State, v: &Val) -> R<u128> {
        match v {
            Val::Int(i) => self.conc(st, i),
            Val::Top(r) => unk(format!("index unknown: {r}")),
            v => unk(format!("integer expected, got {}", v.show())),
        }
    }
    pub fn int(&self, v: &Val) -> R<Int> {
        match only(v) {
            Val::Int(i) => Ok(i.clone()),
            Val::Top(r) => unk(r.to_string()),
            v => unk(format!("integer expected, got {}", v.show())),
        }
    }
    fn place(&self, st: &State, fi: usize, p: &Pl) -> R<Loc> {
        let mut l = Loc { base: Base::Local(fi as u32, p.l as u32), path: vec![], idx: None, meta: Meta::No };
        for e in &p.p {
            match e {
                Pj::Deref => {
                    let v = self.read(st, &l)?;
                    l = self.one_ptr(st, &v)?.loc();
                }
                Pj::Field(i) => {
                    if l.meta != Meta::No {
                        continue;
                    }
                    l.path.push(El::F(*i))
                }
                Pj::UField => {
                    if l.meta == Meta::No {
                        l.path.push(El::F(0))
                    }
                }
                Pj::Down(v) => l.path.push(El::V(*v)),
                Pj::Index(loc) => {
                    let i = self.conc_v(st, &st.fr[fi][*loc])? as i64;
                    self.index(&mut l, i)?;
                }
                Pj::Const(o, from_end) => {
                    let i = if *from_end {
                        let n = self.len(st, &l)?;
                        self.conc(st, &n)? as i64 - *o as i64
                    } else {
                        *o as i64
                    };
                    self.index(&mut l, i)?;
                }
                Pj::Sub(from, to, from_end) => {
                    let n = self.len(st, &l)?;
                    if l.meta == Meta::No {
                        // subslice of an array value: stays an array place
                        return unk("array subslice");
                    }
                    let nl = if *from_end {
                        n.arith('-', &Int::usize(from + to), st.g, false).map(|x| x.0)
                    } else {
                        Some(Int::usize(to - from))
                    };
                    let Some(nl) = nl else { return unk("subslice length") };
                    l.idx = Some(l.idx.unwrap_or(0) + *from as i64);
                    l.meta = Meta::Len(nl);
                }
            }
        }
        Ok(l)
    }
    fn index(&self, l: &mut Loc, i: i64) -> R<()> {
        match l.meta {
            Meta::No => l.path.push(El::I(i)),
            Meta::Len(_) => {
                match l.idx {
                    Some(b) => l.path.push(El::I(b + i)),
                    None => {
                        if i != 0 {
                            return unk("index into single-element view");
                        }
                    }
                }
                l.idx = None;
                l.meta = Meta::No;
            }
            _ => return unk("index into odd place"),
        }
        Ok(())
    }
    pub fn len(&self, st: &State, l: &Loc) -> R<Int> {
        match &l.meta {
            Meta::Len(n) => Ok(n.clone()),
            Meta::No => match self.read(st, l)? {
                Val::Agg(a) | Val::Vec(a) => Ok(Int::usize(a.len() as u64)),
                v => unk(format!("length of {}", v.show())),
            },
            _ => unk("length of odd place"),
        }
    }
    fn op(&self, st: &State, fi: usize, o: &Op) -> R<Val> {
        match o {
            Op::Copy(p) | Op::Move(p) => {
                if p.p.is_empty() {
                    return Ok(st.fr[fi][p.l].clone());
                }
                let l = self.place(st, fi, p)?;
                self.read(st, &l)
            }
            Op::Const(v) => Ok(v.clone()),
            Op::Bad(e) => unk(e.clone()),
        }
    }
    fn rv(&self, st: &State, fi: usize, r: &Rv) -> R<Val> {
        Ok(match r {
            Rv::Use(o) => self.op(st, fi, o)?,
            Rv::Ref(p) => Val::ptr(self.place(st, fi, p)?.ptr()),
            Rv::Agg(os) => Val::agg(os.iter().map(|o| self.op(st, fi, o)).collect::<R<Vec<_>>>()?),
            Rv::EnumAgg(v, os) => Val::variant(*v, os.iter().map(|o| self.op(st, fi, o)).collect::<R<Vec<_>>>()?),
            Rv::UnionAgg(o) => Val::agg(vec![self.op(st, fi, o)?]),
            Rv::RawPtr(a, m) => {
                let p = self.op(st, fi, a)?;
                let m = self.op(st, fi, m)?;
                let mut p = self.one_ptr(st, &p)?;
                match m {
                    Val::Int(n) => p.meta = Meta::Len(n),
                    Val::Agg(_) => p.meta = Meta::No,
                    m => return unk(format!("raw pointer metadata {}", m.show())),
                }
                Val::ptr(p)
            }
            Rv::Bin(b, x, y) => {
                let (x, y) = (self.op(st, fi, x)?, self.op(st, fi, y)?);
                self.bin(st, *b, &x, &y)?
            }
            Rv::FBin(b, x, y) => {
                let (x, y) = (self.op(st, fi, x)?, self.op(st, fi, y)?);
                self.fbin(*b, &x, &y)?
            }
            Rv::FNeg(x) => match self.op(st, fi, x)? {
                Val::Int(i) => match i.to_bits() {
                    Some(mut b) => {
                        let k = b.len() - 1;
                        b[k] = not(b[k]);
                        Val::Int(Int::bits(b, i.s))
                    }
                    None => Val::top("negated number"),
                },
                v => v,
            },
            Rv::Checked(b, x, y, asserted) => {
                let (x, y) = (self.op(st, fi, x)?, self.op(st, fi, y)?);
                self.checked(st, *b, &x, &y, *asserted)?
            }
            Rv::Un(u, x) => {
                let x = self.op(st, fi, x)?;
                match (u, &x) {
                    (_, Val::Top(_)) => x,
                    (UnOp::Not, Val::Int(i)) => i.not().map(Val::Int).unwrap_or_else(|| Val::top("not")),
                    (UnOp::Neg, Val::Int(i)) => i.neg().map(|x| Val::Int(x.0)).unwrap_or_else(|| Val::top("neg")),
                    (UnOp::PtrMetadata, p) => {
                        let p = self.one_ptr(st, p)?;
                        match p.meta {
                            Meta::Len(n) => Val::Int(n),
                            Meta::No => Val::unit(),
                            _ => Val::top("ptr metadata"),
                        }
                    }
                    _ => return unk("unary op"),
                }
            }
            Rv::Cast(k, o, f, t) => {
                let v = self.op(st, fi, o)?;
                self.cast(st, k, v, *f, *t)?
            }
            Rv::Disc(p, ty) => {
                let l = self.place(st, fi, p)?;
                let v = self.read(st, &l)?;
                disc(&v, *ty)?
            }
            Rv::Len(p) => {
                let l = self.place(st, fi, p)?;
                Val::Int(self.len(st, &l)?)
            }
            Rv::Repeat(o, n) => {
                let v = self.op(st, fi, o)?;
                if *n > 100_000 {
                    return unk("large array");
                }
                Val::agg(vec![v; *n as usize])
            }
            Rv::Bad(e) => return unk(e.clone()),
        })
    }
    fn ptr_cmp(&self, st: &State, p: &Val, q: &Val) -> R<(Ptr, Ptr)> {
        Ok((self.one_ptr(st, p)?, self.one_ptr(st, q)?))
    }
    pub fn bin(&self, st: &State, b: BinOp, x: &Val, y: &Val) -> R<Val> {
        use BinOp::*;
        let (x, y) = match (only(x), only(y)) {
            (p @ Val::Int(_), q @ Val::Int(_)) => (p, q),
            _ => (x, y),
        };
        if let (Val::Int(a), Val::Int(c)) = (x, y) {
            let lin = |i: &Int| matches!(i.r, Rep::Lin(_) | Rep::Mod(_));
            let (ra, rc);
            let (a, c) = if lin(a) || lin(c) {
                ra = if lin(a) { a.restrict(st.g) } else { a.clone() };
                rc = if lin(c) { c.restrict(st.g) } else { c.clone() };
                (&ra, &rc)
            } else {
                (a, c)
            };
            let r = match b {
                Add | AddUnchecked => a.arith('+', c, st.g, b != Add).map(|x| x.0).or_else(|| if b == Add { a.wrapping('+', c) } else { None }),
                Sub | SubUnchecked => a.arith('-', c, st.g, b != Sub).map(|x| x.0).or_else(|| if b == Sub { a.wrapping('-', c) } else { None }),
                Mul | MulUnchecked => a.arith('*', c, st.g, b != Mul).map(|x| x.0).or_else(|| if b == Mul { a.wrapping('*', c) } else { None }),
                Div => a.div_rem(c, false),
                Rem => a.div_rem(c, true),
                BitXor => a.bitop(c, '^'),
                BitAnd => a.bitop(c, '&'),
                BitOr => a.bitop(c, '|'),
                Shl | ShlUnchecked => a.shift(c, true).map(|x| x.0),
                Shr | ShrUnchecked => a.shift(c, false).map(|x| x.0),
                Eq => a.eq(c).map(Int::bool),
                Ne => a.eq(c).map(|x| Int::bool(not(x))),
                Lt => a.lt(c).map(Int::bool),
                Ge => a.lt(c).map(|x| Int::bool(not(x))),
                Gt => c.lt(a).map(Int::bool),
                Le => c.lt(a).map(|x| Int::bool(not(x))),
                Cmp => {
                    let (Some(l), Some(e)) = (a.lt(c), a.eq(c)) else { return Ok(Val::top("cmp")) };
                    return Ok(ordering(l, e));
                }
                Offset => None,
            };
            return Ok(r.map(Val::Int).unwrap_or_else(|| Val::top(format!("{b:?} on {} and {}", a.show(), c.show()))));
        }
        if matches!(x, Val::Top(_)) {
            return Ok(x.clone());
        }
        if matches!(y, Val::Top(_)) {
            return Ok(y.clone());
        }
        match b {
            Offset => {
                let n = self.int(y)?;
                return self.ptr_add(st, x, &n, 1);
            }
            Eq | Ne | Lt | Le | Gt | Ge => {
                if let (Val::Agg(a), Val::Agg(c)) = (x, y) {
                    if a.is_empty() && c.is_empty() {
                        return Ok(Val::bool(if matches!(b, Eq | Le | Ge) { T } else { F }));
                    }
                }
                let (p, q) = self.ptr_cmp(st, x, y)?;
                let r = if p.base == q.base {
                    let (mut p, mut q) = (p, q);
                    for (a, c) in [(0, 1), (1, 0)] {
                        let _ = (a, c);
                        if p.path.len() == q.path.len() + 1 && p.path.last() == Some(&El::Me) && q.idx.is_none() {
                            q = me(&q);
                        }
                        std::mem::swap(&mut p, &mut q);
                    }
                    let dang = |p: &Ptr| if let Base::Dangling(_) = p.base { Some(p.idx.unwrap_or(0)) } else { None };
                    if dang(&p).is_some() || p.path == q.path {
                        let (i, j) = (p.idx.unwrap_or(0), q.idx.unwrap_or(0));
                        Some(i.cmp(&j))
                    } else {
                        None
                    }
                } else {
                    None
                };
                let v = match (b, r) {
                    (Eq, Some(o)) => o.is_eq(),
                    (Ne, Some(o)) => o.is_ne(),
                    (Lt, Some(o)) => o.is_lt(),
                    (Le, Some(o)) => o.is_le(),
                    (Gt, Some(o)) => o.is_gt(),
                    (Ge, Some(o)) => o.is_ge(),
                    (Eq, None) => false,
                    (Ne, None) => true,
                    _ => return unk("ordering of unrelated pointers"),
                };
                Ok(Val::bool(if v { T } else { F }))
            }
            _ => unk(format!("binary op on {} and {}", x.show(), y.show())),
        }
    }
    /// floating-point comparison, on the bit patterns
    fn fbin(&self, op: BinOp, x: &Val, y: &Val) -> R<Val> {
        let (Val::Int(a), Val::Int(c)) = (x, y) else { return Ok(Val::top("floating-point operation")) };
        let (Some(a), Some(c)) = (a.to_bits(), c.to_bits()) else { return Ok(Val::top("floating-point operation")) };
        let w = a.len();
        let man = match w {
            32 => 23,
            64 => 52,
            _ => return Ok(Val::top("floating-point operation")),
        };
        if c.len() != w {
            return Ok(Val::top("floating-point operation"));
        }
        let nan = |b: &[B]| and(and_all(b[man..w - 1].iter().copied()), or_all(b[..man].iter().copied()));
        let zero = |b: &[B]| not(or_all(b[..w - 1].iter().copied()));
        let ordered = not(or(nan(&a), nan(&c)));
        let both0 = and(zero(&a), zero(&c));
        // two's complement key with the order of the numbers
        let key = |b: &[B]| {
            let s = b[w - 1];
            let mut k: Vec<B> = b[..w - 1].iter().map(|x| xor(*x, s)).collect();
            k.push(s);
            Int::bits(k, true)
        };
        let (ka, kc) = (key(&a), key(&c));
        let lt = |p: &Int, q: &Int| p.lt(q).map(|l| and(ordered, and(l, not(both0))));
        let (Some(e), Some(l), Some(g)) = (ka.eq(&kc), lt(&ka, &kc), lt(&kc, &ka)) else { return Ok(Val::top("floating-point operation")) };
        let e = and(ordered, or(e, both0));
        Ok(match op {
            BinOp::Eq => Val::bool(e),
            BinOp::Ne => Val::bool(not(e)),
            BinOp::Lt => Val::bool(l),
            BinOp::Le => Val::bool(or(l, e)),
            BinOp::Gt => Val::bool(g),
            BinOp::Ge => Val::bool(or(g, e)),
            _ => Val::top("floating-point arithmetic"),
        })
    }
    pub fn ptr_add(&self, st: &State, p: &Val, n: &Int, sign: i64) -> R<Val> {
        let mut q = self.one_ptr(st, p)?;
        let k = match n.const_i() {
            Some(k) => k as i64,
            None => {
                let v = self.conc(st, n)?;
                if n.s {
                    v as u64 as i64
                } else {
                    v as i64
                }
            }
        } * sign;
        if k == 0 {
            return Ok(Val::ptr(q));
        }
        if q.idx.is_none() {
            q = me(&q);
        }
        q.idx = Some(q.idx.unwrap() + k);
        Ok(Val::ptr(q))
    }
    pub fn checked(&self, st: &State, b: BinOp, x: &Val, y: &Val, asserted: bool) -> R<Val> {
        let (Val::Int(a), Val::Int(c)) = (x, y) else {
            let r = match (x, y) {
                (Val::Top(r), _) | (_, Val::Top(r)) => r.clone(),
                _ => return unk(format!("checked op on {} and {}", x.show(), y.show())),
            };
            return Ok(Val::agg(vec![Val::Top(r.clone()), Val::Top(r)]));
        };
        let lin = |i: &Int| matches!(i.r, Rep::Lin(_) | Rep::Mod(_));
        let ra = if lin(a) { a.restrict(st.g) } else { a.clone() };
        let rc = if lin(c) { c.restrict(st.g) } else { c.clone() };
        let (a, c) = (&ra, &rc);
        let r = match b {
            BinOp::Add => a.arith('+', c, st.g, asserted),
            BinOp::Sub => a.arith('-', c, st.g, asserted),
            BinOp::Mul => a.arith('*', c, st.g, asserted),
            BinOp::Shl => a.shift(c, true),
            BinOp::Shr => a.shift(c, false),
            _ => None,
        };
        Ok(match r {
            Some((v, o)) => Val::agg(vec![Val::Int(v), Val::bool(if b == BinOp::Shl || b == BinOp::Shr { o } else { and(o, st.g) })]),
            None => Val::agg(vec![Val::top(format!("checked {b:?}")), Val::top(format!("checked {b:?}"))]),
        })
    }
    pub fn cast(&self, st: &State, k: &CastKind, v: Val, f: Ty, t: Ty) -> R<Val> {
        if let Val::Top(_) = v {
            return Ok(v);
        }
        match k {
            CastKind::IntToInt => {
                let Some((w, s)) = int_ty(t) else { return unk("cast target") };
                let v = if let Val::Enum(_) = v { disc(&v, f)? } else { v };
                let i = self.int(&v)?;
                Ok(i.cast(w, s).map(Val::Int).unwrap_or_else(|| Val::top("widening a wrapped value")))
            }
            CastKind::PtrToPtr | CastKind::FnPtrToPtr => {
                let (pf, pt) = (pointee(f), pointee(t));
                let mut p = self.one_ptr(st, &v)?;
                if let (Some(pf), Some(pt)) = (pf, pt) {
                    let thin = !is_fat(pt);
                    if thin && p.meta != Meta::No {
                        let was = std::mem::replace(&mut p.meta, Meta::No);
                        if let (Meta::Len(_), TyKind::RigidTy(RigidTy::Slice(e))) = (&was, pf.kind()) {
                            p = recast(p, e, pt);
                        }
                    } else if thin {
                        p = recast(p, pf, pt);
                    }
                }
                Ok(Val::ptr(p))
            }
            CastKind::PointerCoercion(c) => match c {
                PointerCoercion::Unsize => {
                    let (Some(pf), Some(pt)) = (smart(f), smart(t)) else { return unk("unsize of smart pointer") };
                    let mut p = self.one_ptr(st, &v)?;
                    if let (TyKind::RigidTy(RigidTy::Array(_, n)), TyKind::RigidTy(RigidTy::Slice(_))) = (pf.kind(), pt.kind()) {
                        if let Some(i) = p.idx {
                            let mut pp = p.path.to_vec();
                            pp.push(El::I(i));
                            p.path = pp.into();
                        }
                        p.idx = Some(0);
                        p.meta = Meta::Len(Int::usize(n.eval_target_usize().unwrap_or(0)));
                        return Ok(reptr(&v, p));
                    }
                    if !matches!(pt.kind(), TyKind::RigidTy(RigidTy::Dynamic(..))) {
                        return unk("unsize of a wrapper");
                    }
                    if !matches!(pf.kind(), TyKind::RigidTy(RigidTy::Dynamic(..))) {
                        p.meta = Meta::Vt(pf);
                    }
                    Ok(reptr(&v, p))
                }
                PointerCoercion::ReifyFnPointer(_) => match f.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(d, a)) => Ok(Val::Fn(Instance::resolve_for_fn_ptr(d, &a).map_err(|_| Stop::Unk("fn ptr".into()))?)),
                    _ => unk("reify"),
                },
                PointerCoercion::ClosureFnPointer(_) => match f.kind() {
                    TyKind::RigidTy(RigidTy::Closure(d, a)) => Ok(Val::Fn(Instance::resolve_closure(d, &a, ClosureKind::Fn).map_err(|_| Stop::Unk("closure ptr".into()))?)),
                    _ => unk("closure fn ptr"),
                },
                PointerCoercion::ArrayToPointer => {
                    let p = self.one_ptr(st, &v)?;
                    let (Some(pf), Some(pt)) = (pointee(f), pointee(t)) else { return unk("array ptr") };
                    Ok(Val::ptr(recast(p, pf, pt)))
                }
                _ => Ok(v),
            },
            CastKind::Transmute if int_ty(t).is_some() && matches!(typed_int(&v, f), Some(i) if Some(i.w) == int_ty(t).map(|x| x.0)) => {
                let (_, s) = int_ty(t).unwrap();
                let i = typed_int(&v, f).unwrap();
                Ok(Val::Int(Int { s, ..i }.resign()))
            }
            CastKind::Transmute if ptr_like(f).is_some() && ptr_like(t).is_some() && ptr_like(f) != ptr_like(t) && transmute(&v, t).is_some() => {
                let p = self.one_ptr(st, &v)?;
                let p = if p.meta == Meta::No { recast(p, ptr_like(f).unwrap(), ptr_like(t).unwrap()) } else { p };
                Ok(reptr(&transmute(&v, t).unwrap(), p))
            }
            CastKind::Transmute | CastKind::Subtype | CastKind::BoxDerefTransmute => transmute(&v, t).ok_or_else(|| Stop::Unk(format!("transmute {} to {:?}", v.show(), t.kind()))),
            CastKind::PointerExposeAddress => {
                let p = self.one_ptr(st, &v)?;
                let es = pointee(f).and_then(|t| t.layout().ok()).map(|l| l.shape().size.bytes() as i64).unwrap_or(1).max(1);
                Ok(Val::usize(address(&p, es)))
            }
            CastKind::PointerWithExposedProvenance => {
                let i = self.int(&v)?;
                match i.as_const() {
                    Some(a) => Ok(Val::ptr(Ptr { base: Base::Dangling(a as u64), path: Rc::new([]), idx: Some(0), meta: Meta::No })),
                    None => Ok(Val::top("int to pointer")),
                }
            }
            _ => Ok(Val::top(format!("cast {k:?}"))),
        }
    }

    // ---- control --------------------------------------------------------
    /// run `f` with the arguments; each result is a joined final state
    pub fn call(&mut self, c: &Rc<Call>, args: Vec<Val>, st: State) -> Vec<(State, Val)> {
        let mut out = vec![];
        let mut todo = vec![st];
        while let Some(mut st) = todo.pop() {
            match self.call1(c, &args, &mut st) {
                Ok(mut v) => out.append(&mut v),
                Err(Stop::Fork(gs)) => {
                    for g in gs {
                        let ng = and(g, st.g);
                        if ng == st.g {
                            self.add_unk(st.g, format!("no progress in a case split [in {}]", c.name));
                            break;
                        }
                        if ng != F {
                            todo.push(State { g: ng, fr: st.fr.clone() });
                        }
                    }
                }
                Err(Stop::Unk(w)) => self.add_unk(st.g, format!("{w} [in {}]", c.name)),
                Err(Stop::Panic(m)) => self.add_panic(st.g, m),
            }
        }
        out
    }
    fn call1(&mut self, c: &Rc<Call>, args: &[Val], st: &mut State) -> R<Vec<(State, Val)>> {
        if !self.hooks.is_empty() {
            if let Some(h) = tail2(&c.name).and_then(|k| self.hooks.get(k)).cloned() {
                self.hooked.insert(c.name.clone());
                return h(self, st, args, c);
            }
        }
        if args.len() == 1 && c.name.ends_with("::clone") {
            if let Ok(v @ Val::Opq(_)) = self.load(st, &args[0]) {
                return Ok(vec![(st.clone(), v)]);
            }
        }
        if let Some((v, n)) = c.ctor {
            let f: Vec<Val> = args[..n].to_vec();
            let v = match v {
                Some(i) => Val::variant(i, f),
                None => Val::agg(f),
            };
            return Ok(vec![(st.clone(), v)]);
        }
        if let Some(r) = crate::models::model(self, c, args, st) {
            return r;
        }
        if let Some(i) = crate::models::redirect(self, c) {
            self.modelled.insert(c.name.clone());
            return Ok(self.call(&i, args.to_vec(), st.clone()));
        }
        if !c.has_body {
            // the call operators of function items and function pointers
            if let (true, Some(t)) = (c.name.starts_with("std::ops::Fn"), crate::models::type_args(&c.args).first()) {
                let target = match t.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(d, a)) => Instance::resolve(d, &a).ok(),
                    TyKind::RigidTy(RigidTy::FnPtr(_)) => {
                        let v = if c.name.ends_with("call_once") { args[0].clone() } else { self.load(st, &args[0])? };
                        match v {
                            Val::Fn(i) => Some(i),
                            v => return unk(format!("call of {}", v.show())),
                        }
                    }
                    _ => None,
                };
                if let Some(i) = target {
                    let a = match &args[1] {
                        Val::Agg(a) => a.to_vec(),
                        v => return unk(format!("call arguments {}", v.show())),
                    };
                    return self.call_val(&Val::Fn(i), a, st.clone());
                }
            }
            if let InstanceKind::Virtual { .. } = c.inst.kind {
                let p = self.one_ptr(st, &args[0])?;
                let Meta::Vt(t) = p.meta else { return unk("call through a trait object of unknown type") };
                let TyKind::RigidTy(RigidTy::FnDef(d, a)) = c.inst.ty().kind() else { return unk("virtual call") };
                let mut a = a;
                a.0[0] = GenericArgKind::Type(t);
                let Ok(i) = Instance::resolve(d, &a) else { return unk("virtual call") };
                let mut args = args.to_vec();
                args[0] = Val::ptr(Ptr { meta: Meta::No, ..p });
                return Ok(self.call(&call_info(i), args, st.clone()));
            }
            if c.name == "std::clone::Clone::clone" && args.len() == 1 {
                let v = self.load(st, &args[0])?;
                return Ok(vec![(st.clone(), v)]);
            }
            return unk(format!("no body for {}", c.inst.name()));
        }
        let f = match self.fun(c.inst) {
            Ok(f) => f,
            Err(e) => return unk(e),
        };
        Ok(self.run(&f, args.to_vec(), st.clone()))
    }
    pub fn call_val(&mut self, callee: &Val, args: Vec<Val>, st: State) -> R<Vec<(State, Val)>> {
        match callee {
            Val::Fn(i) => {
                let c = call_info(*i);
                if c.closure {
                    // a closure without captures, turned into a function pointer
                    let me = Val::ptr(Ptr { base: Base::Dangling(1), path: Rc::new([]), idx: Some(0), meta: Meta::No });
                    return Ok(self.call(&c, vec![me, Val::agg(args)], st));
                }
                Ok(self.call(&c, args, st))
            }
            v => unk(format!("call of {}", v.show())),
        }
    }

    pub fn run(&mut self, f: &Rc<Fun>, mut args: Vec<Val>, mut st: State) -> Vec<(State, Val)> {
        self.calls += 1;
        if self.stack.len() > 400 {
            self.add_unk(st.g, "call depth".into());
            return vec![];
        }
        if f.closure && !f.spread && !args.is_empty() {
            // rust-call: the last argument is the tuple of arguments
            let last = args.pop().unwrap();
            match last {
                Val::Agg(a) => args.extend(a.iter().cloned()),
                v => args.push(v),
            }
        }
        if args.len() != f.nargs {
            if f.spread && args.len() + 1 == f.nargs {
                args.push(Val::unit());
            } else {
                self.add_unk(st.g, format!("argument count {} vs {} for {}", args.len(), f.nargs, f.name));
                return vec![];
            }
        }
        let fi = st.fr.len();
        let mut loc = Vec::with_capacity(f.nloc);
        loc.push(Val::Undef);
        loc.append(&mut args);
        loc.resize(f.nloc, Val::Undef);
        st.fr.push(Rc::new(loc));
        self.stack.push((f.clone(), f.span));
        self.deepest = self.deepest.max(self.stack.len());
        let act = self.active.entry(f.id).or_insert(0);
        *act += 1;
        let act = *act;
        let top = self.nest.entry(f.id).or_insert(0);
        *top = (*top).max(act);
        let mut visits: HashMap<usize, u32> = HashMap::new();
        let mut work: BTreeMap<usize, (usize, Vec<State>)> = BTreeMap::new();
        work.insert(f.rpo[0], (0, vec![st]));
        let mut done: Vec<(State, Val)> = vec![];
        while let Some((_, (b, states))) = work.pop_first() {
            let v = visits.entry(b).or_insert(0);
            *v += 1;
            if *v > self.max_rounds {
                let g = or_all(states.iter().map(|s| s.g));
                let sp = f.blocks[b].spans.first().copied().unwrap_or(f.blocks[b].span);
                self.stack.last_mut().unwrap().1 = sp;
                let (at, stack) = (self.repo_at(), self.stack_strs());
                self.spins.push(PanicRec { g, msg: format!("loop in {} does not end", f.name), at, stack });
                self.add_unk(g, format!("loop in {} abandoned after {} rounds", f.name, self.max_rounds));
                break;
            }
            for s in states {
                let mut outs = vec![];
                self.block(f, fi, b, s, &mut outs, &mut done);
                for (t, mut s) in outs {
                    if s.g == F {
                        continue;
                    }
                    // forget dead locals
                    {
                        let live = &f.live[t];
                        let fr = &s.fr[fi];
                        let need = fr.iter().enumerate().any(|(l, v)| l != 0 && live[l / 64] >> (l % 64) & 1 == 0 && !matches!(v, Val::Undef));
                        if need {
                            let fr = Rc::make_mut(&mut s.fr[fi]);
                            for (l, v) in fr.iter_mut().enumerate() {
                                if l != 0 && live[l / 64] >> (l % 64) & 1 == 0 {
                                    *v = Val::Undef;
                                }
                            }
                        }
                    }
                    let e = work.entry(f.rpo[t]).or_insert_with(|| (t, vec![]));
                    self.join(&mut e.1, s);
                    if e.1.len() > self.max_states {
                        let g = or_all(e.1.iter().map(|x| x.g));
                        self.add_unk(g, format!("more than {} unmergeable states in {}", self.max_states, f.name));
                        e.1.clear();
                    }
                }
                if self.steps > self.max_steps || std::time::Instant::now() > self.deadline {
                    break;
                }
            }
            if self.steps > self.max_steps || std::time::Instant::now() > self.deadline {
                let g = or_all(work.values().flat_map(|x| x.1.iter().map(|s| s.g)));
                self.add_unk(g, "step budget exhausted".into());
                break;
            }
        }
        for (b, n) in visits {
            if n > 1 {
                let e = self.rounds.entry((f.id, b)).or_insert(0);
                *e = (*e).max(n);
            }
        }
        *self.active.get_mut(&f.id).unwrap() -= 1;
        self.stack.pop();
        done
    }
    fn join(&mut self, list: &mut Vec<State>, s: State) {
        let mut s = s;
        let mut i = list.len();
        while i > 0 {
            i -= 1;
            if let Some(m) = join2(&list[i], &s) {
                self.merges += 1;
                list.swap_remove(i);
                s = m;
                i = list.len();
            }
        }
        list.push(s);
    }
    pub fn join_ret(&mut self, list: &mut Vec<(State, Val)>, s: State, v: Val) {
        let mut cur = (s, v);
        let mut i = list.len();
        while i > 0 {
            i -= 1;
            let (a, av) = &list[i];
            let tot = or(a.g, cur.0.g);
            let g = restrict(a.g, tot);
            if let Some(mv) = merge(g, a.g, cur.0.g, av, &cur.1) {
                if let Some(ms) = join2(a, &cur.0) {
                    self.merges += 1;
                    list.swap_remove(i);
                    cur = (ms, mv);
                    i = list.len();
                }
            }
        }
        list.push(cur);
    }

    fn block(&mut self, f: &Rc<Fun>, fi: usize, b: usize, s: State, outs: &mut Vec<(usize, State)>, done: &mut Vec<(State, Val)>) {
        if f.repo {
            let e = self.reach.entry((f.id, b)).or_insert(F);
            *e = or(*e, s.g);
        }
        let blk = &f.blocks[b];
        let mut todo: Vec<(State, usize)> = vec![(s, 0)];
        while let Some((mut st, mut i)) = todo.pop() {
            self.steps += 1;
            let r = loop {
                if i < blk.st.len() {
                    self.steps += 1;
                    match self.stmt(&mut st, fi, &blk.st[i]) {
                        Ok(()) => i += 1,
                        Err(e) => {
                            self.stack.last_mut().unwrap().1 = blk.spans[i];
                            break Err(e);
                        }
                    }
                } else {
                    self.stack.last_mut().unwrap().1 = blk.span;
                    break self.term(f, fi, &blk.tm, &st, outs, done);
                }
            };
            match r {
                Ok(()) => (),
                Err(Stop::Fork(gs)) => {
                    for g in gs {
                        let ng = and(g, st.g);
                        if ng == st.g {
                            self.add_unk(st.g, format!("no progress in a case split [{}]", span_str(self.stack.last().unwrap().1)));
                            break;
                        }
                        if ng != F {
                            todo.push((State { g: ng, fr: st.fr.clone() }, i));
                        }
                    }
                }
                Err(Stop::Unk(w)) => self.add_unk(st.g, format!("{w} [{}]", span_str(self.stack.last().unwrap().1))),
                Err(Stop::Panic(m)) => self.add_panic(st.g, m),
            }
        }
    }
    fn stmt(&mut self, st: &mut State, fi: usize, s: &St) -> R<()> {
        match s {
            St::Assign(p, r) => {
                let v = self.rv(st, fi, r)?;
                if p.p.is_empty() {
                    Rc::make_mut(&mut st.fr[fi])[p.l] = v;
                    return Ok(());
                }
                let l = self.place(st, fi, p)?;
                self.write(st, &l, v)
            }
            St::SetDisc(p, v) => {
                let l = self.place(st, fi, p)?;
                let old = self.read(st, &l)?;
                let nv = match old {
                    Val::Enum(a) => match a.iter().find(|x| x.v == *v) {
                        Some(x) => Val::Enum(Rc::new(vec![Arm { v: *v, g: T, f: x.f.clone() }])),
                        None => Val::variant(*v, vec![]),
                    },
                    _ => Val::variant(*v, vec![]),
                };
                self.write(st, &l, nv)
            }
            St::Dead(l) => {
                if !matches!(st.fr[fi][*l], Val::Undef) {
                    Rc::make_mut(&mut st.fr[fi])[*l] = Val::Undef;
                }
                Ok(())
            }
            St::CopyNon(s, d, n) => {
                let (s, d, n) = (self.op(st, fi, s)?, self.op(st, fi, d)?, self.op(st, fi, n)?);
                self.copy(st, &s, &d, &n)
            }
            St::Nop => Ok(()),
        }
    }
    pub fn copy(&self, st: &mut State, s: &Val, d: &Val, n: &Val) -> R<()> {
        let k = self.conc_v(st, n)? as i64;
        let mut vals = vec![];
        for i in 0..k {
            let p = self.ptr_add(st, s, &Int::ci(i as i128, 64, true), 1)?;
            vals.push(self.load(st, &p)?);
        }
        for (i, v) in vals.into_iter().enumerate() {
            let p = self.ptr_add(st, d, &Int::ci(i as i128, 64, true), 1)?;
            self.store(st, &p, v)?;
        }
        Ok(())
    }
    fn term(&mut self, f: &Rc<Fun>, fi: usize, t: &Tm, st: &State, outs: &mut Vec<(usize, State)>, done: &mut Vec<(State, Val)>) -> R<()> {
        match t {
            Tm::Goto(t) => outs.push((*t, st.clone())),
            Tm::Switch(o, br, other) => {
                let v = self.op(st, fi, o)?;
                let i = self.int(&v)?;
                if let Some(c) = i.as_const() {
                    let t = br.iter().find(|x| x.0 & mask(i.w) == c).map(|x| x.1).unwrap_or(*other);
                    outs.push((t, st.clone()));
                    return Ok(());
                }
                let mut rest = st.g;
                for (k, t) in br {
                    let Some(e) = i.eq(&Int::c(*k, i.w, i.s)) else { return unk("switch") };
                    let g = and(rest, e);
                    if g != F {
                        outs.push((*t, State { g, fr: st.fr.clone() }));
                        rest = and(rest, not(e));
                    }
                }
                if rest != F {
                    outs.push((*other, State { g: rest, fr: st.fr.clone() }));
                }
            }
            Tm::Return => {
                let v = st.fr[fi][0].clone();
                let mut s = st.clone();
                s.fr.truncate(fi);
                let v = if matches!(v, Val::Undef) { Val::unit() } else { v };
                self.join_ret(done, s, v);
                if done.len() > self.max_states {
                    let g = or_all(done.iter().map(|x| x.0.g));
                    self.add_unk(g, format!("more than {} result states in {}", self.max_states, f.name));
                    done.clear();
                }
            }
            Tm::Unreachable => {
                // only reachable if a Top slipped through a match; treat as unknown
                return unk("reached an unreachable terminator");
            }
            Tm::Assert { c, exp, msg, t } => {
                let v = self.op(st, fi, c)?;
                let i = self.int(&v)?;
                let Some(mut ok) = i.as_bool() else { return unk("assert condition") };
                if !*exp {
                    ok = not(ok);
                }
                let bad = and(st.g, not(ok));
                if bad != F {
                    self.add_panic(bad, msg.clone());
                }
                let g = and(st.g, ok);
                if g != F {
                    outs.push((*t, State { g, fr: st.fr.clone() }));
                }
            }
            Tm::Bad(e) => return unk(e.clone()),
            Tm::Call { f: callee, a, d, t } => {
                let args = a.iter().map(|o| self.op(st, fi, o)).collect::<R<Vec<_>>>()?;
                let Some(t) = t else {
                    let name = match callee {
                        Callee::Inst(c) => c.name.clone(),
                        _ => "?".into(),
                    };
                    if name.contains("panic_already_") {
                        // destructors are not followed, so `RefCell` borrow flags are not exact
                        return unk("RefCell borrow flag");
                    }
                    return Err(Stop::Panic(panic_msg(&name, &args)));
                };
                let res = match callee {
                    Callee::Inst(c) => {
                        if self.trace {
                            eprintln!("{}{} g={}", " ".repeat(self.stack.len()), c.name, st.g);
                        }
                        self.call(c, args, st.clone())
                    }
                    Callee::Dyn(o) => {
                        let cv = self.op(st, fi, o)?;
                        self.call_val(&cv, args, st.clone())?
                    }
                };
                for (mut s, v) in res {
                    if d.p.is_empty() {
                        Rc::make_mut(&mut s.fr[fi])[d.l] = v;
                    } else {
                        let l = match self.place(&s, fi, d) {
                            Ok(l) => l,
                            Err(Stop::Unk(w)) => {
                                self.add_unk(s.g, w);
                                continue;
                            }
                            Err(_) => {
                                self.add_unk(s.g, "symbolic call destination".into());
                                continue;
                            }
                        };
                        if let Err(Stop::Unk(w)) = self.write(&mut s, &l, v) {
                            self.add_unk(s.g, w);
                            continue;
                        }
                    }
                    outs.push((*t, s));
                }
            }
        }
        Ok(())
    }
}

fn panic_msg(name: &str, args: &[Val]) -> String {
    for a in args {
        if let Val::Ptr(p) = a {
            if let (Base::Static(i), Meta::Len(_)) = (p[0].1.base, &p[0].1.meta) {
                if let Some(b) = static_bytes(i) {
                    return String::from_utf8_lossy(&b).to_string();
                }
            }
        }
    }
    name.to_string()
}

fn join2(a: &State, b: &State) -> Option<State> {
    if a.fr.len() != b.fr.len() {
        return None;
    }
    let tot = or(a.g, b.g);
    let g = restrict(a.g, tot);
    let mut fr = Vec::with_capacity(a.fr.len());
    for (x, y) in a.fr.iter().zip(&b.fr).rev() {
        if Rc::ptr_eq(x, y) {
            fr.push(x.clone());
            continue;
        }
        // frame 0 also holds heap cells; a side without a cell never reads it
        let n = x.len().max(y.len());
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            match (x.get(i), y.get(i)) {
                (Some(p), Some(q)) => v.push(merge(g, a.g, b.g, p, q)?),
                (Some(p), None) | (None, Some(p)) => v.push(p.clone()),
                _ => unreachable!(),
            }
        }
        fr.push(Rc::new(v));
    }
    fr.reverse();
    Some(State { g: tot, fr })
}

thread_local! {
    static REGIONS: std::cell::RefCell<HashMap<(Base, Vec<El>), u64>> = std::cell::RefCell::new(HashMap::new());
}
/// a made-up, well-aligned, non-null address: distances within one object are
/// right, different objects are far apart
pub fn address(p: &Ptr, es: i64) -> u64 {
    if let Base::Dangling(a) = p.base {
        return a.wrapping_add((p.idx.unwrap_or(0) * es) as u64);
    }
    REGIONS.with(|r| {
        let mut r = r.borrow_mut();
        let n = r.len() as u64 + 1;
        let mut path = p.path.to_vec();
        if path.last() == Some(&El::Me) {
            path.pop();
        }
        let k = *r.entry((p.base, path)).or_insert(n);
        (k << 32).wrapping_add((p.idx.unwrap_or(0) * es) as u64)
    })
}

fn me(p: &Ptr) -> Ptr {
    let mut path = p.path.to_vec();
    path.push(El::Me);
    Ptr { path: path.into(), idx: Some(0), ..p.clone() }
}

/// the same address, seen as a pointer to another type
fn recast(p: Ptr, pf: Ty, pt: Ty) -> Ptr {
    if pf == pt {
        return p;
    }
    let size = |t: Ty| t.layout().ok().map(|l| l.shape().size.bytes());
    let like = |a: Ty, b: Ty| a == b || size(a) == size(b) && int_ty(a).is_some() == int_ty(b).is_some();
    // an element to the array it starts
    if let TyKind::RigidTy(RigidTy::Array(e, n)) = pt.kind() {
        if like(e, pf) && !matches!(pf.kind(), TyKind::RigidTy(RigidTy::Array(..))) {
            if let (Some(k), Ok(n)) = (p.idx, n.eval_target_usize()) {
                if !matches!(p.base, Base::Dangling(_)) {
                    let mut path = p.path.to_vec();
                    path.push(El::S(k, n as u32));
                    return Ptr { path: path.into(), idx: None, ..p };
                }
            }
        }
    }
    // step into transparent wrappers and the first element
    let mut t = pf;
    let mut q = p.clone();
    let into = |q: &mut Ptr, e: Option<El>| {
        let mut path = q.path.to_vec();
        if let Some(i) = q.idx.take() {
            path.push(El::I(i));
        }
        path.extend(e);
        q.path = path.into();
    };
    while t != pt {
        match t.kind() {
            TyKind::RigidTy(RigidTy::Array(e, _)) if like(e, pt) => {
                // a view of a run of elements decays to that run
                if let (Some(El::S(k, _)), None) = (q.path.last().copied(), q.idx) {
                    q.path = q.path[..q.path.len() - 1].into();
                    q.idx = Some(k);
                    return q;
                }
                into(&mut q, None);
                q.idx = Some(0);
                return q;
            }
            TyKind::RigidTy(RigidTy::Adt(d, a)) if d.kind() != AdtKind::Enum && !adt_name(&d).contains("vec::") && !adt_name(&d).contains("String") => {
                let n = size(t);
                let fs = d.variants()[0].fields();
                let Some((i, f)) = fs.iter().enumerate().find(|(_, f)| n.is_some() && n != Some(0) && size(f.ty_with_args(&a)) == n) else { return p };
                into(&mut q, Some(El::F(if d.kind() == AdtKind::Union { 0 } else { i as u32 })));
                t = f.ty_with_args(&a);
            }
            _ => return p,
        }
    }
    q
}

pub fn ordering(lt: B, eq: B) -> Val {
    let gt = not(or(lt, eq));
    let mut arms = vec![];
    for (v, g) in [(0usize, lt), (1, eq), (2, gt)] {
        if g != F {
            arms.push(Arm { v, g, f: Rc::new(vec![]) });
        }
    }
    Val::Enum(Rc::new(arms))
}

pub fn disc(v: &Val, ty: Ty) -> R<Val> {
    let TyKind::RigidTy(RigidTy::Adt(d, _)) = ty.kind() else { return unk("discriminant of non-enum") };
    let dt = ty.kind().discriminant_ty().and_then(int_ty).unwrap_or((64, true));
    match v {
        Val::Enum(arms) => {
            let vs = d.variants();
            let cs: Vec<(u128, B)> = arms.iter().map(|a| (d.discriminant_for_variant(vs[a.v].idx()).val, a.g)).collect();
            if cs.len() == 1 {
                return Ok(Val::Int(Int::c(cs[0].0, dt.0, dt.1)));
            }
            Ok(Val::Int(Int::from_cases(&cs, dt.0, dt.1)))
        }
        Val::Top(_) => Ok(v.clone()),
        Val::Undef => {
            // a zero-sized enum with one inhabited variant carries no data
            if let Ok(l) = ty.layout() {
                if let rustc_public::abi::VariantsShape::Single { index } = l.shape().variants {
                    return Ok(Val::Int(Int::c(d.discriminant_for_variant(index).val, dt.0, dt.1)));
                }
            }
            unk("discriminant of an uninitialised value")
        }
        v => unk(format!("discriminant of {}", v.show())),
    }
}

/// what a pointer, `Box` or `Rc` points at
fn smart(ty: Ty) -> Option<Ty> {
    pointee(ty).or_else(|| match ty.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, a)) if adt_name(&d).ends_with("boxed::Box") => match a.0.first() {
            Some(GenericArgKind::Type(t)) => Some(*t),
            _ => None,
        },
        _ => None,
    })
}
fn ptr_like(ty: Ty) -> Option<Ty> {
    pointee(ty).or_else(|| match ty.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, a)) if adt_name(&d).ends_with("::NonNull") || adt_name(&d).ends_with("::Unique") => match a.0.first() {
            Some(GenericArgKind::Type(t)) => Some(*t),
            _ => None,
        },
        _ => None,
    })
}
/// the same wrapper around another pointer
fn reptr(v: &Val, p: Ptr) -> Val {
    match v {
        Val::Agg(a) => Val::agg(
            a.iter()
                .map(|x| match x {
                    Val::Agg(v) if v.is_empty() => x.clone(),
                    x => reptr(x, p.clone()),
                })
                .collect(),
        ),
        _ => Val::ptr(p),
    }
}

pub fn pointee(ty: Ty) -> Option<Ty> {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::RawPtr(t, _)) => Some(t),
        TyKind::RigidTy(RigidTy::Pat(t, _)) => pointee(t),
        _ => None,
    }
}
pub fn is_fat(ty: Ty) -> bool {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Str | RigidTy::Slice(_) | RigidTy::Dynamic(..)) => true,
        TyKind::RigidTy(RigidTy::Adt(d, a)) if d.kind() == AdtKind::Struct => d.variants()[0].fields().last().map(|f| is_fat(f.ty_with_args(&a))).unwrap_or(false),
        _ => false,
    }
}

/// the number inside transparent wrappers
fn only(v: &Val) -> &Val {
    let mut x = v;
    while let Val::Agg(a) = x {
        let mut c = a.iter().filter(|x| !matches!(x, Val::Agg(v) if v.is_empty()));
        match (c.next(), c.next()) {
            (Some(y), None) => x = y,
            _ => return v,
        }
    }
    x
}

fn walk(v: &Val, p: &[El]) -> R<Val> {
    let mut cur = v;
    let mut i = 0;
    while i < p.len() {
        match (p[i], cur) {
            (El::Me, _) => {
                if p.get(i + 1) == Some(&El::I(0)) {
                    i += 2;
                    continue;
                }
                return unk("element past a single object");
            }
            (El::F(k), Val::Agg(a)) => match a.get(k as usize) {
                Some(x) => cur = x,
                None => return Ok(Val::Undef),
            },
            (El::I(k), Val::Agg(a)) | (El::I(k), Val::Vec(a)) => match a.get(k as usize) {
                Some(x) if k >= 0 => cur = x,
                _ => return unk(format!("element {k} of {}", a.len())),
            },
            (El::S(k, n), Val::Agg(a)) | (El::S(k, n), Val::Vec(a)) => {
                let (k, n) = (k as usize, n as usize);
                if k + n > a.len() {
                    return unk("array view past the end");
                }
                return walk(&Val::agg(a[k..k + n].to_vec()), &p[i + 1..]);
            }
            // a transparent wrapper around a scalar
            (El::F(0), Val::Int(_) | Val::Ptr(_)) => {}
            (El::V(k), Val::Enum(arms)) => {
                let Some(a) = arms.iter().find(|a| a.v == k as usize) else { return unk("absent variant") };
                match p.get(i + 1) {
                    Some(El::F(f)) => {
                        match a.f.get(*f as usize) {
                            Some(x) => cur = x,
                            None => return Ok(Val::Undef),
                        }
                        i += 1;
                    }
                    None => return Ok(cur.clone()),
                    _ => return unk("odd downcast"),
                }
            }
            (_, Val::Undef) => return Ok(Val::Undef),
            (_, Val::Top(_)) => return Ok(cur.clone()),
            (e, x) => return unk(format!("projection {e:?} of {}", x.show())),
        }
        i += 1;
    }
    Ok(cur.clone())
}

/// the raw parts of a vector: `buf` (a pointer to the elements) and `len`
fn vec_part(root: &Val, l: &Loc, p: &[El]) -> Option<Val> {
    for i in 0..p.len() {
        let El::F(_) = p[i] else { continue };
        let Ok(Val::Vec(a)) = walk(root, &p[..i]) else { continue };
        let rest = &p[i..];
        return match rest {
            [El::F(1)] => Some(Val::usize(a.len() as u64)),
            [El::F(0), El::F(0), El::F(0), ..] => Some(Val::ptr(Ptr { base: l.base, path: p[..i].into(), idx: Some(0), meta: Meta::No })),
            [El::F(0), El::F(0), El::F(1), ..] => Some(Val::usize(1 << 20)),
            _ => None,
        };
    }
    None
}

fn put(v: &mut Val, p: &[El], n: Val) -> R<()> {
    let Some(e) = p.first() else {
        *v = n;
        return Ok(());
    };
    match e {
        El::Me => {
            if p.get(1) == Some(&El::I(0)) {
                put(v, &p[2..], n)
            } else {
                unk("write past a single object")
            }
        }
        El::F(k) => {
            if let Val::Undef = v {
                *v = Val::agg(vec![]);
            }
            match v {
                Val::Agg(a) => {
                    let a = Rc::make_mut(a);
                    while a.len() <= *k as usize {
                        a.push(Val::Undef);
                    }
                    put(&mut a[*k as usize], &p[1..], n)
                }
                Val::Vec(a) if *k == 1 && p.len() == 1 => {
                    // set_len
                    let Some(k) = n.int().and_then(|i| i.as_const()) else { return unk("vector length") };
                    if k > 100_000 {
                        return unk("vector length");
                    }
                    Rc::make_mut(a).resize(k as usize, Val::Undef);
                    Ok(())
                }
                Val::Top(r) => unk(r.to_string()),
                v => unk(format!("write field of {}", v.show())),
            }
        }
        El::I(k) => {
            if let Val::Undef = v {
                *v = Val::agg(vec![]);
            }
            match v {
                Val::Agg(a) => {
                    let a = Rc::make_mut(a);
                    if *k < 0 || *k > 100_000 {
                        return unk("index");
                    }
                    while a.len() <= *k as usize {
                        a.push(Val::Undef);
                    }
                    put(&mut a[*k as usize], &p[1..], n)
                }
                Val::Vec(a) => {
                    let a = Rc::make_mut(a);
                    if *k < 0 || *k as usize > a.len() {
                        return unk("write beyond vec");
                    }
                    if *k as usize == a.len() {
                        a.push(Val::Undef);
                    }
                    put(&mut a[*k as usize], &p[1..], n)
                }
                v => unk(format!("write element of {}", v.show())),
            }
        }
        El::S(k, c) => {
            let (k, c) = (*k, *c as i64);
            match p.get(1) {
                None => {
                    let Val::Agg(a) = &n else { return unk("write of an array view") };
                    if a.len() as i64 != c {
                        return unk("write of an array view");
                    }
                    for (j, x) in a.iter().enumerate() {
                        put(v, &[El::I(k + j as i64)], x.clone())?;
                    }
                    Ok(())
                }
                Some(El::I(j)) if *j >= 0 && *j < c => {
                    let mut q = vec![El::I(k + j)];
                    q.extend_from_slice(&p[2..]);
                    put(v, &q, n)
                }
                _ => unk("write into an array view"),
            }
        }
        El::V(k) => {
            if let Val::Undef = v {
                *v = Val::variant(*k as usize, vec![]);
            }
            let Val::Enum(arms) = v else { return unk("write variant field of non-enum") };
            let arms = Rc::make_mut(arms);
            let Some(a) = arms.iter_mut().find(|a| a.v == *k as usize) else { return unk("write to absent variant") };
            let Some(El::F(f)) = p.get(1) else { return unk("odd downcast write") };
            let fs = Rc::make_mut(&mut a.f);
            while fs.len() <= *f as usize {
                fs.push(Val::Undef);
            }
            put(&mut fs[*f as usize], &p[2..], n)
        }
    }
}

// ---- transmute ------------------------------------------------------------
fn flat(v: &Val, out: &mut Vec<Val>) {
    match v {
        Val::Agg(a) => a.iter().for_each(|x| flat(x, out)),
        x => out.push(x.clone()),
    }
}
struct Leaves {
    v: std::collections::VecDeque<Val>,
}
impl Leaves {
    fn int(&mut self, w: u16, s: bool) -> Option<Val> {
        let mut bits: Vec<B> = vec![];
        let want = if w == 1 { 8 } else { w };
        while (bits.len() as u16) < want {
            match self.v.pop_front()? {
                Val::Int(i) => {
                    if bits.is_empty() && i.w == w {
                        return Some(Val::Int(Int { w, s, r: i.r }.resign()));
                    }
                    let mut b = i.to_bits()?;
                    if i.w == 1 {
                        b.resize(8, F);
                    }
                    bits.append(&mut b);
                }
                Val::Undef => return Some(Val::Undef),
                Val::Top(r) => return Some(Val::Top(r)),
                _ => return None,
            }
        }
        if bits.len() as u16 > want {
            let rest = bits.split_off(want as usize);
            self.v.push_front(Val::Int(Int::bits(rest, false)));
        }
        bits.truncate(w as usize);
        Some(Val::Int(Int::bits(bits, s)))
    }
    fn build(&mut self, ty: Ty) -> Option<Val> {
        if let Some((w, s)) = int_ty(ty) {
            if let Some(Val::Ptr(_)) = self.v.front() {
                return None;
            }
            return self.int(w, s);
        }
        match ty.kind() {
            TyKind::RigidTy(RigidTy::Pat(t, _)) => self.build(t),
            TyKind::RigidTy(RigidTy::Ref(..) | RigidTy::RawPtr(..) | RigidTy::FnPtr(_)) => match self.v.pop_front()? {
                v @ (Val::Ptr(_) | Val::Fn(_) | Val::Undef | Val::Top(_)) => Some(v),
                Val::Int(i) => {
                    let a = i.as_const()?;
                    Some(Val::ptr(Ptr { base: Base::Dangling(a as u64), path: Rc::new([]), idx: Some(0), meta: Meta::No }))
                }
                // Option<&T> and friends
                Val::Enum(arms) if arms.len() == 1 => match arms[0].f.first() {
                    Some(v) => Some(v.clone()),
                    None => Some(Val::ptr(Ptr { base: Base::Dangling(0), path: Rc::new([]), idx: Some(0), meta: Meta::No })),
                },
                _ => None,
            },
            TyKind::RigidTy(RigidTy::Tuple(ts)) => ts.iter().map(|t| self.build(*t)).collect::<Option<Vec<_>>>().map(Val::agg),
            TyKind::RigidTy(RigidTy::Array(t, n)) => (0..n.eval_target_usize().ok()?).map(|_| self.build(t)).collect::<Option<Vec<_>>>().map(Val::agg),
            TyKind::RigidTy(RigidTy::Adt(d, a)) => match d.kind() {
                AdtKind::Struct => {
                    if is_vecish(&d) {
                        return self.v.pop_front();
                    }
                    d.variants()[0].fields().iter().map(|f| self.build(f.ty_with_args(&a))).collect::<Option<Vec<_>>>().map(Val::agg)
                }
                AdtKind::Union => {
                    // the largest field
                    let fs = d.variants()[0].fields();
                    let f = fs.iter().max_by_key(|f| f.ty_with_args(&a).layout().map(|l| l.shape().size.bytes()).unwrap_or(0))?;
                    let v = self.build(f.ty_with_args(&a))?;
                    Some(Val::agg(vec![v]))
                }
                AdtKind::Enum => {
                    match self.v.front()? {
                        Val::Enum(_) => return self.v.pop_front(),
                        Val::Ptr(p) if adt_name(&d).ends_with("Option") => {
                            let z = p.len() == 1 && p[0].1.base == Base::Dangling(0);
                            let p = self.v.pop_front()?;
                            if z {
                                return Some(Val::none());
                            }
                            let mut l = Leaves { v: [p].into() };
                            let inner = match a.0.first() {
                                Some(GenericArgKind::Type(t)) => l.build(*t)?,
                                _ => return None,
                            };
                            return Some(Val::some(inner));
                        }
                        Val::Int(_) => {}
                        _ => return None,
                    }
                    // C-like enum from an integer
                    let vs = d.variants();
                    if vs.iter().any(|v| !v.fields().is_empty()) {
                        return None;
                    }
                    let sz = ty.layout().ok()?.shape().size.bits() as u16;
                    let Some(Val::Int(i)) = self.int(sz, false) else { return None };
                    let mut arms = vec![];
                    for v in &vs {
                        let dv = d.discriminant_for_variant(v.idx()).val;
                        let g = i.eq(&Int::c(dv, sz, false))?;
                        if g != F {
                            arms.push(Arm { v: vi(v.idx()), g, f: Rc::new(vec![]) });
                        }
                    }
                    Some(Val::Enum(Rc::new(arms)))
                }
            },
            _ => None,
        }
    }
}
impl Int {
    /// same bits under a possibly different signedness
    pub fn resign(self) -> Int {
        match &self.r {
            Rep::Lin(l) => Int { w: self.w, s: self.s, r: Rep::Lin(Rc::new(Lin { exact: false, ..(**l).clone() })) },
            Rep::Mod(r) if r.x.min() < 0 || r.x.max() + (1 << r.m) > 1i128 << (self.w - 1) => std::panic::panic_any(GaveUp),
            _ => self,
        }
    }
}
/// the bit pattern of a value of type `t` that is one number in memory
fn typed_int(v: &Val, t: Ty) -> Option<Int> {
    match (v, t.kind()) {
        (Val::Int(i), _) => Some(if i.w == 1 { Int::bits([vec![i.as_bool()?], vec![F; 7]].concat(), false) } else { i.clone() }),
        (Val::Agg(a), TyKind::RigidTy(RigidTy::Adt(d, g))) if d.kind() == AdtKind::Struct => {
            let n = t.layout().ok()?.shape().size;
            let fs = d.variants()[0].fields();
            let (i, f) = fs.iter().enumerate().find(|(_, f)| f.ty_with_args(&g).layout().is_ok_and(|l| l.shape().size == n))?;
            typed_int(a.get(i)?, f.ty_with_args(&g))
        }
        (Val::Enum(arms), TyKind::RigidTy(RigidTy::Adt(d, g))) => {
            let sh = t.layout().ok()?.shape();
            let w = sh.size.bits() as u16;
            let vs = d.variants();
            let rustc_public::abi::VariantsShape::Multiple { tag_encoding, .. } = &sh.variants else { return None };
            let mut out: Option<Int> = None;
            for r in arms.iter() {
                let i = match tag_encoding {
                    rustc_public::abi::TagEncoding::Direct => {
                        if r.f.iter().any(|x| !matches!(x, Val::Agg(a) if a.is_empty())) {
                            return None;
                        }
                        Int::c(d.discriminant_for_variant(vs[r.v].idx()).val & mask(w), w, false)
                    }
                    rustc_public::abi::TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        if r.v == vi(*untagged_variant) {
                            let [x] = &r.f[..] else { return None };
                            let i = typed_int(x, vs[r.v].fields().first()?.ty_with_args(&g))?;
                            if i.w != w {
                                return None;
                            }
                            i
                        } else {
                            Int::c((r.v - vi(*niche_variants.start())) as u128 + *niche_start & mask(w), w, false)
                        }
                    }
                };
                out = Some(match out {
                    None => i,
                    Some(o) => Int::ite(r.g, &i, &o),
                });
            }
            out
        }
        _ => None,
    }
}
pub fn transmute(v: &Val, t: Ty) -> Option<Val> {
    let mut out = vec![];
    flat(v, &mut out);
    // Option<NonZero<..>> and its integer form
    if let [x] = &out[..] {
        match (x, int_ty(t)) {
            (Val::Enum(arms), Some((w, s))) if arms.iter().any(|a| a.f.len() == 1 && a.f[0].int().is_some()) => {
                let some = arms.iter().find(|a| a.v == 1)?;
                let i = some.f[0].int()?;
                if i.w != w || arms.iter().any(|a| a.v > 1) {
                    return None;
                }
                return Some(Val::Int(Int { s, ..Int::ite(some.g, i, &Int::c(0, w, i.s)) }.resign()));
            }
            (Val::Int(i), None) => {
                if let TyKind::RigidTy(RigidTy::Adt(d, a)) = t.kind() {
                    if adt_name(&d).ends_with("Option") {
                        if let Some(GenericArgKind::Type(pt)) = a.0.first() {
                            if let TyKind::RigidTy(RigidTy::Adt(pd, _)) = pt.kind() {
                                if adt_name(&pd).contains("NonZero") {
                                    let z = i.eq(&Int::c(0, i.w, i.s))?;
                                    let mut l = Leaves { v: [x.clone()].into() };
                                    let inner = l.build(*pt)?;
                                    let mut arms = vec![];
                                    if z != F {
                                        arms.push(Arm { v: 0, g: z, f: Rc::new(vec![]) });
                                    }
                                    if z != T {
                                        arms.push(Arm { v: 1, g: not(z), f: Rc::new(vec![inner]) });
                                    }
                                    return Some(Val::Enum(Rc::new(arms)));
                                }
                            }
                        }
                    }
                }
            }
            (Val::Ptr(p), Some((64, _))) if p.len() == 1 => return Some(Val::usize(address(&p[0].1, 1))),
            _ => (),
        }
    }
    let mut l = Leaves { v: out.into() };
    let r = l.build(t)?;
    Some(r)
}
