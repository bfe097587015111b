//! Transfer functions for compiler intrinsics and for the library types whose
//! implementation works on raw memory (Vec, String, str::Chars, formatting,
//! winnow's error accumulator).  Everything else is analysed from its MIR.
use crate::bdd::*;
use crate::int::*;
use crate::interp::*;
use crate::ir::*;
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use rustc_public::CrateDefType;
use std::rc::Rc;

type Res = R<Vec<(State, Val)>>;

fn ret(st: &State, v: Val) -> Res {
    Ok(vec![(st.clone(), v)])
}

pub fn type_args(a: &GenericArgs) -> Vec<Ty> {
    a.0.iter()
        .filter_map(|x| match x {
            GenericArgKind::Type(t) => Some(*t),
            _ => None,
        })
        .collect()
}

pub fn chars_of(s: &str) -> Vec<Val> {
    s.chars().map(|c| Val::Int(Int::c(c as u128, 32, false))).collect()
}

pub fn in_range(i: &Int, lo: u128, hi: u128) -> Option<B> {
    let lo = i.lt(&Int::c(lo, i.w, i.s))?;
    let hi = Int::c(hi, i.w, i.s).lt(i)?;
    Some(and(not(lo), not(hi)))
}

/// all ways of reading `b` as UTF-8: (condition, scalar values)
pub fn utf8_cases(b: &[Int], g: B) -> Option<Vec<(B, Vec<Int>)>> {
    let mut out = vec![];
    let mut work = vec![(g, 0usize, vec![])];
    while let Some((g, i, cs)) = work.pop() {
        if g == F {
            continue;
        }
        if i == b.len() {
            out.push((g, cs));
            continue;
        }
        let bits: Vec<Vec<B>> = b[i..b.len().min(i + 4)].iter().map(|x| x.to_bits()).collect::<Option<_>>()?;
        let cont = |k: usize| and(bits[k][7], not(bits[k][6]));
        let mk = |parts: &[(usize, usize)]| {
            // (byte, low bits), most significant first
            let mut v = vec![];
            for (k, n) in parts.iter().rev() {
                v.extend_from_slice(&bits[*k][..*n]);
            }
            v.resize(32, F);
            Int::bits(v, false)
        };
        let mut push = |c: B, n: usize, ch: Int| {
            let c = and(g, c);
            if c != F {
                let mut cs = cs.clone();
                cs.push(ch);
                work.push((c, i + n, cs));
            }
        };
        push(not(bits[0][7]), 1, mk(&[(0, 7)]));
        if bits.len() >= 2 {
            push(and(in_range(&b[i], 0xC2, 0xDF)?, cont(1)), 2, mk(&[(0, 5), (1, 6)]));
        }
        if bits.len() >= 3 {
            let e0 = and(in_range(&b[i], 0xE0, 0xE0)?, in_range(&b[i + 1], 0xA0, 0xBF)?);
            let ed = and(in_range(&b[i], 0xED, 0xED)?, in_range(&b[i + 1], 0x80, 0x9F)?);
            let o = and(or(in_range(&b[i], 0xE1, 0xEC)?, in_range(&b[i], 0xEE, 0xEF)?), cont(1));
            push(and(or(e0, or(ed, o)), cont(2)), 3, mk(&[(0, 4), (1, 6), (2, 6)]));
        }
        if bits.len() >= 4 {
            let f0 = and(in_range(&b[i], 0xF0, 0xF0)?, in_range(&b[i + 1], 0x90, 0xBF)?);
            let f4 = and(in_range(&b[i], 0xF4, 0xF4)?, in_range(&b[i + 1], 0x80, 0x8F)?);
            let o = and(in_range(&b[i], 0xF1, 0xF3)?, cont(1));
            push(and(or(f0, or(f4, o)), and(cont(2), cont(3))), 4, mk(&[(0, 3), (1, 6), (2, 6), (3, 6)]));
        }
    }
    Some(out)
}

const CP1252: [u16; 32] = [
    0x20AC, 0x81, 0x201A, 0x192, 0x201E, 0x2026, 0x2020, 0x2021, 0x2C6, 0x2030, 0x160, 0x2039, 0x152, 0x8D, 0x17D, 0x8F, 0x90, 0x2018, 0x2019, 0x201C, 0x201D, 0x2022, 0x2013,
    0x2014, 0x2DC, 0x2122, 0x161, 0x203A, 0x153, 0x9D, 0x17E, 0x178,
];
pub fn cp1252(b: u128) -> u128 {
    if (0x80..0xA0).contains(&b) {
        CP1252[(b - 0x80) as usize] as u128
    } else {
        b
    }
}

impl Interp {
    /// a fresh heap cell (a local of the outermost frame)
    pub fn alloc(&self, st: &mut State, v: Val, meta: Meta) -> Val {
        let f = Rc::make_mut(&mut st.fr[0]);
        f.push(v);
        let k = f.len() as u32 - 1;
        let idx = if matches!(meta, Meta::Len(_)) { Some(0) } else { None };
        Val::ptr(Ptr { base: Base::Local(0, k), path: Rc::new([]), idx, meta })
    }
    /// the UTF-8 encoding of some text
    fn utf8_of(&self, st: &State, v: &[Val]) -> R<Vec<Val>> {
        let mut out = vec![];
        for x in v {
            let x = self.int(x)?;
            let Some(b) = x.to_bits() else { return unk("encoding of a character") };
            let lim = [0x80u128, 0x800, 0x10000];
            let lt: Vec<B> = lim.iter().map(|l| x.lt(&Int::c(*l, 32, false)).unwrap_or(T)).collect();
            let class = [lt[0], and(lt[1], not(lt[0])), and(lt[2], not(lt[1])), not(lt[2])];
            let live: Vec<usize> = (0..4).filter(|k| and(class[*k], st.g) != F).collect();
            if live.len() > 1 {
                return Err(Stop::Fork(class.to_vec()));
            }
            let Some(k) = live.first() else { return unk("unreachable character") };
            let byte = |lo: usize, n: usize, top: &[B]| {
                let mut v: Vec<B> = b[lo..lo + n].to_vec();
                v.extend_from_slice(top);
                Val::Int(Int::bits(v, false))
            };
            let cont = |lo: usize| byte(lo, 6, &[F, T]);
            match k {
                0 => out.push(byte(0, 7, &[F])),
                1 => out.extend([byte(6, 5, &[F, T, T]), cont(0)]),
                2 => out.extend([byte(12, 4, &[F, T, T, T]), cont(6), cont(0)]),
                _ => out.extend([byte(18, 3, &[F, T, T, T, T]), cont(12), cont(6), cont(0)]),
            }
        }
        Ok(out)
    }
    pub fn slice_vals(&self, st: &State, v: &Val) -> R<Vec<Val>> {
        let p = self.one_ptr(st, v)?;
        match &p.meta {
            Meta::Len(n) => {
                let n = self.conc(st, n)?;
                let mut base = p.clone();
                base.meta = Meta::No;
                let base = Val::ptr(base);
                let mut out = vec![];
                for i in 0..n {
                    let q = self.ptr_add(st, &base, &Int::ci(i as i128, 64, true), 1)?;
                    out.push(self.load(st, &q)?);
                }
                Ok(out)
            }
            Meta::No => match self.read(st, &p.loc())? {
                Val::Agg(a) | Val::Vec(a) => Ok(a.to_vec()),
                v => unk(format!("slice of {}", v.show())),
            },
            _ => unk("slice of odd pointer"),
        }
    }
    /// the characters of a `&str` / `&String`
    pub fn text(&self, st: &State, v: &Val) -> R<Vec<Val>> {
        let p = self.one_ptr(st, v)?;
        match &p.meta {
            Meta::Len(_) => {
                let b = self.slice_vals(st, v)?;
                let b: Vec<Int> = b.iter().map(|x| self.int(x)).collect::<R<_>>()?;
                let Some(mut cs) = utf8_cases(&b, st.g) else { return unk("utf-8") };
                match cs.len() {
                    1 => Ok(cs.pop().unwrap().1.into_iter().map(Val::Int).collect()),
                    0 => unk("str holding invalid UTF-8"),
                    _ => Err(Stop::Fork(cs.into_iter().map(|c| c.0).collect())),
                }
            }
            _ => match self.read(st, &p.loc())? {
                Val::Str(a) => Ok(a.to_vec()),
                Val::Agg(a) if a.is_empty() => Ok(vec![]),
                v => unk(format!("text of {}", v.show())),
            },
        }
    }
    fn vec_of(&self, st: &State, v: &Val) -> R<Vec<Val>> {
        match self.load(st, v)? {
            Val::Vec(a) => Ok(a.to_vec()),
            Val::Agg(a) if a.is_empty() => Ok(vec![]),
            v => unk(format!("vec expected, got {}", v.show())),
        }
    }
    fn str_of(&self, st: &State, v: &Val) -> R<Vec<Val>> {
        match self.load(st, v)? {
            Val::Str(a) => Ok(a.to_vec()),
            v => unk(format!("string expected, got {}", v.show())),
        }
    }
    fn as_slice(&self, st: &State, v: &Val) -> R<Val> {
        let n = self.vec_of(st, v)?.len();
        let p = self.one_ptr(st, v)?;
        let l = p.loc();
        Ok(Val::ptr(Ptr { base: l.base, path: l.path.into(), idx: Some(0), meta: Meta::Len(Int::usize(n as u64)) }))
    }
}

fn vecv(v: Vec<Val>) -> Val {
    Val::Vec(Rc::new(v))
}
fn strv(v: Vec<Val>) -> Val {
    Val::Str(Rc::new(v))
}
fn size_hint(n: usize) -> Val {
    Val::agg(vec![Val::usize(n as u64), Val::some(Val::usize(n as u64))])
}

fn ctx_err(n: u128) -> Val {
    Val::agg(vec![Val::Int(Int::c(n, 8, false))])
}
fn ctx_add(v: &Val) -> R<Val> {
    match v {
        Val::Agg(a) if a.len() == 1 => match &a[0] {
            Val::Int(i) => match Int::map1(i, 8, false, |x| (x + 1).min(2)) {
                Some(r) => Ok(Val::agg(vec![Val::Int(r)])),
                None => unk("error context count"),
            },
            v => unk(format!("error context count is {}", v.show())),
        },
        v => unk(format!("context error expected, got {}", v.show())),
    }
}

fn sat(i: Option<(Int, B)>, f: impl Fn(Int, B) -> Int) -> R<Val> {
    match i {
        Some((v, o)) => Ok(Val::Int(if o == F { v } else { f(v, o) })),
        None => unk("saturating op"),
    }
}

fn elem_size(t: Ty) -> u64 {
    t.layout().map(|l| l.shape().size.bytes() as u64).unwrap_or(0)
}

fn intrinsic(it: &mut Interp, name: &str, c: &Rc<Call>, a: &[Val], st: &mut State) -> Option<Res> {
    use rustc_public::mir::BinOp;
    let tys = type_args(&c.args);
    let top2 = |x: &Val, y: &Val| -> Option<Val> {
        match (x, y) {
            (Val::Top(r), _) | (_, Val::Top(r)) => Some(Val::Top(r.clone())),
            _ => None,
        }
    };
    macro_rules! t {
        ($e:expr) => {
            match $e {
                Ok(v) => v,
                Err(e) => return Some(Err(e)),
            }
        };
    }
    Some(match name {
        "size_of" => ret(st, Val::usize(elem_size(tys[0]))),
        "align_of" | "min_align_of" => ret(st, Val::usize(tys[0].layout().map(|l| l.shape().abi_align as u64).unwrap_or(1))),
        "size_of_val" => {
            let p = t!(it.one_ptr(st, &a[0]));
            match (&p.meta, tys[0].kind()) {
                (Meta::Len(n), TyKind::RigidTy(RigidTy::Slice(e))) => {
                    let n = t!(it.conc(st, n)) as u64;
                    ret(st, Val::usize(n * elem_size(e)))
                }
                (Meta::Len(n), TyKind::RigidTy(RigidTy::Str)) => ret(st, Val::Int(n.clone())),
                _ => ret(st, Val::usize(elem_size(tys[0]))),
            }
        }
        "needs_drop" => ret(st, Val::bool(F)),
        "arith_offset" | "offset" | "ptr_offset" => {
            let n = t!(it.int(&a[1]));
            let v = t!(it.ptr_add(st, &a[0], &n, 1));
            ret(st, v)
        }
        "ptr_offset_from" | "ptr_offset_from_unsigned" => {
            let (p, q) = (t!(it.one_ptr(st, &a[0])), t!(it.one_ptr(st, &a[1])));
            let dang = matches!(p.base, Base::Dangling(_));
            if p.base == q.base && (dang || p.path == q.path) {
                let d = p.idx.unwrap_or(0) - q.idx.unwrap_or(0);
                if name == "ptr_offset_from_unsigned" {
                    ret(st, Val::usize(d as u64))
                } else {
                    ret(st, Val::Int(Int::ci(d as i128, 64, true)))
                }
            } else {
                unk("distance of unrelated pointers")
            }
        }
        "wrapping_add" => ret(st, t!(it.bin(st, BinOp::Add, &a[0], &a[1]))),
        "unchecked_add" => ret(st, t!(it.bin(st, BinOp::AddUnchecked, &a[0], &a[1]))),
        "wrapping_sub" => ret(st, t!(it.bin(st, BinOp::Sub, &a[0], &a[1]))),
        "unchecked_sub" => ret(st, t!(it.bin(st, BinOp::SubUnchecked, &a[0], &a[1]))),
        "wrapping_mul" => ret(st, t!(it.bin(st, BinOp::Mul, &a[0], &a[1]))),
        "unchecked_mul" => ret(st, t!(it.bin(st, BinOp::MulUnchecked, &a[0], &a[1]))),
        "unchecked_div" | "exact_div" => ret(st, t!(it.bin(st, BinOp::Div, &a[0], &a[1]))),
        "unchecked_rem" => ret(st, t!(it.bin(st, BinOp::Rem, &a[0], &a[1]))),
        "unchecked_shl" => ret(st, t!(it.bin(st, BinOp::Shl, &a[0], &a[1]))),
        "unchecked_shr" => ret(st, t!(it.bin(st, BinOp::Shr, &a[0], &a[1]))),
        "add_with_overflow" => ret(st, t!(it.checked(st, BinOp::Add, &a[0], &a[1], false))),
        "sub_with_overflow" => ret(st, t!(it.checked(st, BinOp::Sub, &a[0], &a[1], false))),
        "mul_with_overflow" => ret(st, t!(it.checked(st, BinOp::Mul, &a[0], &a[1], false))),
        "three_way_compare" => ret(st, t!(it.bin(st, BinOp::Cmp, &a[0], &a[1]))),
        "saturating_add" | "saturating_sub" => {
            if let Some(v) = top2(&a[0], &a[1]) {
                return Some(ret(st, v));
            }
            let (x, y) = (t!(it.int(&a[0])), t!(it.int(&a[1])));
            let add = name == "saturating_add";
            let w = x.w;
            let s = x.s;
            let r = x.arith(if add { '+' } else { '-' }, &y, st.g, true);
            let lim = if s {
                // sign of y decides the side
                let Some(neg) = y.lt(&Int::ci(0, w, true)) else { return Some(unk("saturating")) };
                let neg = if add { neg } else { not(neg) };
                Int::ite(neg, &Int::ci(x.tmin(), w, true), &Int::ci(x.tmax(), w, true))
            } else if add {
                Int::c(mask(w), w, s)
            } else {
                Int::c(0, w, s)
            };
            let v = t!(sat(r, |v, o| Int::ite(o, &lim, &v)));
            ret(st, v)
        }
        "bswap" | "bitreverse" | "rotate_left" | "rotate_right" | "ctpop" | "ctlz" | "cttz" | "ctlz_nonzero" | "cttz_nonzero" => {
            if let Val::Top(_) = &a[0] {
                return Some(ret(st, a[0].clone()));
            }
            let x = t!(it.int(&a[0]));
            let Some(mut b) = x.to_bits() else { return Some(unk("bit operation on a sum")) };
            match name {
                "bswap" => {
                    let mut o = vec![];
                    for ch in b.chunks(8).rev() {
                        o.extend_from_slice(ch);
                    }
                    ret(st, Val::Int(Int::bits(o, x.s)))
                }
                "bitreverse" => {
                    b.reverse();
                    ret(st, Val::Int(Int::bits(b, x.s)))
                }
                "rotate_left" | "rotate_right" => {
                    let k = t!(it.conc_v(st, &a[1])) as usize % b.len();
                    if name == "rotate_left" {
                        b.rotate_right(k)
                    } else {
                        b.rotate_left(k)
                    }
                    ret(st, Val::Int(Int::bits(b, x.s)))
                }
                "ctpop" => {
                    let mut s = Int::c(0, 32, false);
                    for q in b {
                        s = match s.wrapping('+', &Int::bits([vec![q], vec![F; 31]].concat(), false)) {
                            Some(s) => s,
                            None => return Some(unk("ctpop")),
                        };
                    }
                    ret(st, Val::Int(s))
                }
                _ => {
                    // leading / trailing zero count
                    if name.starts_with("ctlz") {
                        b.reverse();
                    }
                    let mut cs = vec![];
                    let mut rest = T;
                    for (i, q) in b.iter().enumerate() {
                        cs.push((i as u128, and(rest, *q)));
                        rest = and(rest, not(*q));
                    }
                    cs.push((b.len() as u128, rest));
                    let cs: Vec<_> = cs.into_iter().filter(|c| c.1 != F).collect();
                    ret(st, Val::Int(Int::from_cases(&cs, 32, false)))
                }
            }
        }
        "transmute" | "transmute_unchecked" => match transmute(&a[0], c.ret) {
            Some(v) => ret(st, v),
            None => unk(format!("transmute {}", a[0].show())),
        },
        "read_via_copy" | "volatile_load" | "unaligned_volatile_load" => {
            let v = t!(it.load(st, &a[0]));
            ret(st, v)
        }
        "write_via_move" | "volatile_store" => {
            t!(it.store(st, &a[0], a[1].clone()));
            ret(st, Val::unit())
        }
        "copy" | "copy_nonoverlapping" => {
            t!(it.copy(st, &a[0], &a[1], &a[2]));
            ret(st, Val::unit())
        }
        "write_bytes" => {
            let n = t!(it.conc_v(st, &a[2]));
            let v = match int_ty(tys[0]) {
                Some((8, _)) => a[1].clone(),
                _ => return Some(unk("write_bytes")),
            };
            for i in 0..n {
                let p = t!(it.ptr_add(st, &a[0], &Int::ci(i as i128, 64, true), 1));
                t!(it.store(st, &p, v.clone()));
            }
            ret(st, Val::unit())
        }
        "compare_bytes" | "raw_eq" => {
            let (x, y) = if name == "raw_eq" {
                (t!(it.load(st, &a[0])), t!(it.load(st, &a[1])))
            } else {
                let n = t!(it.conc_v(st, &a[2]));
                let mut x = vec![];
                let mut y = vec![];
                for i in 0..n {
                    let k = Int::ci(i as i128, 64, true);
                    let p = t!(it.ptr_add(st, &a[0], &k, 1));
                    x.push(t!(it.load(st, &p)));
                    let p = t!(it.ptr_add(st, &a[1], &k, 1));
                    y.push(t!(it.load(st, &p)));
                }
                (Val::agg(x), Val::agg(y))
            };
            let (mut fx, mut fy) = (vec![], vec![]);
            flat(&x, &mut fx);
            flat(&y, &mut fy);
            if fx.len() != fy.len() {
                return Some(unk("byte comparison"));
            }
            let (mut lt, mut eq) = (F, T);
            for (p, q) in fx.iter().zip(&fy) {
                let (p, q) = (t!(it.int(p)), t!(it.int(q)));
                let (Some(l), Some(e)) = (p.lt(&q), p.eq(&q)) else { return Some(unk("byte comparison")) };
                lt = or(lt, and(eq, l));
                eq = and(eq, e);
            }
            if name == "raw_eq" {
                return Some(ret(st, Val::bool(eq)));
            }
            let gt = not(or(lt, eq));
            let cs: Vec<(u128, B)> = [(mask(32), lt), (0, eq), (1, gt)].into_iter().filter(|c| c.1 != F).collect();
            ret(st, Val::Int(Int::from_cases(&cs, 32, true)))
        }
        "discriminant_value" => {
            let v = t!(it.load(st, &a[0]));
            let v = t!(disc(&v, tys[0]));
            ret(st, v)
        }
        "black_box" | "likely" | "unlikely" => ret(st, a[0].clone()),
        "cold_path" | "assume" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "forget" => ret(st, Val::unit()),
        "is_val_statically_known" => ret(st, Val::bool(F)),
        "ub_checks" | "contract_checks" => ret(st, Val::bool(F)),
        "overflow_checks" => ret(st, Val::bool(T)),
        "select_unpredictable" => {
            let b = t!(it.int(&a[0]));
            let Some(b) = b.as_bool() else { return Some(unk("select")) };
            if and(st.g, b) == F {
                return Some(ret(st, a[2].clone()));
            }
            if and(st.g, not(b)) == F {
                return Some(ret(st, a[1].clone()));
            }
            match merge(b, and(st.g, b), and(st.g, not(b)), &a[1], &a[2]) {
                Some(v) => ret(st, v),
                None => Err(Stop::Fork(vec![b, not(b)])),
            }
        }
        "aggregate_raw_ptr" => {
            let mut p = t!(it.one_ptr(st, &a[0]));
            match &a[1] {
                Val::Int(n) => p.meta = Meta::Len(n.clone()),
                _ => p.meta = Meta::No,
            }
            ret(st, Val::ptr(p))
        }
        "ptr_metadata" => {
            let p = t!(it.one_ptr(st, &a[0]));
            ret(
                st,
                match p.meta {
                    Meta::Len(n) => Val::Int(n),
                    _ => Val::unit(),
                },
            )
        }
        "const_eval_select" => {
            // arguments: (tuple, compile-time fn, run-time fn)
            let f = tys.iter().rev().find_map(|t| match t.kind() {
                TyKind::RigidTy(RigidTy::FnDef(d, a)) => Instance::resolve(d, &a).ok(),
                _ => None,
            });
            let Some(f) = f else { return Some(unk("const_eval_select")) };
            let args = match &a[0] {
                Val::Agg(v) => v.to_vec(),
                v => vec![v.clone()],
            };
            Ok(it.call(&call_info(f), args, st.clone()))
        }
        "unreachable" => unk("unreachable intrinsic"),
        "abort" => Err(Stop::Panic("abort".into())),
        _ => return None,
    })
}

pub fn flat(v: &Val, out: &mut Vec<Val>) {
    match v {
        Val::Agg(a) => a.iter().for_each(|x| flat(x, out)),
        x => out.push(x.clone()),
    }
}

/// strip generic arguments and lifetimes for matching: keeps the path text
pub fn model(it: &mut Interp, c: &Rc<Call>, a: &[Val], st: &mut State) -> Option<Res> {
    if let Some(n) = &c.intrinsic {
        let n = n.clone();
        if let Some(r) = intrinsic(it, &n, c, a, st) {
            return Some(r);
        }
    }
    if reserved(it, c, a, st) {
        return Some(unk("after too much memory was set aside"));
    }
    let r = lib(it, c, a, st);
    if r.is_some() && !it.modelled.contains(&c.name) {
        it.modelled.insert(c.name.clone());
    }
    r
}

/// notes calls that set memory aside for a number of elements
fn reserved(it: &mut Interp, c: &Rc<Call>, a: &[Val], st: &State) -> bool {
    let n = c.name.as_str();
    let m = n.rsplit("::").next().unwrap_or("");
    let k = match m {
        "with_capacity" | "with_capacity_in" | "try_with_capacity" | "new_uninit_slice" | "new_zeroed_slice" => 0,
        "reserve" | "reserve_exact" | "try_reserve" | "try_reserve_exact" | "resize" | "resize_with" => 1,
        "from_elem" => 1,
        "repeat" if n.contains("<impl str>") || n.contains("<impl [T]>") => 1,
        _ => return false,
    };
    if !(n.starts_with("std::") || n.starts_with("alloc::") || n.starts_with("<std::")) {
        return false;
    }
    let Some(v) = a.get(k) else { return false };
    let text = n.contains("string::String") || n.contains("<impl str>");
    let size = if text { Some(1) } else { type_args(&c.args).first().and_then(|t| t.layout().ok()).map(|l| l.shape().size.bytes() as u64) };
    let g = st.g;
    match it.int(v) {
        Ok(i) => it.add_reserve(g, &i, size.unwrap_or(1)),
        Err(_) => {
            it.reserve_unknown(g);
            false
        }
    }
}

fn lib(it: &mut Interp, c: &Rc<Call>, a: &[Val], st: &mut State) -> Option<Res> {
    let n = c.name.as_str();
    macro_rules! t {
        ($e:expr) => {
            match $e {
                Ok(v) => v,
                Err(e) => return Some(Err(e)),
            }
        };
    }
    // ---- winnow's error accumulator, abstracted to "how many contexts" -----
    if n.contains("ContextError") {
        let m = n.rsplit("::").next().unwrap_or("");
        let own = n.starts_with("winnow::error::ContextError") || n.starts_with("<winnow::error::ContextError");
        if own {
            return Some(match m {
                "new" | "from_input" | "default" => ret(st, ctx_err(0)),
                "from_external_error" => ret(st, ctx_err(0)),
                "assert" => {
                    // winnow's default: panics when debug assertions are on
                    return None;
                }
                "add_context" => {
                    let v = t!(ctx_add(&a[0]));
                    ret(st, v)
                }
                "push" => {
                    let v = t!(it.load(st, &a[0]));
                    let v = t!(ctx_add(&v));
                    t!(it.store(st, &a[0], v));
                    ret(st, Val::unit())
                }
                "clone" => {
                    let v = t!(it.load(st, &a[0]));
                    ret(st, v)
                }
                "append" => ret(st, a[0].clone()),
                "or" | "into_inner" | "is_incomplete" => return None,
                _ => return None,
            });
        }
    }
    // ---- formatting -------------------------------------------------------
    if n.starts_with("std::fmt::") || n.starts_with("core::fmt::") || n.starts_with("std::fmt::format") || n.contains("as std::fmt::Display>::") || n.contains("as std::fmt::Debug>::") {
        if n == "std::fmt::format" || n.ends_with("fmt::format") || n.ends_with("format_inner") || n.ends_with("::format::{closure#0}") {
            return Some(ret(st, Val::opq("formatted text")));
        }
        if matches!(c.ret.kind(), TyKind::RigidTy(RigidTy::Adt(d, _)) if adt_name(&d).contains("Result")) {
            return Some(ret(st, Val::ok(Val::unit())));
        }
        return Some(ret(st, Val::opq("format arguments")));
    }
    if n.contains("panic_already_") && n.contains("cell") {
        // destructors are not followed, so borrow flags are not exact
        return Some(unk("RefCell borrow flag"));
    }
    if n == "std::mem::drop" || n.ends_with("drop_in_place") {
        return Some(ret(st, Val::unit()));
    }
    // ---- heap cells: fresh locals of the outermost frame ----------------------
    if n == "std::boxed::box_new_uninit" || n == "alloc::boxed::box_new_uninit" {
        let f = Rc::make_mut(&mut st.fr[0]);
        f.push(Val::Undef);
        let k = f.len() as u32 - 1;
        return Some(ret(st, Val::ptr(Ptr { base: Base::Local(0, k), path: Rc::new([]), idx: None, meta: Meta::No })));
    }
    if n.ends_with("box_assume_init_into_vec_unsafe") {
        let mut v = t!(it.load(st, &a[0]));
        // MaybeUninit -> ManuallyDrop -> .. -> array
        let want = type_args(&c.args).len();
        let _ = want;
        let len = c.args.0.iter().find_map(|x| match x {
            GenericArgKind::Const(k) => k.eval_target_usize().ok(),
            _ => None,
        });
        loop {
            match &v {
                Val::Agg(x) if x.len() == 1 && matches!(&x[0], Val::Agg(_)) => {
                    if len == Some(1) && !matches!(&x[0], Val::Agg(y) if y.len() == 1) {
                        break;
                    }
                    let y = x[0].clone();
                    v = y;
                }
                _ => break,
            }
        }
        return Some(match (&v, len) {
            (Val::Agg(x), Some(k)) if x.len() as u64 == k => ret(st, vecv(x.to_vec())),
            _ => unk(format!("vec! of {}", v.show())),
        });
    }
    match n {
        _ if n.ends_with("model::cv") => {
            let v = t!(it.text(st, &a[0]));
            return Some(ret(st, vecv(v)));
        }
        _ if n.ends_with("model::leak") => {
            let v = match &a[0] {
                Val::Vec(v) => v.to_vec(),
                v => return Some(unk(format!("text of {}", v.show()))),
            };
            let p = it.alloc(st, strv(v), Meta::Str);
            return Some(ret(st, p));
        }
        _ if n.ends_with("model::mk") => {
            return match &a[0] {
                Val::Vec(v) => Some(ret(st, Val::Str(v.clone()))),
                v => Some(unk(format!("text of {}", v.show()))),
            };
        }
        _ => {}
    }
    if n.ends_with("::as_chunks") || n.ends_with("::as_chunks::<N>") {
        // pieces of a fixed size, and the rest (read only)
        let v = t!(it.slice_vals(st, &a[0]));
        let k = c.args.0.iter().rev().find_map(|x| match x {
            GenericArgKind::Const(k) => k.eval_target_usize().ok(),
            _ => None,
        });
        let Some(k) = k.filter(|k| *k > 0) else { return Some(unk("as_chunks")) };
        let ch = v.chunks_exact(k as usize);
        let rest = ch.remainder().to_vec();
        let ch: Vec<Val> = ch.map(|c| Val::agg(c.to_vec())).collect();
        let (x, y) = (ch.len() as u64, rest.len() as u64);
        let p = it.alloc(st, Val::agg(ch), Meta::Len(Int::usize(x)));
        let q = it.alloc(st, Val::agg(rest), Meta::Len(Int::usize(y)));
        return Some(ret(st, Val::agg(vec![p, q])));
    }
    // ---- Vec ----------------------------------------------------------------
    if n.contains("vec::Vec") || as_vec_iter(n) || n.contains("vec::IntoIter") || n.contains("array::IntoIter") || n.contains("[T; N] as std::iter::IntoIterator") || n.contains("[T; N]>::into_iter") {
        if let Some(r) = vec_model(it, n, c, a, st) {
            return Some(r);
        }
    }
    if n.ends_with("::to_vec") && n.contains("slice") || n == "<[T] as std::borrow::ToOwned>::to_owned" || n.ends_with("::to_vec_in") || n.ends_with("hack::into_vec") {
        let v = t!(it.slice_vals(st, &a[0]));
        return Some(ret(st, vecv(v)));
    }
    // ---- text ---------------------------------------------------------------
    if n.contains("str") || n.contains("String") || n.contains("Chars") || n.contains("char") {
        if let Some(r) = str_model(it, n, c, a, st) {
            return Some(r);
        }
    }
    if n.starts_with("encoding_rs::") {
        return encoding_model(it, n, a, st);
    }
    None
}

/// iterators whose value is the vector of the remaining items
const VEC_ITERS: [&str; 13] = [
    "vec::IntoIter", "array::IntoIter", "str::Chars", "vec::Drain", "string::Drain", "str::CharIndices", "str::Split", "str::SplitWhitespace", "str::Lines", "string::IntoChars", "str::SplitN", "str::SplitAsciiWhitespace", "array::iter::IntoIter",
];
fn as_vec_iter(n: &str) -> bool {
    VEC_ITERS.iter().any(|k| {
        let n = n.strip_prefix('<').unwrap_or(n);
        n.strip_prefix("std::").or(n.strip_prefix("core::")).or(n.strip_prefix("alloc::")).and_then(|n| n.strip_prefix(k)).is_some_and(|r| r.starts_with('<') || r.starts_with("::") || r.starts_with(' '))
    })
}

fn vec_model(it: &mut Interp, n: &str, _c: &Rc<Call>, a: &[Val], st: &mut State) -> Option<Res> {
    let m = n.rsplit("::").next().unwrap_or("");
    macro_rules! t {
        ($e:expr) => {
            match $e {
                Ok(v) => v,
                Err(e) => return Some(Err(e)),
            }
        };
    }
    let is_vec = n.starts_with("std::vec::Vec::<") || n.starts_with("<std::vec::Vec<");
    let is_iter = as_vec_iter(n);
    if is_iter {
        return Some(match m {
            "next" | "next_back" => {
                let mut v = t!(it.vec_of(st, &a[0]));
                if v.is_empty() {
                    return Some(ret(st, Val::none()));
                }
                let x = if m == "next" { v.remove(0) } else { v.pop().unwrap() };
                t!(it.store(st, &a[0], vecv(v)));
                ret(st, Val::some(x))
            }
            "size_hint" => {
                let v = t!(it.vec_of(st, &a[0]));
                ret(st, size_hint(v.len()))
            }
            "len" | "count" => {
                let v = match &a[0] {
                    Val::Vec(v) => v.len(),
                    p => t!(it.vec_of(st, p)).len(),
                };
                ret(st, Val::usize(v as u64))
            }
            "as_slice" => {
                let v = t!(it.as_slice(st, &a[0]));
                ret(st, v)
            }
            "into_iter" | "by_ref" => ret(st, a[0].clone()),
            "clone" => {
                let v = t!(it.load(st, &a[0]));
                ret(st, v)
            }
            "as_str" => {
                let v = t!(it.vec_of(st, &a[0]));
                let p = it.alloc(st, strv(v), Meta::Str);
                ret(st, p)
            }
            "__iterator_get_unchecked" => {
                let v = t!(it.vec_of(st, &a[0]));
                let k = t!(it.conc_v(st, &a[1])) as usize;
                match v.get(k) {
                    Some(x) => ret(st, x.clone()),
                    None => return Some(unk("element of an iterator")),
                }
            }
            _ => return None,
        });
    }
    if n.contains("[T; N]") && m == "into_iter" {
        return match &a[0] {
            Val::Agg(v) => Some(ret(st, Val::Vec(v.clone()))),
            _ => None,
        };
    }
    if !is_vec {
        return None;
    }
    Some(match m {
        "new" | "with_capacity" | "new_in" | "with_capacity_in" | "default" => ret(st, vecv(vec![])),
        "push" | "push_mut" | "accumulate" => {
            let mut v = t!(it.vec_of(st, &a[0]));
            v.push(a[1].clone());
            let k = v.len() as i64 - 1;
            t!(it.store(st, &a[0], vecv(v)));
            if m == "push_mut" {
                let l = t!(it.one_ptr(st, &a[0])).loc();
                ret(st, Val::ptr(Ptr { base: l.base, path: l.path.into(), idx: Some(k), meta: Meta::No }))
            } else {
                ret(st, Val::unit())
            }
        }
        "pop" => {
            let mut v = t!(it.vec_of(st, &a[0]));
            match v.pop() {
                Some(x) => {
                    t!(it.store(st, &a[0], vecv(v)));
                    ret(st, Val::some(x))
                }
                None => ret(st, Val::none()),
            }
        }
        "insert" => {
            let mut v = t!(it.vec_of(st, &a[0]));
            let k = t!(it.conc_v(st, &a[1])) as usize;
            if k > v.len() {
                return Some(Err(Stop::Panic("insertion index out of bounds".into())));
            }
            v.insert(k, a[2].clone());
            t!(it.store(st, &a[0], vecv(v)));
            ret(st, Val::unit())
        }
        "remove" | "swap_remove" => {
            let mut v = t!(it.vec_of(st, &a[0]));
            let k = t!(it.conc_v(st, &a[1])) as usize;
            if k >= v.len() {
                return Some(Err(Stop::Panic("removal index out of bounds".into())));
            }
            let x = if m == "remove" { v.remove(k) } else { v.swap_remove(k) };
            t!(it.store(st, &a[0], vecv(v)));
            ret(st, x)
        }
        "truncate" | "clear" => {
            let mut v = t!(it.vec_of(st, &a[0]));
            let k = if m == "clear" { 0 } else { t!(it.conc_v(st, &a[1])) as usize };
            v.truncate(k);
            t!(it.store(st, &a[0], vecv(v)));
            ret(st, Val::unit())
        }
        "append" => {
            let mut v = t!(it.vec_of(st, &a[0]));
            let mut w = t!(it.vec_of(st, &a[1]));
            v.append(&mut w);
            t!(it.store(st, &a[0], vecv(v)));
            t!(it.store(st, &a[1], vecv(vec![])));
            ret(st, Val::unit())
        }
        "len" => {
            let v = t!(it.vec_of(st, &a[0]));
            ret(st, Val::usize(v.len() as u64))
        }
        "is_empty" => {
            let v = t!(it.vec_of(st, &a[0]));
            ret(st, Val::bool(if v.is_empty() { T } else { F }))
        }
        "capacity" => ret(st, Val::usize(1 << 20)),
        "reserve" | "reserve_exact" | "shrink_to_fit" => ret(st, Val::unit()),
        "as_ptr" | "as_mut_ptr" => {
            let v = t!(it.as_slice(st, &a[0]));
            let mut p = t!(it.one_ptr(st, &v));
            p.meta = Meta::No;
            ret(st, Val::ptr(p))
        }
        "deref" | "deref_mut" | "as_slice" | "as_mut_slice" | "as_ref" | "as_mut" | "borrow" | "borrow_mut" => {
            let v = t!(it.as_slice(st, &a[0]));
            ret(st, v)
        }
        "clone" => {
            let v = t!(it.load(st, &a[0]));
            ret(st, v)
        }
        "into_iter" => {
            if n.starts_with("<std::vec::Vec<") {
                ret(st, a[0].clone())
            } else {
                return None;
            }
        }
        "extend_from_slice" | "append_elements" => {
            let mut v = t!(it.vec_of(st, &a[0]));
            v.extend(t!(it.slice_vals(st, &a[1])));
            t!(it.store(st, &a[0], vecv(v)));
            ret(st, Val::unit())
        }
        "from" => match &a[0] {
            Val::Agg(v) => ret(st, Val::Vec(v.clone())),
            Val::Vec(_) => ret(st, a[0].clone()),
            Val::Ptr(_) => {
                let v = t!(it.slice_vals(st, &a[0]));
                ret(st, vecv(v))
            }
            _ => return None,
        },
        "into_boxed_slice" | "leak" => match &a[0] {
            Val::Vec(v) => {
                let k = v.len() as u64;
                let v = Val::Agg(v.clone());
                let p = it.alloc(st, v, Meta::Len(Int::usize(k)));
                ret(st, p)
            }
            _ => return None,
        },
        _ => return None,
    })
}

fn str_model(it: &mut Interp, n: &str, _c: &Rc<Call>, a: &[Val], st: &mut State) -> Option<Res> {
    let m = n.rsplit("::").next().unwrap_or("");
    macro_rules! t {
        ($e:expr) => {
            match $e {
                Ok(v) => v,
                Err(e) => return Some(Err(e)),
            }
        };
    }
    if n.starts_with("std::str::<impl str>::") || n.starts_with("core::str::<impl str>::") || n.starts_with("alloc::str::<impl str>::") {
        return Some(match m {
            "chars" => {
                let v = t!(it.text(st, &a[0]));
                ret(st, vecv(v))
            }
            "to_owned" | "to_string" | "into_string" => {
                let v = t!(it.text(st, &a[0]));
                ret(st, strv(v))
            }
            "make_ascii_uppercase" | "make_ascii_lowercase" => {
                let p = t!(it.one_ptr(st, &a[0]));
                let v = match t!(it.read(st, &Ptr { meta: Meta::No, ..p.clone() }.loc())) {
                    Val::Str(v) => v,
                    v => return Some(unk(format!("string expected, got {}", v.show()))),
                };
                let up = m.contains("upper");
                let mut o = vec![];
                for x in v.iter() {
                    let f = |c: u128| {
                        if c < 128 {
                            let c = c as u8 as char;
                            (if up { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }) as u128
                        } else {
                            c
                        }
                    };
                    match Int::map1(&t!(it.int(x)), 32, false, f) {
                        Some(r) => o.push(Val::Int(r)),
                        None => return Some(unk("case mapping")),
                    }
                }
                t!(it.write(st, &Ptr { meta: Meta::No, ..p }.loc(), strv(o)));
                ret(st, Val::unit())
            }
            "to_uppercase" | "to_ascii_uppercase" | "to_lowercase" | "to_ascii_lowercase" => {
                let v = t!(it.text(st, &a[0]));
                let up = m.contains("upper");
                let ascii = m.contains("ascii");
                let mut o = vec![];
                for x in v {
                    let x = t!(it.int(&x));
                    let non = match Int::c(127, 32, false).lt(&x) {
                        Some(b) => and(b, st.g),
                        None => T,
                    };
                    if non != F && !ascii {
                        return Some(unk("case mapping outside ASCII"));
                    }
                    let f = |c: u128| {
                        if c < 128 {
                            let c = c as u8 as char;
                            (if up { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }) as u128
                        } else {
                            c
                        }
                    };
                    match Int::map1(&x, 32, false, f) {
                        Some(r) => o.push(Val::Int(r)),
                        None => return Some(unk("case mapping")),
                    }
                }
                ret(st, strv(o))
            }
            "as_bytes" => {
                let p = t!(it.one_ptr(st, &a[0]));
                if let Meta::Len(_) = p.meta {
                    return Some(ret(st, a[0].clone()));
                }
                let v = t!(it.text(st, &a[0]));
                let b = t!(it.utf8_of(st, &v));
                let k = b.len() as u64;
                let p = it.alloc(st, Val::agg(b), Meta::Len(Int::usize(k)));
                ret(st, p)
            }
            "is_ascii" => {
                let v = t!(it.text(st, &a[0]));
                let mut g = T;
                for x in v {
                    let x = t!(it.int(&x));
                    match x.lt(&Int::c(128, 32, false)) {
                        Some(b) => g = and(g, b),
                        None => return Some(unk("is_ascii")),
                    }
                }
                ret(st, Val::bool(g))
            }
            "is_empty" => {
                let v = t!(it.text(st, &a[0]));
                ret(st, Val::bool(if v.is_empty() { T } else { F }))
            }
            "len" => {
                let p = t!(it.one_ptr(st, &a[0]));
                match &p.meta {
                    Meta::Len(n) => ret(st, Val::Int(n.clone())),
                    _ => {
                        let v = t!(it.text(st, &a[0]));
                        let mut tot = Int::usize(0);
                        for x in v {
                            let x = t!(it.int(&x));
                            let l = Int::map1(&x, 64, false, |c| char::from_u32(c as u32).map(|c| c.len_utf8()).unwrap_or(0) as u128);
                            let Some(l) = l else { return Some(unk("string length")) };
                            let Some(s) = tot.wrapping('+', &l) else { return Some(unk("string length")) };
                            tot = s;
                        }
                        ret(st, Val::Int(tot))
                    }
                }
            }
            _ => return None,
        });
    }
    if n.starts_with("<std::str::Chars<") || n.starts_with("std::str::Chars") {
        return Some(match m {
            "next" | "next_back" => {
                let mut v = t!(it.vec_of(st, &a[0]));
                if v.is_empty() {
                    return Some(ret(st, Val::none()));
                }
                let x = if m == "next" { v.remove(0) } else { v.pop().unwrap() };
                t!(it.store(st, &a[0], vecv(v)));
                ret(st, Val::some(x))
            }
            "size_hint" => {
                let v = t!(it.vec_of(st, &a[0]));
                ret(st, size_hint(v.len()))
            }
            "count" => match &a[0] {
                Val::Vec(v) => ret(st, Val::usize(v.len() as u64)),
                _ => return None,
            },
            "clone" => {
                let v = t!(it.load(st, &a[0]));
                ret(st, v)
            }
            _ => return None,
        });
    }
    if n == "std::str::from_utf8" || n.ends_with("core::str::from_utf8") || n.ends_with("str::converts::from_utf8") || n == "std::string::String::from_utf8" || n.ends_with("str>::from_utf8") {
        let owned = n.contains("String");
        let b = if owned {
            match &a[0] {
                Val::Vec(v) => v.to_vec(),
                v => return Some(unk(format!("from_utf8 of {}", v.show()))),
            }
        } else {
            t!(it.slice_vals(st, &a[0]))
        };
        let b: Vec<Int> = t!(b.iter().map(|x| it.int(x)).collect::<R<_>>());
        let Some(cs) = utf8_cases(&b, st.g) else { return Some(unk("from_utf8")) };
        let mut out = vec![];
        let mut rest = st.g;
        let valid = or_all(cs.iter().map(|c| c.0));
        if owned {
            for (g, ch) in cs {
                rest = and(rest, not(g));
                out.push((State { g, fr: st.fr.clone() }, Val::ok(strv(ch.into_iter().map(Val::Int).collect()))));
            }
        } else if valid != F {
            rest = and(rest, not(valid));
            out.push((State { g: valid, fr: st.fr.clone() }, Val::ok(a[0].clone())));
        }
        if rest != F {
            out.push((State { g: rest, fr: st.fr.clone() }, Val::err(Val::opq("utf-8 error"))));
        }
        return Some(Ok(out));
    }
    if n == "std::string::String::from_utf8_lossy" {
        let b = t!(it.slice_vals(st, &a[0]));
        let b: Vec<Int> = t!(b.iter().map(|x| it.int(x)).collect::<R<_>>());
        let Some(cs) = utf8_cases(&b, st.g) else { return Some(unk("from_utf8_lossy")) };
        let mut rest = st.g;
        let mut out = vec![];
        for (g, ch) in cs {
            rest = and(rest, not(g));
            out.push((State { g, fr: st.fr.clone() }, Val::variant(1, vec![strv(ch.into_iter().map(Val::Int).collect())])));
        }
        if rest != F {
            it.add_unk(rest, "text with replacement characters".into());
        }
        return Some(Ok(out));
    }
    if n.ends_with("from_utf8_unchecked") && n.contains("str") && !n.contains("String") {
        return Some(ret(st, a[0].clone()));
    }
    if n.starts_with("std::string::String::") || n.starts_with("<std::string::String as ") || n.starts_with("std::str::<impl ") && n.contains(" for std::string::String>") {
        return Some(match m {
            "new" | "with_capacity" | "default" => ret(st, strv(vec![])),
            "push" => {
                let mut v = t!(it.str_of(st, &a[0]));
                v.push(a[1].clone());
                t!(it.store(st, &a[0], strv(v)));
                ret(st, Val::unit())
            }
            "push_str" => {
                let mut v = t!(it.str_of(st, &a[0]));
                v.extend(t!(it.text(st, &a[1])));
                t!(it.store(st, &a[0], strv(v)));
                ret(st, Val::unit())
            }
            "pop" => {
                let mut v = t!(it.str_of(st, &a[0]));
                match v.pop() {
                    Some(x) => {
                        t!(it.store(st, &a[0], strv(v)));
                        ret(st, Val::some(x))
                    }
                    None => ret(st, Val::none()),
                }
            }
            "clear" => {
                t!(it.store(st, &a[0], strv(vec![])));
                ret(st, Val::unit())
            }
            "reserve" | "reserve_exact" | "shrink_to_fit" => ret(st, Val::unit()),
            "capacity" => ret(st, Val::usize(1 << 20)),
            "into_bytes" | "as_bytes" => {
                let v = match &a[0] {
                    Val::Str(v) => v.to_vec(),
                    p => t!(it.str_of(st, p)),
                };
                let b = t!(it.utf8_of(st, &v));
                if m == "into_bytes" {
                    return Some(ret(st, vecv(b)));
                }
                let k = b.len() as u64;
                let p = it.alloc(st, Val::agg(b), Meta::Len(Int::usize(k)));
                ret(st, p)
            }
            "len" => {
                let v = t!(it.str_of(st, &a[0]));
                let mut tot = Int::usize(0);
                for x in v {
                    let x = t!(it.int(&x));
                    let l = Int::map1(&x, 64, false, |c| char::from_u32(c as u32).map(|c| c.len_utf8()).unwrap_or(0) as u128);
                    let Some(l) = l else { return Some(unk("string length")) };
                    let Some(s) = tot.wrapping('+', &l) else { return Some(unk("string length")) };
                    tot = s;
                }
                ret(st, Val::Int(tot))
            }
            "into_boxed_str" | "leak" => match &a[0] {
                Val::Str(_) => {
                    let v = a[0].clone();
                    let p = it.alloc(st, v, Meta::Str);
                    ret(st, p)
                }
                _ => return None,
            },
            "is_empty" => {
                let v = t!(it.str_of(st, &a[0]));
                ret(st, Val::bool(if v.is_empty() { T } else { F }))
            }
            "deref" | "deref_mut" | "as_str" | "as_ref" | "borrow" | "as_mut_str" => {
                let mut p = t!(it.one_ptr(st, &a[0]));
                match t!(it.read(st, &p.loc())) {
                    Val::Str(_) => {}
                    v => return Some(unk(format!("str of {}", v.show()))),
                }
                p.meta = Meta::Str;
                ret(st, Val::ptr(p))
            }
            "clone" => {
                let v = t!(it.load(st, &a[0]));
                ret(st, v)
            }
            "from" => match &a[0] {
                Val::Ptr(_) => {
                    let v = t!(it.text(st, &a[0]));
                    ret(st, strv(v))
                }
                Val::Str(_) => ret(st, a[0].clone()),
                Val::Int(_) => ret(st, strv(vec![a[0].clone()])),
                Val::Enum(e) if e.len() == 1 => match &e[0].f[0] {
                    Val::Str(_) => ret(st, e[0].f[0].clone()),
                    p => {
                        let v = t!(it.text(st, p));
                        ret(st, strv(v))
                    }
                },
                _ => return None,
            },
            "to_string" => {
                let v = t!(it.load(st, &a[0]));
                ret(st, v)
            }
            _ => return None,
        });
    }
    if m == "spec_to_string" && !n.contains("str as") && !n.contains("String as") && !n.contains("char as") && !n.contains("bool as") {
        return Some(ret(st, Val::opq("formatted text")));
    }
    if m == "to_owned" && n.contains("ToOwned for str>") || m == "to_string" && n.contains("str as ") || m == "to_owned" && n.contains("<str as ") || m == "spec_to_string" && n.contains("str as") {
        let v = t!(it.text(st, &a[0]));
        return Some(ret(st, strv(v)));
    }
    if n.contains("Cow<") && m == "deref" || n.contains("Cow<") && m == "into_owned" {
        // Cow<'_, str>: Borrowed(&str) | Owned(String)
        let (v, owned) = if m == "deref" { (t!(it.load(st, &a[0])), false) } else { (a[0].clone(), true) };
        if let Val::Enum(e) = &v {
            let e: Vec<&Arm> = e.iter().filter(|r| and(r.g, st.g) != F).collect();
            if e.len() > 1 {
                return Some(Err(Stop::Fork(e.iter().map(|r| r.g).collect())));
            }
            if e.len() == 1 {
                if let Val::Str(_) = &e[0].f[0] {
                    if owned {
                        return Some(ret(st, e[0].f[0].clone()));
                    }
                    let l = t!(it.one_ptr(st, &a[0])).loc();
                    let mut path = l.path;
                    path.push(El::V(e[0].v as u32));
                    path.push(El::F(0));
                    return Some(ret(st, Val::ptr(Ptr { base: l.base, path: path.into(), idx: None, meta: Meta::Str })));
                }
                if e[0].v == 0 {
                    if owned {
                        let x = t!(it.text(st, &e[0].f[0]));
                        return Some(ret(st, strv(x)));
                    }
                    return Some(ret(st, e[0].f[0].clone()));
                }
            }
        }
        return None;
    }
    None
}

fn encoding_model(it: &mut Interp, n: &str, a: &[Val], st: &mut State) -> Option<Res> {
    let m = n.rsplit("::").next().unwrap_or("");
    macro_rules! t {
        ($e:expr) => {
            match $e {
                Ok(v) => v,
                Err(e) => return Some(Err(e)),
            }
        };
    }
    if !matches!(m, "decode" | "decode_without_bom_handling" | "decode_with_bom_removal" | "decode_without_bom_handling_and_without_replacement") {
        return None;
    }
    // which encoding: identified by its `name` field
    let enc = t!(it.load(st, &a[0]));
    let mut which = None;
    if let Val::Agg(f) = &enc {
        for x in f.iter() {
            if let Val::Ptr(_) = x {
                if let Ok(b) = it.slice_vals(st, x) {
                    let s: Option<Vec<u8>> = b.iter().map(|x| x.int().and_then(|i| i.as_const()).map(|v| v as u8)).collect();
                    which = s.and_then(|s| String::from_utf8(s).ok());
                }
            }
        }
    }
    let which = which.unwrap_or_default();
    if which != "windows-1252" {
        return Some(unk(format!("decoding with {which:?}")));
    }
    let b = t!(it.slice_vals(st, &a[1]));
    let b: Vec<Int> = t!(b.iter().map(|x| it.int(x)).collect::<R<_>>());
    let dec = |b: &[Int]| -> R<Vec<Val>> {
        b.iter()
            .map(|x| match Int::map1(x, 32, false, cp1252) {
                Some(v) => Ok(Val::Int(v)),
                None => unk("cp1252"),
            })
            .collect()
    };
    let wrap = |v: Vec<Val>| {
        let cow = Val::variant(1, vec![strv(v)]);
        match m {
            "decode" => Val::agg(vec![cow, a[0].clone(), Val::bool(F)]),
            "decode_without_bom_handling_and_without_replacement" => Val::some(cow),
            _ => Val::agg(vec![cow, Val::bool(F)]),
        }
    };
    let mut out = vec![];
    let mut rest = st.g;
    if m == "decode" {
        // the first bytes may select another encoding
        let is = |p: &[u128]| -> B {
            if b.len() < p.len() {
                return F;
            }
            and_all(p.iter().zip(&b).map(|(k, x)| x.eq(&Int::c(*k, 8, false)).unwrap_or(F)))
        };
        let u8b = and(is(&[0xEF, 0xBB, 0xBF]), rest);
        if u8b != F {
            rest = and(rest, not(u8b));
            let Some(cs) = utf8_cases(&b[3..], u8b) else { return Some(unk("utf-8")) };
            let mut left = u8b;
            for (g, ch) in cs {
                left = and(left, not(g));
                out.push((State { g, fr: st.fr.clone() }, wrap(ch.into_iter().map(Val::Int).collect())));
            }
            if left != F {
                // malformed: U+FFFD somewhere; the text after the mark is at most as long as the rest
                out.push((State { g: left, fr: st.fr.clone() }, wrap(vec![Val::Int(Int::c(0xFFFD, 32, false))])));
            }
        }
        let u16b = and(or(is(&[0xFE, 0xFF]), is(&[0xFF, 0xFE])), rest);
        if u16b != F {
            rest = and(rest, not(u16b));
            out.push((State { g: u16b, fr: st.fr.clone() }, wrap(vec![Val::Int(Int::c(0xFFFD, 32, false)); (b.len() - 2 + 1) / 2])));
        }
    }
    if rest != F {
        let v = t!(dec(&b));
        out.push((State { g: rest, fr: st.fr.clone() }, wrap(v)));
    }
    Some(Ok(out))
}

/// library loops replaced by the equivalents in the harness crate
pub fn redirect(it: &mut Interp, c: &Rc<Call>) -> Option<Rc<Call>> {
    if let Some(r) = it.redirect_cache.get(&c.inst) {
        return r.clone();
    }
    let r = redirect0(it, c);
    it.redirect_cache.insert(c.inst, r.clone());
    r
}
fn redirect0(it: &mut Interp, c: &Rc<Call>) -> Option<Rc<Call>> {
    let n = c.name.as_str();
    if n.contains("model::") {
        return None;
    }
    let m = n.rsplit("::").next().unwrap_or("");
    let tys = type_args(&c.args);
    let vec = n.starts_with("<std::vec::Vec<");
    let vec0 = n.starts_with("std::vec::Vec::<");
    let string = n.starts_with("<std::string::String as ") || n.starts_with("std::string::<impl std::ops") || n.starts_with("<std::string::String as std::ops");
    let string0 = n.starts_with("std::string::String::");
    let strm = n.starts_with("std::str::<impl str>::") || n.starts_with("core::str::<impl str>::") || n.starts_with("alloc::str::<impl str>::");
    let slice = n.starts_with("std::slice::<impl [T]>::") || n.starts_with("core::slice::<impl [T]>::") || n.starts_with("alloc::slice::<impl [T]>::");
    let me = || -> Option<Ty> {
        let t = c.inst.ty().kind().fn_sig()?.skip_binder().inputs().first().copied()?;
        Some(pointee(t).unwrap_or(t))
    };
    let k = tys.len();
    let ty = |t: &[Ty]| -> Vec<GenericArgKind> { t.iter().map(|t| GenericArgKind::Type(*t)).collect() };
    let is_char = |t: Ty| matches!(t.kind(), TyKind::RigidTy(RigidTy::Char));
    let (f, args): (String, Vec<GenericArgKind>) = match m {
        "from_iter" if vec => ("vec_from_iter".into(), ty(&[*tys.first()?, *tys.last()?])),
        "from_iter" | "extend" if string => {
            // impl FromIterator<X> for String: which X
            let x = n.split_once('<').map(|x| x.1).unwrap_or("");
            let base = if m == "extend" { "string_extend" } else { "string_from_iter" };
            if n.contains("<char>") {
                (base.into(), ty(&[*tys.last()?]))
            } else if n.contains("<&'a char>") || n.contains("<&char>") {
                (format!("{base}_ref"), ty(&[*tys.last()?]))
            } else if n.contains("str>") {
                (format!("{base}_strs"), ty(&[*tys.last()?]))
            } else if x.contains("Iterator<std::string::String>") || x.contains("Extend<std::string::String>") {
                (format!("{base}_owned"), ty(&[*tys.last()?]))
            } else {
                return None;
            }
        }
        "extend" if vec && (n.contains("Extend<&") ) => ("vec_extend_refs".into(), ty(&[*tys.first()?, *tys.last()?])),
        "extend" if vec => ("vec_extend".into(), ty(&[*tys.first()?, *tys.last()?])),
        "extend_one" | "extend_one_unchecked" if vec => ("vec_extend_one".into(), ty(&[*tys.first()?])),
        "fold" | "rfold" if as_vec_iter(n) => (m.into(), ty(&[me()?, tys[k - 2], tys[k - 1]])),
        "try_fold" | "try_rfold" if as_vec_iter(n) => (m.into(), ty(&[me()?, tys[k - 3], tys[k - 2], tys[k - 1]])),
        "last" | "nth" | "nth_back" | "advance_by" | "advance_back_by" if as_vec_iter(n) => (m.into(), ty(&[me()?])),
        "retain" | "retain_mut" | "resize_with" | "drain" | "pop_if" | "extend_from_within" | "dedup_by" if vec0 => {
            let t = *tys.first()?;
            (format!("vec_{m}"), ty(&[t, *tys.last()?]))
        }
        "dedup" if vec0 => ("vec_dedup".into(), ty(&[*tys.first()?])),
        "dedup_by_key" if vec0 && k == 4 => ("vec_dedup_by_key".into(), ty(&[tys[0], tys[2], tys[3]])),
        "resize" | "split_off" if vec0 => (format!("vec_{m}"), ty(&[*tys.first()?])),
        "from_elem" if n.starts_with("std::vec::from_elem") || n.starts_with("alloc::vec::from_elem") => ("vec_from_elem".into(), ty(&[*tys.first()?])),
        "reverse" | "rotate_left" | "rotate_right" if slice => (format!("slice_{m}"), ty(&[*tys.first()?])),
        "repeat" if slice => ("slice_repeat".into(), ty(&[*tys.first()?])),
        "sort" | "sort_unstable" if slice => ("slice_sort".into(), ty(&[*tys.first()?])),
        "sort_by" | "sort_unstable_by" if slice => ("slice_sort_by".into(), ty(&[tys[0], *tys.last()?])),
        "sort_by_key" | "sort_unstable_by_key" | "sort_by_cached_key" if slice && k == 3 => ("slice_sort_by_key".into(), ty(&tys)),
        "concat" | "join" if slice || n.starts_with("<[S] as std::slice") => {
            // only of text
            let t = *tys.first()?;
            if !matches!(t.kind(), TyKind::RigidTy(RigidTy::Ref(_, s, _)) if is_str(s)) && !is_string(t) {
                if m == "concat" && n.contains("impl [T]") && k == 2 {
                    let d = it.models.get("slice_concat")?;
                    let i = Instance::resolve(*d, &GenericArgs(ty(&[tys[1], t]))).ok()?;
                    return Some(call_info(i));
                }
                return None;
            }
            (if m == "concat" { "str_concat0" } else { "str_concat" }.into(), ty(&[t]))
        }
        "trim" | "trim_start" | "trim_end" | "trim_ascii" | "trim_ascii_start" | "trim_ascii_end" | "split_whitespace" | "lines" | "char_indices" | "bytes" | "repeat" | "is_char_boundary" | "split_at" | "eq_ignore_ascii_case"
            if strm =>
        {
            (format!("str_{m}"), vec![])
        }
        "eq" if n.contains("PartialEq")
            && c.inst.ty().kind().fn_sig().is_some_and(|s| {
                let s = s.skip_binder();
                s.inputs().len() == 2 && s.inputs().iter().all(|t| pointee(*t).is_some_and(|t| is_str(t) || is_string(t)))
            }) =>
        {
            ("str_eq".into(), vec![])
        }
        "eq" if n.contains("PartialEq")
            && c.inst.ty().kind().fn_sig().is_some_and(|s| {
                let s = s.skip_binder();
                let txt = |t: Ty| is_str(t) || is_string(t);
                let (Some(x), Some(y)) = (s.inputs().first().and_then(|t| pointee(*t)), s.inputs().get(1).and_then(|t| pointee(*t))) else { return false };
                txt(x) && pointee(y).is_some_and(txt)
            }) =>
        {
            ("str_eq_ref".into(), vec![])
        }
        "eq" if n.contains("PartialEq")
            && c.inst.ty().kind().fn_sig().is_some_and(|s| {
                let s = s.skip_binder();
                let txt = |t: Ty| is_str(t) || is_string(t);
                let (Some(x), Some(y)) = (s.inputs().first().and_then(|t| pointee(*t)), s.inputs().get(1).and_then(|t| pointee(*t))) else { return false };
                txt(y) && pointee(x).is_some_and(txt)
            }) =>
        {
            ("str_ref_eq".into(), vec![])
        }
        "eq" | "ne" if n.starts_with("<str as std::cmp::PartialEq") || n.starts_with("std::str::traits::<impl std::cmp::PartialEq for str>") => {
            if m == "ne" {
                return None;
            }
            ("str_eq".into(), vec![])
        }
        "cmp" if n.starts_with("<str as std::cmp::Ord") || n.starts_with("std::str::traits::<impl std::cmp::Ord for str>") => ("str_cmp".into(), vec![]),
        "index" if n.starts_with("std::str::traits::<impl std::ops::Index<") || n.starts_with("<str as std::ops::Index") || string && n.contains("Index<") => match tys.last()?.kind() {
            TyKind::RigidTy(RigidTy::Adt(d, _)) => match adt_name(&d).rsplit("::").next()? {
                "Range" => ("str_index_range".into(), vec![]),
                "RangeFrom" => ("str_index_from".into(), vec![]),
                "RangeTo" => ("str_index_to".into(), vec![]),
                _ => return None,
            },
            _ => return None,
        },
        "get" if strm => match tys.last()?.kind() {
            TyKind::RigidTy(RigidTy::Adt(d, _)) => match adt_name(&d).rsplit("::").next()? {
                "Range" => ("str_get_range".into(), vec![]),
                "RangeFrom" => ("str_get_from".into(), vec![]),
                "RangeTo" => ("str_get_to".into(), vec![]),
                _ => return None,
            },
            _ => return None,
        },
        "trim_matches" | "trim_start_matches" | "trim_end_matches" | "find" | "rfind" | "contains" | "split" | "split_once" | "rsplit_once" | "starts_with" | "ends_with" | "strip_prefix" | "strip_suffix" | "replace" if strm => {
            let p = *tys.last()?;
            let base = format!("str_{m}");
            match p.kind() {
                TyKind::RigidTy(RigidTy::Char) => (format!("{base}_c"), vec![]),
                TyKind::RigidTy(RigidTy::Array(t, n)) if is_char(t) => (format!("{base}_a"), vec![GenericArgKind::Const(n)]),
                TyKind::RigidTy(RigidTy::Ref(_, t, _)) => match t.kind() {
                    TyKind::RigidTy(RigidTy::Str) => (format!("{base}_s"), vec![]),
                    TyKind::RigidTy(RigidTy::Slice(t)) if is_char(t) => (format!("{base}_l"), vec![]),
                    _ if is_string(t) => (format!("{base}_s"), vec![]),
                    _ => return None,
                },
                TyKind::RigidTy(RigidTy::Closure(..)) | TyKind::RigidTy(RigidTy::FnDef(..)) | TyKind::RigidTy(RigidTy::FnPtr(..)) => (format!("{base}_f"), ty(&[p])),
                _ => return None,
            }
        }
        "retain" | "drain" if string0 => (format!("string_{m}"), ty(&[*tys.last()?])),
        "truncate" | "remove" | "insert" | "insert_str" | "split_off" if string0 => (format!("string_{m}"), vec![]),
        "add" if string => ("string_add".into(), vec![]),
        "add_assign" if string => ("string_add_assign".into(), vec![]),
        _ => return None,
    };
    let d = it.models.get(&f)?;
    // lifetime parameters come first, erased
    let TyKind::RigidTy(RigidTy::FnDef(_, want)) = d.ty().kind() else { return None };
    let mut ga: Vec<GenericArgKind> = want.0.iter().filter(|x| matches!(x, GenericArgKind::Lifetime(_))).map(|_| GenericArgKind::Lifetime(Region { kind: RegionKind::ReErased })).collect();
    ga.extend(args);
    if ga.len() != want.0.len() {
        return None;
    }
    let i = Instance::resolve(*d, &GenericArgs(ga)).ok()?;
    Some(call_info(i))
}
fn is_str(t: Ty) -> bool {
    matches!(t.kind(), TyKind::RigidTy(RigidTy::Str))
}
fn is_string(t: Ty) -> bool {
    matches!(t.kind(), TyKind::RigidTy(RigidTy::Adt(d, _)) if adt_name(&d).ends_with("string::String"))
}
