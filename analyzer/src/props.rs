//! The properties: which roots are analysed, under which assumptions, against
//! which specification.
use crate::bdd::*;
use crate::int::*;
use crate::interp::*;
use crate::pieces::*;
use crate::scenes::{self, Scene};
use crate::spec::*;
use crate::sym::*;
use crate::val::*;
use rustc_public::ty::*;
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};
use std::rc::Rc;
use std::time::{Duration, Instant};

pub struct Cx {
    pub roots: HashMap<String, FnDef>,
    pub it: Interp,
    pub rep: Report,
    pub thorough: bool,
    pub budget: Duration,
    /// when the whole property has to be finished
    pub end: Instant,
    pub hurried: bool,
}
pub type Hooks = Vec<(&'static str, Hook)>;

const BITS_ROOTS: &[&str] = &["root_dib", "root_vib", "root_vif_byte", "root_vifes"];

impl Cx {
    /// analyse one root over all inputs of at most `n` bytes that satisfy `assume`
    pub fn exec(&mut self, root: &str, n: usize, args: Vec<Val>, assume: impl FnOnce(&Sym) -> B, hooks: impl FnOnce(&Sym) -> Hooks) -> Option<Run> {
        let make = move || {
            let mut s = Sym::new(n);
            s.pre = and(s.pre, assume(&s));
            s
        };
        self.exec_sym(root, &format!("on inputs up to {n} bytes"), make, args, hooks)
    }
    pub fn scene(&mut self, sc: &Scene) -> Option<Run> {
        let (m, h) = (&sc.make, &sc.hooks);
        self.exec_sym(sc.root, &sc.what, || m(), vec![], |s| h(s))
    }
    /// analyse one root over the inputs described by `make`
    pub fn exec_sym(&mut self, root: &str, what: &str, make: impl FnOnce() -> Sym, args: Vec<Val>, hooks: impl FnOnce(&Sym) -> Hooks) -> Option<Run> {
        let Some(r) = find_root(&self.roots, root) else {
            self.rep.missing.push(root.into());
            return None;
        };
        reset();
        reset_atoms();
        self.it.fresh();
        self.start();
        let s = make();
        let mut want = vec![];
        for (k, h) in hooks(&s) {
            want.push(k);
            self.it.hooks.insert(k.to_string(), h);
        }
        let bits = BITS_ROOTS.contains(&root);
        let (st, arg) = s.state(bits);
        let mut a = vec![arg];
        let extra: Vec<String> = args.iter().map(|x| x.show()).collect();
        a.extend(args);
        let t0 = Instant::now();
        let name = if extra.is_empty() { root.to_string() } else { format!("{root}({})", extra.join(",")) };
        let it = &mut self.it;
        let results = give_up(|| run_root(it, &r, a, st)).unwrap_or_else(|| {
            set_until(Instant::now() + Duration::from_secs(60));
            self.it.add_unk(T, "gave up (time or memory)".into());
            vec![]
        });
        self.rep.absorb(&self.it, &format!("{name} {what}"));
        for k in want {
            if self.it.undecided.is_empty() && !self.it.hooked.iter().any(|x| x.contains(k)) {
                self.rep.missing.push(format!("{k} is never called from {name}"));
            }
        }
        self.rep.count("roots analysed", 1);
        self.rep.count("input bytes", s.n as u64);
        if std::env::var("MBA_T").is_ok() {
            eprintln!("  {name} {what}: {:?}, {} results, {} steps, {} nodes", t0.elapsed(), results.len(), self.it.steps, node_count());
        }
        Some(Run { name, sym: s, bits, ret: r.ret, results })
    }
    /// sets the time limit for the next question
    pub fn start(&mut self) {
        if !self.rep.violations.is_empty() && !self.hurried {
            // the verdict is known: do not spend long on what remains
            self.hurried = true;
            self.end = self.end.min(Instant::now() + Duration::from_secs(90));
        }
        let t = (Instant::now() + self.budget).min(self.end);
        self.it.deadline = t;
        set_until(t + Duration::from_secs(30));
    }
    pub fn judge(&mut self, run: &Run, mut sp: Spec) {
        sp.pre = and(sp.pre, run.sym.pre);
        let t0 = Instant::now();
        let (it, rep) = (&self.it, &mut self.rep);
        if give_up(|| check(it, run, &sp, rep)).is_none() {
            self.rep.undecided.push(format!("{}: gave up comparing (time or memory)", run.name));
            return;
        }
        // inputs that reach a panic instead of a result
        for p in &self.it.panics {
            let g = and_all([p.g, sp.pre, sp.ok]);
            if g != F {
                let mut at = vec![p.at.clone()];
                at.extend(p.stack.iter().rev().take(3).cloned());
                self.rep.violation(format!("{}: panics on input that must be accepted", run.name), format!("panics ({}) on input that must be accepted", p.msg), at, witness(Some(&run.sym), g));
            }
        }
        if std::env::var("MBA_T").is_ok() {
            eprintln!("    compared in {:?}, {} nodes", t0.elapsed(), node_count());
        }
    }
}
/// runs f; None if a resource limit was reached
pub fn give_up<X>(f: impl FnOnce() -> X) -> Option<X> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(x) => Some(x),
        Err(e) if e.is::<GaveUp>() => None,
        Err(e) => std::panic::resume_unwind(e),
    }
}
pub fn none(_: &Sym) -> B {
    T
}
fn nohooks(_: &Sym) -> Hooks {
    vec![]
}
fn err_val() -> Val {
    Val::err(Val::agg(vec![Val::agg(vec![Val::Int(Int::c(1, 8, false))])]))
}
/// a named boolean that is created on first use and then always the same
pub fn named(name: &str) -> B {
    thread_local!(static N: RefCell<(u64, HashMap<String, B>)> = RefCell::new((0, HashMap::new())));
    N.with(|n| {
        let mut n = n.borrow_mut();
        if n.0 != epoch() {
            *n = (epoch(), HashMap::new());
        }
        *n.1.entry(name.to_string()).or_insert_with(|| new_var(name))
    })
}
/// replaces a sub-parser `fn(&mut &Bytes) -> MBResult<X>`: succeeds under a fresh
/// predicate per input position, consumes one of `lens` bytes (chosen by fresh
/// predicates) and yields `make(position)`.  The sub-parser itself is covered by
/// its own property.
pub fn sub_parser(s: &Sym, tag: &'static str, lens: Vec<usize>, make: Rc<dyn Fn(usize) -> Vec<(B, Val)>>) -> Hook {
    let _ = s;
    Rc::new(move |it, st, args, _| {
        let cur = it.load(st, &args[0])?;
        let p = it.one_ptr(st, &cur)?;
        let (Base::Local(0, 0), Some(at), Meta::Len(left)) = (p.base, p.idx, p.meta.clone()) else {
            return unk(format!("{tag} applied to something other than the input"));
        };
        let at = at as usize;
        let mut out = vec![];
        let mut fail = st.g;
        let ok = named(&format!("{tag}_ok@{at}"));
        for (i, l) in lens.iter().enumerate() {
            let pick = pick(tag, at, &lens, i);
            let Some(lt) = left.lt(&Int::usize(*l as u64)) else { return unk("length comparison") };
            let g = and_all([st.g, ok, pick, not(lt)]);
            if g == F {
                continue;
            }
            let mut s2 = State { g, fr: st.fr.clone() };
            let Some((nl, _)) = left.arith('-', &Int::usize(*l as u64), g, true) else { return unk("length") };
            let np = Val::ptr(Ptr { idx: Some((at + l) as i64), meta: Meta::Len(nl), ..p.clone() });
            it.store(&mut s2, &args[0], np)?;
            for (h, v) in make(at) {
                let gh = and(g, h);
                if gh != F {
                    out.push((State { g: gh, fr: s2.fr.clone() }, Val::ok(v)));
                }
            }
            fail = and(fail, not(g));
        }
        if fail != F {
            out.push((State { g: fail, fr: st.fr.clone() }, err_val()));
        }
        Ok(out)
    })
}
fn pick(tag: &str, at: usize, lens: &[usize], i: usize) -> B {
    if lens.len() == 1 {
        return T;
    }
    let mut g = T;
    for k in 0..i {
        g = and(g, not(named(&format!("{tag}_len{}@{at}", lens[k]))));
    }
    if i + 1 < lens.len() {
        g = and(g, named(&format!("{tag}_len{}@{at}", lens[i])));
    }
    g
}

const H_SHORT: &str = "ShortHeader::parse";
const H_LONG: &str = "LongHeader::parse";
const H_APP: &str = "ApplicationMessage::parse";
const H_APPERR: &str = "ApplicationErrorMessage::parse";
const H_FRAME: &str = "Frame::parse";
pub const H_RECORD: &str = "Record::parse";
pub const H_MESSAGE: &str = "MBusMessage::parse";

pub fn opq(tag: &'static str) -> Rc<dyn Fn(usize) -> Vec<(B, Val)>> {
    Rc::new(move |at| vec![(T, Val::opq(&format!("{tag}@{at}")))])
}
fn any(p: Piece) -> Piece {
    Piece { e: Exp::Any, ..p }
}
/// keep only the named fields of a struct expectation
fn only(e: Exp, keep: &[&str]) -> Exp {
    match e {
        Exp::St(f) => Exp::St(f.into_iter().filter(|x| keep.contains(&x.0.as_str())).collect()),
        Exp::En(v) => Exp::En(v.into_iter().map(|x| Var { f: x.f.into_iter().map(|(n, e)| (n, only(e, keep))).collect(), ..x }).collect()),
        Exp::Cond(v) => Exp::Cond(v.into_iter().map(|(g, e)| (g, only(e, keep))).collect()),
        e => e,
    }
}

pub fn run_prop(cx: &mut Cx, id: &str) -> bool {
    match id {
        "P01" => p01(cx),
        "P02" => p02(cx),
        "P03" => p03(cx),
        "P33" => p33(cx),
        "P04" => p04(cx),
        "P05" => p05(cx),
        "P06" => p06(cx),
        "P07" => p07(cx),
        "P08" => p08(cx),
        "P09" => p09(cx),
        "P10" => p10(cx),
        "P11" => p11(cx),
        "P12" => p12(cx),
        "P13" => p13(cx),
        "P14" => p14(cx),
        "P15" => p15(cx),
        "P16" => p16(cx),
        "P17" => p17(cx),
        "P18" => p18(cx),
        "P19" => p19(cx),
        "P20" => p20(cx),
        "P21" => p21(cx),
        "P22" => p22(cx),
        "P23" => p23(cx),
        "P24" => p24(cx),
        "P25" => p25(cx),
        "P26" => p26(cx),
        "P27" => p27(cx),
        "P28" => crate::graph::purity(cx),
        "P29" => p29(cx),
        "P30" => p30(cx),
        "P35" => p35(cx),
        "P31" => p31(cx),
        "P32" => p32(cx),
        _ => return false,
    }
    true
}

// ---- link layer -------------------------------------------------------------
fn long_frame_pre(s: &Sym) -> B {
    s.is(0, 0x68)
}
pub type Seen = Rc<RefCell<Vec<(B, Option<i64>, Int)>>>;
pub fn message_hook(seen: Seen) -> Hook {
    Rc::new(move |it, st, args, _| {
        let cur = it.load(st, &args[0])?;
        let p = it.one_ptr(st, &cur)?;
        let (Base::Local(0, 0), Meta::Len(n)) = (p.base, p.meta.clone()) else {
            return unk("message parser applied to something other than the input");
        };
        seen.borrow_mut().push((st.g, p.idx, n));
        let ok = named("message_ok");
        Ok(vec![
            (State { g: and(st.g, ok), fr: st.fr.clone() }, Val::ok(Val::opq("message"))),
            (State { g: and(st.g, not(ok)), fr: st.fr.clone() }, err_val()),
        ]
        .into_iter()
        .filter(|x| x.0.g != F)
        .collect())
    })
}
/// wrapping sum of bytes, as 8 bits
pub fn sum8(s: &Sym, from: usize, n: usize) -> Int {
    let mut a = Int::c(0, 8, false);
    for i in from..from + n {
        a = a.wrapping('+', &s.bytes[i]).unwrap();
    }
    a
}
/// (accepted apart from control and message, alternatives by length)
fn long_frame(s: &Sym) -> B {
    let mut ok = F;
    for l in 2..=255usize {
        let total = l + 6;
        if total > s.n {
            break;
        }
        let c = and_all([
            s.is(0, 0x68),
            s.is(1, l as u128),
            s.is(2, l as u128),
            s.is(3, 0x68),
            s.is_len(total),
            s.is(total - 1, 0x16),
        ]);
        if and(c, s.pre) == F {
            continue;
        }
        let sum = sum8(s, 4, l).restrict(c).eq(&s.bytes[total - 2]).expect("checksum comparison");
        ok = or(ok, and(c, sum));
    }
    ok
}
fn p02(cx: &mut Cx) {
    let seen: Seen = Default::default();
    let n = if cx.thorough { 13 } else { 11 };
    let h = seen.clone();
    let Some(r) = cx.exec("root_packet", n, vec![], long_frame_pre, move |_| vec![(H_MESSAGE, message_hook(h))]) else { return };
    let s = &r.sym;
    let frame = long_frame(s);
    let (cok, _) = control(s, 4);
    let ok = and_all([frame, cok, named("message_ok")]);
    // inputs with a bad control byte or a bad message are rejected elsewhere
    let pre = T;
    let val = en(vec![varf(T, "Long", vec![("address", int(s.bytes[5].clone())), ("message", Exp::Opq("message".into()))])]);
    let used = s.len.clone();
    cx.judge(&r, Spec { pre, ok, val, used: Some(used), ctx: false });
    let seen = seen.borrow().clone();
    message_bytes(cx, &r, &seen, and(frame, cok));
    p02_long(cx);
}
/// long frames of realistic lengths
fn p02_long(cx: &mut Cx) {
    for (l, second, full) in scenes::packets(cx.thorough) {
        let seen: Seen = Default::default();
        let h = seen.clone();
        let mut sc = scenes::packet(l, second, full);
        sc.hooks = Box::new(move |_| vec![(H_MESSAGE, message_hook(h.clone()))]);
        let Some(r) = cx.scene(&sc) else { return };
        let s = &r.sym;
        let frame = long_frame(s);
        let ok = and(frame, named("message_ok"));
        let val = en(vec![varf(T, "Long", vec![("address", int(s.bytes[5].clone())), ("message", Exp::Opq("message".into()))])]);
        cx.judge(&r, Spec { pre: T, ok, val, used: Some(s.len.clone()), ctx: false });
        message_bytes(cx, &r, &seen.borrow(), frame);
    }
}
/// the message parser is given the user data of the frame, and is reached
fn message_bytes(cx: &mut Cx, r: &Run, seen: &[(B, Option<i64>, Int)], frame: B) {
    let s = &r.sym;
    cx.rep.count("message parser calls", seen.len() as u64);
    let mut reached = F;
    for (g, idx, len) in seen.iter() {
        cx.rep.obligations += 2;
        reached = or(reached, *g);
        let g = and(*g, frame);
        let want = s.bytes[1].cast(64, false).unwrap().arith('-', &Int::usize(2), g, true).unwrap().0;
        let bad = if *idx != Some(6) { g } else { differ(len, &want, g).unwrap_or(F) };
        if bad != F {
            cx.rep.violation("root_packet: wrong message bytes".into(), format!("the message parser is given {} bytes from offset {idx:?} instead of the frame's user data", len.show()), blame(&cx.it, bad), witness(Some(s), bad));
        }
    }
    // a path that was given up may or may not get there
    let lost = or_all(cx.it.undecided.iter().map(|u| u.0));
    let miss = and_all([frame, s.pre, not(reached), not(lost)]);
    if miss != F && !seen.is_empty() {
        cx.rep.violation("root_packet: message parser not reached".into(), "a valid long frame is not handed to the message parser".into(), blame(&cx.it, miss), witness(Some(s), miss));
    }
}
fn short_frame(s: &Sym) -> B {
    let sum = s.bytes[1].wrapping('+', &s.bytes[2]).unwrap().eq(&s.bytes[3]).unwrap();
    and_all([s.is(0, 0x10), s.at_least(5), sum, s.is(4, 0x16)])
}
fn p03(cx: &mut Cx) {
    let Some(r) = cx.exec("root_packet", 6, vec![], |s| not(s.is(0, 0x68)), nohooks) else { return };
    let s = &r.sym;
    let (cok, _) = control(s, 1);
    let short = and(short_frame(s), cok);
    let ack = and(s.is(0, 0xE5), s.at_least(1));
    let alts = vec![
        alt(short, 5, en(vec![varf(T, "Short", vec![("address", int(s.bytes[2].clone()))])])),
        alt(ack, 1, en(vec![var(T, "Ack")])),
    ];
    // bytes after a short frame or an acknowledgement are not looked at here
    let mut sp = whole(alts);
    sp.pre = or_all([
        and(s.is(0, 0x10), not(s.at_least(6))),
        and(s.is(0, 0xE5), s.is_len(1)),
        and(not(s.is(0, 0x10)), not(s.is(0, 0xE5))),
        s.is_len(0),
    ]);
    cx.judge(&r, sp);
}
fn p04(cx: &mut Cx) {
    if let Some(r) = cx.exec("root_packet", 5, vec![], |s| s.is(0, 0x10), nohooks) {
        let s = &r.sym;
        let (cok, ce) = control(s, 1);
        let mut sp = whole(vec![alt(cok, 5, en(vec![varf(T, "Short", vec![("control", ce)])]))]);
        sp.pre = and(short_frame(s), s.is_len(5));
        cx.judge(&r, sp);
    }
    let seen: Seen = Default::default();
    let n = 9;
    if let Some(r) = cx.exec("root_packet", n, vec![], long_frame_pre, move |_| vec![(H_MESSAGE, message_hook(seen))]) {
        let s = &r.sym;
        let (cok, ce) = control(s, 4);
        let ok = cok;
        let pre = and_all([long_frame(s), named("message_ok")]);
        cx.judge(&r, Spec { pre, ok, val: en(vec![varf(T, "Long", vec![("control", ce)])]), used: None, ctx: false });
    }
}

// ---- messages ---------------------------------------------------------------
fn p05_hooks(s: &Sym) -> Hooks {
        let app: Rc<dyn Fn(usize) -> Vec<(B, Val)>> = Rc::new(|at| {
            let some = named(&format!("app_some@{at}"));
            vec![(some, Val::some(Val::opq(&format!("app@{at}")))), (not(some), Val::none())]
        });
        vec![
            (H_SHORT, sub_parser(s, "short", vec![1], Rc::new(|at| vec![(T, Val::variant(1, vec![Val::opq(&format!("short@{at}"))]))]))),
            (H_LONG, sub_parser(s, "long", vec![2], Rc::new(|at| vec![(T, Val::variant(2, vec![Val::opq(&format!("long@{at}"))]))]))),
            (H_APP, sub_parser(s, "app", vec![0], app)),
            (H_APPERR, sub_parser(s, "apperr", vec![0], opq("apperr"))),
            (H_FRAME, sub_parser(s, "frame", vec![0], opq("frame"))),
        ]
}
fn p05(cx: &mut Cx) {
    let n = if cx.thorough { 7 } else { 5 };
    if let Some(r) = cx.exec("root_message", n, vec![], none, p05_hooks) {
        p05_judge(cx, &r);
    }
    let long: Vec<usize> = if cx.thorough { (6..=255).collect() } else { (6..=40).chain((41..=240).step_by(9)).chain(245..=255).collect() };
    for n in long {
        if let Some(r) = cx.exec_sym("root_message", &format!("on exactly {n} bytes"), || Sym::exact(n), vec![], p05_hooks) {
            p05_judge(cx, &r);
        }
    }
}
/// what the pieces of a message are: opaque results for the message alone, the
/// real ones for a whole telegram
struct Parts<'a> {
    short: &'a dyn Fn() -> (B, usize, Exp),
    long: &'a dyn Fn() -> (B, usize, Exp),
    app: &'a dyn Fn(usize) -> (B, B, Exp),
    apperr: &'a dyn Fn(usize) -> Vec<(B, Exp)>,
    frame: &'a dyn Fn(usize) -> Vec<(B, Exp)>,
}
fn p05_judge(cx: &mut Cx, r: &Run) {
    let s = &r.sym;
    let alts = message_alts(
        s,
        &Parts {
            short: &|| (and(named("short_ok@1"), s.at_least(2)), 2, Exp::Opq("short@1".into())),
            long: &|| (and(named("long_ok@1"), s.at_least(3)), 3, Exp::Opq("long@1".into())),
            app: &|o| (named(&format!("app_ok@{o}")), named(&format!("app_some@{o}")), Exp::Opq(format!("app@{o}"))),
            apperr: &|o| vec![(named(&format!("apperr_ok@{o}")), Exp::Opq(format!("apperr@{o}")))],
            frame: &|o| vec![(named(&format!("frame_ok@{o}")), Exp::Opq(format!("frame@{o}")))],
        },
    );
    let ok = or_all(alts.iter().map(|x| x.0));
    cx.rep.count("control information alternatives", alts.len() as u64);
    let val = Exp::Cond(alts);
    cx.judge(r, Spec { pre: T, ok, val, used: None, ctx: false });
}
/// a message starting with its control information byte
fn message_alts(s: &Sym, parts: &Parts) -> Vec<(B, Exp)> {
    let ci = s.bytes[0].clone();
    let mut alts: Vec<(B, Exp)> = vec![];
    // header kind -> (condition, offset after it, expected header)
    let hdr = |h: char| -> (B, usize, Exp) {
        match h {
            'S' | 'L' => {
                let (g, o, e) = if h == 'S' { (parts.short)() } else { (parts.long)() };
                (g, o, en(vec![var1(T, if h == 'S' { "Short" } else { "Long" }, e)]))
            }
            _ => (T, 1, en(vec![var(T, "None")])),
        }
    };
    let one = |v: u128| s.is(0, v);
    let mut add = |g: B, h: char, f: &dyn Fn(usize, Exp) -> Vec<(B, Exp)>| {
        let (hg, o, he) = hdr(h);
        if and(g, hg) == F {
            return;
        }
        for (g2, e) in f(o, he) {
            alts.push((and_all([g, hg, g2, s.at_least(1)]), e));
        }
    };
    let with_ci = |name: &'static str| {
        let ci = ci.clone();
        move |o: usize, he: Exp| vec![(T, en(vec![varn(T, name, vec![int(ci.clone()), he, rest(s, o)])]))]
    };
    add(s.within(0, 0, 0x1F), 'N', &with_ci("Dlms"));
    for (v, h) in [(0x60, 'L'), (0x7C, 'L'), (0x61, 'S'), (0x7D, 'S')] {
        add(one(v), h, &with_ci("Dlms"));
    }
    for (v, h) in [(0x5F, 'L'), (0x9E, 'S'), (0x9F, 'L')] {
        add(one(v), h, &with_ci("SpecificUsage"));
    }
    for (v, h) in [(0xC0, 'L'), (0xC1, 'S'), (0xC2, 'L')] {
        add(one(v), h, &with_ci("ImageTransfer"));
    }
    for (v, h) in [(0xC3, 'L'), (0xC4, 'S'), (0xC5, 'L')] {
        add(one(v), h, &with_ci("SecurityTransfer"));
    }
    for (v, h) in [(0x80, 'L'), (0x81, 'N'), (0x82, 'L'), (0x83, 'N'), (0x86, 'N'), (0x87, 'L'), (0x88, 'S'), (0x89, 'N'), (0x8A, 'S'), (0x8B, 'L'), (0x8C, 'N'), (0x8D, 'N'), (0x8E, 'N'), (0x8F, 'N')] {
        add(one(v), h, &|_, he| vec![(T, en(vec![varn(T, "Wireless", vec![int(ci.clone()), he])]))]);
    }
    add(one(0x90), 'N', &|o, _| vec![(T, en(vec![varn(T, "AuthenticationAndFrgamentation", vec![rest(s, o)])]))]);
    add(s.within(0, 0xA0, 0xB7), 'N', &|o, _| vec![(T, en(vec![varn(T, "ManufacturerSpecific", vec![int(ci.clone()), rest(s, o)])]))]);
    for (v, h) in [(0x50, 'N'), (0x53, 'L')] {
        add(one(v), h, &|o, he| {
            let (ok, some, e) = (parts.app)(o);
            vec![
                (and(ok, some), en(vec![varn(T, "ApplicationSelect", vec![he.clone(), e])])),
                (and(ok, not(some)), en(vec![varn(T, "ApplicationReset", vec![he])])),
            ]
        });
    }
    for (v, h) in [(0x54, 'N'), (0x55, 'L')] {
        add(one(v), h, &|_, he| vec![(T, en(vec![varn(T, "SelectedApplicationRequest", vec![he])]))]);
    }
    for (v, h) in [(0x66, 'N'), (0x67, 'S'), (0x68, 'L')] {
        add(one(v), h, &|o, he| {
            let (ok, some, e) = (parts.app)(o);
            vec![(and(ok, some), en(vec![varn(T, "SelectedApplicationResponse", vec![he, e])]))]
        });
    }
    add(one(0x52), 'N', &|o, _| vec![(T, en(vec![varn(T, "SelectionOfDevice", vec![rest(s, o)])]))]);
    add(one(0x5C), 'N', &|_, _| vec![(T, en(vec![var(T, "SynchroniseAction")]))]);
    for (i, b) in ["Rate300", "Rate600", "Rate1200", "Rate2400", "Rate4800", "Rate9600", "Rate19200", "Rate38400"].iter().enumerate() {
        add(one(0xB8 + i as u128), 'N', &|_, _| vec![(T, en(vec![varn(T, "SetBaudRate", vec![en(vec![var(T, b)])])]))]);
    }
    for (v, h, name) in [
        (0x6C, 'L', "TimeSyncToDevice"),
        (0x6D, 'L', "TimeAdjustmentToDevice"),
        (0x51, 'N', "CommandToDevice"),
        (0x5A, 'S', "CommandToDevice"),
        (0x5B, 'L', "CommandToDevice"),
        (0x71, 'N', "AlarmFromDevice"),
        (0x74, 'S', "AlarmFromDevice"),
        (0x75, 'L', "AlarmFromDevice"),
    ] {
        add(one(v), h, &|o, he| vec![(T, en(vec![varn(T, name, vec![he, rest(s, o)])]))]);
    }
    for (v, h) in [(0x6E, 'S'), (0x6F, 'L'), (0x70, 'N')] {
        add(one(v), h, &|o, he| (parts.apperr)(o).into_iter().map(|(g, e)| (g, en(vec![varn(T, "ApplicationErrorFromDevice", vec![he.clone(), e])]))).collect());
    }
    for (v, h) in [(0x72, 'L'), (0x78, 'N'), (0x7A, 'S')] {
        add(one(v), h, &|o, he| (parts.frame)(o).into_iter().map(|(g, e)| (g, en(vec![varn(T, "ResponseFromDevice", vec![he.clone(), e])]))).collect());
    }
    alts
}

// ---- headers ----------------------------------------------------------------
const LAYOUT: &[&str] = &["0", "identifier", "version", "access_number", "status", "extra_header"];
fn p06(cx: &mut Cx) {
    if let Some(r) = cx.exec("root_short_header", 5, vec![], none, nohooks) {
        let s = &r.sym;
        let p = short_header(s, 0);
        let mut sp = whole(Piece { e: only(p.e, LAYOUT), ..p }.at(s, 0, T));
        let (sec, _) = security(s, 2);
        sp.pre = or(sec, not(s.at_least(4)));
        cx.judge(&r, sp);
    }
    if let Some(r) = cx.exec("root_long_header", 13, vec![], none, nohooks) {
        let s = &r.sym;
        let p = long_header(s, 0);
        let mut sp = whole(Piece { e: only(p.e, LAYOUT), ..p }.at(s, 0, T));
        let (sec, _) = security(s, 10);
        let man = letters(&s.le(4, 2, 16, false).to_bits().unwrap());
        let man_ok = and_all(man.iter().map(|c| crate::models::in_range(c, 'A' as u128, 'Z' as u128).unwrap()));
        sp.pre = or(and(sec, man_ok), not(s.at_least(12)));
        cx.judge(&r, sp);
    }
}
fn p07(cx: &mut Cx) {
    if let Some(r) = cx.exec("root_long_header", 12, vec![], none, nohooks) {
        let s = &r.sym;
        let p = long_header(s, 0);
        let ok = p.ok;
        let mut sp = whole(Piece { e: only(p.e, &["0", "device_type"]), ..p }.at(s, 0, T));
        sp.pre = and(ok, s.at_least(12));
        sp.used = None;
        cx.rep.count("device type codes", 256);
        cx.judge(&r, sp);
    }
}
fn p08(cx: &mut Cx) {
    // the code itself
    if let Some(r) = find_root(&cx.roots, "root_unpack_manufacturer") {
        reset();
        reset_atoms();
        cx.it.fresh();
        cx.start();
        let code = int_vars("code", 16, false);
        let sym = Sym::exact(0);
        let st = State { g: T, fr: vec![Rc::new(vec![Val::agg(vec![]), sym.ptr()])] };
        let results = run_root(&mut cx.it, &r, vec![Val::Int(code.clone())], st);
        cx.rep.absorb(&cx.it, "root_unpack_manufacturer on all 16-bit codes");
        cx.rep.count("roots analysed", 1);
        let run = Run { name: "root_unpack_manufacturer".into(), sym, bits: false, ret: r.ret, results };
        let e = text(letters(&code.to_bits().unwrap()));
        cx.judge(&run, Spec { pre: T, ok: T, val: e, used: None, ctx: false });
    } else {
        cx.rep.missing.push("root_unpack_manufacturer".into());
    }
    // the header only accepts three capital letters
    if let Some(r) = cx.exec("root_long_header", 12, vec![], none, nohooks) {
        let s = &r.sym;
        let p = long_header(s, 0);
        let mut sp = whole(Piece { e: only(p.e, &["0", "manufacturer"]), ..p }.at(s, 0, T));
        let id = bcd_parts(s, 0, 4);
        let (sec, _) = security(s, 10);
        sp.pre = and_all([s.at_least(12), id.ok, not(id.neg), sec]);
        sp.used = None;
        cx.judge(&r, sp);
    }
}
fn p09(cx: &mut Cx) {
    let Some(r) = find_root(&cx.roots, "root_device_name") else {
        cx.rep.missing.push("root_device_name".into());
        return;
    };
    reset();
    reset_atoms();
    cx.it.fresh();
    cx.start();
    let man = int_vars("manufacturer", 16, false);
    let ver = int_vars("version", 8, false);
    let sym = Sym::exact(4);
    let Some((ty, tys)) = any_enum(r.arg_tys[3], "device_type") else {
        cx.rep.undecided.push("device type is no longer an enum".into());
        return;
    };
    let arr = Val::agg(sym.bytes.iter().map(|b| Val::Int(b.clone())).collect());
    let st = State { g: T, fr: vec![Rc::new(vec![arr, sym.ptr()])] };
    let results = run_root(&mut cx.it, &r, vec![sym.ptr(), Val::Int(man.clone()), Val::Int(ver.clone()), ty], st);
    cx.rep.absorb(&cx.it, "root_device_name on all codes, versions, identifiers and device types");
    cx.rep.count("roots analysed", 1);
    cx.rep.count("device names", NAMES.len() as u64);
    let is = |a: &str, b: Option<&str>| or_all(tys.iter().filter(|t| t.0 == a && b.is_none_or(|b| t.1 == b)).map(|t| t.2));
    let e = device_name(&man, &ver, &sym.bytes[3], &is);
    let mut c = Cmp::default();
    for (s, v) in &results {
        compare(&cx.it, s, r.ret, v, &e, s.g, "name", &mut c);
    }
    cx.rep.obligations += c.checked;
    for m in c.bad {
        cx.rep.violation("root_device_name: wrong name".into(), m.what, blame(&cx.it, m.g), witness(Some(&sym), m.g));
    }
    for (_, u) in c.unsure {
        cx.rep.undecided.push(format!("root_device_name: {u}"));
    }
    // the name a header carries is the one for its own fields
    if let Some(r) = cx.exec("root_long_header", 12, vec![], none, nohooks) {
        let s = &r.sym;
        let p = long_header(s, 0);
        let ok = p.ok;
        let mut sp = whole(Piece { e: only(p.e, &["0", "device_name"]), ..p }.at(s, 0, T));
        sp.pre = and(ok, s.at_least(12));
        sp.used = None;
        cx.judge(&r, sp);
    }
}
/// an unknown value of an enum type (fields, if any, must be field-less enums);
/// returns the value and (variant, inner variant, condition) for every case
fn any_enum(ty: Ty, name: &str) -> Option<(Val, Vec<(String, String, B)>)> {
    let vs = variants(ty)?;
    let mut out = vec![];
    let mut arms = vec![];
    let sel = int_vars(name, 8, false);
    let n = vs.len();
    for (i, (vn, fs)) in vs.iter().enumerate() {
        let g = if i + 1 == n { not(sel.lt(&Int::c(i as u128, 8, false))?) } else { sel.eq(&Int::c(i as u128, 8, false))? };
        let mut f = vec![];
        match fs.len() {
            0 => out.push((vn.clone(), String::new(), g)),
            1 => {
                let (v, inner) = any_enum(fs[0].1, &format!("{name}.{vn}"))?;
                for x in inner {
                    out.push((vn.clone(), x.0, and(g, x.2)));
                }
                f.push(v);
            }
            _ => return None,
        }
        arms.push(Arm { v: i, g, f: Rc::new(f) });
    }
    if arms.len() == 1 {
        arms[0].g = T;
    }
    Some((Val::Enum(Rc::new(arms)), out))
}
fn p10(cx: &mut Cx) {
    if let Some(r) = cx.exec("root_short_header", 4, vec![], none, nohooks) {
        let s = &r.sym;
        let p = short_header(s, 0);
        let mut sp = whole(Piece { e: only(p.e, &["0", "configuration_field"]), ..p }.at(s, 0, T));
        sp.pre = s.at_least(4);
        sp.used = None;
        cx.judge(&r, sp);
    }
    if let Some(r) = cx.exec("root_long_header", 12, vec![], none, nohooks) {
        let s = &r.sym;
        let p = long_header(s, 0);
        let (sec, _) = security(s, 10);
        let ok = p.ok;
        let mut sp = whole(Piece { e: only(p.e, &["0", "configuration_field"]), ..p }.at(s, 0, T));
        sp.pre = and(s.at_least(12), or(ok, not(sec)));
        sp.used = None;
        cx.judge(&r, sp);
    }
}

// ---- records ----------------------------------------------------------------
fn p11(cx: &mut Cx) {
    // one data information block is at most eleven bytes
    if let Some(r) = cx.exec("root_dib", 12, vec![], none, nohooks) {
        let sp = whole(dib(&r.sym, 0, r.sym.pre));
        cx.judge(&r, sp);
    }
    for k in [8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 39] {
        if let Some(r) = cx.scene(&scenes::dib_chain(40, k)) {
            let sp = whole(dib(&r.sym, 0, r.sym.pre));
            cx.judge(&r, sp);
        }
    }
}
fn vib_alts(s: &Sym, keep_extra: bool, keep_type: bool) -> Vec<Alt> {
    vib(s, 0, s.pre)
        .into_iter()
        .map(|v| {
            let mut f = vec![];
            if keep_type {
                f.push(("value_type", en(v.vt)));
            }
            if keep_extra {
                f.push(("extra_vifes", v.extra));
            }
            alt(v.g, v.end, st(f))
        })
        .collect()
}
fn p12(cx: &mut Cx) {
    if let Some(r) = cx.exec("root_vib", 1, vec![], |s| not(s.bit(0, 7)), nohooks) {
        let s = &r.sym;
        let mut sp = whole(vib_alts(s, false, true));
        sp.pre = and(s.at_least(1), s.within(0, 0, 0x7A));
        cx.rep.count("table rows", TABLE_10.len() as u64);
        cx.judge(&r, sp);
    }
}
fn p13(cx: &mut Cx) {
    if let Some(r) = cx.exec("root_vib", 3, vec![], |s| or(s.is(0, 0xFB), s.is(0, 0xFD)), nohooks) {
        let s = &r.sym;
        let mut sp = whole(vib_alts(s, false, true));
        let two = and(s.at_least(2), not(s.bit(1, 7)));
        let three = and_all([s.at_least(3), s.is(0, 0xFD), s.is(1, 0xFD), not(s.bit(2, 7))]);
        let lost = and(s.is(0, 0xFD), s.is(1, 0x7D));
        sp.pre = or(and(two, not(lost)), three);
        sp.used = None;
        cx.rep.count("table rows", (TABLE_12.len() + TABLE_13.len() + TABLE_14.len()) as u64);
        cx.judge(&r, sp);
    }
}
fn p14(cx: &mut Cx) {
    let n = if cx.thorough { 8 } else { 6 };
    if let Some(r) = cx.exec("root_vib", n, vec![], none, nohooks) {
        p14_vib(cx, &r);
    }
    for n in 7..=11 + 3 * cx.thorough as usize {
        if let Some(r) = cx.exec_sym("root_vib", &format!("on exactly {n} bytes"), || Sym::exact(n), vec![], nohooks) {
            p14_vib(cx, &r);
        }
    }
    for (vif, n, k) in [(0x93, 40, 35), (0xFB, 130, 129), (0xFD, 250, 249), (0xFF, 250, 249), (0xFE, 40, 39), (0xFF, 20, 20)] {
        if let Some(r) = cx.scene(&scenes::vib_chain(vif, n, k)) {
            p14_vib(cx, &r);
        }
    }
    for (n, ext) in (0..=255).map(|n| (n, n % 4 == 0)).chain((0..64).map(|n| (4 * n, false))) {
        if let Some(r) = cx.scene(&scenes::vib_text(n, ext)) {
            p14_vib(cx, &r);
        }
    }
    let n = if cx.thorough { 12 } else { 8 };
    if let Some(r) = cx.exec("root_vifes", n, vec![], none, nohooks) {
        p14_vifes(cx, &r);
    }
    for n in 9..=16 + 8 * cx.thorough as usize {
        if let Some(r) = cx.exec_sym("root_vifes", &format!("on exactly {n} bytes"), || Sym::exact(n), vec![], nohooks) {
            p14_vifes(cx, &r);
        }
    }
    for (n, k) in (9..64).flat_map(|n| [(n, n - 1), (n, n)]).chain([(40, 31), (40, 32), (40, 33), (130, 127), (130, 128), (250, 249), (250, 250)]) {
        if let Some(r) = cx.scene(&scenes::vifes(n, k)) {
            p14_vifes(cx, &r);
        }
    }
}
fn p14_vib(cx: &mut Cx, r: &Run) {
    let s = &r.sym;
    // the meaning of single codes is covered elsewhere
    let head: &[&str] = &["Any", "PlainText", "ManufacturerSpecific", "Invalid"];
    let alts = vib(s, 0, s.pre)
        .into_iter()
        .map(|v| {
            let special = v.vt.iter().any(|x| head.contains(&x.name.as_str()));
            let mut f = vec![("extra_vifes", v.extra)];
            if special {
                f.push(("value_type", en(v.vt)));
            }
            alt(v.g, v.end, st(f))
        })
        .collect();
    cx.judge(r, whole(alts));
}
fn p14_vifes(cx: &mut Cx, r: &Run) {
    let s = &r.sym;
    let mut alts = vec![];
    let mut chain = T;
    let mut vals = vec![];
    for k in 0..s.n {
        let here = and(chain, s.at_least(k + 1));
        vals.push(int(s.field(k, 6, 0, 8, false)));
        let last = and(here, not(s.bit(k, 7)));
        if last != F {
            alts.push(alt(last, k + 1, seq(vals.clone())));
        }
        chain = and(here, s.bit(k, 7));
    }
    cx.judge(r, whole(alts));
}
fn no_ext(s: &Sym) -> B {
    and_all([not(s.bit(0, 7)), not(s.bit(1, 7)), not(s.is(1, 0x7C)), not(dif_nibble(s, 0, 13))])
}
fn p15(cx: &mut Cx) {
    // every data field size with every primary value type
    if let Some(r) = cx.exec("root_record", 11, vec![], no_ext, nohooks) {
        let sp = whole(record(&r.sym, 0, r.sym.pre));
        cx.judge(&r, sp);
    }
    // with the extension table: signedness and daylight saving
    if let Some(r) = cx.exec("root_record", 12, vec![], |s| and_all([not(s.bit(0, 7)), or(s.is(1, 0xFD), s.is(1, 0xFB)), not(s.bit(2, 7)), not(dif_nibble(s, 0, 13))]), nohooks) {
        let sp = whole(record(&r.sym, 0, r.sym.pre));
        cx.judge(&r, sp);
    }
    // anything at all, short
    let n = if cx.thorough { 6 } else { 4 };
    if let Some(r) = cx.exec("root_record", n, vec![], none, nohooks) {
        let sp = whole(record(&r.sym, 0, r.sym.pre));
        cx.judge(&r, sp);
    }
    for n in 5..=5 + 2 * cx.thorough as usize {
        if let Some(r) = cx.exec_sym("root_record", &format!("on exactly {n} bytes"), || Sym::exact(n), vec![], nohooks) {
            let sp = whole(record(&r.sym, 0, r.sym.pre));
            cx.judge(&r, sp);
        }
    }
    for sc in scenes::shapes(cx.thorough) {
        if let Some(r) = cx.scene(&sc) {
            let sp = whole(record(&r.sym, 0, r.sym.pre));
            cx.judge(&r, sp);
        }
    }
}
fn p16(cx: &mut Cx) {
    let check = |cx: &mut Cx, r: Option<Run>| {
        if let Some(r) = r {
            let sp = whole(record(&r.sym, 0, r.sym.pre));
            cx.judge(&r, sp);
        }
    };
    let signed = |s: &Sym| and_all([s.is(0, 0x0D), s.is(1, 0x13)]);
    let unsigned = |s: &Sym| and_all([s.is(0, 0x0D), or(and(s.is(1, 0xFD), not(s.bit(2, 7))), s.is(1, 0x6D)), not(s.is(1, 0x7C))]);
    // anything at all, short
    let n = if cx.thorough { 12 } else { 8 };
    let r = cx.exec("root_record", n, vec![], signed, nohooks);
    check(cx, r);
    let r = cx.exec("root_record", n, vec![], unsigned, nohooks);
    check(cx, r);
    // every LVAR byte with its data, one byte less and one more
    for v in 0..=255u128 {
        for sc in scenes::lvar(v) {
            let r = cx.scene(&sc);
            check(cx, r);
        }
    }
    for (k, m, n) in [(1, 1, 5), (3, 0, 4), (0, 2, 5), (10, 2, 4)] {
        if let Some(r) = cx.scene(&scenes::shaped(k, m, n, true)) {
            let sp = whole(record(&r.sym, 0, r.sym.pre));
            cx.judge(&r, sp);
        }
    }
}

// ---- numbers and text -------------------------------------------------------
fn p17(cx: &mut Cx) {
    for (root, signed) in [("root_signed", true), ("root_unsigned", false)] {
        for n in 0..=8usize {
            if let Some(r) = cx.exec(root, n + 1, vec![Val::usize(n as u64)], none, nohooks) {
                let s = &r.sym;
                let sp = whole(integer(s, 0, n, signed).at(s, 0, T));
                cx.judge(&r, sp);
            }
        }
    }
    for n in 0..=8usize {
        for u in [false, true] {
            if let Some(r) = cx.exec("root_binary", n + 1, vec![Val::bool(if u { T } else { F }), Val::usize(n as u64)], none, nohooks) {
                let s = &r.sym;
                let p = integer(s, 0, n, !u);
                let sp = whole(Piece { e: en(vec![var1(T, if u { "Unsigned" } else { "Signed" }, p.e)]), ..p }.at(s, 0, T));
                cx.judge(&r, sp);
            }
        }
    }
}
fn p18(cx: &mut Cx) {
    for n in 0..=9usize {
        if let Some(r) = cx.exec("root_bcd", n + 1, vec![Val::usize(n as u64)], none, nohooks) {
            let s = &r.sym;
            let sp = whole(bcd(s, 0, n).at(s, 0, T));
            cx.judge(&r, sp);
        }
    }
}
fn p19(cx: &mut Cx) {
    for n in 0..=9usize {
        if let Some(r) = cx.exec("root_invalid_bcd", n + 1, vec![Val::usize(n as u64)], none, nohooks) {
            let s = &r.sym;
            let sp = whole(invalid_bcd(s, 0, n).at(s, 0, T));
            cx.judge(&r, sp);
        }
    }
}
fn p20(cx: &mut Cx) {
    if let Some(r) = cx.exec("root_real", 5, vec![], none, nohooks) {
        let s = &r.sym;
        let sp = whole(real(s, 0).at(s, 0, T));
        cx.judge(&r, sp);
    }
}
fn p21(cx: &mut Cx) {
    for (root, n, f) in [("root_type_f", 5, date_f as fn(&Sym, usize) -> Piece), ("root_type_g", 3, date_g)] {
        if let Some(r) = cx.exec(root, n, vec![], none, nohooks) {
            let s = &r.sym;
            let sp = whole(f(s, 0).at(s, 0, T));
            cx.judge(&r, sp);
        }
    }
}
fn p22(cx: &mut Cx) {
    for (root, n, f) in [("root_type_i", 7, date_i as fn(&Sym, usize) -> Piece), ("root_type_j", 4, time_j)] {
        if let Some(r) = cx.exec(root, n, vec![], none, nohooks) {
            let s = &r.sym;
            let p = f(s, 0);
            let mut sp = whole(p.at(s, 0, T));
            if root == "root_type_j" {
                sp.pre = T;
            }
            cx.judge(&r, sp);
        }
    }
}
fn p23(cx: &mut Cx) {
    if let Some(r) = cx.exec("root_type_k", 5, vec![], none, nohooks) {
        let s = &r.sym;
        let sp = whole(dst_k(s, 0).at(s, 0, T));
        cx.judge(&r, sp);
    }
}
fn p24(cx: &mut Cx) {
    let n = if cx.thorough { 8 } else { 6 };
    if let Some(r) = cx.exec("root_ascii", n, vec![], none, nohooks) {
        let s = &r.sym;
        let sp = whole(plain_text(s, 0, T));
        cx.judge(&r, sp);
    }
    for n in 7..=255 {
        if let Some(r) = cx.scene(&scenes::ascii(n)) {
            let sp = whole(plain_text(&r.sym, 0, T));
            cx.judge(&r, sp);
        }
    }
    let sizes: Vec<usize> = (0..=if cx.thorough { 255 } else { 191 }).collect();
    for n in sizes {
        if let Some(r) = cx.exec("root_latin1", n + 1, vec![Val::usize(n as u64)], none, nohooks) {
            let s = &r.sym;
            let sp = whole(latin1(s, 0, n).at(s, 0, T));
            cx.judge(&r, sp);
        }
    }
}

// ---- application layer ------------------------------------------------------
fn frame_alts(s: &Sym, lens: &[usize], p: usize, g: B, recs: &[Exp], out: &mut Vec<(B, Exp)>) {
    if g == F {
        return;
    }
    let done = |more: bool, o: usize| {
        st(vec![
            ("records", seq(recs.to_vec())),
            ("more_data_follows", boolean(if more { T } else { F })),
            ("manufacturer_specific", rest(s, o)),
        ])
    };
    out.push((and(g, s.is_len(p)), done(false, p)));
    if p >= s.n {
        return;
    }
    let g = and(g, s.at_least(p + 1));
    out.push((and(g, s.is(p, 0x1F)), done(true, p + 1)));
    out.push((and(g, s.is(p, 0x0F)), done(false, p + 1)));
    frame_alts(s, lens, p + 1, and(g, s.is(p, 0x2F)), recs, out);
    let rec = and_all([g, not(s.is(p, 0x1F)), not(s.is(p, 0x0F)), not(s.is(p, 0x2F)), named(&format!("record_ok@{p}"))]);
    for (i, l) in lens.iter().enumerate() {
        if p + l <= s.n {
            let h = and_all([rec, pick("record", p, lens, i), s.at_least(p + l)]);
            let mut r = recs.to_vec();
            r.push(Exp::Opq(format!("record@{p}")));
            frame_alts(s, lens, p + l, h, &r, out);
        }
    }
}
fn p25(cx: &mut Cx) {
    let n = if cx.thorough { 8 } else { 6 };
    let lens: Vec<usize> = vec![1, 2, 3];
    let l2 = lens.clone();
    if let Some(r) = cx.exec("root_frame", n, vec![], none, move |s| vec![(H_RECORD, sub_parser(s, "record", l2, opq("record")))]) {
        p25_frame(cx, &r, &lens);
    }
    for (b, k, t) in scenes::LONG_FRAMES {
        if let Some(r) = cx.scene(&scenes::frame(*b, *k, *t)) {
            p25_frame(cx, &r, &[1]);
        }
    }
    // records decoded for real
    if let Some(r) = cx.exec("root_frame", 4, vec![], none, nohooks) {
        p25_real(cx, &r);
    }
    for n in 5..=5 + cx.thorough as usize {
        if let Some(r) = cx.exec_sym("root_frame", &format!("on exactly {n} bytes"), || Sym::exact(n), vec![], nohooks) {
            p25_real(cx, &r);
        }
    }
    for sc in scenes::bodies(cx.thorough) {
        if let Some(r) = cx.scene(&sc) {
            p25_real(cx, &r);
        }
    }
}
fn p25_real(cx: &mut Cx, r: &Run) {
    let s = &r.sym;
    let mut alts = vec![];
    for l in 0..=s.n {
        let body = Sym { bytes: s.bytes[..l].to_vec(), len: Int::usize(l as u64), n: l, pre: T };
        real_frames(&body, 0, and(s.is_len(l), s.pre), vec![], &mut alts);
    }
    p25_judge(cx, r, alts);
}
fn p25_frame(cx: &mut Cx, r: &Run, lens: &[usize]) {
    let mut alts = vec![];
    frame_alts(&r.sym, lens, 0, r.sym.pre, &[], &mut alts);
    p25_judge(cx, r, alts);
}
fn p25_judge(cx: &mut Cx, r: &Run, mut alts: Vec<(B, Exp)>) {
    alts.retain(|a| a.0 != F);
    cx.rep.count("frame shapes", alts.len() as u64);
    let ok = or_all(alts.iter().map(|a| a.0));
    let used = r.sym.len.clone();
    cx.judge(r, Spec { pre: T, ok, val: Exp::Cond(alts), used: Some(used), ctx: false });
}
fn p26(cx: &mut Cx) {
    let n = if cx.thorough { 6 } else { 4 };
    if let Some(r) = cx.exec("root_app_error", n, vec![], none, |s| vec![(H_RECORD, sub_parser(s, "record", vec![2], opq("record")))]) {
        p26_judge(cx, &r);
    }
    for n in 5..=253 {
        if let Some(r) = cx.scene(&scenes::app_error(n)) {
            p26_judge(cx, &r);
        }
    }
}
fn p26_judge(cx: &mut Cx, r: &Run) {
    let s = &r.sym;
    let alts = app_error_alts(s, vec![(and(s.at_least(3), named("record_ok@1")), Exp::Opq("record@1".into()))]);
    let ok = or_all(alts.iter().map(|a| a.0));
    cx.judge(r, Spec { pre: T, ok, val: Exp::Cond(alts), used: None, ctx: false });
}
/// an application error filling the input, given the record after its first byte
fn app_error_alts(s: &Sym, record: Vec<(B, Exp)>) -> Vec<(B, Exp)> {
    let mut alts: Vec<(B, Exp)> = vec![(s.is_len(0), en(vec![var(T, "Unspecified")]))];
    if s.n == 0 {
        return alts;
    }
    let here = s.at_least(1);
    for (c, name) in [
        (0x00, "Unspecified"),
        (0x01, "CIFieldError"),
        (0x02, "BufferOverflow"),
        (0x03, "RecordOverflow"),
        (0x04, "RecordError"),
        (0x05, "DIFEOverflow"),
        (0x06, "VIFEOverflow"),
        (0x08, "ApplicationBusy"),
        (0x09, "CreditOverflow"),
        (0x11, "NoFunction"),
        (0x12, "DataError"),
        (0x13, "RoutingOrRelayingError"),
        (0x14, "AccessViolation"),
        (0x15, "ParameterError"),
        (0x16, "SizeError"),
        (0x20, "SecurityError"),
        (0x21, "SecurityMechanismNotSupported"),
        (0x22, "InadequateSecurityMethod"),
    ] {
        alts.push((and(here, s.is(0, c)), en(vec![var(T, name)])));
    }
    for (g, e) in record {
        alts.push((and_all([here, s.is(0, 0xF0), g]), en(vec![var1(T, "DynamicError", e)])));
    }
    alts.push((and(here, s.within(0, 0xF1, 0xFF)), en(vec![varn(T, "ManufacturerSpecific", vec![int(s.bytes[0].clone()), rest(s, 1)])])));
    alts
}
fn p27(cx: &mut Cx) {
    let n = 11;
    if let Some(r) = cx.exec("root_app_message", n, vec![], none, nohooks) {
        let (alts, pre) = app_message_alts(&r.sym);
        let mut sp = whole(alts);
        sp.pre = pre;
        cx.judge(&r, sp);
    }
}
/// an application message filling the input, and when the rules cover it: the
/// application in the first byte; continuation of the application code over
/// further bytes is not covered
fn app_message_alts(s: &Sym) -> (Vec<Alt>, B) {
    let mut alts = vec![alt(s.is_len(0), 0, en(vec![var(T, "None")]))];
    let mut pre = s.is_len(0);
    if s.n == 0 {
        return (alts, pre);
    }
    let ma = s.field(0, 7, 4, 8, false);
    let names = [
        "All",
        "UserData",
        "SimpleBilling",
        "EnhancedBilling",
        "MultiTariffBilling",
        "InstantaneousValues",
        "LoadProfileValuesForManagement",
        "StaticContent",
        "InstallationAndStartup",
        "Testing",
        "Calibration",
        "Manufacturing",
        "Development",
        "SelfTest",
        "ConfigurationData",
        "UserDefinedData",
    ];
    let app = en(names.iter().enumerate().map(|(i, n)| var(ma.eq(&Int::c(i as u128, 8, false)).unwrap(), n)).collect());
    let mut low = T;
    for k in 1..=s.n.min(10) {
        if k > 1 {
            low = and(low, s.within(k - 1, 0, 0x0F));
        }
        let here = and(low, s.is_len(k));
        pre = or(pre, here);
        let mut bits = vec![F; 64];
        for i in 0..k {
            for b in 0..4 {
                bits[4 * (k - 1 - i) + b] = s.bit(i, b);
            }
        }
        alts.push(alt(
            here,
            k,
            en(vec![var1(T, "Some", st(vec![("message_application", app.clone()), ("block_number", int(Int::bits(bits, false)))]))]),
        ));
    }
    (alts, pre)
}

// ---- no panics --------------------------------------------------------------
fn panics(cx: &mut Cx, r: &Run) {
    let root = &r.name;
    cx.rep.obligations += cx.it.reach.len() as u64;
    for p in cx.it.panics.clone() {
        let g = and(p.g, r.sym.pre);
        if g == F {
            continue;
        }
        let place = p.at.rsplit(" in ").next().unwrap_or("").to_string();
        let mut at = vec![p.at.clone()];
        at.extend(p.stack.iter().rev().skip(1).take(4).cloned());
        cx.rep.violation(format!("{root}: panic in {place}: {}", p.msg), format!("can panic: {}", p.msg), at, witness(Some(&r.sym), g));
    }
}
fn p01(cx: &mut Cx) {
    cx.it.reserve_limit = i64::MAX as u64;
    everything(cx, |cx, r| {
        panics(cx, r);
        reserves(cx, r);
    });
}
/// no memory is set aside because a number in the input says so
fn p35(cx: &mut Cx) {
    cx.it.reserve_limit = RESERVE;
    everything(cx, reserves);
}
const RESERVE: u64 = 128 << 10;
fn reserves(cx: &mut Cx, r: &Run) {
    let root = &r.name;
    for (p, over) in cx.it.reserves.clone() {
        cx.rep.obligations += 1;
        let place = p.at.rsplit(" in ").next().unwrap_or("").to_string();
        cx.rep.sites.insert(format!("{place}: {}", p.stack.last().map(|s| s.split(" (").next().unwrap_or(s)).unwrap_or("")));
        let Some(o) = over else {
            cx.rep.undecided.push(format!("{root}: memory set aside in {place}"));
            continue;
        };
        let g = and(o, r.sym.pre);
        if g == F {
            continue;
        }
        let mut at = vec![p.at.clone()];
        at.extend(p.stack.iter().rev().skip(1).take(4).cloned());
        cx.rep.violation(format!("{root}: memory set aside in {place}"), format!("more than {} bytes are set aside ({}) on at most {} bytes of input", cx.it.reserve_limit, p.msg, r.sym.n), at, witness(Some(&r.sym), g));
    }
}
/// every public parser on its own and whole telegrams
fn everything(cx: &mut Cx, judge: fn(&mut Cx, &Run)) {
    let th = cx.thorough;
    let mut sites: BTreeSet<String> = BTreeSet::new();
    let mut go = |cx: &mut Cx, root: &str, n: usize, args: Vec<Val>, assume: fn(&Sym) -> B, hooks: &dyn Fn(&Sym) -> Hooks| {
        if let Some(r) = cx.exec(root, n, args, assume, hooks) {
            judge(cx, &r);
            sites.insert(root.to_string());
        }
    };
    let nh = |_: &Sym| -> Hooks { vec![] };
    let seen: Seen = Default::default();
    let msg = move |_: &Sym| -> Hooks { vec![(H_MESSAGE, message_hook(seen.clone()))] };
    go(cx, "root_packet", if th { 12 } else { 10 }, vec![], none, &msg);
    go(cx, "root_partial", if th { 10 } else { 8 }, vec![], none, &msg);
    let sub = |s: &Sym| -> Hooks { vec![(H_FRAME, sub_parser(s, "frame", vec![0], opq("frame"))), (H_RECORD, sub_parser(s, "record", vec![1], opq("record")))] };
    go(cx, "root_message", if th { 16 } else { 14 }, vec![], none, &sub);
    let rec = |s: &Sym| -> Hooks { vec![(H_RECORD, sub_parser(s, "record", vec![1, 2, 3], opq("record")))] };
    go(cx, "root_frame", 6, vec![], none, &rec);
    go(cx, "root_app_error", 5, vec![], none, &rec);
    go(cx, "root_app_message", 12, vec![], none, &nh);
    go(cx, "root_short_header", 5, vec![], none, &nh);
    go(cx, "root_long_header", 13, vec![], none, &nh);
    go(cx, "root_dib", 12, vec![], none, &nh);
    go(cx, "root_vib", 6, vec![], none, &nh);
    go(cx, "root_vifes", 8, vec![], none, &nh);
    go(cx, "root_record", if th { 6 } else { 5 }, vec![], none, &nh);
    go(cx, "root_record", 11, vec![], no_ext, &nh);
    go(cx, "root_record", 14, vec![], |s| and_all([s.is(0, 0x0D), or(s.is(1, 0x13), s.is(1, 0x6D))]), &nh);
    for r in ["root_type_f", "root_type_g", "root_type_i", "root_type_j", "root_type_k", "root_real"] {
        go(cx, r, 7, vec![], none, &nh);
    }
    go(cx, "root_ascii", 6, vec![], none, &nh);
    for n in 0..=9u64 {
        go(cx, "root_bcd", n as usize + 1, vec![Val::usize(n)], none, &nh);
        go(cx, "root_invalid_bcd", n as usize + 1, vec![Val::usize(n)], none, &nh);
        go(cx, "root_latin1", n as usize + 1, vec![Val::usize(n)], none, &nh);
        if n <= 8 {
            go(cx, "root_signed", n as usize + 1, vec![Val::usize(n)], none, &nh);
            go(cx, "root_unsigned", n as usize + 1, vec![Val::usize(n)], none, &nh);
        }
    }
    for sc in scenes::scenes(th).into_iter().chain(scenes::chains(th)).chain(scenes::telegrams(th)).chain(scenes::exact(th)) {
        if let Some(r) = cx.scene(&sc) {
            judge(cx, &r);
        }
    }
    for s in sites {
        cx.rep.sites.insert(s);
    }
}

// ---- whole telegrams --------------------------------------------------------
/// a complete long frame around application data that is decoded for real
fn p29(cx: &mut Cx) {
    let extra = if cx.thorough { 4 } else { 3 };
    // a response without a header, of any length and with any checksum
    if let Some(r) = cx.exec("root_packet", 9 + extra, vec![], |s| and_all([s.is(0, 0x68), s.is(3, 0x68), s.is(4, 0x08), s.is(5, 0x01), s.is(6, 0x78), s.at_least(9), s.bytes[1].eq(&s.bytes[2]).unwrap()]), nohooks) {
        p29_judge(cx, &r);
    }
    for t in scenes::telegrams(cx.thorough) {
        if let Some(r) = cx.scene(&t) {
            p29_judge(cx, &r);
        }
    }
}
fn p29_judge(cx: &mut Cx, r: &Run) {
    let s = &r.sym;
    let frame = long_frame(s);
    let (cok, ce) = control(s, 4);
    let mut alts: Vec<(B, Exp)> = vec![];
    let mut open = F;
    for l in 9..=s.n {
        // the message occupies bytes 6..l-2
        let g = and_all([frame, cok, s.is_len(l), s.pre]);
        if g == F {
            continue;
        }
        let m = Sym { bytes: s.bytes[6..l - 2].to_vec(), len: Int::usize((l - 8) as u64), n: l - 8, pre: T };
        let (a, o) = real_messages(&m, g);
        alts.extend(a);
        open = or(open, and(g, o));
    }
    alts.retain(|a| a.0 != F);
    cx.rep.count("telegram shapes", alts.len() as u64);
    let ok = or_all(alts.iter().map(|a| a.0));
    let used = s.len.clone();
    let alts = alts
        .into_iter()
        .map(|(g, e)| (g, en(vec![varf(T, "Long", vec![("control", ce.clone()), ("address", int(s.bytes[5].clone())), ("message", e)])])))
        .collect();
    cx.judge(r, Spec { pre: not(open), ok, val: Exp::Cond(alts), used: Some(used), ctx: false });
}
/// the messages `m` may be, and when no rule says what it is
fn real_messages(m: &Sym, g: B) -> (Vec<(B, Exp)>, B) {
    let body = |o: usize| Sym { bytes: m.bytes[o..].to_vec(), len: Int::usize((m.n - o) as u64), n: m.n - o, pre: T };
    let open = std::cell::Cell::new(F);
    let short = || {
        let h = short_header(m, 1);
        (if m.n < 5 { F } else { h.ok }, 5.min(m.n), inner(h.e))
    };
    let long = || {
        if m.n < 13 {
            return (F, m.n, Exp::Any);
        }
        let h = long_header(m, 1);
        (h.ok, 13, inner(h.e))
    };
    let app = |o: usize| {
        let b = body(o);
        let (alts, pre) = app_message_alts(&b);
        let cis: &[u128] = match o {
            1 => &[0x50, 0x66],
            5 => &[0x67],
            _ => &[0x53, 0x68],
        };
        open.set(or(open.get(), and(or_all(cis.iter().map(|c| m.is(0, *c))), not(pre))));
        let ok = or_all(alts.iter().map(|a| a.g));
        let e = Exp::Cond(alts.into_iter().skip(1).map(|a| (a.g, inner(a.e))).collect());
        (ok, not(b.is_len(0)), e)
    };
    let apperr = |o: usize| {
        let b = body(o);
        let h = and(g, m.is(0, if o == 1 { 0x70 } else if o == 5 { 0x6E } else { 0x6F }));
        let recs = if b.n == 0 { vec![] } else { record(&b, 1, and(h, b.is(0, 0xF0))).into_iter().map(|a| (a.g, a.e)).collect() };
        app_error_alts(&b, recs)
    };
    let frame = |o: usize| {
        let h = and(g, m.is(0, if o == 1 { 0x78 } else if o == 5 { 0x7A } else { 0x72 }));
        let mut alts = vec![];
        real_frames(&body(o), 0, h, vec![], &mut alts);
        alts
    };
    let mut alts = message_alts(m, &Parts { short: &short, long: &long, app: &app, apperr: &apperr, frame: &frame });
    for a in alts.iter_mut() {
        a.0 = and(a.0, g);
    }
    alts.retain(|a| a.0 != F);
    (alts, open.get())
}
/// what the only variant of an expected value carries
fn inner(e: Exp) -> Exp {
    match e {
        Exp::En(mut v) if v.len() == 1 && v[0].f.len() == 1 => v.remove(0).f.remove(0).1,
        e => e,
    }
}
fn real_frames(s: &Sym, p: usize, g: B, recs: Vec<Exp>, out: &mut Vec<(B, Exp)>) {
    if g == F {
        return;
    }
    let done = |more: bool, o: usize| {
        st(vec![
            ("records", seq(recs.clone())),
            ("more_data_follows", boolean(if more { T } else { F })),
            ("manufacturer_specific", rest(s, o)),
        ])
    };
    if p >= s.n {
        out.push((g, done(false, p)));
        return;
    }
    out.push((and(g, s.is(p, 0x1F)), done(true, p + 1)));
    out.push((and(g, s.is(p, 0x0F)), done(false, p + 1)));
    real_frames(s, p + 1, and(g, s.is(p, 0x2F)), recs.clone(), out);
    let rec = and_all([g, not(s.is(p, 0x1F)), not(s.is(p, 0x0F)), not(s.is(p, 0x2F))]);
    for a in record(s, p, rec) {
        let h = and(rec, a.g);
        if h == F {
            continue;
        }
        let mut r = recs.clone();
        r.push(a.e);
        real_frames(s, a.end, h, r, out);
    }
}

// ---- resources --------------------------------------------------------------
/// every loop ends, and the nesting of calls does not grow with the input
fn p30(cx: &mut Cx) {
    let th = cx.thorough;
    let mut loops: BTreeSet<String> = BTreeSet::new();
    let mut look = |cx: &mut Cx, r: &Run| -> HashMap<String, u32> {
        let root = &r.name;
        for p in cx.it.spins.clone() {
            let g = and(p.g, r.sym.pre);
            let place = p.at.rsplit(" in ").next().unwrap_or("").to_string();
            let mut at = vec![p.at.clone()];
            at.extend(p.stack.iter().rev().take(4).cloned());
            cx.rep.violation(format!("{root}: endless loop in {place}"), format!("{} (abandoned after {} rounds on at most {} bytes)", p.msg, cx.it.max_rounds, r.sym.n), at, witness(Some(&r.sym), g));
        }
        for ((f, b), _) in &cx.it.rounds {
            loops.insert(format!("{} block {b}", cx.it.infos[*f].name));
        }
        cx.rep.obligations += cx.it.rounds.len() as u64 + cx.it.nest.len() as u64;
        let mut m: HashMap<String, u32> = HashMap::new();
        for (f, k) in &cx.it.nest {
            let f = &cx.it.infos[*f];
            if f.repo {
                let e = m.entry(f.name.clone()).or_insert(0);
                *e = (*e).max(*k);
            }
        }
        m
    };
    for sc in scenes::scenes(th).into_iter().chain(scenes::chains(th)).chain(scenes::telegrams(th)).chain(scenes::exact(th)) {
        if let Some(r) = cx.scene(&sc) {
            look(cx, &r);
        }
    }
    let mut one = |cx: &mut Cx, root: &str, n: usize, args: Vec<Val>, assume: fn(&Sym) -> B, hooks: &dyn Fn(&Sym) -> Hooks| -> HashMap<String, u32> {
        match cx.exec(root, n, args, assume, hooks) {
            Some(r) => look(cx, &r),
            None => HashMap::new(),
        }
    };
    let nh = |_: &Sym| -> Hooks { vec![] };
    let rec = |s: &Sym| -> Hooks { vec![(H_RECORD, sub_parser(s, "record", vec![1], opq("record")))] };
    let seen: Seen = Default::default();
    let msg = move |_: &Sym| -> Hooks { vec![(H_MESSAGE, message_hook(seen.clone()))] };
    let dif_chain = |s: &Sym| and_all((0..s.n.min(4)).map(|i| s.bit(i, 7)));
    let vif_chain = |s: &Sym| and_all((0..s.n.min(4)).map(|i| s.bit(i, 7)));
    let plan: Vec<(&str, [usize; 2], Vec<Val>, fn(&Sym) -> B, &dyn Fn(&Sym) -> Hooks)> = vec![
        ("root_dib", [14, 20], vec![], dif_chain, &nh),
        ("root_vifes", [12, 18], vec![], none, &nh),
        ("root_vib", [7, 9], vec![], vif_chain, &nh),
        ("root_frame", [5, 7], vec![], none, &rec),
        ("root_app_error", [4, 8], vec![], none, &rec),
        ("root_app_message", [11, 13], vec![], none, &nh),
        ("root_packet", [8, 10], vec![], none, &msg),
        ("root_partial", [8, 10], vec![], none, &msg),
        ("root_ascii", [6, 8], vec![], none, &nh),
        ("root_long_header", [12, 14], vec![], none, &nh),
        ("root_short_header", [4, 6], vec![], none, &nh),
    ];
    let compare = |cx: &mut Cx, root: &str, a: HashMap<String, u32>, b: HashMap<String, u32>, why: &str| {
        let mut names: Vec<&String> = b.keys().collect();
        names.sort();
        for f in names {
            let (x, y) = (a.get(f).copied().unwrap_or(0), b[f]);
            if y > x && x > 1 {
                cx.rep.violation(format!("{root}: unbounded recursion in {f}"), format!("{f} calls itself {x} deep and then {y} deep {why}: the call stack grows with the input"), vec![f.clone()], String::new());
            }
        }
    };
    for (root, ns, args, assume, hooks) in plan {
        let a = one(cx, root, ns[0], args.clone(), assume, hooks);
        let b = one(cx, root, ns[1], args, assume, hooks);
        compare(cx, root, a, b, &format!("on {} and {} bytes", ns[0], ns[1]));
    }
    // numbers and text: the size is a parameter
    for (root, top) in [("root_bcd", 9u64), ("root_invalid_bcd", 9), ("root_latin1", 40), ("root_signed", 8), ("root_unsigned", 8)] {
        let a = one(cx, root, top as usize / 2 + 1, vec![Val::usize(top / 2)], none, &nh);
        let b = one(cx, root, top as usize + 1, vec![Val::usize(top)], none, &nh);
        compare(cx, root, a, b, &format!("for sizes {} and {top}", top / 2));
    }
    let sub = |s: &Sym| -> Hooks { vec![(H_FRAME, sub_parser(s, "frame", vec![0], opq("frame"))), (H_RECORD, sub_parser(s, "record", vec![1], opq("record")))] };
    one(cx, "root_message", if th { 16 } else { 14 }, vec![], none, &sub);
    one(cx, "root_record", if th { 6 } else { 5 }, vec![], none, &nh);
    one(cx, "root_record", 11, vec![], no_ext, &nh);
    one(cx, "root_record", 14, vec![], |s| and_all([s.is(0, 0x0D), s.is(1, 0x13)]), &nh);
    for r in ["root_type_f", "root_type_g", "root_type_i", "root_type_j", "root_type_k", "root_real"] {
        one(cx, r, 7, vec![], none, &nh);
    }
    cx.rep.count("loop heads with more than one round", loops.len() as u64);
    cx.rep.sites.extend(loops);
}

// ---- classification ---------------------------------------------------------
/// an unknown value of an enum type whose payloads do not matter
fn any_variant(ty: Ty, name: &str) -> Option<(Val, Vec<(String, B)>)> {
    let vs = variants(ty)?;
    let sel = int_vars(name, 8, false);
    let n = vs.len();
    let (mut out, mut arms) = (vec![], vec![]);
    for (i, (vn, fs)) in vs.iter().enumerate() {
        let g = if i + 1 == n { not(sel.lt(&Int::c(i as u128, 8, false))?) } else { sel.eq(&Int::c(i as u128, 8, false))? };
        out.push((vn.clone(), g));
        let f = fs
            .iter()
            .map(|(fname, t)| match any_enum(*t, &format!("{name}.{vn}.{fname}")) {
                Some((v, _)) => v,
                None => Val::top("payload"),
            })
            .collect();
        arms.push(Arm { v: i, g, f: Rc::new(f) });
    }
    Some((Val::Enum(Rc::new(arms)), out))
}
fn p31(cx: &mut Cx) {
    for (root, yes, open) in [("root_is_unsigned", UNSIGNED, SIGN_OPEN), ("root_is_boolean", BOOLEAN, &[] as &[&str])] {
        let Some(r) = find_root(&cx.roots, root) else {
            cx.rep.missing.push(root.into());
            continue;
        };
        reset();
        reset_atoms();
        cx.it.fresh();
        cx.start();
        let TyKind::RigidTy(RigidTy::Ref(_, vt, _)) = r.arg_tys[0].kind() else {
            cx.rep.undecided.push(format!("{root}: argument is no longer a reference"));
            continue;
        };
        let Some((v, cases)) = any_variant(vt, "value_type") else {
            cx.rep.undecided.push(format!("{root}: value type is no longer an enum"));
            continue;
        };
        for want in yes.iter().chain(open) {
            if !cases.iter().any(|c| c.0 == *want) {
                cx.rep.undecided.push(format!("{root}: variant {want} no longer exists"));
            }
        }
        let sym = Sym::exact(0);
        let st = State { g: T, fr: vec![Rc::new(vec![Val::agg(vec![]), sym.ptr(), v])] };
        let arg = Val::ptr(Ptr { base: Base::Local(0, 2), path: Rc::new([]), idx: None, meta: Meta::No });
        let results = run_root(&mut cx.it, &r, vec![arg], st);
        cx.rep.absorb(&cx.it, &format!("{root} on every value type"));
        cx.rep.count("roots analysed", 1);
        cx.rep.count("value types", cases.len() as u64);
        for (s, v) in &results {
            let Some(b) = v.int().and_then(|i| i.as_bool()) else {
                cx.rep.undecided.push(format!("{root}: result not inferred"));
                continue;
            };
            for (name, g) in &cases {
                let g = and(s.g, *g);
                if g == F || open.contains(&name.as_str()) {
                    continue;
                }
                cx.rep.obligations += 1;
                let want = yes.contains(&name.as_str());
                let bad = and(g, if want { not(b) } else { b });
                if bad != F {
                    cx.rep.violation(format!("{root}: {name}"), format!("the classification of {name} is {} where the property requires {want}", !want), blame(&cx.it, bad), name.clone());
                }
            }
        }
    }
}

// ---- errors -----------------------------------------------------------------
/// a bad link layer frame is a final error
fn p32(cx: &mut Cx) {
    let seen: Seen = Default::default();
    let n = if cx.thorough { 11 } else { 9 };
    if let Some(r) = cx.exec("root_packet", n, vec![], none, move |_| vec![(H_MESSAGE, message_hook(seen))]) {
        p32_judge(cx, &r);
    }
    for l in if cx.thorough { (4..=255).collect() } else { vec![16, 17, 64, 128, 200, 255] } {
        for second in [false, true] {
            if let Some(r) = cx.scene(&scenes::packet(l, second, false)) {
                p32_judge(cx, &r);
            }
        }
    }
    for t in scenes::telegrams(cx.thorough) {
        if let Some(r) = cx.scene(&t) {
            p32_judge(cx, &r);
        }
    }
}
fn p32_judge(cx: &mut Cx, r: &Run) {
    let Some(vs) = variants(r.ret) else { return };
    let et = vs[1].1[0].1;
    let Some(modes) = variants(et) else {
        cx.rep.undecided.push("the error of the frame parser is no longer an enum".into());
        return;
    };
    for (s, v) in &r.results {
        let g0 = and(s.g, r.sym.pre);
        let Some(parts) = split(v, g0) else { continue };
        for (ok, g, pv) in parts {
            if ok {
                continue;
            }
            let Val::Enum(arms) = &pv else {
                cx.rep.undecided.push("root_packet: error not inferred".into());
                continue;
            };
            for a in arms.iter() {
                let h = and(g, a.g);
                if h == F {
                    continue;
                }
                cx.rep.obligations += 1;
                let name = &modes[a.v].0;
                if name != "Cut" {
                    cx.rep.violation(format!("root_packet: error is {name}"), format!("a rejected frame is reported as {name}, not as a final error"), blame(&cx.it, h), witness(Some(&r.sym), h));
                }
            }
        }
    }
}
/// frames that arrive piece by piece (`Partial` input)
fn p33(cx: &mut Cx) {
    let n = if cx.thorough { 11 } else { 9 };
    if let Some(r) = cx.exec("root_partial", n, vec![], none, |_| vec![(H_MESSAGE, message_hook(Default::default()))]) {
        p33_judge(cx, &r);
    }
    for sc in scenes::partial_packets(cx.thorough) {
        if let Some(r) = cx.scene(&sc) {
            p33_judge(cx, &r);
        }
    }
}
fn p33_judge(cx: &mut Cx, r: &Run) {
    let s = &r.sym;
    // what is a frame, and which one
    let long = and_all([long_frame(s), control(s, 4).0, named("message_ok")]);
    let (short, ack) = if s.n >= 5 { (and(short_frame(s), control(s, 1).0), and(s.is(0, 0xE5), s.at_least(1))) } else { (F, and(s.is(0, 0xE5), s.at_least(1))) };
    let ok = or_all([long, short, ack]);
    let mut arms = vec![var(ack, "Ack")];
    if s.n >= 5 {
        arms.push(varf(short, "Short", vec![("control", control(s, 1).1), ("address", int(s.bytes[2].clone()))]));
    }
    if s.n >= 8 {
        arms.push(varf(long, "Long", vec![("control", control(s, 4).1), ("address", int(s.bytes[5].clone())), ("message", Exp::Opq("message".into()))]));
    }
    cx.judge(r, Spec { pre: T, ok, val: en(arms), used: None, ctx: false });

    // the beginning of a frame; how many bytes it lacks
    let first = |k: usize, c: B| or(not(s.at_least(k)), c);
    let mut young: Vec<(B, usize)> = vec![];
    let mut over = vec![and(s.at_least(1), and_all([not(s.is(0, 0x10)), not(s.is(0, 0x68)), not(s.is(0, 0xE5))]))];
    for have in 1..=s.n.min(4) {
        let mut c = vec![s.is(0, 0x10), s.is_len(have)];
        if have >= 2 {
            c.push(control(s, 1).0);
        }
        if have >= 4 {
            c.push(s.bytes[1].wrapping('+', &s.bytes[2]).unwrap().eq(&s.bytes[3]).unwrap());
        }
        young.push((and_all(c), 5 - have));
    }
    if s.n >= 5 {
        over.push(and(s.is(0, 0x10), s.at_least(5)));
    }
    if s.n >= 1 {
        young.push((and(s.is(0, 0x68), s.is_len(1)), 8));
    }
    for l in 3..=255usize {
        if s.n < 2 || and_all([s.pre, s.is(1, l as u128)]) == F {
            continue;
        }
        let base = and_all([
            s.is(0, 0x68),
            s.is(1, l as u128),
            if s.n >= 3 { first(3, s.is(2, l as u128)) } else { T },
            if s.n >= 4 { first(4, s.is(3, 0x68)) } else { T },
            if s.n >= 5 { first(5, control(s, 4).0) } else { T },
        ]);
        for have in 2..=s.n.min(l + 5) {
            let mut c = and(base, s.is_len(have));
            if and(c, s.pre) == F {
                continue;
            }
            if have == l + 5 {
                let sum = sum8(s, 4, l).restrict(c).eq(&s.bytes[l + 4]).expect("checksum comparison");
                c = and(c, sum);
            }
            young.push((c, l + 6 - have));
        }
        if s.n >= l + 6 {
            over.push(and_all([s.is(0, 0x68), s.is(1, l as u128), s.at_least(l + 6)]));
        }
    }
    let hope = or_all(young.iter().map(|y| y.0));
    let over = or_all(over);

    let Some(vs) = variants(r.ret) else { return };
    let et = vs[1].1[0].1;
    let Some(modes) = variants(et) else {
        cx.rep.undecided.push("the error of the frame parser is no longer an enum".into());
        return;
    };
    for (st, v) in &r.results {
        let g0 = and(st.g, s.pre);
        let Some(parts) = split(v, g0) else { continue };
        for (ok, g, pv) in parts {
            if ok {
                continue;
            }
            let Val::Enum(arms) = &pv else {
                cx.rep.undecided.push("root_partial: error not inferred".into());
                continue;
            };
            for a in arms.iter() {
                let h = and(g, a.g);
                if h == F {
                    continue;
                }
                cx.rep.obligations += 1;
                let name = &modes[a.v].0;
                if name != "Incomplete" {
                    let bad = and(h, hope);
                    if bad != F {
                        cx.rep.violation(format!("root_partial: {name} on the beginning of a frame"), format!("the beginning of a frame is rejected ({name}) before the rest has arrived"), blame(&cx.it, bad), witness(Some(s), bad));
                    }
                    continue;
                }
                let bad = and(h, over);
                if bad != F {
                    cx.rep.violation("root_partial: waits for more after a broken frame".into(), "more input is asked for although no frame can come of it".into(), blame(&cx.it, bad), witness(Some(s), bad));
                }
                p33_needed(cx, r, &modes[a.v].1, &a.f, h, &young);
            }
        }
    }
}
/// no more bytes are asked for than the frame still lacks
fn p33_needed(cx: &mut Cx, r: &Run, modes: &[(String, Ty)], f: &[Val], h: B, young: &[(B, usize)]) {
    let kinds = modes.first().and_then(|m| variants(m.1));
    let (Some(kinds), Some(Val::Enum(arms))) = (kinds, f.first()) else {
        cx.rep.undecided.push("root_partial: amount of missing input not inferred".into());
        return;
    };
    for a in arms.iter() {
        let h = and(h, a.g);
        if h == F || kinds[a.v].0 != "Size" {
            continue;
        }
        let mut v = a.f.first().cloned();
        while let Some(Val::Agg(x)) = v.clone() {
            v = x.first().cloned();
        }
        let Some(Val::Int(n)) = v else {
            cx.rep.undecided.push("root_partial: amount of missing input not inferred".into());
            continue;
        };
        for (c, lacks) in young {
            let g = and(h, *c);
            if g == F {
                continue;
            }
            cx.rep.obligations += 1;
            match Int::usize(*lacks as u64).lt(&n.restrict(g)) {
                Some(b) => {
                    let bad = and(b, g);
                    if bad != F {
                        cx.rep.violation("root_partial: asks for too much".into(), format!("more input is asked for than the {lacks} bytes the frame lacks"), blame(&cx.it, bad), witness(Some(&r.sym), bad));
                    }
                }
                None => cx.rep.undecided.push("root_partial: amount of missing input not comparable".into()),
            }
        }
    }
}
#[allow(dead_code)]
fn unused() {
    let _ = any;
}
