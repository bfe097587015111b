#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;
mod bdd;
mod graph;
mod int;
mod interp;
mod ir;
mod models;
mod pieces;
mod props;
mod scenes;
mod spec;
mod sym;
mod val;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::collections::*;
use std::ops::ControlFlow;

fn go() -> ControlFlow<(), ()> {
    let krate = rustc_public::local_crate();
    if krate.name != "mbus_roots" {
        return ControlFlow::Continue(());
    }
    let mut roots: HashMap<String, FnDef> = HashMap::new();
    let mut models: HashMap<String, FnDef> = HashMap::new();
    for f in krate.fn_defs() {
        let n = f.name().to_string();
        let last = n.rsplit("::").next().unwrap_or("").to_string();
        if n.contains("model::") {
            models.insert(last, f);
        } else {
            roots.insert(last, f);
        }
    }
    if std::env::var("MBA_ROOT").is_ok() {
        debug(&roots, models);
        return ControlFlow::Continue(());
    }
    if std::env::var("MBA_SELF").is_ok() {
        selftest(&roots, models);
        return ControlFlow::Continue(());
    }
    let Ok(prop) = std::env::var("MBA_PROP") else { return ControlFlow::Continue(()) };
    let out = std::env::var("MBA_OUT").expect("MBA_OUT");
    let thorough = std::env::var("MBA_TIER").is_ok_and(|t| t == "thorough");
    let budget = std::env::var("MBA_BUDGET").ok().and_then(|x| x.parse().ok()).unwrap_or(300);
    let total = std::env::var("MBA_TOTAL").ok().and_then(|x| x.parse().ok()).unwrap_or(600);
    for id in prop.split(',') {
        let mut cx = props::Cx {
            roots: roots.clone(),
            it: interp::Interp::new(models.clone()),
            rep: spec::Report::new(id),
            thorough,
            budget: std::time::Duration::from_secs(budget),
            end: std::time::Instant::now() + std::time::Duration::from_secs(total),
            hurried: false,
        };
        let t0 = std::time::Instant::now();
        let known = props::give_up(|| props::run_prop(&mut cx, id));
        if known.is_none() {
            cx.rep.undecided.push("gave up (time or memory)".into());
        }
        if known == Some(false) {
            eprintln!("unknown property {id}");
            std::process::exit(3);
        }
        let j = json(&cx.rep, t0.elapsed().as_secs_f64());
        std::fs::write(format!("{out}/{id}.json"), j).expect("write report");
    }
    ControlFlow::Continue(())
}

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<'a>(l: impl IntoIterator<Item = &'a String>) -> String {
    format!("[{}]", l.into_iter().map(|s| q(s)).collect::<Vec<_>>().join(","))
}
fn json(r: &spec::Report, wall: f64) -> String {
    let v: Vec<String> = r
        .violations
        .iter()
        .map(|v| format!("{{\"key\":{},\"what\":{},\"at\":{},\"witness\":{}}}", q(&v.key), q(&v.what), list(&v.at), q(&v.witness)))
        .collect();
    let c: Vec<String> = r.counts.iter().map(|(k, n)| format!("{}:{n}", q(k))).collect();
    format!(
        "{{\"property\":{},\"violations\":[{}],\"undecided\":{},\"missing\":{},\"obligations\":{},\"functions\":{},\"blocks\":{},\"modelled\":{},\"roots\":{},\"sites\":{},\"notes\":{},\"counts\":{{{}}},\"steps\":{},\"merges\":{},\"nodes\":{},\"wall_s\":{wall:.2}}}",
        q(&r.prop),
        v.join(","),
        list(&r.undecided),
        list(&r.missing),
        r.obligations,
        list(&r.funcs),
        r.blocks.len(),
        list(&r.modelled),
        list(&r.roots),
        list(&r.sites),
        list(&r.notes),
        c.join(","),
        r.steps,
        r.merges,
        r.nodes
    )
}

/// every `st_*` function has to be inferred to return true
fn selftest(roots: &HashMap<String, FnDef>, models: HashMap<String, FnDef>) {
    let mut names: Vec<&String> = roots.keys().filter(|n| n.starts_with("st_")).collect();
    names.sort();
    let only = std::env::var("MBA_SELF").unwrap_or_default();
    let mut it = interp::Interp::new(models);
    let (mut good, mut bad) = (0, 0);
    for n in names {
        if only.len() > 1 && !n.contains(&only) {
            continue;
        }
        let Some(r) = sym::find_root(roots, n) else { continue };
        eprintln!("{n}");
        bdd::reset();
        int::reset_atoms();
        it.fresh();
        let t = std::time::Instant::now() + std::time::Duration::from_secs(20);
        it.deadline = t;
        bdd::set_until(t);
        let s = sym::Sym::exact(3);
        let (st, arg) = s.state(false);
        let Some(res) = props::give_up(|| sym::run_root(&mut it, &r, vec![arg], st)) else {
            println!("FAIL {n}: gave up");
            bad += 1;
            continue;
        };
        let mut why = vec![];
        let mut all = bdd::F;
        for (s1, v) in &res {
            all = bdd::or(all, s1.g);
            match v.int().and_then(|i| i.as_bool()) {
                Some(b) => {
                    let wrong = bdd::and(s1.g, bdd::not(b));
                    if wrong != bdd::F {
                        why.push(format!("false for {}", sym::witness(Some(&s), wrong)));
                    }
                }
                None => why.push(format!("result {}", v.show().chars().take(100).collect::<String>())),
            }
        }
        if all != bdd::T {
            why.push("not every input leads to a result".into());
        }
        for p in &it.panics {
            if p.g != bdd::F {
                why.push(format!("panic {} at {}", p.msg, p.at));
            }
        }
        for u in it.undecided.iter().take(4) {
            why.push(format!("unknown: {} <- {}", u.1, u.2.iter().take(5).cloned().collect::<Vec<_>>().join(" <- ")));
        }
        if why.is_empty() {
            good += 1;
        } else {
            bad += 1;
            println!("FAIL {n}");
            for w in why.iter().take(6) {
                println!("    {}", w.chars().take(600).collect::<String>());
            }
        }
    }
    println!("{good} understood, {bad} not");
}

fn debug(roots: &HashMap<String, FnDef>, models: HashMap<String, FnDef>) {
    let spec = std::env::var("MBA_ROOT").unwrap_or_default();
    let mut it = interp::Interp::new(models);
    for one in spec.split(',') {
        let p: Vec<&str> = one.split(':').collect();
        let n: usize = p[1].parse().unwrap();
        let Some(r) = sym::find_root(roots, p[0]) else {
            println!("no root {}", p[0]);
            continue;
        };
        let t0 = std::time::Instant::now();
        bdd::reset();
        int::reset_atoms();
        it.fresh();
        let s = sym::Sym::new(n);
        let bits = matches!(p[0], "root_dib" | "root_vib" | "root_vif_byte" | "root_vifes");
        let (st, arg) = s.state(bits);
        let mut args = vec![arg];
        for x in &p[2..] {
            args.push(val::Val::usize(x.parse().unwrap()));
        }
        let res = sym::run_root(&mut it, &r, args, st);
        println!("== {one}: {} result states, {} steps, {} calls, {} merges, {} bdd nodes, {:?}", res.len(), it.steps, it.calls, it.merges, bdd::node_count(), t0.elapsed());
        for (s1, v) in res.iter().take(12) {
            println!("  {} => {}   [in: {}]", sym::witness(Some(&s), s1.g), v.show().chars().take(300).collect::<String>(), s1.fr[0][1].show());
        }
        for p in it.panics.iter().take(20) {
            println!("  PANIC {} at {} when {} stack {:?}", p.msg, p.at, sym::witness(Some(&s), p.g), p.stack);
        }
        let mut seen = HashSet::new();
        for u in &it.undecided {
            if seen.insert((u.1.clone(), u.2.clone())) && seen.len() < 12 {
                println!("  UNK {} when {}", u.1, sym::witness(Some(&s), u.0));
                for f in u.2.iter().take(6) {
                    println!("      {f}");
                }
            }
        }
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    // the interpreter recurses deeply; only the analysed crate needs the room (rustc would
    // otherwise give every code generation thread of every other crate the same stack)
    if let Ok(n) = std::env::var("MBA_STACK") {
        if args.windows(2).any(|w| w[0] == "--crate-name" && matches!(w[1].as_str(), "mbus_roots" | "selftest")) {
            std::env::set_var("RUST_MIN_STACK", n);
        }
    }
    let r = run!(&args, go);
    if let Err(e) = r {
        if !matches!(e, rustc_public::CompilerError::Skipped) {
            eprintln!("compiler: {e:?}");
            std::process::exit(1);
        }
    }
}
