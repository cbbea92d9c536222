//! C05: memory cells, outputs, guards and exec are what the protocol computes.
use super::goal::*;
use super::*;
use crate::eval::Ev;
use crate::gen::*;
use crate::model::*;
use crate::proto::*;
use crate::run::*;
use crate::smt::Problem;
use std::sync::Arc;

pub fn check() -> Check {
    Check {
        id: "C05",
        level: "exploration",
        rule: "a case is non-trivial when a trace with at least two steps besides init was judged, one of its steps writes a memory cell, and every emitted assertion got a definite truth value",
        families: vec![fam("runs", 6000, 200_000, |s| case(s, false, false)), fam("small", 4000, 120_000, |s| case(s, true, false))],
    }
}
pub fn args_of(w: &World, s: usize, a: &[u8]) -> Vec<Val> {
    a.iter().zip(&w.p.steps[s].params).map(|(x, t)| if let Sort::Idx(i) = t.sort { Val::I(i as u8, *x) } else { Val::B(false) }).collect()
}
pub fn step_of(w: &World, k: usize) -> Option<(usize, Vec<u8>)> {
    if k == 1 { w.p.steps.iter().position(|s| s.name == "init").map(|s| (s, vec![])) } else { w.trace[k].clone() }
}
/// the writes of the k-th step: (cell, arguments) -> value, in the order of the program
pub fn writes(w: &mut World, k: usize) -> Vec<((usize, Vec<Val>), Val)> {
    let mut out = vec![];
    let (s, a) = match step_of(w, k) {
        Some(x) => x,
        None => return out,
    };
    let p = w.p.clone();
    let st = &p.steps[s];
    let vals = args_of(w, s, &a);
    for asg in &st.assigns {
        let sorts: Vec<Sort> = asg.fresh.iter().map(|v| v.sort).collect();
        for tup in w.tuples(&sorts) {
            let mut e = Env::default();
            for (v, x) in st.params.iter().zip(&vals).chain(asg.fresh.iter().zip(&tup)) {
                e.vars.insert(v.id, *x);
            }
            e.self_step = Some((s, a.clone()));
            let args: Vec<Val> = asg.args.iter().map(|t| w.eval(t, &mut e)).collect();
            let v = w.eval(&asg.val, &mut e);
            out.push(((asg.cell, args), v));
        }
    }
    out
}
/// output and guard of the k-th step
pub fn step_part(w: &mut World, k: usize) -> (Val, bool) {
    match step_of(w, k) {
        Some((s, a)) => {
            let vals = args_of(w, s, &a);
            (w.eval_step_part(s, &vals, true), matches!(w.eval_step_part(s, &vals, false), Val::B(true)))
        }
        None => (w.arena.mk(Node::Empty), true),
    }
}
/// one round of recomputation of every table; true when nothing changed
fn round(w: &mut World) -> bool {
    let before = (w.cells.clone(), w.msg.clone(), w.cond.clone(), w.exec.clone());
    for k in 1..w.nsteps {
        let ws = writes(w, k);
        let mut c = w.cells[k - 1].clone();
        for (key, v) in ws {
            c.insert(key, v);
        }
        w.cells[k] = c;
        if let Some((s, a)) = step_of(w, k) {
            let vals = args_of(w, s, &a);
            w.msg[k] = w.eval_step_part(s, &vals, true);
            w.cond[k] = matches!(w.eval_step_part(s, &vals, false), Val::B(true));
        }
        w.exec[k] = w.cond[k] && (k == 1 || w.exec[k - 1]);
    }
    before == (w.cells.clone(), w.msg.clone(), w.cond.clone(), w.exec.clone())
}
/// run the protocol on the trace with the given inputs and initial contents
pub fn execute(w: &mut World) -> bool {
    w.cond[1] = true;
    for _ in 0..w.nsteps + 4 {
        if round(w) {
            return true;
        }
    }
    false
}
/// what the protocol says about the tables; None = fine
pub fn inconsistency(w: &mut World, cells: bool, unfold: bool) -> Option<String> {
    for k in 1..w.nsteps {
        if cells {
            let ws = writes(w, k);
            let keys: Vec<_> = {
                let mut v: Vec<_> = w.cells[k].keys().cloned().collect();
                v.sort();
                v
            };
            for key in keys {
                let mut hit = false;
                for (kk, v) in &ws {
                    if *kk == key {
                        hit = true;
                        if w.cells[k][&key] != *v {
                            return Some(format!("{} at {} is {} and not the {} assigned there", w.p.cells[key.0].name, w.show(Val::S(k as u8)), w.show(w.cells[k][&key]), w.show(*v)));
                        }
                    }
                }
                if !hit && w.cells[k][&key] != w.cells[k - 1][&key] {
                    return Some(format!("{} changes at {} which does not assign it", w.p.cells[key.0].name, w.show(Val::S(k as u8))));
                }
            }
        }
        if unfold {
            let (m, c) = step_part(w, k);
            if w.msg[k] != m {
                return Some(format!("the output of {} is {} and not {}", w.show(Val::S(k as u8)), w.show(w.msg[k]), w.show(m)));
            }
            if w.cond[k] != c {
                return Some(format!("the guard of {} is not {c}", w.show(Val::S(k as u8))));
            }
            let e = w.cond[k] && (k == 1 || w.exec[k - 1]);
            if w.exec[k] != e {
                return Some(format!("exec at {} is not {e}", w.show(Val::S(k as u8))));
            }
        }
    }
    None
}
pub fn mutate(w: &mut World, s: &mut Src) {
    let k = s.range(1, w.nsteps - 1);
    match s.weighted(&[5, 2, 2, 2]) {
        0 => {
            let mut keys: Vec<_> = w.cells[k].keys().cloned().collect();
            keys.sort();
            if keys.is_empty() {
                return;
            }
            let key = s.pick(&keys).clone();
            // either the content at another step, or something arbitrary
            let v = if s.chance(1, 2) {
                let j = s.below(w.nsteps);
                w.cells[j][&key]
            } else {
                rand_val(w, s, 1)
            };
            w.cells[k].insert(key.clone(), v);
            if k == 1 {
                // the content before the first step is that of init
                w.cells[0].insert(key.clone(), v);
            }
            if s.chance(1, 2) {
                // and it stays like that
                for j in k + 1..w.nsteps {
                    w.cells[j].insert(key.clone(), v);
                }
            }
        }
        1 => {
            let v = if s.chance(1, 2) {
                let j = s.below(w.nsteps);
                w.msg[j]
            } else {
                rand_val(w, s, 1)
            };
            w.msg[k] = v;
        }
        2 => {
            w.cond[k] = !w.cond[k];
            if s.chance(1, 2) {
                let mut ex = true;
                for j in 1..w.nsteps {
                    ex &= w.cond[j];
                    w.exec[j] = ex;
                }
            }
        }
        _ => {
            w.exec[k] = !w.exec[k];
            if s.chance(1, 2) {
                let e = w.exec[k];
                for j in k..w.nsteps {
                    w.exec[j] = e;
                }
            }
        }
    }
}
pub fn case(s: &mut Src, small: bool, opts: bool) -> Case {
    let base = Cfg { multi_assign: true, max_macros: 1, ..Cfg::full() };
    let cfg = if small { Cfg { max_types: 1, max_steps: 2, max_cells: 1, max_macros: 0, max_orders: 0, depth: 2, ..base } } else { base };
    let mut g = Gen::new(s, cfg);
    g.p.funs.push(Fun { name: "qq".into(), args: vec![], out: Sort::Bool, sem: Sem::Free });
    g.protocol();
    g.p.query = Some(Term::Fun(0, vec![]));
    let cells = g.s.chance(9, 10);
    let unfold = g.s.chance(4, 5);
    if cells {
        g.p.cryptos.push(Crypto::Cells);
    }
    if unfold {
        let o = [vec![], vec!["direct"], vec!["recurisve"], vec!["direct", "recurisve"]][g.s.below(4)].clone();
        g.p.cryptos.push(Crypto::Unfolding(o));
    }
    let p = Arc::new(std::mem::take(&mut g.p));
    let s = &mut *g.s;
    let text = p.text();
    let (flags, tf) = if opts { options(s) } else { (vec![], vec!["--cvc5"]) };
    let text = if opts { format!("/* {flags:?} {tf:?} */\n{text}") } else { text };
    let mut c = Case::new(text.clone());
    let smt = match emit(&text, &flags, &tf) {
        Ok(Emit::Ok(t)) => t,
        Ok(Emit::Rejected(o)) => return c.fail("rejected", format!("a well-typed input file is rejected: {}", reason(&o))),
        Err(e) => return c.err(e),
    };
    let prob = match Problem::parse(&smt) {
        Ok(p) => p,
        Err(e) => return c.fail("unparsable", e),
    };
    let mut decided = false;
    let rounds = s.range(1, 6);
    for r in 0..rounds {
        let mut w = repair_orders(gen_world(&p, s, 2, 4));
        if time_ok(&mut w).is_err() {
            continue;
        }
        let (c0, m0) = (w.cells[0].clone(), w.msg[0]);
        fill_random(&mut w, s);
        w.msg[1] = m0;
        if s.chance(1, 2) {
            w.cells[0] = c0;
        }
        w.ambiguous_find = false;
        let stable = execute(&mut w);
        let mutated = r > 0 && s.chance(1, 2);
        if mutated {
            let n = s.range(1, 2);
            for _ in 0..n {
                mutate(&mut w, s);
            }
        }
        let bad_ref = inconsistency(&mut w, cells, unfold);
        if w.ambiguous_find {
            c.label("world skipped: several witnesses of a find");
            continue;
        }
        // what happens before the first step is nobody's business
        if cells && (0..1).any(|_| w.cells[0] != w.cells[1]) && !p.steps.iter().any(|s| s.name == "init") {
            continue;
        }
        if !stable && !mutated {
            c.label("no run computed (cyclic references)");
        }
        let writes_some = (1..w.nsteps).any(|k| !writes(&mut w, k).is_empty());
        let desc = format!(
            "{}; cells {:?}; out {:?}; guards {:?}; exec {:?}",
            w.describe(),
            (0..w.nsteps).map(|k| { let mut v: Vec<_> = w.cells[k].iter().map(|(a, b)| (a.clone(), w.show(*b))).collect(); v.sort(); v }).collect::<Vec<_>>(),
            w.msg.iter().map(|v| w.show(*v)).collect::<Vec<_>>(),
            w.cond,
            w.exec
        );
        let long = w.nsteps >= 4;
        let uni = w.collect_universe(&[]);
        let mut ev = Ev::new(&prob, w, 1);
        ev.relative = true;
        ev.universe = if ev.symbolic { ev.some_terms() } else { uni };
        let mut bad = None;
        let mut unk = None;
        for a in &prob.asserts {
            match ev.assertion(a) {
                Val::B(true) => {}
                Val::B(false) => {
                    bad = Some(a.src.clone());
                    break;
                }
                _ => unk = Some(a.src.clone()),
            }
        }
        c.sample = format!("{text}\nworld: {desc}\nreference: {bad_ref:?}");
        match (&bad_ref, bad) {
            (None, Some(a)) => return c.fail("run-excluded", format!("the world is a run of the protocol but the emitted problem contains {a}")),
            (Some(_), None) if flags.contains(&"--no-bitstring") => c.label("kept (no functions on values)"),
            (Some(why), None) => {
                if let Some(u) = unk {
                    c.label(format!("undecided: {}", u.chars().take(70).collect::<String>()));
                    continue;
                }
                return c.fail("wrong-state-allowed", format!("{why}, but every emitted assertion is true"));
            }
            (None, None) => c.label(if unk.is_some() { "run kept (some assertion undecided)" } else { "run kept" }),
            (Some(_), Some(_)) => c.label("wrong state excluded"),
        }
        if unk.is_none() || bad_ref.is_some() {
            decided |= long && writes_some;
        }
    }
    c.nontrivial_if(decided);
    c
}
