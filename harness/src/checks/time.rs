//! C01: the emitted theory of time holds exactly in the structures that are traces.
use super::*;
use crate::eval::Ev;
use crate::gen::*;
use crate::model::*;
use crate::proto::*;
use crate::run::*;
use crate::smt::Problem;
use std::sync::Arc;

pub fn check() -> Check {
    Check {
        id: "C01",
        level: "exploration",
        rule: "a case is non-trivial when the tool accepted the protocol and every emitted assertion got a definite truth value in a structure with at least one step besides init (the structure being a real trace or a mutated one)",
        families: vec![fam("trace-structures", 5000, 150_000, case)],
    }
}
fn mutate(w: &mut World, s: &mut Src) -> &'static str {
    let n = w.nsteps;
    match s.below(12) {
        0 => {
            let (a, b) = (s.below(n), s.below(n));
            w.leq[a][b] = !w.leq[a][b];
            if s.chance(1, 2) {
                w.lt[a][b] = w.leq[a][b] && a != b;
                w.gt[b][a] = w.lt[a][b];
            }
            "leq"
        }
        1 => {
            let (a, b) = (s.below(n), s.below(n));
            w.lt[a][b] = !w.lt[a][b];
            if s.chance(1, 2) {
                w.gt[b][a] = w.lt[a][b];
            }
            "lt"
        }
        2 => {
            let (a, b) = (s.below(n), s.below(n));
            w.gt[a][b] = !w.gt[a][b];
            "gt"
        }
        3 => {
            let a = s.below(n);
            w.happens[a] = !w.happens[a];
            "happens"
        }
        4 | 5 => {
            let a = s.below(n);
            w.pred[a] = s.below(n) as u8;
            "pred"
        }
        6 => {
            let insts: Vec<_> = all_insts(w);
            if insts.is_empty() {
                return "none";
            }
            let k = s.pick(&insts).clone();
            w.inst.insert(k, s.below(n) as u8);
            "instance"
        }
        7 => {
            // swap two positions of the order consistently (pred left alone)
            let (a, b) = (s.below(n), s.below(n));
            w.leq.swap(a, b);
            w.lt.swap(a, b);
            w.gt.swap(a, b);
            for m in [&mut w.leq, &mut w.lt, &mut w.gt] {
                for r in m.iter_mut() {
                    r.swap(a, b);
                }
            }
            "swap-order"
        }
        8 => {
            w.init = s.below(n) as u8;
            "init"
        }
        9 => {
            // remove an element from the trace consistently, keep pred
            let a = s.below(n);
            w.happens[a] = false;
            for b in 0..n {
                w.leq[a][b] = false;
                w.leq[b][a] = false;
                w.lt[a][b] = false;
                w.lt[b][a] = false;
                w.gt[a][b] = false;
                w.gt[b][a] = false;
            }
            for v in w.inst.values_mut() {
                if *v as usize == a {
                    *v = 0;
                }
            }
            "remove"
        }
        10 => {
            // fix lt and gt up from leq
            for a in 0..n {
                for b in 0..n {
                    w.lt[a][b] = w.leq[a][b] && a != b;
                }
            }
            for a in 0..n {
                for b in 0..n {
                    w.gt[a][b] = w.lt[b][a];
                }
            }
            "derive-lt"
        }
        _ => {
            // reverse the whole order
            for a in 0..n {
                for b in 0..a {
                    let t = w.leq[a][b];
                    w.leq[a][b] = w.leq[b][a];
                    w.leq[b][a] = t;
                    let t = w.lt[a][b];
                    w.lt[a][b] = w.lt[b][a];
                    w.lt[b][a] = t;
                    let t = w.gt[a][b];
                    w.gt[a][b] = w.gt[b][a];
                    w.gt[b][a] = t;
                }
            }
            "reverse"
        }
    }
}
fn all_insts(w: &World) -> Vec<(usize, Vec<u8>)> {
    let mut v = vec![];
    for (si, s) in w.p.steps.iter().enumerate() {
        if s.name == "init" {
            continue;
        }
        let ns: Vec<u8> = s.params.iter().map(|v| if let Sort::Idx(i) = v.sort { w.dom[i] } else { 1 }).collect();
        for a in cmp_idx(&ns) {
            v.push((si, a));
        }
    }
    v
}
/// A structure that may break one law only: a tournament instead of an order, a chain that does not start with init,
/// or two instances that coincide.
fn almost(w: &mut World, s: &mut Src) -> &'static str {
    let n = w.nsteps;
    let derive = |w: &mut World| {
        for a in 0..n {
            for b in 0..n {
                w.lt[a][b] = w.leq[a][b] && a != b;
                w.gt[b][a] = w.lt[a][b];
            }
        }
    };
    let live: Vec<usize> = (0..n).filter(|a| w.happens[*a]).collect();
    let init = w.init as usize;
    match s.below(3) {
        0 => {
            for &a in &live {
                for &b in &live {
                    if a < b && a != init && b != init {
                        let f = s.chance(1, 2);
                        w.leq[a][b] = f;
                        w.leq[b][a] = !f;
                    }
                }
            }
            derive(w);
            for &a in &live {
                if a == init {
                    continue;
                }
                let ok: Vec<usize> = live.iter().copied().filter(|p| *p != a && w.leq[*p][a] && live.iter().all(|u| w.leq[*u][*p] || w.leq[a][*u])).collect();
                if !ok.is_empty() {
                    w.pred[a] = *s.pick(&ok) as u8;
                }
            }
            "tournament"
        }
        1 => {
            let mut chain = live.clone();
            s.shuffle(&mut chain[..]);
            let dead = (0..n).find(|a| !w.happens[*a]).unwrap_or(init);
            for (i, &a) in chain.iter().enumerate() {
                for (j, &b) in chain.iter().enumerate() {
                    w.leq[a][b] = i <= j;
                }
                w.pred[a] = if i == 0 { dead } else { chain[i - 1] } as u8;
            }
            derive(w);
            "chain"
        }
        _ => {
            let insts = all_insts(w);
            let (dead, used): (Vec<_>, Vec<_>) = insts.into_iter().partition(|k| !w.happens[w.inst.get(k).copied().unwrap_or(0) as usize]);
            if dead.is_empty() || used.is_empty() {
                return "none";
            }
            let k = s.pick(&dead).clone();
            let v = w.inst[s.pick(&used)];
            w.inst.insert(k, v);
            "coincide"
        }
    }
}
/// Turn the canonical world into one whose step values are permuted (so that nothing depends on numbering).
fn permute(w: &mut World, s: &mut Src) {
    let n = w.nsteps;
    let mut pi: Vec<usize> = (0..n).collect();
    s.shuffle(&mut pi[..]);
    let pm = |m: &Vec<Vec<bool>>| {
        let mut o = m.clone();
        for a in 0..n {
            for b in 0..n {
                o[pi[a]][pi[b]] = m[a][b];
            }
        }
        o
    };
    w.leq = pm(&w.leq);
    w.lt = pm(&w.lt);
    w.gt = pm(&w.gt);
    let h = w.happens.clone();
    let p = w.pred.clone();
    for a in 0..n {
        w.happens[pi[a]] = h[a];
        w.pred[pi[a]] = pi[p[a] as usize] as u8;
    }
    w.init = pi[w.init as usize] as u8;
    let insts = all_insts(w);
    for i in insts {
        let v = w.inst.get(&i).copied().unwrap_or(0);
        w.inst.insert(i, pi[v as usize] as u8);
    }
}
fn case(s: &mut Src) -> Case {
    let cfg = Cfg { trivial_steps: true, max_steps: 3, max_orders: 3, ..Cfg::full() };
    let mut g = Gen::new(s, cfg);
    g.p.funs.push(Fun { name: "qq".into(), args: vec![], out: Sort::Bool, sem: Sem::Free });
    g.protocol();
    g.p.query = Some(Term::Fun(0, vec![]));
    let p = Arc::new(std::mem::take(&mut g.p));
    let s = &mut *g.s;
    let text = p.text();
    let mut c = Case::new(text.clone());
    let smt = match emit(&text, &[], &["--cvc5"]) {
        Ok(Emit::Ok(t)) => t,
        Ok(Emit::Rejected(o)) => return c.fail("rejected", format!("a well-formed protocol is rejected: {}", reason(&o))),
        Err(e) => return c.err(e),
    };
    let prob = match Problem::parse(&smt) {
        Ok(p) => p,
        Err(e) => return c.fail("unparsable", e),
    };
    let mut nontriv = false;
    let rounds = s.range(1, 12);
    for _ in 0..rounds {
        let mut w = gen_world(&p, s, 2, 5);
        if s.chance(3, 4) {
            w = repair_orders(w);
        }
        let near = s.chance(1, 3);
        let nm = if near { 0 } else { s.weighted(&[3, 4, 2, 1]) };
        let mut muts = vec![];
        if near {
            muts.push(almost(&mut w, s));
        }
        for _ in 0..nm {
            muts.push(mutate(&mut w, s));
        }
        if s.chance(1, 2) {
            permute(&mut w, s);
        }
        let desc = format!(
            "structure: {} steps, happens {:?}, init {}, pred {:?}, leq {:?}, lt {:?}, gt {:?}, instances {:?}, mutations {muts:?}",
            w.nsteps, w.happens, w.init, w.pred, w.leq, w.lt, w.gt, w.inst
        );
        let reference = time_ok(&mut w);
        nontriv |= w.nsteps > 2;
        let mut ev = Ev::new(&prob, w, 1);
        ev.relative = true;
        let e = ev.w.arena.mk(Node::Empty);
        ev.universe = vec![e];
        let mut bad: Option<String> = None;
        let mut unk: Option<String> = None;
        for a in &prob.asserts {
            match ev.assertion(a) {
                Val::B(true) => {}
                Val::B(false) => {
                    bad = Some(a.src.clone());
                    break;
                }
                _ => unk = Some(a.src.chars().take(60).collect::<String>()),
            }
        }
        c.label(match &reference {
            Ok(()) => "trace".to_string(),
            Err(e) => format!("not a trace: {e}"),
        });
        c.sample = format!("{text}\n{desc}");
        match (&reference, &bad) {
            (Ok(()), Some(a)) => return c.fail("trace-excluded", format!("the structure is a trace but the emitted problem contains {a}")),
            (Err(_), None) if unk.is_some() => return c.skip(format!("undecided assertion {}", unk.unwrap())),
            (Err(e), None) => return c.fail("non-trace-allowed", format!("every emitted assertion holds although: {e}")),
            _ => {}
        }
    }
    c.nontrivial_if(nontriv);
    c
}
