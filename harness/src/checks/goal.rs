//! C02: the emitted goal and hypotheses mean what the input file says.
use super::*;
use crate::eval::Ev;
use crate::gen::*;
use crate::model::*;
use crate::proto::*;
use crate::run::*;
use crate::smt::Problem;
use std::sync::Arc;

pub fn check() -> Check {
    Check {
        id: "C02",
        level: "exploration",
        rule: "a case is non-trivial when the tool accepted the protocol, the query or an assert mentions a bound variable, and every emitted assertion got a definite truth value in at least one world whose verdict was compared with the reference semantics",
        families: vec![fam("evaluated", 6000, 200_000, |s| case(s, false, false)), fam("small", 6000, 150_000, |s| case(s, true, false))],
    }
}
/// arbitrary message value
pub fn rand_val(w: &mut World, s: &mut Src, d: usize) -> Val {
    let p = w.p.clone();
    if d == 0 || s.chance(1, 3) {
        match s.below(3) {
            0 => w.arena.mk(Node::Empty),
            1 => {
                let n = w.all_names();
                if n.is_empty() { w.arena.mk(Node::Atk(0)) } else { *s.pick(&n) }
            }
            _ => {
                let k = s.below(2) as u32;
                w.arena.mk(Node::Atk(k))
            }
        }
    } else {
        let fs: Vec<usize> = (0..p.funs.len()).filter(|i| p.funs[*i].out == Sort::Msg).collect();
        let f = *s.pick(&fs);
        let mut a = vec![];
        for srt in &p.funs[f].args {
            a.push(match srt {
                Sort::Msg => rand_val(w, s, d - 1),
                Sort::Bool => Val::B(s.chance(1, 2)),
                srt => {
                    let dm = w.sort_dom(*srt);
                    *s.pick(&dm)
                }
            });
        }
        w.apply(f, &a)
    }
}
/// A trace with arbitrary contents of inputs, outputs, guards and cells.
pub fn rand_world(p: &Arc<Proto>, s: &mut Src, max_dom: usize, max_len: usize) -> World {
    let mut w = repair_orders(gen_world(p, s, max_dom, max_len));
    fill_random(&mut w, s);
    w
}
pub fn fill_random(w: &mut World, s: &mut Src) {
    let mut pool: Vec<Val> = vec![];
    let np = s.range(2, 5);
    for _ in 0..np {
        pool.push(rand_val(w, s, 2));
    }
    for k in 0..w.nsteps {
        w.input[k] = *s.pick(&pool);
        w.msg[k] = *s.pick(&pool);
        w.cond[k] = s.chance(1, 2);
        w.exec[k] = s.chance(1, 2);
        let keys: Vec<_> = {
            let mut v: Vec<_> = w.cells[k].keys().cloned().collect();
            v.sort();
            v
        };
        for key in keys {
            let v = *s.pick(&pool);
            w.cells[k].insert(key, v);
        }
    }
    pool.sort();
    pool.dedup();
    w.universe = pool;
}
pub fn closed(w: &mut World, t: &Term) -> bool {
    w.b(t, &mut Env::default())
}
fn has_binder(t: &Term) -> bool {
    match t {
        Term::Q(..) | Term::Find(..) | Term::Let(..) => true,
        Term::Not(x) => has_binder(x),
        Term::Op(_, v) | Term::Fun(_, v) => v.iter().any(has_binder),
        Term::If(b) => has_binder(&b.0) || has_binder(&b.1) || has_binder(&b.2),
        Term::Macro(..) | Term::MsgM(..) | Term::CondM(..) => true,
        _ => false,
    }
}
/// options that change how values are described, and dialects of the output
pub fn options(s: &mut Src) -> (Vec<&'static str>, Vec<&'static str>) {
    let mut f: Vec<&str> = vec![];
    if s.chance(2, 3) {
        f.push("--symbolic");
    }
    for o in ["--legacy-evaluate", "--skolemnise", "--eval-rewrite", "--no-preprocessing", "--no-bitstring"] {
        if s.chance(1, 5) {
            f.push(o);
        }
    }
    let t = [vec!["--cvc5"], vec![], vec!["--assert-theory"]][s.below(3)].clone();
    (f, t)
}
/// inputs and outputs are the only messages there are
pub fn known_messages(w: &mut World) {
    let mut v: Vec<Val> = w.input.iter().chain(&w.msg).copied().collect();
    v.sort();
    v.dedup();
    w.universe = v;
}
pub fn case(s: &mut Src, small: bool, opts: bool) -> Case {
    let cfg = if small { Cfg { max_types: 1, max_steps: 1, max_cells: 1, max_macros: 2, max_orders: 0, depth: 4, ..Cfg::full() } } else { Cfg::full() };
    let mut g = Gen::new(s, cfg);
    g.protocol();
    g.rename();
    let mut p = std::mem::take(&mut g.p);
    let p0 = Arc::new(p.clone());
    let mut w = rand_world(&p0, g.s, 2, 3);
    known_messages(&mut w);
    if time_ok(&mut w).is_err() {
        return Case::new(p0.text()).skip("no trace satisfies the declared orders");
    }
    g.p = p;
    let d = g.cfg.depth;
    let na = g.s.range(0, 2);
    let mut forms = vec![];
    for k in 0..=na {
        let t = g.formula(d);
        let want = if k == 0 { false } else { true };
        w.p = Arc::new(g.p.clone());
        let v = closed(&mut w, &t);
        let t = if v != want && g.s.chance(5, 6) { Term::Not(Box::new(t)) } else { t };
        forms.push(t);
    }
    p = std::mem::take(&mut g.p);
    let s = &mut *g.s;
    p.query = Some(forms.remove(0));
    p.asserts = forms;
    let binder = has_binder(p.query.as_ref().unwrap()) || p.asserts.iter().any(has_binder);
    let p = Arc::new(p);
    let text = p.text();
    let (flags, tf) = if opts { options(s) } else { (vec![], vec!["--cvc5"]) };
    let text = if opts { format!("/* {flags:?} {tf:?} */\n{text}") } else { text };
    let mut c = Case::new(text.clone());
    let smt = match emit(&text, &flags, &tf) {
        Ok(Emit::Ok(t)) => t,
        Ok(Emit::Rejected(o)) => return c.fail("rejected", format!("a well-typed input file is rejected: {}", o.stderr.chars().take(800).collect::<String>())),
        Err(e) => return c.err(e),
    };
    let prob = match Problem::parse(&smt) {
        Ok(p) => p,
        Err(e) => return c.fail("unparsable", e),
    };
    if let Some(e) = prob.errors.first() {
        return c.fail("ill-sorted", e.clone());
    }
    let mut decided = false;
    w.ambiguous_find = false;
    let rounds = s.range(1, 4);
    for r in 0..rounds {
        let mut w = if r == 0 { w.clone() } else { rand_world(&p, s, 2, 3) };
        known_messages(&mut w);
        w.p = p.clone();
        if time_ok(&mut w).is_err() {
            continue;
        }
        let hyp: Vec<bool> = p.asserts.iter().map(|a| closed(&mut w, a)).collect();
        let goal = closed(&mut w, p.query.as_ref().unwrap());
        if w.ambiguous_find {
            c.label("world skipped: several witnesses of a find");
            continue;
        }
        let counter = !goal && hyp.iter().all(|x| *x);
        let desc = format!("{}; universe {:?}", w.describe(), w.universe.iter().map(|v| w.show(*v)).collect::<Vec<_>>());
        let mut ev = Ev::new(&prob, w, 1);
        ev.relative = true;
        ev.universe = if ev.symbolic { ev.some_terms() } else { ev.w.universe.clone() };
        let mut bad = None;
        let mut unk = None;
        for a in &prob.asserts {
            match ev.assertion(a) {
                Val::B(true) => {}
                Val::B(false) => {
                    bad = Some(a.src.clone());
                    break;
                }
                _ => unk = Some(a.src.clone()),
            }
        }
        c.sample = format!("{text}\nworld: {desc}\nreference: query {goal}, asserts {hyp:?}");
        match (counter, bad) {
            (true, Some(a)) => return c.fail("countermodel-excluded", format!("the asserts hold and the query fails in this world, but the emitted problem excludes it by {a}")),
            (false, None) if flags.contains(&"--no-bitstring") => c.label("kept (no functions on values)"),
            (false, None) => {
                if let Some(u) = unk {
                    c.label(format!("undecided: {}", u.chars().take(70).collect::<String>()));
                    continue;
                }
                return c.fail("spurious-countermodel", format!("the query holds or an assert fails in this world, but every emitted assertion is true there\n{}", prob.asserts.iter().rev().take(1 + p.asserts.len()).map(|a| a.src.clone()).collect::<Vec<_>>().join("\n")));
            }
            (true, None) => {
                if unk.is_some() {
                    c.label("countermodel kept (some assertion undecided)");
                } else {
                    c.label("countermodel kept");
                    decided = true;
                }
            }
            (false, Some(_)) => {
                c.label("non-countermodel excluded");
                decided = true;
            }
        }
    }
    c.nontrivial_if(decided && binder);
    c
}
