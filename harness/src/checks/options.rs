//! C06: under every way of describing values the problem means the same.
use super::goal::*;
use super::*;
use crate::eval::Ev;
use crate::gen::*;
use crate::model::*;
use crate::run::*;
use crate::smt::Problem;
use std::sync::Arc;

pub fn check() -> Check {
    Check {
        id: "C06",
        level: "exploration",
        rule: "a case is non-trivial when the tool accepted the file under the generated options and every emitted assertion got a definite truth value in a world whose verdict was compared with the reference semantics (goal families: the query or an assert has a binder; run families: at least two steps happen and one of them writes a cell; wrong-value: some application was given another value than its meaning)",
        families: vec![
            fam("goal", 5000, 150_000, |s| goal::case(s, false, true)),
            fam("small-goal", 4000, 120_000, |s| goal::case(s, true, true)),
            fam("runs", 3500, 120_000, |s| cells::case(s, false, true)),
            fam("small-runs", 2500, 80_000, |s| cells::case(s, true, true)),
            fam("wrong-value", 3000, 100_000, wrong),
        ],
    }
}
/// the problem determines the value of every application: no model gives one of them another value
fn wrong(s: &mut Src) -> Case {
    let mut g = Gen::new(s, Cfg { max_types: 1, max_steps: 2, max_cells: 1, max_macros: 1, max_orders: 0, depth: 3, ..Cfg::full() });
    g.protocol();
    let p0 = Arc::new(g.p.clone());
    let mut w = rand_world(&p0, g.s, 2, 3);
    known_messages(&mut w);
    let t = g.formula(2);
    w.p = Arc::new(g.p.clone());
    let v = closed(&mut w, &t);
    g.p.query = Some(if v { crate::proto::Term::Not(Box::new(t)) } else { t });
    let p = Arc::new(std::mem::take(&mut g.p));
    let s = &mut *g.s;
    let (flags, tf) = options(s);
    let text = format!("/* {flags:?} {tf:?} */\n{}", p.text());
    let mut c = Case::new(text.clone());
    let smt = match emit(&text, &flags, &tf) {
        Ok(Emit::Ok(t)) => t,
        Ok(Emit::Rejected(o)) => return c.fail("rejected", format!("a well-typed input file is rejected: {}", reason(&o))),
        Err(e) => return c.err(e),
    };
    let prob = match Problem::parse(&smt) {
        Ok(p) => p,
        Err(e) => return c.fail("unparsable", e),
    };
    w.p = p.clone();
    if w.ambiguous_find || time_ok(&mut w).is_err() {
        c.label("world skipped");
        return c;
    }
    let desc = w.describe();
    let mut ev = Ev::new(&prob, w, 1);
    ev.relative = true;
    ev.universe = if ev.symbolic { ev.some_terms() } else { ev.w.universe.clone() };
    if prob.asserts.iter().any(|a| ev.assertion(a) != Val::B(true)) {
        c.label("world skipped");
        return c;
    }
    for _ in 0..s.range(2, 8) {
        ev.set_twist(None);
        let (f, a, v) = match ev.twisted(s, !flags.contains(&"--no-bitstring")) {
            Some(x) => x,
            None => continue,
        };
        let what = format!("{} is {}", ev.show_app(f, &a), ev.w.show(v));
        ev.set_twist(Some((f, a, v)));
        c.sample = format!("{text}\nworld: {desc}\n{what}");
        if !prob.asserts.iter().any(|x| ev.assertion(x) != Val::B(true)) {
            return c.fail("undetermined", format!("every emitted assertion is true in a world where {what}"));
        }
        c.label(format!("{} determined", prob.syms[f].name.split(|c: char| c.is_ascii_digit()).next().unwrap_or("")));
        c.nontrivial_if(true);
    }
    c
}
