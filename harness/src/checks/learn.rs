//! C11: instances learned from vampire's output are used, used soundly, and once.
use super::crypto::*;
use super::verdict::{Auto, Rep, Script};
use super::*;
use crate::eval::Ev;
use crate::gen::*;
use crate::model::*;
use crate::proto::*;
use crate::smt::Problem;
use std::collections::HashSet;
use std::sync::Arc;

pub fn check() -> Check {
    Check {
        id: "C11",
        level: "exploration",
        rule: "a case is non-trivial when vampire's scripted output held clauses, and either a second problem was produced from them and judged in an execution (honest, or with a forgery at the learned place), or the run had to stop because they bring nothing new",
        families: vec![fam("honest", 3500, 100_000, |s| case(s, false)), fam("forged", 6000, 150_000, |s| case(s, true)), fam("noise", 2500, 80_000, noise)],
    }
}
struct Lit {
    txt: String,
    /// the same as a tautology of the input language, when it has no message variable
    term: Option<Term>,
}
struct L<'a, 's> {
    g: &'a mut Gen<'s>,
    vars: Vec<Var>,
    msgvar: bool,
    quote: bool,
}
impl L<'_, '_> {
    fn idx(&mut self, s: Sort) -> (String, Term) {
        let same: Vec<Var> = self.vars.iter().filter(|v| v.sort == s).cloned().collect();
        let v = if !same.is_empty() && self.g.s.chance(1, 2) {
            self.g.s.pick(&same).clone()
        } else {
            let v = self.g.p.new_var(&format!("lv{}", self.vars.len()), s);
            self.vars.push(v.clone());
            v
        };
        // a clause variable or a skolem constant
        let n = &v.name[2..];
        let t = if n.parse::<usize>().unwrap() % 2 == 0 { format!("X{n}") } else { format!("sK{n}") };
        (t, Term::Var(v.id))
    }
    fn sym(&mut self, s: &str) -> String {
        if self.quote || s.contains('$') { format!("'{s}'") } else { s.to_string() }
    }
    fn app(&mut self, f: &str, a: &[String]) -> String {
        let f = self.sym(f);
        if a.is_empty() { f } else { format!("{f}({})", a.join(",")) }
    }
    fn fun(&mut self, f: usize, a: Vec<(String, Term)>) -> (String, Term) {
        let (x, y): (Vec<String>, Vec<Term>) = a.into_iter().unzip();
        let n = self.g.p.funs[f].name.clone();
        let mut t = self.app(&n, &x);
        if self.g.p.funs[f].sem == Sem::Name {
            t = self.app("cast$Message$name", &[t]);
        }
        (t, Term::Fun(f, y))
    }
    fn step(&mut self) -> (String, Term) {
        let k = self.g.s.below(self.g.p.steps.len());
        let sorts: Vec<Sort> = self.g.p.steps[k].params.iter().map(|v| v.sort).collect();
        let (x, y): (Vec<String>, Vec<Term>) = sorts.into_iter().map(|s| self.idx(s)).unzip();
        let n = self.g.p.steps[k].name.clone();
        if n == "init" {
            return (self.sym("init"), Term::Init);
        }
        (self.app(&n, &x), Term::Step(k, y))
    }
    fn name(&mut self, fams: &[&str]) -> (String, Term) {
        let c: Vec<usize> = (0..self.g.p.funs.len()).filter(|i| self.g.p.funs[*i].sem == Sem::Name && (fams.is_empty() || fams.contains(&self.g.p.funs[*i].name.as_str()))).collect();
        let f = *self.g.s.pick(&c);
        let sorts = self.g.p.funs[f].args.clone();
        let a = sorts.into_iter().map(|s| self.idx(s)).collect();
        self.fun(f, a)
    }
    fn msg(&mut self, d: usize) -> (String, Term) {
        match self.g.s.weighted(&[3, if d > 0 { 3 } else { 0 }, 2, 1, 1, 1]) {
            0 => {
                let c: Vec<usize> = (0..self.g.p.funs.len()).filter(|i| self.g.p.funs[*i].out == Sort::Msg && self.g.p.funs[*i].args.is_empty()).collect();
                if c.is_empty() || self.g.s.chance(1, 4) {
                    return (self.sym("empty"), Term::Empty);
                }
                let f = *self.g.s.pick(&c);
                self.fun(f, vec![])
            }
            1 => {
                let c: Vec<usize> = (0..self.g.p.funs.len()).filter(|i| self.g.p.funs[*i].out == Sort::Msg && !self.g.p.funs[*i].args.is_empty() && self.g.p.funs[*i].args.iter().all(|s| matches!(s, Sort::Msg | Sort::Idx(_)))).collect();
                let f = *self.g.s.pick(&c);
                let sorts = self.g.p.funs[f].args.clone();
                let sem = self.g.p.funs[f].sem;
                let n = sorts.len();
                let a = sorts
                    .into_iter()
                    .enumerate()
                    .map(|(i, s)| {
                        let key = i + 1 == n && matches!(sem, Sem::Mac | Sem::Sign | Sem::Enc | Sem::Dec(..) | Sem::Pk);
                        match s {
                            Sort::Msg if key => self.name(if matches!(sem, Sem::Enc | Sem::Dec(..)) { &["kc"] } else { &["k", "kk"] }),
                            Sort::Msg if sem == Sem::Enc && i == 1 => self.name(&["rn", "rr"]),
                            Sort::Msg => self.msg(d - 1),
                            s => self.idx(s),
                        }
                    })
                    .collect();
                self.fun(f, a)
            }
            2 => {
                let (t, s) = self.step();
                (self.app("input", &[t]), Term::Input(Box::new(s)))
            }
            3 => {
                let (t, s) = self.step();
                (self.app("msg", &[t]), Term::MsgF(Box::new(s)))
            }
            4 if self.g.s.chance(1, 3) => self.name(&[]),
            5 if self.g.s.chance(1, 3) => {
                self.msgvar = true;
                (if self.g.s.chance(1, 2) { "X77".into() } else { "sK78".into() }, Term::Empty)
            }
            _ => (self.sym("empty"), Term::Empty),
        }
    }
    /// a literal over one of the primitives under an assumption
    fn lit(&mut self) -> Option<Lit> {
        let cs = self.g.p.cryptos.clone();
        let mut pl = vec![];
        for c in &cs {
            match c {
                Crypto::EufMac(m, v) | Crypto::UfCma(m, v, false) => pl.extend([(*v, 0), (*v, 0), (*m, 3)]),
                Crypto::EufSig(g, v, k) => pl.extend([(*v, 1 + 10 * k), (*v, 1 + 10 * k), (*g, 3)]),
                Crypto::IntCtxt(_, d, _) => pl.push((*d, 2)),
                _ => {}
            }
        }
        if pl.is_empty() {
            return None;
        }
        let (f, kind) = *self.g.s.pick(&pl);
        let d = self.g.s.range(0, 2);
        let (t, u) = match kind % 10 {
            0 => {
                let a = vec![self.msg(d), self.msg(d), self.name(&["k", "kk"])];
                self.fun(f, a)
            }
            1 => {
                let k = self.name(&["k", "kk"]);
                let k = self.fun(kind / 10, vec![k]);
                let a = vec![self.msg(d), self.msg(d), k];
                self.fun(f, a)
            }
            2 => {
                let a = vec![self.msg(d), self.name(&["kc"])];
                let l = self.fun(f, a);
                self.eq(l, d)
            }
            _ => {
                let a = vec![self.msg(d), self.name(&["k", "kk"])];
                let l = self.fun(f, a);
                self.eq(l, d)
            }
        };
        let neg = kind % 10 < 2 && self.g.s.chance(1, 2);
        let txt = if neg { format!("~{t}") } else { t };
        let taut = Term::Op(Op::Or, vec![u.clone(), Term::Not(Box::new(u))]);
        let vs = std::mem::take(&mut self.vars);
        let term = if std::mem::take(&mut self.msgvar) {
            None
        } else if vs.is_empty() {
            Some(taut)
        } else {
            Some(Term::Q(true, vs, Box::new(taut)))
        };
        Some(Lit { txt, term })
    }
    fn eq(&mut self, l: (String, Term), d: usize) -> (String, Term) {
        let mut r = self.msg(d);
        if r.0 == "X77" || r.0 == "sK78" {
            // its sort could not be known
            r = (self.sym("empty"), Term::Empty);
        }
        let op = if self.g.s.chance(1, 2) { "=" } else { "!=" };
        (format!("{} {op} {}", l.0, r.0), Term::Op(Op::Eq, vec![l.1, r.1]))
    }
}
const JUNK: &[&str] = &["$false", "sP3(X1)", "~goal2", "X0 = X1", "happens(init)", "verify(", "verify)(", "'verify", "verify", "dec(X0", "mac(é,X0) = X1", "", "~", "1 = 2", "evaluate_msg(mac(X0,X1)) = sK9", "verify(X0,X1,X2,X3)", "dec", "checksign(X0) | ~checksign", "verify(verify(X0,X1,X2),X1,X2)", "'un closed | verify(X0)", "\"verify\"", "!![X]: verify(X)", "dec(X0,X0) = dec", "mac(s0,s0) = s0", "$less(X0,1)"];

fn learn_proto(s: &mut Src) -> Proto {
    let deep = s.chance(1, 4);
    let mut p = crypto_proto(s, deep);
    if p.cryptos.is_empty() {
        p.cryptos.push(Crypto::Nonce);
    }
    p
}
fn case(s: &mut Src, forged: bool) -> Case {
    let mut p = learn_proto(s);
    let text = p.text();
    let mut lits = vec![];
    let n = s.range(1, 3);
    let (clauses, s) = {
        let mut g = Gen::new(s, crypto_cfg(false));
        std::mem::swap(&mut g.p, &mut p);
        let quote = g.s.chance(1, 8);
        let mut clauses = vec![];
        {
            let mut l = L { g: &mut g, vars: vec![], msgvar: false, quote };
            for _ in 0..n {
                let mut parts = vec![];
                for _ in 0..l.g.s.range(1, 2) {
                    match l.lit() {
                        Some(x) => {
                            parts.push(x.txt.clone());
                            lits.push(x);
                        }
                        None => break,
                    }
                }
                if l.g.s.chance(1, 4) {
                    // neighbours that are no instances
                    let at = l.g.s.below(parts.len() + 1);
                    parts.insert(at, ["sP3(X1)", "happens(init)", "X0 = X1", "~goal2(sK3)"][l.g.s.below(4)].into());
                }
                if !parts.is_empty() {
                    clauses.push(parts.join(" | "));
                }
            }
        }
        std::mem::swap(&mut g.p, &mut p);
        (clauses, g.s)
    };
    let p = Arc::new(p);
    let mut c = Case::new(format!("{text}\nclauses: {clauses:?}"));
    if lits.is_empty() {
        c.label("no assumption to learn instances of");
        return c;
    }
    let again = s.chance(1, 3);
    let inst = format!("v-inst {}", clauses.join(" ;; "));
    let second = if again { inst.clone() } else { "v-unsat".into() };
    let script = format!("vampire none 1: {inst}\nvampire none 2: {second}\nvampire none *: v-unsat\nz3 none *: unknown\n");
    let solvers = if s.chance(1, 3) { vec!["vampire".into(), "z3".into()] } else { vec!["vampire".into()] };
    let a = Auto { text: text.clone(), nlem: 0, lemmas: false, retry: 4, solvers, missing: vec![], script: Script::new(), extra: vec![], format: "json" };
    let (d, o) = match a.run_with(&script) {
        Ok(x) => x,
        Err(e) => return c.err(e),
    };
    let rep = match super::verdict::report("json", &o) {
        Ok(r) => r,
        Err(e) => return c.fail("crash", e),
    };
    match (&rep, again) {
        (Rep::Ok(Some(t)), false) if *t == vec![2] => {}
        (Rep::Err(e), true) if e.contains("no new instances") && d.read("call-vampire-none-2").is_some() && d.read("call-vampire-none-3").is_none() => c.label("stopped: nothing new"),
        _ => return c.fail("retry", format!("the first try gives instances{}, the report is {rep:?}, second call {}", if again { ", the second one gives the same" } else { ", the second one proves" }, d.read("call-vampire-none-2").is_some())),
    }
    let f = d.read("in-vampire-none-2").unwrap_or_default();
    let prob = match Problem::parse(&f) {
        Ok(p) => p,
        Err(e) => return c.fail("unparsable", e),
    };
    if let Some(e) = prob.errors.first() {
        return c.fail("ill-formed", format!("the second problem is ill-formed: {e}"));
    }
    let mut p2 = (*p).clone();
    p2.asserts.extend(lits.iter().filter_map(|l| l.term.clone()));
    let p2 = Arc::new(p2);
    let learned: Vec<Term> = lits.iter().filter_map(|l| l.term.clone()).collect();
    let mut judged = again;
    for _ in 0..s.range(1, 4) {
        let w = if s.chance(1, 2) { in_order(&p, s) } else { gen_world(&p, s, 2, 4) };
        let mut w = repair_orders(w);
        if time_ok(&mut w).is_err() {
            continue;
        }
        let depth = s.range(1, 3);
        if run_protocol(&mut w, s, &mut |w, s, k, kn| if !forged && s.chance(3, 4) { helpful(w, s, k, kn).unwrap_or_else(|| dy(w, s, kn, depth)) } else { dy(w, s, kn, depth) }).is_none() {
            continue;
        }
        w.p = p2.clone();
        let mut what = String::new();
        if forged {
            let kind = if s.chance(2, 3) { Forge::Verify } else { Forge::Dec };
            if kind == Forge::Dec && lits.iter().any(|l| l.term.is_none() && l.txt.contains("enc")) {
                c.label("skipped: encryption in a clause with message variables");
                continue;
            }
            let mut sw = Sweep::new();
            for t in &learned {
                sw.term(&mut w, t, &mut Env::default());
            }
            let prefer: HashSet<(usize, Vec<Val>)> = sw.visible.clone();
            match forge_in(&mut w, s, kind, Some(&prefer)) {
                Some(x) => what = x,
                None => {
                    c.label("nothing to forge");
                    continue;
                }
            }
        }
        let desc = format!("{}; out {:?}; {what}", w.describe(), w.msg.iter().map(|v| w.show(*v)).collect::<Vec<_>>());
        let uni = w.collect_universe(&[]);
        let mut ev = Ev::new(&prob, w, 1);
        ev.crypto = true;
        ev.budget = 1500;
        ev.universe = uni;
        c.sample = format!("{text}\nclauses: {clauses:?}\nrun: {desc}");
        let bad = prob.asserts.iter().find(|a| ev.assertion(a) == Val::B(false));
        match (forged, bad) {
            (false, Some(b)) => return c.fail("honest-run-excluded", format!("after learning these clauses the problem excludes this honest run by {}", b.src)),
            (true, None) if !ev.exhausted => return c.fail("forgery-allowed", format!("after learning these clauses the problem still has a model where {what}")),
            (true, None) => c.label("undecided"),
            _ => {
                c.label(if forged { "forgery excluded" } else { "honest run kept" });
                judged = true;
            }
        }
    }
    c.nontrivial_if(judged);
    c
}
/// a term over the protocol's own functions with any number of arguments of any sort
fn odd(p: &Proto, s: &mut Src, depth: usize) -> String {
    if depth == 0 || s.chance(1, 4) {
        return ["X0", "X1", "sK0", "sK1(X0)", "init", "$true"][s.below(6)].into();
    }
    let f = s.pick(&p.funs);
    let n = if s.chance(2, 3) { f.args.len() } else { s.range(0, 4) };
    let a: Vec<String> = (0..n).map(|_| odd(p, s, depth - 1)).collect();
    let t = if n == 0 { f.name.clone() } else { format!("{}({})", f.name, a.join(",")) };
    if f.sem == Sem::Name && s.chance(3, 4) { format!("'cast$Message$name'({t})") } else { t }
}
/// clauses of which nothing can be learned, and nonsense
fn noise(s: &mut Src) -> Case {
    let p = learn_proto(s);
    let text = p.text();
    let mut lines = vec![];
    for _ in 0..s.range(1, 4) {
        let mut parts = vec![];
        for _ in 0..s.range(1, 3) {
            let mut j = if s.chance(1, 2) { s.pick(JUNK).to_string() } else { odd(&p, s, 3) };
            if s.chance(1, 4) {
                // damage
                let cs: Vec<char> = j.chars().collect();
                if !cs.is_empty() {
                    let i = s.below(cs.len());
                    j = cs.iter().enumerate().filter(|(k, _)| *k != i).map(|x| *x.1).collect();
                }
            }
            parts.push(j);
        }
        lines.push(parts.join(" | "));
    }
    let inst = format!("v-inst {}", lines.join(" ;; "));
    let script = format!("vampire none 1: {inst}\nvampire none 2: {inst}\nvampire none *: v-unsat\n");
    let a = Auto { text: text.clone(), nlem: 0, lemmas: false, retry: 4, solvers: vec!["vampire".into()], missing: vec![], script: Script::new(), extra: vec![], format: "json" };
    let mut c = Case::new(format!("{text}\nclauses: {lines:?}"));
    let (d, o) = match a.run_with(&script) {
        Ok(x) => x,
        Err(e) => return c.err(e),
    };
    match super::verdict::report("json", &o) {
        Ok(Rep::Err(e)) if e.contains("no new instances") => {}
        Ok(r) => return c.fail("retry", format!("the solver never gives anything new after the second try, the report is {r:?}")),
        Err(e) => return c.fail("crash", e),
    }
    if d.read("call-vampire-none-3").is_some() {
        return c.fail("retry", "a third try with nothing new");
    }
    if let Some(f) = d.read("in-vampire-none-2") {
        c.label("something was learned");
        match Problem::parse(&f) {
            Ok(p) => {
                if let Some(e) = p.errors.first() {
                    return c.fail("ill-formed", format!("the second problem is ill-formed: {e}"));
                }
            }
            Err(e) => return c.fail("unparsable", e),
        }
    }
    c.nontrivial_if(true);
    c
}
