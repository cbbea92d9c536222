//! C10: lemmas are proved in order, each from the asserts and the earlier lemmas only.
use super::goal::{closed, fill_random, rand_world};
use super::verdict::{Auto, Script};
use super::*;
use crate::eval::Ev;
use crate::gen::*;
use crate::model::*;
use crate::proto::*;
use crate::run::*;
use crate::smt::Problem;
use std::sync::Arc;

pub fn check() -> Check {
    Check {
        id: "C10",
        level: "exploration",
        rule: "a case is non-trivial when the tool produced all the problems of the file and in at least one world a problem that has a lemma in front of it (or lemmas that must be left out) was compared with definite truth values",
        families: vec![fam("to-dir", 3500, 120_000, |s| case(s, 0)), fam("auto", 2500, 80_000, |s| case(s, 1)), fam("without", 1500, 40_000, |s| case(s, 2))],
    }
}
/// `(files, expected)`: the k-th file must be excluded unless all of hyps hold and goal fails
struct Want {
    name: String,
    file: String,
    /// indices into the lemma list that must be assumed
    assumed: Vec<usize>,
    /// None = the query
    goal: Option<usize>,
}
fn case(s: &mut Src, mode: usize) -> Case {
    let cfg = Cfg { max_types: 1, max_steps: 2, max_cells: 1, max_macros: 1, max_orders: 1, depth: 2, ..Cfg::full() };
    let mut g = Gen::new(s, cfg);
    g.protocol();
    g.rename();
    let p = std::mem::take(&mut g.p);
    let p0 = Arc::new(p.clone());
    let mut w = rand_world(&p0, g.s, 2, 3);
    if time_ok(&mut w).is_err() {
        return Case::new(p0.text()).skip("no trace satisfies the declared orders");
    }
    g.p = p;
    let nl = g.s.range(1, 3);
    let na = g.s.range(0, 1);
    let mut forms = vec![];
    for k in 0..(na + nl + 1) {
        let d = g.s.range(1, 3);
        let t = g.formula(d);
        // asserts mostly true; lemmas and query either way
        let want = k < na || g.s.chance(1, 2);
        w.p = Arc::new(g.p.clone());
        let v = closed(&mut w, &t);
        forms.push(if v != want { Term::Not(Box::new(t)) } else { t });
    }
    let mut p = std::mem::take(&mut g.p);
    let s = &mut *g.s;
    p.query = forms.pop();
    p.lemmas = forms.split_off(na);
    p.asserts = forms;
    let p = Arc::new(p);
    let text = if s.chance(1, 2) { p.text() } else { shuffled(&p, s) };
    let mut c = Case::new(text.clone());
    let mut wants = vec![];
    let all = |k: usize| (0..k).collect::<Vec<_>>();
    match mode {
        0 => {
            let d = Scratch::new();
            d.write("p.ptcl", &text);
            let dialect = *s.pick(&["", "--cvc5", "--assert-theory"]);
            let mut a: Vec<String> = ["p.ptcl", "to-file", "--lemmas", "-o", "dir/out"].iter().map(|x| x.to_string()).collect();
            if !dialect.is_empty() {
                a.push(dialect.into());
            }
            let o = match run(&tool(), &a, &d.0, &Opts::default()) {
                Ok(o) if !o.timed_out => o,
                Ok(_) => return c.err("watchdog"),
                Err(e) => return c.err(e),
            };
            if o.code != Some(0) {
                return c.fail("rejected", format!("a well-typed input file is rejected: {}", o.stderr.chars().take(800).collect::<String>()));
            }
            let mut names: Vec<String> = std::fs::read_dir(d.0.join("dir/out")).map(|r| r.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default();
            names.sort();
            let expect: Vec<String> = (0..=nl).map(|i| format!("{i}.smt")).collect();
            if names != expect {
                return c.fail("files", format!("{nl} lemmas and a query were written to {names:?}"));
            }
            for k in 0..=nl {
                let file = std::fs::read_to_string(d.0.join(format!("dir/out/{k}.smt"))).unwrap_or_default();
                wants.push(Want { name: format!("{k}.smt"), file, assumed: all(k), goal: if k < nl { Some(k) } else { None } });
            }
        }
        1 => {
            let sv = if s.chance(1, 2) { "z3" } else { "vampire" };
            let mut script = Script::new();
            script.insert((sv.into(), 0, 1), (if sv == "z3" { "unsat" } else { "v-unsat" }.to_string(), super::verdict::Cl::Unsat));
            let a = Auto { text: text.clone(), nlem: 0, lemmas: true, retry: 1, solvers: vec![sv.into()], missing: vec![], script: Script::new(), extra: vec![], format: "json" };
            let (d, o) = match a.run_with("z3 none *: unsat\nvampire none *: v-unsat\n") {
                Ok(x) => x,
                Err(e) => return c.err(e),
            };
            match super::verdict::report("json", &o) {
                Ok(super::verdict::Rep::Ok(Some(t))) if t == vec![1; nl + 1] => {}
                r => return c.fail("report", format!("every problem is proved at the first try, the report is {r:?} {}", o.stderr.chars().take(400).collect::<String>())),
            }
            for k in 0..=nl + 1 {
                match d.read(&format!("in-{sv}-none-{}", k + 1)) {
                    Some(file) if k <= nl => wants.push(Want { name: format!("problem {k} given to {sv}"), file, assumed: all(k), goal: if k < nl { Some(k) } else { None } }),
                    None if k <= nl => return c.fail("files", format!("{sv} was never run on problem {k}")),
                    None => {}
                    Some(_) => return c.fail("files", format!("{sv} was run {} times for {} problems", k + 1, nl + 1)),
                }
            }
        }
        _ => {
            // lemmas must not be used
            match s.below(3) {
                0 => match emit(&text, &[], &[]) {
                    Ok(Emit::Ok(file)) => wants.push(Want { name: "to-file without --lemmas".into(), file, assumed: vec![], goal: None }),
                    Ok(Emit::Rejected(o)) => return c.fail("rejected", o.stderr.chars().take(800).collect::<String>()),
                    Err(e) => return c.err(e),
                },
                k => {
                    let extra = if k == 1 { vec![] } else { vec!["--ignore-lemmas".to_string()] };
                    let a = Auto { text: text.clone(), nlem: 0, lemmas: false, retry: 1, solvers: vec!["z3".into()], missing: vec![], script: Script::new(), extra, format: "json" };
                    let (d, o) = match a.run_with("z3 none *: unsat\n") {
                        Ok(x) => x,
                        Err(e) => return c.err(e),
                    };
                    match super::verdict::report("json", &o) {
                        Ok(super::verdict::Rep::Ok(Some(t))) if t == vec![1] => {}
                        r => return c.fail("report", format!("the query alone is to be proved, the report is {r:?} {}", o.stderr.chars().take(400).collect::<String>())),
                    }
                    match d.read("in-z3-none-1") {
                        Some(file) => wants.push(Want { name: "the problem given to z3 without lemmas".into(), file, assumed: vec![], goal: None }),
                        None => return c.fail("files", "z3 was never run"),
                    }
                }
            }
        }
    }
    let mut probs = vec![];
    for x in &wants {
        match Problem::parse(&x.file) {
            Ok(q) => {
                if let Some(e) = q.errors.first() {
                    return c.fail("ill-sorted", format!("{}: {e}", x.name));
                }
                probs.push(q);
            }
            Err(e) => return c.fail("unparsable", format!("{}: {e}", x.name)),
        }
    }
    let mut decided = false;
    let rounds = s.range(1, 4);
    for r in 0..rounds {
        let mut w = if r == 0 {
            w.clone()
        } else if s.chance(1, 2) {
            let mut w2 = w.clone();
            fill_random(&mut w2, s);
            w2
        } else {
            rand_world(&p, s, 2, 3)
        };
        w.p = p.clone();
        if time_ok(&mut w).is_err() {
            continue;
        }
        w.ambiguous_find = false;
        let hyp: Vec<bool> = p.asserts.iter().map(|a| closed(&mut w, a)).collect();
        let lem: Vec<bool> = p.lemmas.iter().map(|a| closed(&mut w, a)).collect();
        let q = closed(&mut w, p.query.as_ref().unwrap());
        if w.ambiguous_find {
            continue;
        }
        for (x, prob) in wants.iter().zip(&probs) {
            let goal = x.goal.map(|k| lem[k]).unwrap_or(q);
            let counter = !goal && hyp.iter().all(|b| *b) && x.assumed.iter().all(|k| lem[*k]);
            let desc = w.describe();
            let mut ev = Ev::new(prob, w.clone(), 1);
            ev.relative = true;
            ev.universe = ev.w.universe.clone();
            let mut bad = None;
            let mut unk = false;
            for a in &prob.asserts {
                match ev.assertion(a) {
                    Val::B(true) => {}
                    Val::B(false) => {
                        bad = Some(a.src.clone());
                        break;
                    }
                    _ => unk = true,
                }
            }
            let ctx = format!("{}: asserts {hyp:?}, lemmas {lem:?}, query {q}; assumed lemmas {:?}, goal {:?}; {desc}", x.name, x.assumed, x.goal);
            match (counter, bad) {
                (true, Some(a)) => return c.fail("countermodel-excluded", format!("{ctx}: the hypotheses of this problem hold and its goal fails, but it excludes the world by {a}")),
                (false, None) if !unk => return c.fail("spurious-countermodel", format!("{ctx}: the goal of this problem holds or one of its hypotheses fails, but it does not exclude the world")),
                (false, None) => c.label("undecided"),
                (t, _) => {
                    c.label(if t { "countermodel kept" } else { "non-countermodel excluded" });
                    decided |= mode == 2 || !x.assumed.is_empty();
                }
            }
        }
    }
    c.nontrivial_if(decided);
    c
}
/// same file with the lemmas, asserts and query interleaved differently (lemmas keep their order)
fn shuffled(p: &Proto, s: &mut Src) -> String {
    let it = p.items();
    let n = it.len() - p.cryptos.len() - 1 - p.lemmas.len() - p.asserts.len();
    let (head, rest) = it.split_at(n);
    let lem: Vec<&String> = rest.iter().filter(|x| x.starts_with("lemma")).collect();
    let mut oth: Vec<&String> = rest.iter().filter(|x| !x.starts_with("lemma")).collect();
    s.shuffle(&mut oth);
    let mut out = head.iter().map(|x| format!("{x};\n")).collect::<String>();
    let (mut i, mut j) = (0, 0);
    while i < lem.len() || j < oth.len() {
        if j >= oth.len() || (i < lem.len() && s.chance(1, 2)) {
            out.push_str(&format!("{};\n", lem[i]));
            i += 1;
        } else {
            out.push_str(&format!("{};\n", oth[j]));
            j += 1;
        }
    }
    out
}
