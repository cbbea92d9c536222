//! C08: what does not make sense is refused, with an error and without output.
use super::*;
use crate::gen::*;
use crate::proto::*;
use crate::run::*;

pub fn check() -> Check {
    Check {
        id: "C08",
        level: "exploration",
        rule: "a generated file the tool accepts gets one change that makes it meaningless (a term of another sort, a wrong number of arguments, an undeclared or out-of-scope name, a second declaration, a missing or second query, a wrong crypto assertion, unbalanced brackets); non-trivial when the file was accepted before the change and had to be refused after it",
        families: vec![fam("terms", 6000, 200_000, |s| case(s, 0)), fam("declarations", 3500, 100_000, |s| case(s, 1)), fam("crypto", 2000, 60_000, |s| case(s, 2)), fam("text", 1500, 60_000, |s| case(s, 3)), fam("shadowing", 1200, 40_000, shadowing)],
    }
}
pub fn sort_of(p: &Proto, t: &Term) -> Sort {
    match t {
        Term::Var(i) => p.var_sorts[*i],
        Term::Fun(f, _) => p.funs[*f].out,
        Term::Empty | Term::In | Term::Input(_) | Term::MsgF(_) | Term::MsgM(..) | Term::Cell(..) | Term::Find(..) => match t {
            Term::Find(_, b) => sort_of(p, &b.1),
            _ => Sort::Msg,
        },
        Term::If(b) => sort_of(p, &b.1),
        Term::Let(_, b) => sort_of(p, &b.1),
        Term::Macro(m, _) => sort_of(p, &p.macros[*m].body),
        Term::Step(..) | Term::Init | Term::Pred(_) => Sort::Step,
        _ => Sort::Bool,
    }
}
pub type Visit<'a> = dyn FnMut(&mut Term, Sort, &[Var]) + 'a;
/// every subterm with the sort its place wants and the variables in scope
pub fn visit(p: &Proto, t: &mut Term, want: Sort, sc: &mut Vec<Var>, f: &mut Visit) {
    f(t, want, sc);
    let many = |v: &mut Vec<Term>, w: &[Sort], sc: &mut Vec<Var>, f: &mut Visit| {
        for (x, s) in v.iter_mut().zip(w) {
            visit(p, x, *s, sc, f);
        }
    };
    match t {
        Term::Fun(g, a) => many(a, &p.funs[*g].args.clone(), sc, f),
        Term::Not(x) => visit(p, x, Sort::Bool, sc, f),
        Term::Op(o, v) => {
            let s = if matches!(o, Op::Eq | Op::Neq) { sort_of(p, &v[0]) } else { Sort::Bool };
            v.iter_mut().for_each(|x| visit(p, x, s, sc, f));
        }
        Term::If(b) => {
            visit(p, &mut b.0, Sort::Bool, sc, f);
            visit(p, &mut b.1, want, sc, f);
            visit(p, &mut b.2, want, sc, f);
        }
        Term::Find(v, b) => {
            let n = sc.len();
            sc.extend(v.iter().cloned());
            visit(p, &mut b.0, Sort::Bool, sc, f);
            visit(p, &mut b.1, want, sc, f);
            sc.truncate(n);
            visit(p, &mut b.2, want, sc, f);
        }
        Term::Let(v, b) => {
            visit(p, &mut b.0, v.sort, sc, f);
            sc.push(v.clone());
            visit(p, &mut b.1, want, sc, f);
            sc.pop();
        }
        Term::Q(_, v, b) => {
            let n = sc.len();
            sc.extend(v.iter().cloned());
            visit(p, b, Sort::Bool, sc, f);
            sc.truncate(n);
        }
        Term::Macro(m, a) => many(a, &p.macros[*m].params.iter().map(|v| v.sort).collect::<Vec<_>>(), sc, f),
        Term::MsgM(s, a) | Term::CondM(s, a) | Term::Step(s, a) => many(a, &p.steps[*s].params.iter().map(|v| v.sort).collect::<Vec<_>>(), sc, f),
        Term::Pred(x) | Term::Input(x) | Term::MsgF(x) | Term::CondF(x) | Term::ExecF(x) | Term::Happens(x) => visit(p, x, Sort::Step, sc, f),
        Term::Lt(b) | Term::Leq(b) | Term::Gt(b) => {
            visit(p, &mut b.0, Sort::Step, sc, f);
            visit(p, &mut b.1, Sort::Step, sc, f);
        }
        Term::Cell(c, a, s) => {
            many(a, &p.cells[*c].args.clone(), sc, f);
            visit(p, s, Sort::Step, sc, f);
        }
        Term::Var(_) | Term::True | Term::False | Term::Empty | Term::Init | Term::In => {}
    }
}
/// all the terms of the file, but for the bodies of macros (which mean something only where they are used)
pub fn visit_all(p: &mut Proto, f: &mut Visit) {
    let q = p.clone();
    for st in &mut p.steps {
        let mut sc = st.params.clone();
        visit(&q, &mut st.cond, Sort::Bool, &mut sc, f);
        visit(&q, &mut st.msg, Sort::Msg, &mut sc, f);
        for a in &mut st.assigns {
            let n = sc.len();
            sc.extend(a.fresh.iter().cloned());
            for (x, s) in a.args.iter_mut().zip(&q.cells[a.cell].args) {
                visit(&q, x, *s, &mut sc, f);
            }
            visit(&q, &mut a.val, Sort::Msg, &mut sc, f);
            sc.truncate(n);
        }
    }
    for o in &mut p.orders {
        let mut sc = o.vars.clone();
        if let Some(g) = &mut o.guard {
            visit(&q, g, Sort::Bool, &mut sc, f);
        }
        visit(&q, &mut o.l, Sort::Step, &mut sc, f);
        visit(&q, &mut o.r, Sort::Step, &mut sc, f);
    }
    for t in p.asserts.iter_mut().chain(p.lemmas.iter_mut()).chain(p.query.iter_mut()) {
        visit(&q, t, Sort::Bool, &mut vec![], f);
    }
}
fn compatible(a: Sort, b: Sort) -> bool {
    a == b || matches!((a, b), (Sort::Msg, Sort::Name) | (Sort::Name, Sort::Msg))
}
/// what may be wrong in terms; the description, or nothing when the choice does not apply
fn break_term(p: &mut Proto, s: &mut Src) -> Option<String> {
    let mut n = 0;
    visit_all(p, &mut |_, _, _| n += 1);
    let at = s.below(n);
    let kind = s.below(4);
    let oos = p.new_var("outofscope", Sort::Msg);
    let q = p.clone();
    // variables bound somewhere in the file
    let mut bound: Vec<Var> = vec![];
    visit_all(p, &mut |_, _, sc| bound.extend(sc.iter().cloned()));
    let mut k = 0;
    let mut done = None;
    visit_all(p, &mut |t, want, sc| {
        k += 1;
        if k - 1 != at || done.is_some() {
            return;
        }
        let before = q.t(t);
        match kind {
            0 => {
                let mut alt: Vec<(Sort, Term)> = vec![(Sort::Msg, Term::Empty), (Sort::Bool, Term::True), (Sort::Step, Term::Init)];
                for v in sc {
                    // the innermost binder of that name
                    let name = &q.var_names[v.id];
                    if sc.iter().rev().find(|x| q.var_names[x.id] == *name).map(|x| x.id) == Some(v.id) {
                        alt.push((v.sort, Term::Var(v.id)));
                    }
                }
                for (i, g) in q.funs.iter().enumerate() {
                    if g.args.is_empty() {
                        alt.push((g.out, Term::Fun(i, vec![])));
                    }
                }
                alt.retain(|a| !compatible(a.0, want));
                let (mut so, mut x) = s.pick(&alt).clone();
                // possibly hidden in a construct
                if !matches!(want, Sort::Msg | Sort::Name) && s.chance(1, 3) {
                    so = Sort::Msg;
                    x = if s.chance(1, 2) { Term::If(Box::new((Term::True, Term::Empty, Term::Empty))) } else { Term::Find(vec![], Box::new((Term::True, Term::Empty, Term::Empty))) };
                } else if s.chance(1, 4) {
                    x = Term::If(Box::new((Term::True, x.clone(), x)));
                }
                done = Some(format!("{} of sort {} in place of {before} where {} is wanted", q.t(&x), q.sort_name(so), q.sort_name(want)));
                *t = x;
            }
            1 => {
                let extra = s.chance(1, 2);
                let a = match t {
                    Term::Fun(_, a) | Term::Macro(_, a) | Term::Step(_, a) | Term::MsgM(_, a) | Term::CondM(_, a) => a,
                    Term::Cell(_, a, _) => a,
                    _ => return,
                };
                if extra {
                    let x = if a.is_empty() { Term::Empty } else { s.pick(a).clone() };
                    let i = s.below(a.len() + 1);
                    a.insert(i, x);
                } else {
                    if a.is_empty() {
                        return;
                    }
                    let i = s.below(a.len());
                    a.remove(i);
                }
                done = Some(format!("{} in place of {before}", q.t(t)));
            }
            2 => {
                *t = Term::Var(oos.id);
                done = Some(format!("an undeclared name in place of {before}"));
            }
            _ => {
                let c: Vec<&Var> = bound.iter().filter(|v| compatible(v.sort, want) && !sc.iter().any(|x| q.var_names[x.id] == q.var_names[v.id])).collect();
                if c.is_empty() {
                    return;
                }
                let v = s.pick(&c);
                *t = Term::Var(v.id);
                done = Some(format!("{} out of its scope in place of {before}", q.var_names[v.id]));
            }
        }
    });
    done
}
fn break_decl(p: &Proto, s: &mut Src) -> Option<(Vec<String>, String)> {
    let mut items = p.items();
    let kinds = ["type ", "fun ", "cell ", "let ", "step ", "query ", "order ", "lemma ", "assert "];
    let name = |i: &str| i.split_whitespace().nth(1).map(|x| x.chars().take_while(|c| c.is_alphanumeric() || "_-'!".contains(*c)).collect::<String>()).unwrap_or_default();
    match s.below(7) {
        // a declaration twice
        0 => {
            let c: Vec<usize> = (0..items.len()).filter(|i| kinds[..5].iter().any(|k| items[*i].starts_with(k))).collect();
            let i = *s.pick(&c);
            let x = items[i].clone();
            let j = s.range(i + 1, items.len());
            items.insert(j, x.clone());
            Some((items, format!("declared twice: {x}")))
        }
        // a declaration less, when the name is used by another item
        1 => {
            let c: Vec<usize> = (0..items.len())
                .filter(|i| kinds[..5].iter().any(|k| items[*i].starts_with(k)))
                .filter(|i| {
                    let n = name(&items[*i]);
                    if n == "init" {
                        return false;
                    }
                    items.iter().enumerate().any(|(j, x)| j != *i && !x.starts_with("let ") && !x.starts_with("assert-crypto") && words(x).any(|w| w == n))
                })
                .collect();
            if c.is_empty() {
                return None;
            }
            let i = *s.pick(&c);
            let x = items.remove(i);
            Some((items, format!("not declared: {x}")))
        }
        // no query, two queries
        2 => {
            let i = items.iter().position(|x| x.starts_with("query "))?;
            if s.chance(1, 2) {
                items.remove(i);
                Some((items, "no query".into()))
            } else {
                let x = items[i].clone();
                items.push(x);
                Some((items, "two queries".into()))
            }
        }
        // a name for two things
        3 => {
            let c: Vec<usize> = (0..items.len()).filter(|i| ["fun ", "cell ", "step "].iter().any(|k| items[*i].starts_with(k))).collect();
            let i = *s.pick(&c);
            let n = name(&items[i]);
            if n == "init" {
                return None;
            }
            let x = match s.below(3) {
                0 => format!("fun {n}(Message):Message"),
                1 => format!("cell {n}:Message"),
                _ => format!("step {n} {{ true }} {{ empty }}"),
            };
            let j = s.below(items.len() + 1);
            items.insert(j, x.clone());
            Some((items, format!("the name {n} taken again: {x}")))
        }
        // names of the language
        4 => {
            let b = *s.pick(&["msg", "cond", "exec", "input", "pred", "happens", "lt", "init", "true", "false", "not", "empty", "leq", "gt"]);
            let x = match s.below(2) {
                0 => format!("fun {b}(Message):Message"),
                _ => format!("cell {b}:Message"),
            };
            let j = s.below(items.len() + 1);
            items.insert(j, x.clone());
            Some((items, x))
        }
        // sorts
        5 => {
            let x = match s.below(8) {
                4 => format!("cell zz9:{}", s.pick(&["Bool", "Step", "Name", "Undeclared"])),
                5 => format!("fun zz9(Message):{}", s.pick(&["Step", "Undeclared"])),
                6 => format!("type zz8;\nfun zz9:zz8"),
                7 => s.pick(&["step zz9 { cond!(zz9) } { empty }", "step zz9 { true } { msg!(zz9) }", "step zz9 { true } { msg(zz9) }", "step zz9 { cond(zz9) } { empty }", "let zz9!(x:Message) = zz9!(x);\nassert (zz9!(empty) == empty)", "assert cond!", "assert cond!(init, init)", "assert (msg!((init == init)) == empty)", "step zz9 { exec(zz9) } { empty }"]).to_string(),
                0 => "fun zz9(Undeclared):Message".to_string(),
                1 => "fun zz9(Message):Undeclared".to_string(),
                2 => "cell zz9(Undeclared):Message".to_string(),
                _ => "step zz9(i:Undeclared) { true } { empty }".to_string(),
            };
            let j = s.below(items.len() + 1);
            items.insert(j, x.clone());
            Some((items, x))
        }
        _ => {
            let x = match s.below(5) {
                0 => "type Message",
                1 => "type Bool",
                2 => "type Step",
                3 => "assert zz9!",
                _ => "order forall () init < true",
            };
            let j = s.below(items.len() + 1);
            items.insert(j, x.into());
            Some((items, x.into()))
        }
    }
}
fn words(x: &str) -> impl Iterator<Item = &str> {
    x.split(|c: char| !(c.is_alphanumeric() || "_-'!".contains(c)))
}
fn break_crypto(p: &Proto, s: &mut Src) -> Option<(Vec<String>, String)> {
    let mut items = p.items();
    let roles = [("euf-cma", 2), ("euf-cma", 3), ("uf-cma", 2), ("int-ctxt", 3)];
    let n = |i: usize| p.funs[i].name.clone();
    let x = match s.below(4) {
        0 => {
            // undeclared function
            let (k, m) = *s.pick(&roles);
            let mut a: Vec<String> = (0..m).map(|_| n(s.below(p.funs.len()))).collect();
            let i = s.below(m);
            a[i] = "zz9".into();
            format!("{k} {}", a.join(" "))
        }
        1 => {
            // wrong number of functions
            let (k, m) = *s.pick(&[("euf-cma", 1), ("euf-cma", 0), ("euf-cma", 4), ("uf-cma", 1), ("uf-cma", 3), ("int-ctxt", 2), ("int-ctxt", 4), ("int-ctxt", 0)]);
            format!("{k} {}", (0..m).map(|_| n(s.below(p.funs.len()))).collect::<Vec<_>>().join(" "))
        }
        2 => "no-such-assumption".to_string(),
        _ => {
            // functions with signatures the assumption cannot have
            let (k, m) = *s.pick(&roles);
            let bad: Vec<usize> = (0..p.funs.len()).filter(|i| p.funs[*i].args.iter().any(|a| !matches!(a, Sort::Msg)) || matches!(p.funs[*i].out, Sort::Name)).collect();
            if bad.is_empty() {
                return None;
            }
            let mut a: Vec<String> = (0..m).map(|_| n(s.below(p.funs.len()))).collect();
            let i = s.below(m);
            a[i] = n(*s.pick(&bad));
            format!("{k} {}", a.join(" "))
        }
    };
    items.push(format!("assert-crypto {x}"));
    Some((items, x))
}
fn break_text(text: &str, s: &mut Src) -> Option<(String, String)> {
    let cs: Vec<char> = text.chars().collect();
    let b: Vec<usize> = (0..cs.len()).filter(|i| "(){}".contains(cs[*i])).collect();
    if b.is_empty() {
        return None;
    }
    let mut o = cs.clone();
    let what;
    match s.below(3) {
        0 => {
            let i = *s.pick(&b);
            what = format!("the {} at {i} deleted", o.remove(i));
        }
        1 => {
            let i = s.below(cs.len() + 1);
            let c = *s.pick(&['(', ')', '{', '}']);
            o.insert(i, c);
            what = format!("a {c} inserted at {i}");
            // `(` followed by `*` would start a comment
            let w: String = o.iter().collect();
            if w.contains("(*") {
                return None;
            }
        }
        _ => {
            let i = *s.pick(&b);
            let c = match o[i] {
                '(' => '{',
                ')' => '}',
                '{' => '(',
                _ => ')',
            };
            what = format!("{} at {i} replaced with {c}", o[i]);
            o[i] = c;
        }
    }
    Some((o.into_iter().collect(), what))
}
pub enum Got {
    Accepted,
    Refused(String),
    Crashed(String),
}
/// in automatic mode, with a solver that proves everything; whether it was called
pub fn verdict_auto(text: &str, flags: &[&str]) -> Result<(Got, bool), String> {
    let a = super::verdict::Auto {
        text: text.into(),
        nlem: 0,
        lemmas: false,
        retry: 1,
        solvers: vec!["z3".into()],
        missing: vec![],
        script: Default::default(),
        extra: flags.iter().map(|x| format!("G:{x}")).collect(),
        format: "json",
    };
    let (d, o) = a.run_with("z3 goal *: unsat\nz3 none *: unsat\n")?;
    let called = std::fs::read_dir(&d.0).map_err(|e| e.to_string())?.flatten().any(|f| f.file_name().to_string_lossy().starts_with("call-"));
    let got = match super::verdict::report("json", &o) {
        Ok(super::verdict::Rep::Ok(_)) => Got::Accepted,
        Ok(super::verdict::Rep::Err(e)) => Got::Refused(e),
        Err(e) => Got::Crashed(e),
    };
    Ok((got, called))
}
pub fn verdict(text: &str, flags: &[&str]) -> Result<(Got, bool), String> {
    let d = Scratch::new();
    d.write("p.ptcl", text);
    let mut a: Vec<String> = flags.iter().map(|x| x.to_string()).collect();
    a.extend(["--output-format", "json", "p.ptcl", "to-file", "-o", "out.smt"].map(String::from));
    let o = run(&tool(), &a, &d.0, &Opts::default())?;
    if o.timed_out {
        return Err("watchdog".into());
    }
    let wrote = d.read("out.smt").is_some();
    let got = if let Some(e) = o.stdout.trim().strip_prefix("{\"Err\":") {
        Got::Refused(e.to_string())
    } else if o.code == Some(0) && o.stdout.contains("\"Ok\"") {
        Got::Accepted
    } else {
        Got::Crashed(format!("code {:?} signal {:?}: {}", o.code, o.signal, o.stderr.chars().take(600).collect::<String>()))
    };
    Ok((got, wrote))
}
/// the last ` --> line:column` of an error message
fn position(e: &str) -> Option<(usize, usize)> {
    if e.contains("FAILED TO BUILD SPAN") {
        return None;
    }
    let r = &e[e.rfind(" --> ")? + 5..];
    let num = |x: &str| x.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok();
    let l = num(r)?;
    Some((l, num(&r[r.find(':')? + 1..])?))
}
fn case(s: &mut Src, kind: usize) -> Case {
    let cfg = if s.chance(1, 2) { Cfg { max_steps: 2, depth: 2, ..Cfg::full() } } else { Cfg::full() };
    let cfg = Cfg { roles: kind == 2, ..cfg };
    let mut p = super::wf::rich(s, cfg);
    p.style.noise = 0;
    let good = p.text();
    let mut c = Case::new(good.clone());
    let broken = match kind {
        0 => break_term(&mut p, s).map(|w| (p.text(), w)),
        1 => break_decl(&p, s).map(|(i, w)| (i.iter().map(|x| format!("{x};\n")).collect(), w)),
        2 => break_crypto(&p, s).map(|(i, w)| (i.iter().map(|x| format!("{x};\n")).collect(), w)),
        _ => break_text(&good, s),
    };
    let (bad, what): (String, String) = match broken {
        Some(x) => x,
        None => {
            c.label("the change does not apply");
            return c;
        }
    };
    c.sample = format!("{bad}\n-- {what}");
    if s.chance(1, 4) {
        c.label("automatic mode");
        match verdict_auto(&bad, &[]) {
            Err(e) => return c.err(e),
            Ok((Got::Accepted, _)) => return c.fail("proved", format!("a meaningless file is reported as proved: {what}")),
            Ok((Got::Crashed(e), _)) => return c.fail("crash", format!("the tool crashes on a file to be refused ({what}): {e}")),
            Ok((Got::Refused(_), true)) => return c.fail("solver", format!("a solver is called on a meaningless file: {what}")),
            Ok((Got::Refused(_), false)) => {}
        }
    }
    match verdict(&bad, &[]) {
        Err(e) => return c.err(e),
        Ok((Got::Accepted, _)) => return c.fail("accepted", format!("a meaningless file is accepted: {what}")),
        Ok((Got::Crashed(e), _)) => return c.fail("crash", format!("the tool crashes on a file to be refused ({what}): {e}")),
        Ok((Got::Refused(_), true)) => return c.fail("output", format!("a refused file leaves an output behind: {what}")),
        Ok((Got::Refused(e), false)) => {
            if e.len() < 3 {
                return c.fail("no-reason", "an empty error message");
            }
            c.label("refused");
            // the error says where
            let ls: Vec<&str> = bad.lines().collect();
            let Some((l, col)) = position(&e) else { return c.fail("no-position", format!("the error has no position in the file ({what}): {}", e.chars().take(300).collect::<String>())) };
            if l == 0 || l > ls.len() + 1 || col == 0 || col > ls.get(l - 1).map_or(1, |x| x.chars().count() + 2) {
                return c.fail("position", format!("the error is said to be at {l}:{col}, outside the file ({what})"));
            }
            if what.starts_with("an undeclared name") {
                c.label("position of the undeclared name");
                if !ls.get(l - 1).is_some_and(|x| x.contains("outofscope")) {
                    return c.fail("position", format!("the error is said to be at {l}:{col}, where the undeclared name is not ({what})"));
                }
            }
        }
    }
    match verdict(&good, &[]) {
        Err(e) => return c.err(e),
        Ok((Got::Accepted, true)) => c.nontrivial_if(true),
        Ok((Got::Accepted, false)) => return c.fail("output", "an accepted file gives no output"),
        Ok((Got::Refused(e) | Got::Crashed(e), _)) => return c.fail("refused", format!("a meaningful file is refused: {e}")),
    }
    c
}

/// `--disallow-shadowing`: refused when a variable hides another one or a function, accepted otherwise, in every mode
fn shadowing(s: &mut Src) -> Case {
    let mut p = super::wf::rich(s, Cfg { max_steps: 2, depth: 2, ..Cfg::full() });
    p.style.noise = 0;
    for (i, n) in p.var_names.iter_mut().enumerate() {
        *n = format!("v{i}_{n}");
    }
    let good = p.text();
    let mut c = Case::new(good.clone());
    let flags = ["--disallow-shadowing"];
    let auto = s.chance(1, 2);
    let ask = |t: &str| if auto { verdict_auto(t, &flags) } else { verdict(t, &flags) };
    match ask(&good) {
        Err(e) => return c.err(e),
        Ok((Got::Accepted, true)) => {}
        Ok((Got::Accepted, false)) => return c.fail("output", "an accepted file gives no output"),
        Ok((Got::Refused(e) | Got::Crashed(e), _)) => return c.fail("refused", format!("no variable hides anything and the file is refused (auto: {auto}): {e}")),
    }
    // binders of quantifiers and finds, with what they can hide
    let q = p.clone();
    let mut at: Vec<(usize, String)> = vec![];
    visit_all(&mut p, &mut |t, _, sc| {
        if let Term::Q(_, vs, _) | Term::Find(vs, _) = t {
            for v in vs.iter() {
                at.extend(sc.iter().map(|x| (v.id, q.var_names[x.id].clone())));
                at.extend(q.funs.iter().map(|f| (v.id, f.name.clone())));
            }
        }
    });
    if at.is_empty() {
        c.label("nothing to hide");
        return c;
    }
    let (v, n) = s.pick(&at).clone();
    let what = format!("{} renamed to {n}", p.var_names[v]);
    p.var_names[v] = n;
    let bad = p.text();
    c.sample = format!("{bad}\n-- {what}, auto: {auto}");
    match ask(&bad) {
        Err(e) => c.err(e),
        Ok((Got::Accepted, _)) => c.fail("shadowing", format!("a variable hides another name and the file is accepted (auto: {auto}): {what}")),
        Ok((Got::Crashed(e), _)) => c.fail("crash", format!("the tool crashes ({what}): {e}")),
        Ok((Got::Refused(_), true)) => c.fail("output", format!("a refused file gives an output or reaches a solver (auto: {auto}): {what}")),
        Ok((Got::Refused(_), false)) => {
            c.label(if auto { "refused in automatic mode" } else { "refused" });
            c.nontrivial_if(true);
            c
        }
    }
}
