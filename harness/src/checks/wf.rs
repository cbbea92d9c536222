//! C07: what is emitted is well-formed.
use super::*;
use crate::gen::*;
use crate::proto::*;
use crate::run::*;
use crate::smt::Problem;

pub fn check() -> Check {
    Check {
        id: "C07",
        level: "exploration",
        rule: "a case is non-trivial when the tool wrote a problem of at least 30 commands; it is then sort-checked by the harness and, in the standard dialect, also by z3 and cvc5",
        families: vec![fam("standard-dialect", 2500, 60_000, |s| case(s, true)), fam("vampire-dialect", 1500, 40_000, |s| case(s, false))],
    }
}
pub const STD_FLAGS: &[&str] = &["--symbolic", "--skolemnise", "--no-preprocessing", "--legacy-evaluate"];
/// a pattern some cryptographic message of the protocol is an instance of: what is unified with it
pub fn pattern(g: &mut Gen) -> Option<(Vec<Var>, Term)> {
    fn crypto(p: &Proto, t: &Term, out: &mut Vec<Term>) {
        if let Term::Fun(f, a) = t {
            if matches!(p.funs[*f].sem, Sem::Enc | Sem::Mac | Sem::Sign) {
                out.push(t.clone());
            }
            a.iter().for_each(|x| crypto(p, x, out));
        }
        if let Term::If(b) = t {
            crypto(p, &b.1, out);
            crypto(p, &b.2, out);
        }
    }
    fn go(g: &mut Gen, t: &Term, sort: Sort, idx: &[Var], vs: &mut Vec<Var>, known: &mut Vec<(Term, usize)>, top: bool) -> Option<Term> {
        match (sort, t) {
            (Sort::Idx(_), Term::Var(i)) => {
                let v = idx.iter().find(|v| v.id == *i)?;
                if !vs.iter().any(|x| x.id == v.id) {
                    vs.push(v.clone());
                }
                Some(t.clone())
            }
            (Sort::Idx(_), _) => None,
            (Sort::Bool, _) => Some(Term::True),
            (_, Term::Fun(f, a)) if top || g.s.chance(if g.p.funs[*f].sem == Sem::Name { 7 } else { 5 }, 8) => {
                let sorts = g.p.funs[*f].args.clone();
                let mut v = vec![];
                for (x, st) in a.iter().zip(sorts) {
                    v.push(go(g, x, st, idx, vs, known, false)?);
                }
                Some(Term::Fun(*f, v))
            }
            _ => {
                if let Some(k) = known.iter().find(|k| k.0 == *t) {
                    return Some(Term::Var(k.1));
                }
                let v = g.p.new_var(["m_1", "m_2", "m_3", "m_4", "m_5", "m_6", "m_7", "m_8"][known.len().min(7)], Sort::Msg);
                known.push((t.clone(), v.id));
                vs.push(v.clone());
                Some(Term::Var(v.id))
            }
        }
    }
    let mut all = vec![];
    for st in &g.p.steps {
        let mut here = vec![];
        crypto(&g.p, &st.msg, &mut here);
        all.extend(here.into_iter().map(|t| (st.params.clone(), t)));
    }
    if all.is_empty() {
        return None;
    }
    let (params, t) = g.s.pick(&all).clone();
    let (mut vs, mut known) = (vec![], vec![]);
    let x = go(g, &t, Sort::Msg, &params, &mut vs, &mut known, true)?;
    if known.len() > 7 { None } else { Some((vs, x)) }
}
pub fn rich(s: &mut Src, cfg: Cfg) -> Proto {
    // keys where keys are expected, or anything anywhere
    let cfg = Cfg { roles: s.chance(1, 2), ..cfg };
    let mut g = Gen::new(s, cfg);
    g.signature();
    g.crypto();
    g.steps();
    g.orders();
    g.style();
    let d = g.cfg.depth;
    let na = g.s.range(0, 2);
    for _ in 0..na {
        let t = g.formula(d);
        g.p.asserts.push(t);
    }
    let mut t = g.formula(d);
    if g.s.chance(1, 3) {
        if let Some((vs, x)) = pattern(&mut g) {
            let same = Term::Op(Op::Eq, vec![x.clone(), x]);
            let same = if vs.is_empty() { same } else { Term::Q(true, vs, Box::new(same)) };
            t = Term::Op(Op::And, vec![same, t]);
        }
    }
    g.p.query = Some(t);
    g.rename();
    g.p
}
pub fn solver_parse(smt: &str) -> Result<Option<String>, String> {
    // parsing only: the check-sat is dropped
    let body: String = smt.lines().filter(|l| !l.starts_with("(check-sat)")).collect::<Vec<_>>().join("\n");
    let d = Scratch::new();
    let f = d.write("q.smt2", &body);
    let f = f.to_str().unwrap().to_string();
    let z3 = if std::path::Path::new("/opt/vp/z3/bin/z3").exists() { "/opt/vp/z3/bin/z3" } else { "z3" };
    let o = run(z3, &["-T:20".into(), f.clone()], &d.0, &Opts::default())?;
    if o.timed_out || o.signal.is_some() {
        return Err("z3 did not finish parsing".into());
    }
    if o.stdout.contains("error") {
        return Ok(Some(format!("z3: {}", o.stdout.lines().find(|l| l.contains("error")).unwrap_or(""))));
    }
    let body = format!("(set-logic ALL)\n{body}");
    std::fs::write(&f, &body).map_err(|e| e.to_string())?;
    let o = run("cvc5", &["--parse-only".into(), "-q".into(), f], &d.0, &Opts::default())?;
    if o.timed_out || o.signal.is_some() {
        return Err("cvc5 did not finish parsing".into());
    }
    if o.stdout.contains("error") || o.stderr.contains("error") || o.stdout.contains("Error") || o.stderr.contains("Error") {
        return Ok(Some(format!("cvc5: {} {}", o.stdout.chars().take(400).collect::<String>(), o.stderr.chars().take(400).collect::<String>())));
    }
    Ok(None)
}
fn case(s: &mut Src, std: bool) -> Case {
    let cfg = if s.chance(1, 3) { Cfg { depth: 2, max_steps: 2, ..Cfg::full() } } else { Cfg::full() };
    let cfg = if s.chance(1, 2) { Cfg { roles: true, ..cfg } } else { cfg };
    let p = rich(s, cfg);
    let text = p.text();
    let mut flags: Vec<&str> = STD_FLAGS.iter().copied().filter(|_| s.chance(1, 3)).collect();
    let mut tf = vec![];
    if std {
        tf.push("--cvc5");
    } else {
        for f in ["--eval-rewrite", "--crypto-rewrite", "--no-bitstring"] {
            if s.chance(1, 3) {
                flags.push(f);
            }
        }
        for f in ["--cvc5", "--assert-theory", "--assert-ground"] {
            if s.chance(1, 3) {
                tf.push(f);
            }
        }
    }
    let mut c = Case::new(format!("flags {flags:?} {tf:?}\n{text}"));
    let smt = match emit(&text, &flags, &tf) {
        Ok(Emit::Ok(t)) => t,
        Ok(Emit::Rejected(o)) => return c.fail("rejected", format!("a well-typed input file is rejected: {}", o.stderr.chars().take(800).collect::<String>())),
        Err(e) => return c.err(e),
    };
    let prob = match Problem::parse(&smt) {
        Ok(p) => p,
        Err(e) => return c.fail("unparsable", e),
    };
    if let Some(e) = prob.errors.first() {
        return c.fail("ill-formed", e.clone());
    }
    if prob.n_check_sat != 1 {
        return c.fail("check-sat", format!("{} check-sat commands", prob.n_check_sat));
    }
    for f in &flags {
        c.label(*f);
    }
    if std {
        if let Some((k, e)) = prob.others.first() {
            return c.fail("non-standard", format!("unexpected command {k}: {}", e.show()));
        }
        match solver_parse(&smt) {
            Ok(None) => {}
            Ok(Some(e)) => return c.fail("solver-rejects", e),
            Err(e) => return c.err(e),
        }
    }
    c.nontrivial_if(prob.asserts.len() + prob.syms.len() >= 30);
    c
}
