//! C13: whatever the text, the tool ends with a report, and what it accepts gives a well-formed problem.
use super::reject::*;
use super::*;
use crate::gen::*;
use crate::proto::*;
use crate::run::*;
use crate::smt::Problem;

pub fn check() -> Check {
    Check {
        id: "C13",
        level: "exploration",
        rule: "a case is non-trivial when the text is not the generated well-formed file itself and the tool gave a report on it: an error, or a problem that was then sort-checked",
        families: vec![fam("terms", 9000, 200_000, terms), fam("tokens", 9000, 200_000, tokens), fam("soup", 3000, 60_000, soup), fam("bytes", 3000, 60_000, bytes), fam("patterns", 6000, 120_000, patterns)],
    }
}
const WORDS: &[&str] = &[
    "query", "assert", "lemma", "order", "step", "cell", "fun", "type", "let", "in", "forall", "exists", "try", "find", "such", "that", "then", "else", "if", "assert-crypto", "not", "true", "false", "empty", "init", "pred", "msg", "cond", "exec", "input",
    "happens", "lt", "leq", "gt", "index", "Message", "Bool", "Condition", "Name", "Step", "nonce", "unfolding", "euf-cma", "uf-cma", "int-ctxt", "hmac", "memory_cell", "==", "!=", "<>", "&&", "||", "=>", "<=>", "<", "<-", ":", ";", ",", "(", ")", "{", "}", "!", "[", "]", "x", "f", "m!", "0", "'", "/*", "*/", "(*", "*)", "\"", "ta$", "é", "_",
    "Nonce", "Bitstring", "User", "macro", "as", "with", "mem", "subterm", "sk", "eval", "$Message", "=", "-", ".", "∀",
];
fn judge(mut c: Case, s: &mut Src, text: &[u8]) -> Case {
    let mut flags: Vec<&str> = vec![];
    for f in ["--symbolic", "--no-preprocessing", "--legacy-evaluate", "--skolemnise", "--eval-rewrite", "--crypto-rewrite", "--no-bitstring"] {
        if s.chance(1, 8) {
            flags.push(f);
        }
    }
    let d = Scratch::new();
    if let Err(e) = std::fs::write(d.0.join("p.ptcl"), text) {
        return c.err(e.to_string());
    }
    c.sample = format!("flags {flags:?}\n{}", String::from_utf8_lossy(text));
    let mut a: Vec<String> = flags.iter().map(|x| x.to_string()).collect();
    a.extend(["--output-format", "json", "p.ptcl", "to-file", "-o", "out.smt"].map(String::from));
    let o = match run(&tool(), &a, &d.0, &Opts { timeout: std::time::Duration::from_secs(60), ..Default::default() }) {
        Ok(o) => o,
        Err(e) => return c.err(e),
    };
    if o.timed_out {
        // a loaded machine, unless it takes long again
        return match run(&tool(), &a, &d.0, &Opts { timeout: std::time::Duration::from_secs(120), ..Default::default() }) {
            Ok(o) if o.timed_out => c.fail("endless", "the tool does not end (180 s)"),
            _ => c.err("watchdog"),
        };
    }
    let out = o.stdout.trim();
    if let Some(e) = out.strip_prefix("{\"Err\":") {
        if d.read("out.smt").is_some() {
            return c.fail("output", "an error is reported and an output written");
        }
        if e.len() < 3 {
            return c.fail("no-reason", "an empty error message");
        }
        c.label("refused");
        c.nontrivial_if(true);
        return c;
    }
    if o.code != Some(0) || !out.starts_with("{\"Ok\"") {
        let e: String = o.stderr.chars().take(500).collect();
        return c.fail(crash_sig(&o), format!("no report: code {:?} signal {:?}: {e}", o.code, o.signal));
    }
    c.label("accepted");
    let Some(smt) = d.read("out.smt") else { return c.fail("no-output", "success is reported and no output written") };
    match Problem::parse(&smt) {
        Err(e) => return c.fail("unparsable", e),
        Ok(p) => {
            if let Some(e) = p.errors.first() {
                return c.fail("ill-formed", e.clone());
            }
            if p.n_check_sat != 1 {
                return c.fail("check-sat", format!("{} check-sat commands", p.n_check_sat));
            }
        }
    }
    c.nontrivial_if(true);
    c
}
fn crash_sig(o: &Out) -> String {
    let s = &o.stderr;
    if s.contains("overflowed its stack") {
        return "crash: stack overflow".into();
    }
    let at = s.find("panicked at ").map(|i| s[i + 12..].split(':').next().unwrap_or("").to_string()).unwrap_or_default();
    let what = s.find("panicked at ").and_then(|i| s[i..].lines().nth(1)).unwrap_or("").chars().take(60).collect::<String>();
    format!("crash: {at} {what}")
}
fn base(s: &mut Src) -> Proto {
    let cfg = Cfg { max_steps: 2, depth: 2, ..Cfg::full() };
    let cfg = Cfg { roles: s.chance(1, 2), ..cfg };
    let mut p = super::wf::rich(s, cfg);
    p.style.noise = 0;
    p
}
/// bigger things are authenticated or encrypted
fn swell(p: &Proto, s: &mut Src, t: &mut Term) {
    fn tree(p: &Proto, s: &mut Src, x: Term, d: usize) -> Term {
        let tup = p.funs.iter().position(|f| f.sem == Sem::Pair);
        let free = p.funs.iter().position(|f| f.sem == Sem::Free && f.args == vec![Sort::Msg]);
        match (s.below(if d == 0 { 1 } else { 4 }), tup, free) {
            (1 | 2, Some(f), _) => {
                let a = tree(p, s, x.clone(), d - 1);
                let b = if s.chance(1, 2) { a.clone() } else { tree(p, s, x, d - 1) };
                Term::Fun(f, vec![a, b])
            }
            (3, _, Some(f)) => Term::Fun(f, vec![tree(p, s, x, d - 1)]),
            _ => match s.below(4) {
                0 => Term::In,
                1 => Term::Empty,
                _ => x,
            },
        }
    }
    match t {
        Term::Fun(f, a) => {
            if matches!(p.funs[*f].sem, Sem::Enc | Sem::Mac | Sem::Sign) && s.chance(2, 3) {
                a[0] = tree(p, s, a[0].clone(), 2);
            }
            a.iter_mut().for_each(|x| swell(p, s, x));
        }
        Term::If(b) => {
            swell(p, s, &mut b.1);
            swell(p, s, &mut b.2);
        }
        _ => {}
    }
}
/// well-behaved cryptography and, in the query, patterns its messages are instances of
fn patterns(s: &mut Src) -> Case {
    let deep = s.chance(1, 2);
    let mut p = super::crypto::crypto_proto(s, deep);
    for k in 0..p.steps.len() {
        let mut m = std::mem::replace(&mut p.steps[k].msg, Term::Empty);
        swell(&p, s, &mut m);
        p.steps[k].msg = m;
    }
    let mut g = Gen::new(s, Cfg::full());
    g.p = p;
    let mut eqs = vec![];
    for _ in 0..g.s.range(1, 3) {
        if let Some((vs, x)) = super::wf::pattern(&mut g) {
            let same = Term::Op(Op::Eq, vec![x.clone(), x]);
            eqs.push(if vs.is_empty() { same } else { Term::Q(true, vs, Box::new(same)) });
        }
    }
    eqs.push(g.p.query.take().unwrap_or(Term::True));
    g.p.query = Some(Term::Op(Op::And, eqs));
    let p = std::mem::take(&mut g.p);
    let text = p.text();
    judge(Case::new(text.clone()), s, text.as_bytes())
}
/// terms moved to other places, whatever their sorts
fn terms(s: &mut Src) -> Case {
    let mut p = base(s);
    let c = Case::new(String::new());
    let mut pool: Vec<Term> = vec![Term::Init, Term::Empty, Term::True, Term::In];
    visit_all(&mut p, &mut |t, _, _| pool.push(t.clone()));
    let k = s.range(1, 4);
    for _ in 0..k {
        let mut n = 0;
        visit_all(&mut p, &mut |_, _, _| n += 1);
        let at = s.below(n);
        let x = s.pick(&pool).clone();
        let y = s.pick(&pool).clone();
        let st = s.below(p.steps.len());
        let w = s.below(14);
        let mut i = 0;
        visit_all(&mut p, &mut |t, _, _| {
            i += 1;
            if i - 1 != at {
                return;
            }
            *t = match w {
                0 => Term::ExecF(Box::new(x.clone())),
                1 => Term::Pred(Box::new(x.clone())),
                2 => Term::Happens(Box::new(x.clone())),
                3 => Term::Op(Op::Eq, vec![x.clone(), y.clone()]),
                4 => Term::MsgF(Box::new(x.clone())),
                5 => Term::Input(Box::new(x.clone())),
                6 => Term::MsgM(st, vec![]),
                7 => Term::If(Box::new((x.clone(), y.clone(), t.clone()))),
                8 => Term::Lt(Box::new((x.clone(), y.clone()))),
                _ => x.clone(),
            };
        });
    }
    let t = p.text();
    judge(c, s, t.as_bytes())
}
fn lex(t: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for ch in t.chars() {
        let w = |c: char| c.is_alphanumeric() || "_-'!".contains(c);
        let o = |c: char| "=<>&|".contains(c);
        match v.last_mut() {
            Some(l) if (w(ch) && l.chars().all(w)) || (o(ch) && l.chars().all(o)) || (ch.is_whitespace() && l.trim().is_empty()) => l.push(ch),
            _ => v.push(ch.to_string()),
        }
    }
    v
}
fn tokens(s: &mut Src) -> Case {
    let t = base(s).text();
    let mut v = lex(&t);
    let k = s.range(1, 5);
    for _ in 0..k {
        if v.is_empty() {
            break;
        }
        let i = s.below(v.len());
        let j = s.below(v.len());
        match s.below(8) {
            0 => {
                v.remove(i);
            }
            1 => {
                let x = v[j].clone();
                v.insert(i, x);
            }
            2 => v.swap(i, j),
            3 => v[i] = v[j].clone(),
            4 => v[i] = s.pick(WORDS).to_string(),
            5 => v.insert(i, s.pick(WORDS).to_string()),
            6 => {
                let (a, b) = (i.min(j), i.max(j).min(i.min(j) + 30));
                let w: Vec<String> = v[a..b].to_vec();
                let at = s.below(v.len());
                v.splice(at..at, w);
            }
            _ => {
                let n = s.below(v.len());
                v.truncate(v.len() - n / 4);
            }
        }
    }
    let t = v.concat();
    judge(Case::new(String::new()), s, t.as_bytes())
}
fn soup(s: &mut Src) -> Case {
    let k = s.range(1, 60);
    let mut t = String::new();
    for _ in 0..k {
        t.push_str(s.pick(WORDS));
        t.push_str(s.pick(&[" ", "", "\n", " ", " "]));
    }
    if s.chance(1, 2) {
        t.push_str("\nquery true");
    }
    judge(Case::new(String::new()), s, t.as_bytes())
}
fn bytes(s: &mut Src) -> Case {
    let mut b: Vec<u8> = if s.chance(1, 6) { vec![] } else { base(s).text().into_bytes() };
    match s.below(7) {
        0 => {
            let n = s.below(b.len() + 1);
            b.truncate(n);
        }
        1 => {
            let k = s.range(1, 4);
            for _ in 0..k {
                let i = s.below(b.len() + 1);
                b.insert(i, s.below(256) as u8);
            }
        }
        2 => b = String::from_utf8_lossy(&b).replace('\n', "\r\n").into_bytes(),
        3 => b.splice(0..0, [0xef, 0xbb, 0xbf]).for_each(drop),
        4 => {
            let n = s.range(1, 200);
            b = (0..n).map(|_| s.below(256) as u8).collect();
        }
        5 => {
            let i = s.below(b.len() + 1);
            b.splice(i..i, s.pick(&["𝔘", "\u{200b}", "\0", "ß", "\u{301}", "→"]).bytes()).for_each(drop);
        }
        _ => {
            // deep nesting
            let n = s.range(1, 60);
            let (o, cl) = *s.pick(&[("(", ")"), ("not(", ")"), ("if true {", "} else {true}"), ("forall (x:Message) {", "}"), ("let x:Message = empty in ", ""), ("(true && ", ")")]);
            b.extend(format!("\nfun zz:Message;\nassert {}true{};", o.repeat(n), cl.repeat(n)).bytes());
        }
    }
    judge(Case::new(String::new()), s, &b)
}
