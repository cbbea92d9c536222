//! C09: what the tool reports about a run is what the solvers answered, for every answer a solver can give.
use super::*;
use crate::run::*;
use crate::smt::Problem;
use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;

pub fn check() -> Check {
    Check {
        id: "C09",
        level: "exploration",
        rule: "a case is non-trivial when at least one scripted solver was really called and some answer in the script was not a plain unsat (fault, noise, disproof, timeout, several tries) or several problems were queued",
        families: vec![fam("scripts", 6000, 200_000, |s| case(s)), fam("one-problem", 3000, 100_000, |s| case_one(s))],
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cl {
    Sat,
    Unsat,
    /// vampire ran out of time; some new instance was seen
    Timeout(bool),
    Other,
    Err,
}
pub const Z3: &[(&str, Cl)] = &[
    ("unsat", Cl::Unsat),
    ("timeout", Cl::Other),
    ("unknown", Cl::Other),
    ("sat", Cl::Sat),
    ("unsat-noise", Cl::Unsat),
    ("unsat-spaces", Cl::Unsat),
    ("unsat-nonl", Cl::Unsat),
    ("sat-noise", Cl::Sat),
    ("timeout-noise", Cl::Other),
    ("unsat-then-unknown", Cl::Other),
    ("upper", Cl::Other),
    ("sentence", Cl::Other),
    ("prefix", Cl::Other),
    ("empty", Cl::Err),
    ("blank-last", Cl::Other),
    ("error-rc", Cl::Err),
    ("only-rc 3", Cl::Err),
    ("only-rc 255", Cl::Err),
    ("killed", Cl::Other),
    ("segv", Cl::Other),
    ("non-utf8", Cl::Err),
];
pub const VA: &[(&str, Cl)] = &[
    ("v-unsat", Cl::Unsat),
    ("v-timeout", Cl::Timeout(false)),
    ("v-inst", Cl::Timeout(true)),
    ("v-unsat-short", Cl::Unsat),
    ("v-sat", Cl::Sat),
    ("v-rc 2", Cl::Err),
    ("v-rc 4", Cl::Err),
    ("v-rc 134", Cl::Err),
    ("v-killed", Cl::Other),
    ("v-non-utf8", Cl::Err),
];
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Outcome {
    Proven(Vec<usize>),
    Disproved,
    RanOut,
    NoNew,
    Solver,
    NoSolver,
}
pub type Script = BTreeMap<(String, usize, usize), (String, Cl)>; // (solver, problem, try)

pub struct Auto {
    pub text: String,
    pub nlem: usize,
    pub lemmas: bool,
    pub retry: usize,
    pub solvers: Vec<String>,
    pub missing: Vec<String>,
    pub script: Script,
    pub extra: Vec<String>,
    pub format: &'static str,
}
pub fn pbname(nlem: usize, k: usize) -> String {
    if k < nlem { format!("lem{k}") } else { "goal".into() }
}
/// the scripted solver: this binary, copied once
fn solver_binary() -> Result<std::path::PathBuf, String> {
    static F: std::sync::OnceLock<Result<std::path::PathBuf, String>> = std::sync::OnceLock::new();
    F.get_or_init(|| {
        let f = root().join("scripted-solver");
        std::fs::copy("/proc/self/exe", &f).map_err(|e| e.to_string())?;
        Ok(f)
    })
    .clone()
}
impl Auto {
    pub fn problems(&self) -> Vec<String> {
        let n = self.nlem;
        if self.lemmas { (0..=n).map(|k| pbname(n, k)).collect() } else { vec!["goal".into()] }
    }
    pub fn answer(&self, s: &str, k: usize, t: usize) -> (String, Cl) {
        self.script.get(&(s.to_string(), k, t)).cloned().unwrap_or_else(|| if s == "z3" { ("unsat".into(), Cl::Unsat) } else { ("v-unsat".into(), Cl::Unsat) })
    }
    /// every report the script allows, whatever the order in which the answers of one try arrive
    pub fn allowed(&self) -> BTreeSet<Outcome> {
        let mut res = BTreeSet::new();
        if self.solvers.is_empty() {
            res.insert(Outcome::NoSolver);
            return res;
        }
        let mut tries = vec![];
        'pb: for k in 0..self.problems().len() {
            let mut t = 1;
            loop {
                if self.retry != 0 && t > self.retry {
                    res.insert(Outcome::RanOut);
                    return res;
                }
                let a: Vec<(String, Cl)> = self.solvers.iter().map(|s| self.answer(s, k, t)).collect();
                let dec: Vec<Cl> = a.iter().filter(|x| x.0 != "slow").map(|x| x.1).filter(|c| matches!(c, Cl::Sat | Cl::Unsat | Cl::Err)).collect();
                if dec.contains(&Cl::Sat) {
                    res.insert(Outcome::Disproved);
                }
                if dec.contains(&Cl::Err) {
                    res.insert(Outcome::Solver);
                }
                if dec.contains(&Cl::Unsat) {
                    tries.push(t);
                    continue 'pb;
                }
                if !dec.is_empty() {
                    return res;
                }
                if a.iter().any(|x| x.1 == Cl::Timeout(false)) {
                    res.insert(Outcome::NoNew);
                    return res;
                }
                t += 1;
            }
        }
        res.insert(Outcome::Proven(tries));
        res
    }
    pub fn script_text(&self) -> String {
        let mut s = String::new();
        for ((sv, k, t), (b, _)) in &self.script {
            s.push_str(&format!("{sv} {} {t}: {b}\n", pbname(self.nlem, *k)));
        }
        for k in 0..=self.nlem {
            s.push_str(&format!("z3 {0} *: unsat\nvampire {0} *: v-unsat\n", pbname(self.nlem, k)));
        }
        s
    }
    pub fn args(&self, d: &Scratch) -> Vec<String> {
        let mut a: Vec<String> = vec!["--output-format".into(), self.format.into()];
        a.extend(self.extra.iter().filter(|x| x.starts_with("G:")).map(|x| x[2..].to_string()));
        a.extend(["p.ptcl".into(), "auto".into()]);
        if self.lemmas {
            a.push("--lemmas".into());
        }
        a.extend(["--num-of-retry".into(), self.retry.to_string()]);
        for s in ["vampire", "z3", "cvc5"] {
            let on = self.solvers.iter().any(|x| x == s);
            let gone = self.missing.iter().any(|x| x == s);
            let f = if on { d.0.join(format!("fake-{s}")) } else if gone { d.0.join("no-such-solver") } else { d.0.join(format!("fake-{s}")) };
            a.extend([format!("--{s}-location"), f.display().to_string()]);
            if !on && !gone {
                a.push(format!("--disable-{s}"));
            }
        }
        a.extend(self.extra.iter().filter(|x| !x.starts_with("G:")).cloned());
        a
    }
    /// runs the tool on the scripted solvers; the scratch directory holds their records
    pub fn run(&self) -> Result<(Scratch, Out), String> {
        self.run_with(&self.script_text())
    }
    pub fn run_with(&self, script: &str) -> Result<(Scratch, Out), String> {
        self.run_opts(script, Scratch::new(), Opts::default())
    }
    pub fn run_opts(&self, script: &str, d: Scratch, opts: Opts) -> Result<(Scratch, Out), String> {
        d.write("p.ptcl", &self.text);
        d.write("script", script);
        std::fs::create_dir_all(d.0.join("tmp")).map_err(|e| e.to_string())?;
        let me = solver_binary()?;
        for s in ["vampire", "z3", "cvc5"] {
            std::os::unix::fs::symlink(&me, d.0.join(format!("fake-{s}"))).map_err(|e| e.to_string())?;
        }
        let mut env = opts.env.clone();
        if env.is_empty() {
            env.push(("TMPDIR".into(), d.0.join("tmp").display().to_string()));
        }
        let o = Opts { env, timeout: Duration::from_secs(60), ..opts };
        let out = run(&tool(), &self.args(&d), &d.0, &o)?;
        if out.timed_out {
            return Err(format!("watchdog: the tool did not finish on\n{}\n{}", self.text, script));
        }
        Ok((d, out))
    }
}
/// what was reported
#[derive(Debug, Clone)]
pub enum Rep {
    Ok(Option<Vec<usize>>),
    Err(String),
}
fn tries_of(s: &str) -> Vec<usize> {
    s.match_indices("\"num_tries\":").filter_map(|(i, m)| s[i + m.len()..].trim_start().split(|c: char| !c.is_ascii_digit()).next().and_then(|x| x.parse().ok())).collect()
}
pub fn report(fmt: &str, o: &Out) -> Result<Rep, String> {
    let sh = |s: &str| s.chars().take(600).collect::<String>();
    if o.signal.is_some() {
        return Err(format!("killed by signal {:?}: {}", o.signal, sh(&o.stderr)));
    }
    match fmt {
        "stdout" => {
            if o.code == Some(0) {
                let t: Vec<usize> = o.stderr.match_indices("proven in ").chain(o.stdout.match_indices("proven in ")).count().checked_sub(0).map(|_| {
                    let all = format!("{}{}", o.stderr, o.stdout);
                    all.match_indices("proven in ").filter_map(|(i, m)| all[i + m.len()..].split(' ').next().and_then(|x| x.parse().ok())).collect()
                }).unwrap();
                Ok(Rep::Ok(Some(t)))
            } else {
                Ok(Rep::Err(o.stderr.clone()))
            }
        }
        "quiet" => {
            if !o.stdout.is_empty() {
                return Err(format!("quiet printed {}", sh(&o.stdout)));
            }
            Ok(if o.code == Some(0) { Rep::Ok(None) } else { Rep::Err(o.stderr.clone()) })
        }
        _ => {
            let v = o.stdout.trim();
            let inner = v.trim_start_matches('{').trim_start();
            if inner.starts_with("\"Ok\"") {
                if o.code != Some(0) {
                    return Err(format!("{v} with exit status {:?}", o.code));
                }
                Ok(Rep::Ok(Some(tries_of(v))))
            } else if inner.starts_with("\"Err\"") {
                Ok(Rep::Err(v.to_string()))
            } else {
                Err(format!("not a json report (exit {:?}): {} / {}", o.code, sh(v), sh(&o.stderr)))
            }
        }
    }
}
fn kind(e: &str) -> Option<Outcome> {
    if e.contains("isprove") {
        Some(Outcome::Disproved)
    } else if e.contains("ran out of tries") || e.contains("RanOutOfTries") {
        Some(Outcome::RanOut)
    } else if e.contains("no new instances") || e.contains("NoNewInstances") {
        Some(Outcome::NoNew)
    } else if e.contains("no valid solver") || e.contains("NoSolver") {
        Some(Outcome::NoSolver)
    } else {
        None
    }
}
pub fn proto_text(nlem: usize, s: &mut Src) -> String {
    let mut t = String::from("fun c0:Message;\nfun f(Message):Message;\nfun k:Name;\nfun goal:Bool;\n");
    for i in 0..nlem {
        t.push_str(&format!("fun lem{i}:Bool;\n"));
    }
    t.push_str("fun mac(Message,Message):Message;\nfun verify(Message,Message,Message):Bool;\n");
    for i in 0..s.range(1, 2) {
        t.push_str(&format!("step s{i}{{verify(in,c0,k)}}{{mac(in,k)}}\n"));
    }
    for i in 0..nlem {
        t.push_str(&format!("lemma lem{i};\n"));
    }
    t.push_str("query goal;\nassert-crypto uf-cma mac verify;\n");
    t
}
fn inst(n: usize) -> String {
    let mut a = "c0".to_string();
    for _ in 0..n {
        a = format!("f({a})");
    }
    format!("verify(c0,{a},c0)")
}
pub fn gen_auto(s: &mut Src, one: bool) -> Auto {
    let nlem = if one { 0 } else { s.range(0, 3) };
    let lemmas = nlem > 0 && !s.chance(1, 6);
    let retry = if one { *s.pick(&[1usize, 2]) } else { s.range(1, 4) };
    let (solvers, missing): (Vec<&str>, Vec<&str>) = match s.weighted(&[10, 3, 3, 1, 1, 1, 1]) {
        0 => (vec!["vampire", "z3"], vec![]),
        1 => (vec!["z3"], vec![]),
        2 => (vec!["vampire"], vec![]),
        3 => (vec!["z3"], vec!["vampire"]),
        4 => (vec!["vampire"], vec!["z3"]),
        5 => (vec![], vec!["vampire", "z3"]),
        _ => (vec![], vec![]),
    };
    let solvers: Vec<String> = solvers.into_iter().map(String::from).collect();
    let mut script = Script::new();
    let n = if lemmas { nlem + 1 } else { 1 };
    let mut ninst = 0;
    let retry = if s.chance(1, 8) { 0 } else { retry };
    for k in 0..n {
        let kk = if lemmas { k } else { nlem };
        // mostly let the earlier problems go through
        let calm = k + 1 < n && s.chance(2, 3);
        for t in 1..=retry.max(2) {
            let mut dec = false;
            for sv in &solvers {
                let list = if sv == "z3" { Z3 } else { VA };
                let i = if calm && t > 1 {
                    0
                } else if calm {
                    s.below(3)
                } else if s.chance(1, 2) {
                    s.below(list.len())
                } else {
                    // keep the run going
                    *s.pick(&[1usize, 2])
                };
                let i = if calm && sv == "vampire" && i == 1 { 2 } else { i };
                let (b, c) = list[i];
                let b = if b == "v-inst" {
                    ninst += 1;
                    format!("v-inst {}", inst(ninst))
                } else {
                    b.to_string()
                };
                dec |= matches!(c, Cl::Sat | Cl::Unsat | Cl::Err);
                script.insert((sv.clone(), kk, t), (b, c));
            }
            if dec && solvers.len() == 2 && s.chance(1, 5) {
                // the other solver hangs
                let d: Vec<usize> = (0..2).filter(|i| matches!(script[&(solvers[*i].clone(), kk, t)].1, Cl::Sat | Cl::Unsat | Cl::Err)).collect();
                let keep = *s.pick(&d);
                script.insert((solvers[1 - keep].clone(), kk, t), ("slow".into(), Cl::Other));
            }
        }
    }
    let text = proto_text(nlem, s);
    let timeout = s.pick(&["", "", "1", "2.5", "0.25", "30", "1.0"]).to_string();
    let extra = if timeout.is_empty() { vec![] } else { vec!["--timeout".into(), timeout] };
    let format = *s.pick(&["json", "stdout", "pretty-json", "quiet"]);
    let mut a = Auto { text, nlem, lemmas, retry, solvers, missing: missing.into_iter().map(String::from).collect(), script, extra, format };
    if !lemmas {
        // the single problem is number `nlem` in the script
        let sc = std::mem::take(&mut a.script);
        a.script = sc;
    }
    a
}
fn case(s: &mut Src) -> Case {
    decide(gen_auto(s, false))
}
fn case_one(s: &mut Src) -> Case {
    decide(gen_auto(s, true))
}
impl Auto {
    /// script index of the k-th queued problem
    pub fn idx(&self, k: usize) -> usize {
        if self.lemmas { k } else { self.nlem }
    }
}
fn decide(a: Auto) -> Case {
    // the model works on queue positions
    let mut m = Script::new();
    for ((s, k, t), v) in &a.script {
        let q = if a.lemmas { *k } else { 0 };
        m.insert((s.clone(), q, *t), v.clone());
    }
    let model = Auto { text: String::new(), nlem: a.nlem, lemmas: a.lemmas, retry: a.retry, solvers: a.solvers.clone(), missing: vec![], script: m, extra: vec![], format: a.format };
    let allowed = model.allowed();
    let mut c = Case::new(format!("{}\nlemmas {} retry {} solvers {:?} missing {:?} format {} options {:?}\n{}allowed reports: {allowed:?}", a.text, a.lemmas, a.retry, a.solvers, a.missing, a.format, a.extra, a.script_text()));
    let (d, out) = match a.run() {
        Ok(x) => x,
        Err(e) => return c.err(e),
    };
    let rep = match report(a.format, &out) {
        Ok(r) => r,
        Err(e) => return c.fail("bad-report", e),
    };
    let ok = match &rep {
        Rep::Ok(Some(t)) => allowed.contains(&Outcome::Proven(t.clone())),
        Rep::Ok(None) => allowed.iter().any(|o| matches!(o, Outcome::Proven(_))),
        Rep::Err(e) => match kind(e) {
            Some(k) => allowed.contains(&k),
            None => allowed.iter().any(|o| !matches!(o, Outcome::Proven(_))) && (allowed.contains(&Outcome::Solver) || a.format == "quiet"),
        },
    };
    if !ok {
        return c.fail("verdict", format!("reported {} but the solvers' answers allow {allowed:?}", match &rep {
            Rep::Ok(t) => format!("success (tries {t:?})"),
            Rep::Err(e) => format!("an error: {}", e.chars().take(400).collect::<String>()),
        }));
    }
    // the calls
    let mut calls: BTreeMap<String, BTreeMap<String, usize>> = BTreeMap::new();
    let mut late = vec![];
    for e in std::fs::read_dir(&d.0).map(|r| r.flatten().collect::<Vec<_>>()).unwrap_or_default() {
        let n = e.file_name().to_string_lossy().into_owned();
        if let Some(x) = n.strip_prefix("call-") {
            let p: Vec<&str> = x.split('-').collect();
            let v = calls.entry(p[1].to_string()).or_default().entry(p[0].to_string()).or_default();
            *v = (*v).max(p[2].parse().unwrap_or(0));
        }
        if n.starts_with("late-") {
            late.push(n);
        }
    }
    if let Some(l) = late.first() {
        return c.fail("solver-not-stopped", format!("{l}: a solver was left running after another one had decided"));
    }
    // the time limit every solver got
    let limit: f64 = a.extra.iter().position(|x| x == "--timeout").and_then(|i| a.extra[i + 1].parse().ok()).unwrap_or(1.0);
    for e in std::fs::read_dir(&d.0).map(|r| r.flatten().collect::<Vec<_>>()).unwrap_or_default() {
        let n = e.file_name().to_string_lossy().into_owned();
        let args = std::fs::read_to_string(e.path()).unwrap_or_default();
        if args.is_empty() {
            continue; // stopped while it was recording
        }
        if n.starts_with("call-z3") {
            // z3 takes whole seconds
            let t: Vec<&str> = args.lines().filter_map(|l| l.strip_prefix("-T:")).collect();
            match t.last().map(|x| x.parse::<u32>()) {
                Some(Ok(t)) if t as f64 >= limit && (t as f64) < limit + 1.0 => {}
                _ => return c.fail("time-limit", format!("{n} was given the time limit {t:?} instead of {limit}")),
            }
        }
        if n.starts_with("call-vampire") {
            let l: Vec<&str> = args.lines().collect();
            let t: Vec<f64> = l.windows(2).filter(|w| w[0] == "--time_limit" || w[0] == "-t").filter_map(|w| w[1].parse().ok()).collect();
            match t.last() {
                Some(t) if (*t - limit).abs() < 1e-9 => {}
                _ => return c.fail("time-limit", format!("{n} was given the time limit {t:?} instead of {limit}")),
            }
        }
    }
    let pbs = a.problems();
    for (pb, m) in &calls {
        if !pbs.contains(pb) {
            return c.fail("wrong-problem", format!("a solver was run on {pb}, which is not queued"));
        }
        for (s, t) in m {
            if !a.solvers.contains(s) {
                return c.fail("disabled-solver", format!("{s} was run although it is disabled or missing"));
            }
            if a.retry != 0 && *t > a.retry {
                return c.fail("too-many-tries", format!("{s} was run {t} times on {pb}, the bound is {}", a.retry));
            }
        }
    }
    let mut stopped = false;
    for (k, pb) in pbs.iter().enumerate() {
        let m = calls.get(pb).map(|m| m.values().copied().max().unwrap_or(0)).unwrap_or(0);
        match &rep {
            Rep::Ok(Some(t)) => {
                if t[k] != m && !(m == 0 && t[k] == 1) {
                    return c.fail("tries", format!("{pb} is reported proven in {} tries, the solvers were run {m} times", t[k]));
                }
            }
            Rep::Ok(None) => {}
            Rep::Err(_) => {
                if stopped && m > 0 {
                    return c.fail("ran-after-failure", format!("{pb} was tried although an earlier problem was not proven"));
                }
                // every answer so far on this problem
                let proven = (1..=m).any(|t| a.solvers.iter().any(|s| model.answer(s, k, t).1 == Cl::Unsat));
                if !proven {
                    stopped = true;
                }
            }
        }
    }
    // the files the solvers got
    for e in std::fs::read_dir(&d.0).map(|r| r.flatten().collect::<Vec<_>>()).unwrap_or_default() {
        let n = e.file_name().to_string_lossy().into_owned();
        if let Some(x) = n.strip_prefix("in-") {
            let f = std::fs::read_to_string(e.path()).unwrap_or_default();
            if !d.0.join(format!("call-{x}")).exists() {
                continue; // stopped while it was recording
            }
            match Problem::parse(&f) {
                Ok(p) => {
                    if let Some(e) = p.errors.first() {
                        return c.fail("file", format!("{x} was given an ill-formed problem: {e}"));
                    }
                }
                Err(e) => return c.fail("file", format!("{x} was given an unreadable problem: {e}")),
            }
            if f.matches("(check-sat)").count() != 1 {
                return c.fail("file", format!("{x} was given an incomplete problem"));
            }
            if x.starts_with("z3") && (f.contains("assert-not") || f.contains("assert-theory") || f.contains("assert-ground")) {
                return c.fail("file", "z3 was given a file with vampire's extensions".to_string());
            }
        }
    }
    c.label(match allowed.iter().next().unwrap() {
        _ if allowed.len() > 1 => "race: several reports allowed".to_string(),
        Outcome::Proven(_) => "proven".into(),
        o => format!("{o:?}"),
    });
    let odd = a.script.values().any(|v| v.0 != "unsat" && v.0 != "v-unsat");
    c.nontrivial_if(!calls.is_empty() && (odd || pbs.len() > 1));
    c
}
