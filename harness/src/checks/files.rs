//! C12: the files of a run are the ones that were asked for, complete, and nothing else is left behind.
use super::verdict::*;
use super::*;
use crate::gen::*;
use crate::run::*;
use crate::smt::Problem;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

pub fn check() -> Check {
    Check {
        id: "C12",
        level: "exploration",
        rule: "a case is non-trivial when the output had an odd place (existing file, directory to create, link, stdin input), or a fault was injected, or solvers were really run; the directory tree was compared before and after",
        families: vec![fam("outputs", 2500, 80_000, outputs), fam("solver-files", 2500, 80_000, auto)],
    }
}
type Tree = BTreeMap<PathBuf, Option<Vec<u8>>>;
fn tree(d: &Path) -> Tree {
    fn go(d: &Path, base: &Path, t: &mut Tree) {
        for e in std::fs::read_dir(d).map(|r| r.flatten().collect::<Vec<_>>()).unwrap_or_default() {
            let p = e.path();
            let r = p.strip_prefix(base).unwrap().to_path_buf();
            match std::fs::symlink_metadata(&p) {
                Ok(m) if m.is_dir() => {
                    t.insert(r, None);
                    go(&p, base, t);
                }
                Ok(m) if m.file_type().is_symlink() => {
                    t.insert(r, std::fs::read_link(&p).ok().map(|l| l.display().to_string().into_bytes()));
                }
                Ok(_) => {
                    t.insert(r, std::fs::read(&p).ok());
                }
                Err(_) => {}
            }
        }
    }
    let mut t = Tree::new();
    go(d, d, &mut t);
    t
}
/// the commands of a problem, counted by kind
fn summary(smt: &str) -> Result<BTreeMap<String, usize>, String> {
    let sx = crate::sexp::parse(smt)?;
    let mut m = BTreeMap::new();
    for (_, e) in sx {
        let k = e.list().and_then(|l| l.first()).and_then(|x| x.atom()).unwrap_or("?").to_string();
        *m.entry(k).or_insert(0) += 1;
    }
    if m.get("check-sat") != Some(&1) {
        return Err("no check-sat at the end".into());
    }
    Ok(m)
}
fn ok_report(o: &Out, fmt: &str) -> Result<bool, String> {
    Ok(matches!(report(fmt, o)?, Rep::Ok(_)))
}
fn outputs(s: &mut Src) -> Case {
    let nlem = s.range(0, 3);
    let lemmas = s.chance(1, 3);
    let mut text = if s.chance(1, 2) {
        super::wf::rich(s, Cfg { max_steps: 2, depth: 2, ..Cfg::full() }).text()
    } else {
        proto_text(nlem, s)
    };
    let mut c = Case::new(text.clone());
    let fmt = *s.pick(&["json", "stdout", "pretty-json", "quiet"]);
    let mut base: Vec<String> = vec!["--output-format".into(), "json".into()];
    for f in ["--symbolic", "--legacy-evaluate", "--skolemnise"] {
        if s.chance(1, 8) {
            base.push(f.into());
        }
    }
    // the reference: a plain run
    let rf = Scratch::new();
    rf.write("p.ptcl", &text);
    let mut a = base.clone();
    a.extend(["p.ptcl", "to-file", "-o", "ref"].map(String::from));
    let tflags: Vec<String> = if lemmas { vec!["--lemmas".into()] } else { vec![] };
    a.extend(tflags.clone());
    if lemmas {
        std::fs::create_dir(rf.0.join("ref")).unwrap();
    }
    let o = match run(&tool(), &a, &rf.0, &Opts::default()) {
        Ok(o) if !o.timed_out => o,
        Ok(_) => return c.err("watchdog"),
        Err(e) => return c.err(e),
    };
    if !matches!(report("json", &o), Ok(Rep::Ok(_))) {
        return c.fail("plain-run", format!("a well-formed file is not written: {} {}", o.stdout, o.stderr.chars().take(300).collect::<String>()));
    }
    let mut want: BTreeMap<PathBuf, (BTreeMap<String, usize>, usize)> = BTreeMap::new();
    for (p, b) in tree(&rf.0) {
        let Some(b) = b else { continue };
        if p == Path::new("p.ptcl") {
            continue;
        }
        let t = String::from_utf8_lossy(&b).into_owned();
        match summary(&t) {
            Ok(m) => want.insert(p.strip_prefix("ref").unwrap().to_path_buf(), (m, t.len())),
            Err(e) => return c.fail("plain-run", format!("{}: {e}", p.display())),
        };
    }
    let full = want.values().map(|x| x.1).max().unwrap_or(0);
    drop(rf);
    // the run under test
    let d = Scratch::new();
    std::fs::create_dir(d.0.join("work")).unwrap();
    std::fs::create_dir(d.0.join("tmp")).unwrap();
    std::fs::create_dir(d.0.join("elsewhere")).unwrap();
    let w = d.0.join("work");
    let junk = "(assert false)\n".repeat(s.pick(&[1usize, 40, 9000]).to_owned());
    d.write("elsewhere/kept.txt", "kept");
    d.write("work/neighbour.smt", "(neighbour)");
    // (argument, where the result is looked for, must it fail)
    let mut fail = false;
    let mut must: Option<PathBuf> = None;
    let kind = s.below(if lemmas { 8 } else { 11 });
    let (arg, at): (String, PathBuf) = match kind {
        0 => ("out".into(), "work/out".into()),
        1 => ("new dir/b/é.smt".into(), "work/new dir/b/é.smt".into()),
        2 => (d.0.join("elsewhere/o.smt").display().to_string(), "elsewhere/o.smt".into()),
        3 => ("./../elsewhere/x/../y.smt".into(), {
            std::fs::create_dir(d.0.join("elsewhere/x")).unwrap();
            "elsewhere/y.smt".into()
        }),
        4 => {
            // already there
            if lemmas {
                std::fs::create_dir(w.join("out")).unwrap();
                d.write("work/out/0.smt", &junk);
                d.write("work/out/other", "other");
            } else {
                d.write("work/out", &junk);
            }
            ("out".into(), "work/out".into())
        }
        5 => {
            fail = true;
            ("neighbour.smt/x".into(), "work/none".into())
        }
        6 => {
            let to = d.0.join("elsewhere/target");
            if lemmas {
                std::fs::create_dir(&to).unwrap();
            } else {
                std::fs::write(&to, &junk).unwrap();
            }
            std::os::unix::fs::symlink(&to, w.join("link")).unwrap();
            ("link".into(), "elsewhere/target".into())
        }
        7 if lemmas => {
            fail = true;
            ("neighbour.smt".into(), "work/none".into())
        }
        7 => {
            fail = true;
            std::fs::create_dir(w.join("dir")).unwrap();
            d.write("work/dir/kept", "kept");
            ("dir".into(), "work/none".into())
        }
        8 => {
            fail = true;
            ("/dev/full".into(), "work/none".into())
        }
        9 => ("/dev/null".into(), "dev-null".into()),
        _ => {
            d.write("work/out.smt", &junk);
            ("out.smt".into(), "work/out.smt".into())
        }
    };
    if at.ends_with("dev-null") {
        must = Some(at.clone());
    }
    // faults
    let mut opts = Opts { env: vec![("TMPDIR".into(), d.0.join("tmp").display().to_string())], survivors: true, ..Default::default() };
    let mut what = "no fault".to_string();
    let mut bad_input = false;
    match s.below(6) {
        0 if kind != 9 => {
            let n = match s.below(3) {
                0 => full.saturating_sub(1),
                1 => s.below(full.max(1)),
                _ => (full / 8192) * 8192,
            };
            if n < full {
                // identifiers differ from run to run, hence sizes do a little
                if full - n > 200 {
                    fail = true;
                }
                opts.fsize = Some(n as u64);
                what = format!("no file beyond {n} bytes of {full}");
            }
        }
        1 => {
            bad_input = true;
            fail = true;
            text.push_str(s.pick(&["\nquery true;", "\nassert zz_undeclared;", "\n{", "\nfun true:Bool;"]));
            what = "meaningless input".into();
        }
        _ => {}
    }
    let mut a = vec!["--output-format".to_string(), fmt.to_string()];
    a.extend(base.iter().skip(2).cloned());
    let stdin = s.chance(1, 4);
    let input = *s.pick(&["p.ptcl", "in put.txt", "sub/é"]);
    if stdin {
        opts.stdin = Some(text.clone());
    } else {
        if input.starts_with("sub") {
            std::fs::create_dir(w.join("sub")).unwrap();
        }
        std::fs::write(w.join(input), &text).unwrap();
        a.push(input.to_string());
    }
    a.push("to-file".into());
    a.extend(tflags);
    a.extend(["-o".to_string(), arg.clone()]);
    c.sample = format!("{a:?} (stdin {stdin}, {what})\n{text}");
    let before = tree(&d.0);
    let o = match run(&tool(), &a, &w, &opts) {
        Ok(o) if !o.timed_out => o,
        Ok(_) => return c.err("watchdog"),
        Err(e) => return c.err(e),
    };
    let after = tree(&d.0);
    let ok = match ok_report(&o, fmt) {
        Ok(b) => b,
        Err(e) => return c.fail("bad-report", e),
    };
    c.label(format!("{}{} {}", if lemmas { "directory " } else { "file " }, kind, if fail { "fails" } else { "written" }));
    if ok && fail {
        return c.fail("silent-failure", format!("success is reported although {what}, output {arg}"));
    }
    if !ok && !fail && opts.fsize.is_none() {
        return c.fail("spurious-failure", format!("the run fails: {} {}", o.stdout, o.stderr.chars().take(400).collect::<String>()));
    }
    // what changed
    let inside = |p: &Path| p == at || p.starts_with(&at) || at.starts_with(p);
    for (p, v) in &after {
        if inside(p) || before.get(p) == Some(v) {
            continue;
        }
        return c.fail("stray-file", format!("{} appeared or changed", p.display()));
    }
    for (p, v) in &before {
        let out = lemmas && p.starts_with(&at) && p.extension().map(|e| e == "smt").unwrap_or(false) || !lemmas && p == &at;
        if after.get(p) != Some(v) && !(out && !bad_input) {
            return c.fail("lost-file", format!("{} is gone or changed", p.display()));
        }
    }
    if bad_input && after != before {
        return c.fail("output-on-error", "something is written although the input is refused");
    }
    if ok && must.is_none() {
        for (p, (m, _)) in &want {
            let f = if lemmas { at.join(p) } else { at.clone() };
            let Some(Some(b)) = after.get(&f) else { return c.fail("missing", format!("success, and {} is not there", f.display())) };
            let t = String::from_utf8_lossy(b);
            match summary(&t) {
                Err(e) => return c.fail("incomplete", format!("success, and {} is incomplete: {e}", f.display())),
                Ok(g) if &g != m => return c.fail("incomplete", format!("success, and {} has {g:?} instead of {m:?}", f.display())),
                _ => {}
            }
            match Problem::parse(&t) {
                Ok(p) if p.errors.is_empty() => {}
                Ok(p) => return c.fail("incomplete", p.errors[0].clone()),
                Err(e) => return c.fail("incomplete", e),
            }
        }
        if lemmas {
            for p in after.keys().filter(|p| p.starts_with(&at) && **p != at && !before.contains_key(*p)) {
                if !want.contains_key(p.strip_prefix(&at).unwrap()) {
                    return c.fail("stray-file", format!("{} appeared", p.display()));
                }
            }
        }
    }
    c.nontrivial_if(kind != 0 || fail || stdin || lemmas || opts.fsize.is_some());
    c
}
fn auto(s: &mut Src) -> Case {
    let one = s.chance(1, 2);
    let mut a = gen_auto(s, one);
    if s.chance(1, 2) {
        // what is not scripted is proved
        let calm = s.chance(1, 2);
        a.script.retain(|k, _| k.2 == 1 && !calm);
    }
    let d = Scratch::new();
    let mut fail = false;
    let mut dir: Option<PathBuf> = None;
    match s.below(6) {
        0 | 1 => {}
        2 => dir = Some("debug".into()),
        3 => dir = Some("a/b c/debug".into()),
        4 => {
            std::fs::create_dir(d.0.join("debug")).unwrap();
            d.write("debug/kept.smt", "kept");
            dir = Some("debug".into());
        }
        _ => {
            d.write("plain", "plain");
            dir = Some("plain".into());
            fail = true;
        }
    }
    if let Some(x) = &dir {
        let x = if s.chance(1, 3) { d.0.join(x).display().to_string() } else { x.display().to_string() };
        a.extra.extend(["--solver-file-debug".to_string(), x]);
    }
    let mut opts = Opts { survivors: true, ..Default::default() };
    let mut what = "no fault".to_string();
    match s.below(8) {
        0 => {
            let n = *s.pick(&[1u64, 500, 2000, 4096, 5000, 8192, 9000]);
            opts.fsize = Some(n);
            what = format!("no file beyond {n} bytes");
            fail |= n <= 2000;
        }
        1 => {
            opts.env.push(("TMPDIR".into(), d.0.join("not-there").display().to_string()));
            what = "no temporary directory".into();
            fail |= dir.is_none();
        }
        _ => {}
    }
    if a.solvers.is_empty() {
        fail = true;
    }
    let mut c = Case::new(format!("{}\nlemmas {} retry {} solvers {:?} missing {:?} format {} options {:?} {what}\n{}", a.text, a.lemmas, a.retry, a.solvers, a.missing, a.format, a.extra, a.script_text()));
    let before = tree(&d.0);
    let fsize = opts.fsize;
    let script = a.script_text();
    let (d, out) = match a.run_opts(&script, d, opts) {
        Ok(x) => x,
        Err(e) => return c.err(e),
    };
    let ok = match ok_report(&out, a.format) {
        Ok(b) => b,
        Err(e) => return c.fail("bad-report", e),
    };
    if ok && fail {
        return c.fail("silent-failure", format!("success is reported although {what}, options {:?}", a.extra));
    }
    if let Some(p) = out.survivors.first() {
        return c.fail("process-left", format!("{p} is still running after the tool ended"));
    }
    let after = tree(&d.0);
    let mut calls = vec![];
    let mut kept = vec![];
    let ours = |p: &Path| {
        let n = p.to_string_lossy();
        ["call-", "in-", "late-", "fake-"].iter().any(|x| n.starts_with(x)) || ["p.ptcl", "script", "tmp"].contains(&&*n)
    };
    for (p, v) in &after {
        let n = p.to_string_lossy().into_owned();
        if n.starts_with("in-") {
            // recorded completely when the call was recorded too
            if after.contains_key(Path::new(&n.replacen("in-", "call-", 1))) {
                calls.push((n, v.clone().unwrap_or_default()));
            }
        } else if ours(p) || before.get(p) == Some(v) {
        } else if let Some(x) = dir.as_ref().filter(|x| x.starts_with(p) || p.starts_with(x)) {
            if v.is_some() && p.parent() == Some(x.as_path()) {
                kept.push((n, v.clone().unwrap()));
            } else if v.is_some() || !x.starts_with(p) {
                return c.fail("stray-file", format!("{n} appeared"));
            }
        } else {
            return c.fail("stray-file", format!("{n} appeared or changed"));
        }
    }
    for (p, v) in &before {
        if after.get(p) != Some(v) {
            return c.fail("lost-file", format!("{} is gone or changed", p.display()));
        }
    }
    for (n, b) in &calls {
        if let Err(e) = summary(&String::from_utf8_lossy(b)) {
            return c.fail("truncated-problem", format!("a solver was run on a truncated file ({n}, {what}): {e}"));
        }
    }
    if fail && dir == Some("plain".into()) && !calls.is_empty() {
        return c.fail("ran-anyway", "solvers were run although their files cannot be kept");
    }
    if dir.is_some() && !fail {
        let mut left = kept.clone();
        for (n, b) in &calls {
            match left.iter().position(|(_, x)| x == b) {
                Some(i) => {
                    left.swap_remove(i);
                }
                None => return c.fail("not-kept", format!("the file {n} was run on is not in {dir:?}")),
            }
        }
        if fsize.is_none() {
            for (n, b) in &kept {
                if let Err(e) = summary(&String::from_utf8_lossy(b)) {
                    return c.fail("kept-truncated", format!("{n}: {e}"));
                }
            }
        }
    }
    c.label(format!("{}{}", if ok { "proved" } else { "not proved" }, if fsize.is_some() { ", limited" } else { "" }));
    c.nontrivial_if(!calls.is_empty() || fail);
    c
}
