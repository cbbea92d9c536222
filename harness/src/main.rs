mod checks;
mod eval;
mod fake;
mod gen;
mod model;
mod proto;
mod run;
mod sexp;
mod smt;
mod src;
use src::*;
use std::time::Instant;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn trunc(s: &str, n: usize) -> String {
    if s.chars().count() <= n { s.to_string() } else { format!("{}…", s.chars().take(n).collect::<String>()) }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let me = std::path::PathBuf::from(args.first().cloned().unwrap_or_default());
    if let Some(s) = me.file_name().and_then(|f| f.to_str()).and_then(|f| f.strip_prefix("fake-")) {
        let code = fake::main(me.parent().unwrap_or(std::path::Path::new(".")), s);
        std::process::exit(code);
    }
    let code = real_main(&args);
    run::cleanup();
    std::process::exit(code);
}
fn real_main(args: &[String]) -> i32 {
    let pid = args.get(1).cloned().unwrap_or_default();
    let chk = match checks::get(&pid) {
        Some(c) => c,
        None => {
            eprintln!("unknown property {pid}");
            return 2;
        }
    };
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let tier = opt("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let seed: u64 = opt("--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let scale: f64 = opt("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = opt("--family");
    let vdir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    // harness panics are reported through Verdict::Err
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("CV_TRACE").is_ok() {
            eprintln!("{i}");
        }
    }));
    if let Some(f) = opt("--replay") {
        return replay(&chk, &f);
    }
    let start = Instant::now();
    let mut sum = Summary::new();
    for fam in &chk.families {
        if only.as_deref().is_some_and(|o| o != fam.name) {
            continue;
        }
        let n = ((if tier == "thorough" { fam.thorough } else { fam.quick }) as f64 * scale) as usize;
        let t0 = Instant::now();
        let s = drive(fam.name, seed, n.max(1), &fam.f);
        eprintln!("{pid} {}: {} cases, {} non-trivial, {} skipped, {:.1}s", fam.name, s.evaluations, s.nontrivial.len(), s.skips.values().sum::<usize>(), t0.elapsed().as_secs_f64());
        sum.merge(s);
        if sum.failure.is_some() {
            break;
        }
    }
    let mut viol = vec![];
    let mut code = 0;
    if let Some(f) = &sum.failure {
        let dir = format!("{vdir}/replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{pid}-{}-{:08x}.replay", f.family, hash_str(&format!("{:?}", f.choices)) as u32);
        let body = format!(
            "property: {pid}\nfamily: {}\nsignature: {}\nchoices: {}\nshrink attempts: {}\n--- what happened\n{}\n--- input\n{}\n",
            f.family,
            f.sig,
            f.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "),
            f.shrink_steps,
            f.msg,
            f.sample
        );
        let _ = std::fs::write(&path, body);
        println!("{}: {}", f.sig, trunc(&f.msg, 2000));
        println!("VIOLATION property={pid} replay={path}");
        viol.push(format!("{{\"family\":{},\"signature\":{},\"what\":{},\"replay\":{}}}", js(&f.family), js(&f.sig), js(&trunc(&f.msg, 1500)), js(&path)));
        code = 1;
    } else if !sum.errors.is_empty() {
        for e in sum.errors.iter().take(5) {
            eprintln!("ERROR {e}");
        }
        code = 2;
    }
    let total_skips: usize = sum.skips.values().sum();
    let samples: Vec<String> = sum.samples.iter().take(6).map(|s| js(&trunc(s, 1800))).collect();
    let map = |m: &std::collections::BTreeMap<String, usize>| m.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(",");
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{seed},\"level\":{},\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"discarded\":{},\"labels\":{{{}}},\"discard_reasons\":{{{}}}}},\"wall_s\":{:.2},\"violations\":{},\"violation_details\":[{}]}}\n",
        js(&pid),
        js(&tier),
        js(chk.level),
        sum.evaluations,
        sum.nontrivial.len(),
        js(chk.rule),
        samples.join(","),
        total_skips,
        map(&sum.labels),
        map(&sum.skips),
        start.elapsed().as_secs_f64(),
        viol.len(),
        viol.join(",")
    );
    let _ = std::fs::create_dir_all(format!("{vdir}/evidence"));
    if std::env::var("CV_NO_EVIDENCE").is_err() {
        if let Err(e) = std::fs::write(format!("{vdir}/evidence/{pid}.json"), &ev) {
            eprintln!("cannot write evidence: {e}");
            return 2;
        }
    }
    if std::env::var("CV_STATS").is_ok() {
        for (k, v) in &sum.labels {
            eprintln!("  {v:7} {k}");
        }
        for (k, v) in &sum.skips {
            eprintln!("  {v:7} skip {k}");
        }
    }
    if code == 0 && sum.nontrivial.len() * 50 < sum.evaluations {
        eprintln!("ERROR vacuous run: {} non-trivial cases out of {}", sum.nontrivial.len(), sum.evaluations);
        code = 2;
    }
    if code == 0 {
        println!("OK property={pid} tier={tier} seed={seed} evaluations={} nontrivial={} discarded={} wall={:.1}s", sum.evaluations, sum.nontrivial.len(), total_skips, start.elapsed().as_secs_f64());
    }
    code
}
fn replay(chk: &checks::Check, f: &str) -> i32 {
    let s = match std::fs::read_to_string(f) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).map(|x| x.trim().to_string()).unwrap_or_default();
    let fam = get("family:");
    let choices: Vec<u32> = get("choices:").split_whitespace().filter_map(|x| x.parse().ok()).collect();
    let fm = match chk.families.iter().find(|x| x.name == fam) {
        Some(f) => f,
        None => return 2,
    };
    let f2 = &fm.f;
    let c = std::thread::scope(|sc| std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, || f2(&mut Src::replay(choices))).unwrap().join().unwrap());
    println!("{}", c.sample);
    match c.verdict {
        Verdict::Fail(sig, m) => {
            println!("{sig}: {m}\nVIOLATION property={} replay={f}", chk.id);
            1
        }
        v => {
            println!("{v:?}");
            0
        }
    }
}
