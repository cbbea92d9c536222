//! Scripted solver: the harness binary, reached through a symbolic link `fake-z3` / `fake-vampire`
//! in the scratch directory of a case. Its directory holds the script, one line per answer:
//! `solver problem try: behaviour`. It records every call it gets.
use std::io::Write;
use std::os::unix::ffi::OsStrExt;
use std::path::Path;

/// name of the goal in a solver file: the 0-ary predicate in the last assertion
pub fn goal_of(file: &str) -> Option<String> {
    let mut last = None;
    for l in file.lines() {
        let t = l.trim_start();
        if t.starts_with("(assert") {
            last = Some(t.to_string());
        }
    }
    let l = last?;
    l.split(|c: char| !(c.is_alphanumeric() || c == '_'))
        .find(|t| *t == "goal" || (t.starts_with("lem") && t[3..].chars().all(|c| c.is_ascii_digit()) && t.len() > 3))
        .map(|s| s.to_string())
}
extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
}
fn die(sig: i32) -> ! {
    unsafe {
        kill(std::process::id() as i32, sig);
    }
    std::thread::sleep(std::time::Duration::from_secs(5));
    std::process::exit(99)
}
pub fn main(dir: &Path, solver: &str) -> i32 {
    crate::run::lift_fsize();
    let args: Vec<std::ffi::OsString> = std::env::args_os().skip(1).collect();
    let file = args.last().cloned().unwrap_or_default();
    let text = std::fs::read_to_string(&file).unwrap_or_default();
    let pb = goal_of(&text).unwrap_or_else(|| "none".into());
    let mut t = 1;
    while dir.join(format!("call-{solver}-{pb}-{t}")).exists() {
        t += 1;
    }
    let base = format!("{solver}-{pb}-{t}");
    let _ = std::fs::write(dir.join(format!("in-{base}")), &text);
    let argl = args.iter().map(|a| String::from_utf8_lossy(a.as_bytes()).into_owned()).collect::<Vec<_>>().join("\n");
    let _ = std::fs::write(dir.join(format!("call-{base}")), argl);
    let script = std::fs::read_to_string(dir.join("script")).unwrap_or_default();
    let key = format!("{solver} {pb} {t}: ");
    let dflt = format!("{solver} {pb} *: ");
    let b = script.lines().find_map(|l| l.strip_prefix(&key)).or_else(|| script.lines().find_map(|l| l.strip_prefix(&dflt))).unwrap_or("unknown");
    let (b, arg) = b.split_once(' ').unwrap_or((b, ""));
    let mut out = std::io::stdout();
    let mut say = |s: &str| {
        let _ = out.write_all(s.as_bytes());
        let _ = out.flush();
    };
    let noise = "(warning \"unsat is the opposite of sat\")\nWARNING: unknown\n";
    match b {
        // z3
        "unsat" => say("unsat\n"),
        "unsat-noise" => say(&format!("{noise}unsat\n")),
        "unsat-spaces" => say("  unsat \r\n"),
        "unsat-nonl" => say("unsat"),
        "sat" => say("sat\n"),
        "sat-noise" => say(&format!("unsat\n{noise}sat\n")),
        "timeout" => say("timeout\n"),
        "timeout-noise" => say(&format!("{noise}unsat (incomplete)\ntimeout\n")),
        "unknown" => say("unknown\n"),
        "unsat-then-unknown" => say("unsat\nunknown\n"),
        "upper" => say("UNSAT\n"),
        "sentence" => say("(error \"line 3 column 1: cannot be unsat\")\nnot unsat\n"),
        "prefix" => say("unsat.\n"),
        "empty" => {}
        "blank-last" => say("unsat\n\n"),
        "error-rc" => {
            say("(error \"line 12 column 3: unknown constant\")\nunsat\n");
            return 1;
        }
        "only-rc" => {
            say("unsat\n");
            return arg.parse().unwrap_or(3);
        }
        "killed" => {
            say("unsat\n");
            die(9)
        }
        "segv" => {
            say("unsat\n");
            die(6)
        }
        "non-utf8" => {
            let _ = std::io::stdout().write_all(b"\xff\xfe\nunsat\n");
        }
        "slow" => {
            std::thread::sleep(std::time::Duration::from_secs(20));
            let _ = std::fs::write(dir.join(format!("late-{base}")), "");
            say("sat\n");
        }
        // vampire
        "v-unsat" => say("% Refutation found. Thanks to Tanya!\n% SZS status Unsatisfiable for x\n% Termination reason: Refutation\n"),
        "v-unsat-short" => say("% Refutation found.\n"),
        "v-sat" => say("% SZS status Satisfiable for x\n% # SZS output start Saturation.\n% Termination reason: Satisfiable\n"),
        "v-timeout" => {
            say("[SA] new: 1. goal [input]\n% Time limit reached!\n% Termination reason: Time limit\n");
            return 1;
        }
        "v-inst" => {
            for (i, l) in arg.split(" ;; ").enumerate() {
                say(&format!("[SA] new: {}. {l} [superposition 3,4]\n", i + 10));
            }
            say("% Termination reason: Time limit\n");
            return 1;
        }
        "v-rc" => {
            say("% Refutation found.\n% SZS status Unsatisfiable for x\n");
            return arg.parse().unwrap_or(4);
        }
        "v-killed" => {
            say("% Refutation found.\n% SZS status Unsatisfiable for x\n");
            die(15)
        }
        "v-non-utf8" => {
            let _ = std::io::stdout().write_all(b"\xff% Refutation found.\n");
        }
        _ => say("unknown\n"),
    }
    0
}
