//! Running the tool (and solvers) under a watchdog.
use std::io::{Read, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: String,
    pub stderr: String,
    pub timed_out: bool,
    /// processes of the run still alive two seconds after it ended
    pub survivors: Vec<String>,
}
#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(resource: i32, rlim: *const RLimit) -> i32;
    fn setpgid(pid: i32, pgid: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn signal(sig: i32, h: usize) -> usize;
}
pub fn lift_fsize() {
    let l = RLimit { cur: 256 << 20, max: 256 << 20 };
    unsafe {
        setrlimit(1, &l);
    }
}
fn group(pgid: i32) -> Vec<String> {
    let mut v = vec![];
    for e in std::fs::read_dir("/proc").map(|r| r.flatten().collect::<Vec<_>>()).unwrap_or_default() {
        let Ok(st) = std::fs::read_to_string(e.path().join("stat")) else { continue };
        let Some((h, t)) = st.rsplit_once(')') else { continue };
        let f: Vec<&str> = t.split_whitespace().collect();
        if f.len() > 2 && f[2] == pgid.to_string() && f[0] != "Z" && f[0] != "X" {
            v.push(h.to_string() + ")");
        }
    }
    v
}
pub struct Opts {
    pub timeout: Duration,
    pub mem: u64,
    pub env: Vec<(String, String)>,
    pub stdin: Option<String>,
    /// files may not grow beyond this size
    pub fsize: Option<u64>,
    /// look for processes the run left behind
    pub survivors: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { timeout: Duration::from_secs(60), mem: 3 << 30, env: vec![], stdin: None, fsize: None, survivors: false }
    }
}
pub fn run(bin: &str, args: &[String], cwd: &Path, o: &Opts) -> Result<Out, String> {
    let mut c = Command::new(bin);
    c.args(args).current_dir(cwd).stdout(Stdio::piped()).stderr(Stdio::piped());
    c.stdin(if o.stdin.is_some() { Stdio::piped() } else { Stdio::null() });
    c.env_remove("RUST_LOG").env_remove("RUST_BACKTRACE").env_remove("RUST_LIB_BACKTRACE").env("LC_ALL", "C.UTF-8");
    for (k, v) in &o.env {
        c.env(k, v);
    }
    let mem = o.mem;
    let fsize = o.fsize;
    let cpu = o.timeout.as_secs() * 8 + 60;
    unsafe {
        c.pre_exec(move || {
            setpgid(0, 0);
            let l = RLimit { cur: mem, max: mem };
            setrlimit(9, &l); // RLIMIT_AS
            // a run left behind by a harness that was killed ends by itself
            let l = RLimit { cur: cpu, max: cpu };
            setrlimit(0, &l); // RLIMIT_CPU
            let l = RLimit { cur: 0, max: 0 };
            setrlimit(4, &l); // RLIMIT_CORE
            let l = RLimit { cur: fsize.unwrap_or(256 << 20), max: 256 << 20 };
            setrlimit(1, &l); // RLIMIT_FSIZE
            if fsize.is_some() {
                signal(25, 1); // SIGXFSZ is ignored: writing fails instead
            }
            Ok(())
        });
    }
    let mut ch = c.spawn().map_err(|e| format!("cannot run {bin}: {e}"))?;
    let pid = ch.id() as i32;
    if let Some(s) = &o.stdin {
        let mut i = ch.stdin.take().unwrap();
        let s = s.clone();
        std::thread::spawn(move || {
            let _ = i.write_all(s.as_bytes());
        });
    }
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    let tx2 = tx.clone();
    std::thread::Builder::new().stack_size(128 << 10).spawn(move || {
        let mut v = vec![];
        let _ = so.read_to_end(&mut v);
        let _ = tx.send((0, v));
    }).map_err(|e| e.to_string())?;
    std::thread::Builder::new().stack_size(128 << 10).spawn(move || {
        let mut v = vec![];
        let _ = se.read_to_end(&mut v);
        let _ = tx2.send((1, v));
    }).map_err(|e| e.to_string())?;
    let start = Instant::now();
    let mut survivors = vec![];
    let mut early = None;
    if o.survivors {
        while start.elapsed() < o.timeout {
            if let Some(s) = ch.try_wait().map_err(|e| e.to_string())? {
                early = Some(s);
                break;
            }
            std::thread::sleep(Duration::from_millis(1));
        }
        if early.is_some() {
            let t = Instant::now();
            loop {
                survivors = group(pid);
                if survivors.is_empty() || t.elapsed() > Duration::from_secs(2) {
                    break;
                }
                std::thread::sleep(Duration::from_millis(20));
            }
            unsafe {
                kill(-pid, 9);
            }
        }
    }
    let mut bufs = [vec![], vec![]];
    let mut timed_out = false;
    for _ in 0..2 {
        let left = o.timeout.saturating_sub(start.elapsed());
        match rx.recv_timeout(left) {
            Ok((k, v)) => bufs[k] = v,
            Err(_) => {
                timed_out = true;
                break;
            }
        }
    }
    if timed_out {
        unsafe {
            kill(-pid, 9);
        }
        let _ = ch.kill();
    }
    let mut st = early;
    while st.is_none() && start.elapsed() < o.timeout + Duration::from_secs(2) {
        if let Some(s) = ch.try_wait().map_err(|e| e.to_string())? {
            st = Some(s);
            break;
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    if st.is_none() {
        unsafe {
            kill(-pid, 9);
        }
        let _ = ch.wait();
        timed_out = true;
    }
    // whatever the process left in its group
    unsafe {
        kill(-pid, 9);
    }
    let [a, b] = bufs;
    Ok(Out {
        code: st.and_then(|s| s.code()),
        signal: st.and_then(|s| s.signal()),
        stdout: String::from_utf8_lossy(&a).into_owned(),
        stderr: String::from_utf8_lossy(&b).into_owned(),
        timed_out,
        survivors,
    })
}

static ROOT: OnceLock<PathBuf> = OnceLock::new();
static CNT: AtomicUsize = AtomicUsize::new(0);
pub fn root() -> &'static PathBuf {
    ROOT.get_or_init(|| {
        let d = std::env::temp_dir().join(format!("cvcheck.{}", std::process::id()));
        let _ = std::fs::create_dir_all(&d);
        d
    })
}
pub fn cleanup() {
    if let Some(d) = ROOT.get() {
        let _ = std::fs::remove_dir_all(d);
    }
}
/// A scratch directory removed on drop.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        let d = root().join(format!("d{}", CNT.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
    pub fn write(&self, name: &str, s: &str) -> PathBuf {
        let f = self.0.join(name);
        std::fs::write(&f, s).expect("scratch write");
        f
    }
    pub fn read(&self, name: &str) -> Option<String> {
        std::fs::read_to_string(self.0.join(name)).ok()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
pub fn tool() -> String {
    std::env::var("CV_BIN").unwrap_or_else(|_| "/repo/target/release/cryptovampire".into())
}
pub enum Emit {
    Ok(String),
    Rejected(Out),
}
/// Short reason of a rejection, for labels.
pub fn reason(o: &Out) -> String {
    let s = &o.stderr;
    for k in ["TypingError", "ParsingError", "PestError", "SortMismatch", "Undefined", "AlreadyDefined", "unreachable", "overflow", "panicked"] {
        if s.contains(k) {
            let i = s.find(k).unwrap();
            return s[i..].chars().take(70).collect::<String>().replace('\n', " ");
        }
    }
    s.chars().take(60).collect()
}
/// `cryptovampire FLAGS p.ptcl to-file TFLAGS -o out` -> emitted text.
pub fn emit(text: &str, flags: &[&str], tflags: &[&str]) -> Result<Emit, String> {
    let d = Scratch::new();
    d.write("p.ptcl", text);
    let mut a: Vec<String> = flags.iter().map(|s| s.to_string()).collect();
    a.push("p.ptcl".into());
    a.push("to-file".into());
    a.extend(tflags.iter().map(|s| s.to_string()));
    a.push("-o".into());
    a.push("out.smt".into());
    let o = run(&tool(), &a, &d.0, &Opts::default())?;
    if o.timed_out {
        return Err(format!("watchdog: the tool did not finish on\n{text}"));
    }
    if o.code == Some(0) {
        match d.read("out.smt") {
            Some(s) => Ok(Emit::Ok(s)),
            None => Ok(Emit::Rejected(o)),
        }
    } else {
        Ok(Emit::Rejected(o))
    }
}
