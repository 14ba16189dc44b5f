//! Building /repo, compiling generated programs with it, running them under limits, and reporting.
use crate::json::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Violation { pub key: String, pub what: String, pub replay: String }

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub root: PathBuf,
    pub repo: PathBuf,
    pub work: PathBuf,
    pub start: Instant,
    pub lib: Lib,
    pub states: AtomicU64,
    pub trans: AtomicU64,
    pub traces: AtomicU64,
    pub grammars: AtomicU64,
    pub viol: Mutex<Vec<Violation>>,
    pub viol_total: AtomicU64,
    pub samples: Mutex<Vec<String>>,
    pub notes: Mutex<BTreeMap<String, J>>,
    pub assumptions: Mutex<Vec<String>>,
    pub uniq: AtomicUsize,
    pub deadline: Option<Duration>,
    pub capped: AtomicU64,
    hangs: AtomicU64,
    first: bool,
    known: Vec<(String, String)>,
}

#[derive(Clone, Default)]
pub struct Lib { pub deps: PathBuf, pub oak: PathBuf, pub rt: PathBuf, pub pos: PathBuf }

pub fn root() -> PathBuf { PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or("/verif".into())) }

/// /repo, or another tree for the tools which try mutants (with its own VERIF_ROOT).
pub fn repo() -> PathBuf { PathBuf::from(std::env::var("MC_REPO").unwrap_or("/repo".into())) }

pub fn fatal(msg: &str) -> ! {
    println!("ERROR: {}", msg);
    std::process::exit(2)
}

fn fnv(h: &mut u64, b: &[u8]) { for x in b { *h ^= *x as u64; *h = h.wrapping_mul(0x100000001b3); } }

fn hash_tree(p: &Path, h: &mut u64) {
    if p.is_dir() {
        let mut v: Vec<_> = match fs::read_dir(p) { Ok(d) => d.filter_map(|e| e.ok()).map(|e| e.path()).collect(), Err(_) => return };
        v.sort();
        for x in v { hash_tree(&x, h); }
    } else if let Ok(b) = fs::read(p) {
        fnv(h, p.to_string_lossy().as_bytes());
        fnv(h, &(b.len() as u64).to_le_bytes());
        fnv(h, &b);
    }
}

fn env(c: &mut Command) -> &mut Command {
    c.env("HOME", "/root")
        .env("PATH", "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
        .env("LANG", "C.UTF-8")
        .env("RUSTUP_TOOLCHAIN", "1.80.0")
        .env("RUSTC_BOOTSTRAP", "1")
        .env("RUSTC_WRAPPER", "")
        .env("CARGO_NET_OFFLINE", "true")
        .env("CARGO_TERM_COLOR", "never")
        .env("CARGO_INCREMENTAL", "0")
        .env("RUST_BACKTRACE", "0")
        .env("RUST_MIN_STACK", "67108864")
        .env_remove("RUSTFLAGS")
}

/// Builds /repo's current tree (both crates) through the harness crate.
pub fn build_repo(root: &Path, repo: &Path) -> Lib {
    let harness = root.join("harness");
    let target = root.join("target/harness");
    fs::create_dir_all(&target).unwrap();
    let mut h = 0xcbf29ce484222325u64;
    for p in ["src", "runtime/src", "Cargo.toml", "runtime/Cargo.toml"] { hash_tree(&repo.join(p), &mut h); }
    let stamp = target.join("repo.stamp");
    let txt = format!("{:016x}", h);
    let cargo = |args: &[&str]| {
        let mut c = Command::new("/root/.cargo/bin/cargo");
        c.args(args).current_dir(&harness).env("CARGO_TARGET_DIR", &target);
        env(&mut c);
        c
    };
    if fs::read_to_string(&stamp).unwrap_or_default() != txt {
        // never trust modification times: the sources differ from what was built last
        let _ = fs::remove_file(&stamp);
        if target.join("debug").exists() {
            let _ = cargo(&["clean", "--offline", "-p", "oak", "-p", "oak_runtime"]).output();
        }
    }
    let out = match cargo(&["build", "--offline", "--locked", "--message-format=json"]).output() {
        Ok(o) => o,
        Err(e) => fatal(&format!("cargo: {}", e)),
    };
    if !out.status.success() {
        let so = String::from_utf8_lossy(&out.stdout);
        for l in so.lines() { if let Some(j) = J::parse(l) { let m = j.get("message"); if m.get("level").str() == "error" { eprintln!("{}", m.get("rendered").str()) } } }
        fatal(&format!("the repository does not build: {}", String::from_utf8_lossy(&out.stderr)));
    }
    let mut lib = Lib { deps: target.join("debug/deps"), ..Default::default() };
    for l in String::from_utf8_lossy(&out.stdout).lines() {
        if let Some(j) = J::parse(l) {
            if j.get("reason").str() == "compiler-artifact" {
                let f: Vec<&str> = j.get("filenames").arr().iter().map(|x| x.str()).filter(|x| x.ends_with(".so") || x.ends_with(".rlib")).collect();
                match j.get("target").get("name").str() {
                    "oak" => lib.oak = f[0].into(),
                    "oak_runtime" => lib.rt = f[0].into(),
                    "syntex_pos" => lib.pos = f[0].into(),
                    _ => (),
                }
            }
        }
    }
    if lib.oak.as_os_str().is_empty() || lib.rt.as_os_str().is_empty() { fatal("cannot find the artifacts of oak"); }
    fs::write(&stamp, txt).unwrap();
    lib
}

pub enum End { Exit(i32), Signal(i32), Timeout }

/// Runs a command with its output in files, and a wall-clock limit.
fn run_limited(c: &mut Command, out: &Path, err: &Path, wall: Duration) -> End {
    use std::os::unix::process::ExitStatusExt;
    let mut ch = match c.stdin(Stdio::null()).stdout(fs::File::create(out).unwrap()).stderr(fs::File::create(err).unwrap()).spawn() {
        Ok(c) => c,
        Err(e) => fatal(&format!("cannot run {:?}: {}", c, e)),
    };
    let t = Instant::now();
    let mut nap = 2;
    loop {
        match ch.try_wait() {
            Ok(Some(s)) if s.signal() == Some(24) => return End::Timeout, // SIGXCPU
            Ok(Some(s)) => return match s.code() { Some(c) => End::Exit(c), None => End::Signal(s.signal().unwrap_or(0)) },
            Ok(None) => {
                if t.elapsed() > wall { let _ = ch.kill(); let _ = ch.wait(); return End::Timeout; }
                std::thread::sleep(Duration::from_millis(nap));
                if nap < 20 { nap += 2 }
            }
            Err(e) => fatal(&format!("wait: {}", e)),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Diag { pub level: String, pub msg: String, pub lines: Vec<usize>, pub help: Vec<String>, pub span: Option<(usize, usize)> }

pub fn parse_diags(s: &str) -> Vec<Diag> {
    let mut v = vec![];
    for l in s.lines() {
        if !l.starts_with('{') { continue; }
        if let Some(j) = J::parse(l) {
            let level = j.get("level").str().to_string();
            let msg = j.get("message").str().to_string();
            let mut lines = vec![];
            let mut span = None;
            for sp in j.get("spans").arr() {
                // follow the expansion up to the invocation site
                let mut s = sp;
                while *s.get("expansion") != J::Null { s = s.get("expansion").get("span"); }
                if !s.get("file_name").str().ends_with("p.rs") { continue; }
                lines.push(s.get("line_start").num() as usize);
                if *sp.get("is_primary") == J::Bool(true) && span.is_none() { span = Some((sp.get("column_start").num() as usize, sp.get("column_end").num() as usize)); }
            }
            let help = j.get("children").arr().iter().map(|c| c.get("message").str().to_string()).collect();
            v.push(Diag { level, msg, lines, help, span });
        }
    }
    v
}

/// One generated module: `code` is a single line, `table` the entry in the table of main (may be empty).
#[derive(Clone)]
pub struct Unit { pub id: usize, pub code: String, pub table: String }

#[derive(Clone, Debug)]
pub enum CompileFail { Diags(Vec<String>), Crash(String) }

pub struct Compiled { pub exe: Option<PathBuf>, pub failed: BTreeMap<usize, CompileFail>, pub warnings: Vec<(usize, Diag)> }

impl Ctx {
    pub fn new(prop: &str, thorough: bool) -> Ctx {
        let root = root();
        let repo = repo();
        let lib = build_repo(&root, &repo);
        let work = root.join(format!("target/work/{}-{}", prop, std::process::id()));
        fs::create_dir_all(&work).unwrap();
        let mut known = vec![];
        for l in fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default().lines() {
            if let Some(r) = l.strip_prefix("known: property=") {
                if let Some((p, k)) = r.split_once(' ') { known.push((p.to_string(), k.trim().to_string())); }
            }
        }
        Ctx { prop: prop.into(), thorough, seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1), root, repo, work, start: Instant::now(), lib,
            states: AtomicU64::new(0), trans: AtomicU64::new(0), traces: AtomicU64::new(0), grammars: AtomicU64::new(0),
            viol: Mutex::new(vec![]), viol_total: AtomicU64::new(0), samples: Mutex::new(vec![]), notes: Mutex::new(BTreeMap::new()), assumptions: Mutex::new(vec![]),
            uniq: AtomicUsize::new(0), deadline: None, capped: AtomicU64::new(0), hangs: AtomicU64::new(0), first: std::env::var("MC_FIRST").is_ok(), known }
    }

    pub fn violation(&self, key: &str, what: String, replay: String) {
        self.viol_total.fetch_add(1, Ordering::Relaxed);
        let mut v = self.viol.lock().unwrap();
        if self.known.iter().any(|(p, k)| *p == self.prop && k == key) || v.len() < 40 {
            if !v.iter().any(|x| x.key == key) || v.len() < 5 { v.push(Violation { key: key.into(), what, replay }); }
        }
    }
    pub fn enough(&self) -> bool { self.viol.lock().unwrap().len() >= if self.first { 4 } else { 30 } }
    pub fn sample(&self, s: String) { let mut v = self.samples.lock().unwrap(); if v.len() < 12 { v.push(s) } }
    pub fn note(&self, k: &str, v: J) { self.notes.lock().unwrap().insert(k.into(), v); }
    pub fn note_add(&self, k: &str, n: u64) {
        let mut m = self.notes.lock().unwrap();
        let old = m.get(k).map(|x| x.num()).unwrap_or(0.0);
        m.insert(k.into(), J::Num(old + n as f64));
    }
    pub fn assume(&self, s: &str) { self.assumptions.lock().unwrap().push(s.into()); }
    pub fn add(&self, states: u64, trans: u64, traces: u64) {
        self.states.fetch_add(states, Ordering::Relaxed);
        self.trans.fetch_add(trans, Ordering::Relaxed);
        self.traces.fetch_add(traces, Ordering::Relaxed);
    }

    /// Writes the evidence and the verdict, returns the exit code.
    pub fn finish(&self) -> i32 {
        let viol = self.viol.lock().unwrap();
        let mut bad = vec![];
        let mut known_hit = BTreeSet::new();
        for v in viol.iter() {
            if self.known.iter().any(|(p, k)| *p == self.prop && *k == v.key) { known_hit.insert(v.key.clone()); } else { bad.push(v); }
        }
        for k in &known_hit { println!("KNOWN-FINDING: property={} {}", self.prop, k); }
        let mut cov = BTreeMap::new();
        let g = |a: &AtomicU64| J::Num(a.load(Ordering::Relaxed) as f64);
        cov.insert("states".to_string(), g(&self.states));
        cov.insert("transitions".to_string(), g(&self.trans));
        cov.insert("traces_validated_against_impl".to_string(), g(&self.traces));
        cov.insert("grammars".to_string(), g(&self.grammars));
        cov.insert("samples".to_string(), J::Arr(self.samples.lock().unwrap().iter().map(|s| J::Str(s.clone())).collect()));
        cov.insert("exhaustive".to_string(), J::Bool(self.capped.load(Ordering::Relaxed) == 0));
        cov.insert("capped_cases".to_string(), g(&self.capped));
        for (k, v) in self.notes.lock().unwrap().iter() { cov.insert(k.clone(), v.clone()); }
        let ev = J::Obj([
            ("property".to_string(), J::Str(self.prop.clone())),
            ("tier".to_string(), J::Str(if self.thorough { "thorough" } else { "quick" }.into())),
            ("seed".to_string(), J::Num(self.seed as f64)),
            ("level".to_string(), J::Str("model_checking".into())),
            ("coverage".to_string(), J::Obj(cov)),
            ("assumptions".to_string(), J::Arr(self.assumptions.lock().unwrap().iter().map(|s| J::Str(s.clone())).collect())),
            ("wall_s".to_string(), J::Num((self.start.elapsed().as_millis() as f64) / 1000.0)),
            ("violations".to_string(), J::Num(bad.len() as f64)),
        ].into_iter().collect());
        fs::create_dir_all(self.root.join("evidence")).unwrap();
        fs::write(self.root.join(format!("evidence/{}.json", self.prop)), ev.text() + "\n").unwrap();
        if std::env::var("MC_KEEP").is_err() { let _ = fs::remove_dir_all(&self.work); }
        if bad.is_empty() {
            println!("OK property={} grammars={} states={} transitions={} traces={} wall={:.1}s", self.prop,
                self.grammars.load(Ordering::Relaxed), self.states.load(Ordering::Relaxed), self.trans.load(Ordering::Relaxed), self.traces.load(Ordering::Relaxed), self.start.elapsed().as_secs_f64());
            return 0;
        }
        let dir = self.root.join("replay").join(&self.prop);
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(&dir).unwrap();
        for (i, v) in bad.iter().enumerate() {
            let p = dir.join(format!("{}.txt", i));
            let mut f = fs::File::create(&p).unwrap();
            let _ = writeln!(f, "property: {}\nkey: {}\n\n{}\n\n--- replay ---\n{}", self.prop, v.key, v.what, v.replay);
            if i < 10 {
                println!("VIOLATION property={} replay={}", self.prop, p.display());
                println!("  {} :: {}", v.key.chars().take(300).collect::<String>(), v.what.chars().take(600).collect::<String>().replace('\n', " | "));
            }
        }
        println!("{} violations in total", self.viol_total.load(Ordering::Relaxed));
        1
    }

    /// A compiler with a limit of CPU time (in seconds): a procedural macro which does not terminate ends with SIGXCPU.
    pub fn rustc(&self, src: &Path, out: &Path, extra: &[&str], cpu: usize) -> Command {
        let mut c = Command::new("/bin/sh");
        c.arg("-c").arg(format!("ulimit -v 4000000; ulimit -c 0; ulimit -S -t {}; exec \"$0\" \"$@\"", cpu)).arg("/root/.cargo/bin/rustc");
        c.args(["--edition", "2018", "--error-format=json", "--json=diagnostic-short", "-Copt-level=0", "-Cdebuginfo=0"]);
        // the warnings of Oak are read when only expansion is done
        if !extra.contains(&"-Zno-analysis") { c.args(["-Awarnings", "--cap-lints=allow"]); }
        c.arg("-L").arg(format!("dependency={}", self.lib.deps.display()));
        c.arg("--extern").arg(format!("oak={}", self.lib.oak.display()));
        c.arg("--extern").arg(format!("oak_runtime={}", self.lib.rt.display()));
        c.arg("--extern").arg(format!("syntex_pos={}", self.lib.pos.display()));
        c.args(extra).arg(src).arg("-o").arg(out);
        env(&mut c);
        c
    }

    /// Compiles a program made of units, setting aside those that do not compile.
    pub fn compile(&self, header: &str, units: &[Unit], footer: &str, extra: &[&str], isolate: bool) -> Compiled {
        let n = self.uniq.fetch_add(1, Ordering::Relaxed);
        let dir = self.work.join(format!("b{}", n));
        fs::create_dir_all(&dir).unwrap();
        let mut failed: BTreeMap<usize, CompileFail> = BTreeMap::new();
        let mut warnings = vec![];
        for round in 0..40 {
            let live: Vec<&Unit> = units.iter().filter(|u| !failed.contains_key(&u.id)).collect();
            if live.is_empty() { return Compiled { exe: None, failed, warnings }; }
            let hl = header.matches('\n').count() + 1;
            let mut src = String::from(header);
            src.push('\n');
            let mut line = vec![usize::MAX; hl + 1];
            for u in &live { src.push_str(&u.code); src.push('\n'); for _ in 0..=u.code.matches('\n').count() { line.push(u.id); } }
            src.push_str("pub fn table() -> Vec<(usize, usize, rt::Go)> { vec![\n");
            line.push(usize::MAX);
            for u in &live { src.push_str(&u.table); src.push('\n'); line.push(u.id); }
            src.push_str("] }\n");
            src.push_str(footer);
            let p = dir.join("p.rs");
            fs::write(&p, &src).unwrap();
            let exe = dir.join("p.exe");
            let errf = dir.join("err.json");
            let t0 = Instant::now();
            let end = run_limited(&mut self.rustc(&p, &exe, extra, 90 + live.len() / 5), &dir.join("out"), &errf, Duration::from_secs(500));
            if std::env::var("MC_TRACE").is_ok() { eprintln!("batch {} round {} units {} {:.1}s", n, round, live.len(), t0.elapsed().as_secs_f64()); }
            let err = fs::read_to_string(&errf).unwrap_or_default();
            let diags = parse_diags(&err);
            let owner = |d: &Diag| d.lines.iter().filter_map(|l| line.get(*l)).find(|x| **x != usize::MAX).copied();
            if round == 0 { for d in &diags { if d.level == "warning" { if let Some(o) = owner(d) { warnings.push((o, d.clone())) } } } }
            match end {
                End::Exit(0) => {
                    return Compiled { exe: Some(exe), failed, warnings };
                }
                End::Exit(1) => {
                    let mut newly: BTreeMap<usize, Vec<String>> = BTreeMap::new();
                    for d in &diags {
                        if d.level == "error" { if let Some(o) = owner(d) {
                            let mut m = d.msg.clone();
                            for h in &d.help { if h.starts_with("message:") { m.push_str(" | "); m.push_str(h) } }
                            newly.entry(o).or_default().push(m)
                        } }
                    }
                    if newly.is_empty() {
                        if live.len() == 1 {
                            failed.insert(live[0].id, CompileFail::Diags(diags.iter().filter(|d| d.level == "error").map(|d| d.msg.clone()).collect()));
                            return Compiled { exe: None, failed, warnings };
                        }
                        return self.bisect(header, units, footer, extra, failed, warnings);
                    }
                    for (k, v) in newly { failed.insert(k, CompileFail::Diags(v)); }
                    if !isolate { return Compiled { exe: None, failed, warnings }; }
                }
                End::Exit(_) | End::Signal(_) | End::Timeout => {
                    // the compiler (with the procedural macro in it) crashed or does not terminate
                    let what = match end { End::Timeout => "the compiler does not terminate".to_string(), End::Signal(s) => format!("the compiler is killed by signal {}", s), End::Exit(c) => format!("the compiler exits with {}", c) };
                    if let End::Signal(9) = end { fatal("a compiler was killed (out of memory?)"); }
                    if let (End::Timeout, true) = (&end, live.len() > 1) {
                        // the expansions alone are enough to find the macros which do not terminate
                        let bad = self.hanging(&live);
                        if !bad.is_empty() {
                            for id in bad { failed.insert(id, CompileFail::Crash(what.clone())); }
                            if !isolate { return Compiled { exe: None, failed, warnings }; }
                            continue;
                        }
                    }
                    if live.len() == 1 {
                        let tail: String = err.chars().rev().take(400).collect::<String>().chars().rev().collect();
                        failed.insert(live[0].id, CompileFail::Crash(format!("{}: {}", what, tail)));
                        return Compiled { exe: None, failed, warnings };
                    }
                    return self.bisect(header, units, footer, extra, failed, warnings);
                }
            }
        }
        // too many rounds: isolate by halves
        self.bisect(header, units, footer, extra, failed, warnings)
    }

    fn bisect(&self, header: &str, units: &[Unit], footer: &str, extra: &[&str], mut failed: BTreeMap<usize, CompileFail>, mut warnings: Vec<(usize, Diag)>) -> Compiled {
        let live: Vec<Unit> = units.iter().filter(|u| !failed.contains_key(&u.id)).cloned().collect();
        let m = live.len() / 2;
        for half in [&live[..m], &live[m..]] {
            if half.is_empty() { continue; }
            let c = self.compile(header, half, footer, extra, true);
            let any = !c.failed.is_empty();
            failed.extend(c.failed);
            warnings.extend(c.warnings);
            if any { break; }
        }
        let live: Vec<Unit> = units.iter().filter(|u| !failed.contains_key(&u.id)).cloned().collect();
        if live.len() == units.len() { fatal("a batch fails to compile but each of its halves compiles"); }
        let mut c = self.compile(header, &live, footer, extra, true);
        failed.append(&mut c.failed);
        Compiled { exe: c.exe, failed, warnings }
    }

    /// The units of which the expansion does not terminate.
    fn hanging(&self, units: &[&Unit]) -> Vec<usize> {
        let us: Vec<(usize, String)> = units.iter().map(|u| (u.id, u.code.clone())).collect();
        let (_, end, _) = self.expand(&us);
        if !matches!(end, End::Timeout) { return vec![]; }
        if units.len() == 1 { self.hung(&units[0].code); return vec![units[0].id]; }
        let m = units.len() / 2;
        let mut v = self.hanging(&units[..m]);
        v.extend(self.hanging(&units[m..]));
        v
    }

    /// A compilation which does not terminate. A few of them are enough: each costs a lot of time.
    pub fn hung(&self, key: &str) {
        self.violation(key, "the compiler does not terminate on this grammar".into(), key.into());
        if self.hangs.fetch_add(1, Ordering::Relaxed) >= 2 {
            let c = self.finish();
            std::process::exit(c);
        }
    }

    /// Expands units, one per line; the diagnostics of each.
    pub fn expand(&self, units: &[(usize, String)]) -> (Vec<(usize, Diag)>, End, String) {
        let n = self.uniq.fetch_add(1, Ordering::Relaxed);
        let dir = self.work.join(format!("e{}", n));
        fs::create_dir_all(&dir).unwrap();
        let mut src = String::from("#![allow(warnings)] pub mod pre { pub use oak_runtime::*; pub use std::ops::Range; pub struct V; pub struct W; pub fn rt_act() {}");
        // what the texts may refer to: only its name matters
        src.push_str(" pub mod ea {");
        for k in 0..10 { for f in ["act", "num", "chr", "vec", "unit"] { src.push_str(&format!(" pub fn {}{}() {{}}", f, k)); } }
        src.push_str(" } pub mod em {");
        for r in ["x", "y", "r", "s", "t", "u"] { src.push_str(&format!(" pub fn recognize_{r}() {{}} pub fn parse_{r}() {{}}")); }
        src.push_str(" } }\n");
        let mut line = vec![usize::MAX; 2];
        for (i, u) in units { src.push_str(u); src.push('\n'); for _ in 0..=u.matches('\n').count() { line.push(*i); } }
        // stops the compiler after expansion, and shows that it got there
        src.push_str("sentinel_macro_which_does_not_exist!{}\nfn main() {}\n");
        let p = dir.join("p.rs");
        fs::write(&p, &src).unwrap();
        let errf = dir.join("err.json");
        let end = run_limited(&mut self.rustc(&p, &dir.join("p.rmeta"), &["-Zno-analysis", "--emit=metadata", "--crate-type=lib"], 10 + units.len() / 25), &dir.join("out"), &errf, Duration::from_secs(200));
        let err = String::from_utf8_lossy(&fs::read(&errf).unwrap_or_default()).into_owned();
        let diags = parse_diags(&err);
        let mut v = vec![];
        let mut sentinel = false;
        for d in diags {
            if d.msg.contains("sentinel_macro_which_does_not_exist") { sentinel = true; continue; }
            if let Some(o) = d.lines.iter().filter_map(|l| line.get(*l)).find(|x| **x != usize::MAX) { v.push((*o, d.clone())) }
        }
        let end = match end { End::Exit(1) if !sentinel => End::Exit(99), e => e };
        let tail: String = err.chars().rev().take(300).collect::<String>().chars().rev().collect();
        let _ = fs::remove_dir_all(&dir);
        (v, end, tail)
    }

    pub fn compile_file(&self, src: &Path, exe: &Path, extra: &[&str]) -> (bool, String) {
        let errf = src.with_extension("err");
        let end = run_limited(&mut self.rustc(src, exe, extra, 200), &src.with_extension("out"), &errf, Duration::from_secs(240));
        let err = fs::read_to_string(&errf).unwrap_or_default();
        let ok = matches!(end, End::Exit(0));
        if let End::Signal(9) = end { fatal("a compiler was killed (out of memory?)"); }
        (ok, parse_diags(&err).into_iter().filter(|d| d.level == "error").map(|d| d.msg).take(5).collect::<Vec<_>>().join(" | "))
    }

    /// CPU seconds for one grammar on all its inputs: it takes some milliseconds when the code terminates.
    pub fn case_cpu(&self) -> u64 { if self.thorough { 120 } else { 12 } }

    /// Runs a probe, with a limit of CPU seconds; its output, and how it ended. The limit is soft (SIGXCPU): the driver of grammars
    /// renews it for each grammar. A program killed by SIGKILL was killed by someone else, unless it happens again.
    pub fn run(&self, exe: &Path, args: &[String], cpu: u64) -> (String, String, End) {
        let r = self.run_once(exe, args, cpu);
        if let End::Signal(9) = r.2 { return self.run_once(exe, args, cpu); }
        r
    }

    fn run_once(&self, exe: &Path, args: &[String], cpu: u64) -> (String, String, End) {
        let n = self.uniq.fetch_add(1, Ordering::Relaxed);
        let (o, e) = (self.work.join(format!("run{}.out", n)), self.work.join(format!("run{}.err", n)));
        let mut c = Command::new("/bin/sh");
        c.arg("-c").arg(format!("ulimit -v 3000000; ulimit -S -t {}; ulimit -c 0; exec \"$0\" \"$@\"", cpu)).arg(exe).args(args);
        env(&mut c);
        let end = run_limited(&mut c, &o, &e, Duration::from_secs(if self.thorough { 3600 } else { 240 }));
        let so = String::from_utf8_lossy(&fs::read(&o).unwrap_or_default()).into_owned();
        let se = String::from_utf8_lossy(&fs::read(&e).unwrap_or_default()).into_owned();
        let _ = fs::remove_file(&o);
        let _ = fs::remove_file(&e);
        (so, se, end)
    }
}

/// Applies f to the chunks of a work list on all cores.
pub fn parallel<I: Sync>(items: &[I], f: impl Fn(&I) + Sync) {
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..n {
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= items.len() { break; }
                f(&items[i]);
            }).unwrap();
        }
    });
}
