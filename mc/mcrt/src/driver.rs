//! Runs a list of scenarios over worker processes, confirms violations by replaying them twice in
//! fresh processes, and writes the evidence file.
use crate::rt::{self, Mode};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
pub type Outcome = Result<String, String>;
pub enum Body {
    /// explored under the scheduler
    Conc(Box<dyn Fn() -> Outcome>),
    /// enumerates its own finite space
    Seq(Box<dyn Fn(&mut Seq)>),
}
pub struct Scenario {
    pub name: String,
    pub body: Body,
    pub mode: Mode,
    pub max_steps: usize,
    pub max_execs: u64,
    /// at least so many different outcomes must be seen (guards against vacuity)
    pub min_outcomes: usize,
    /// a deadlock is an ordinary outcome (self-tests of the explorer)
    pub deadlock_ok: bool,
}
impl Scenario {
    pub fn conc(name: impl Into<String>, f: impl Fn() -> Outcome + 'static) -> Scenario {
        Scenario { name: name.into(), body: Body::Conc(Box::new(f)), mode: Mode::Dpor, max_steps: 20_000, max_execs: 3_000_000, min_outcomes: 1, deadlock_ok: false }
    }
    pub fn seq(name: impl Into<String>, f: impl Fn(&mut Seq) + 'static) -> Scenario {
        Scenario { name: name.into(), body: Body::Seq(Box::new(f)), mode: Mode::Dpor, max_steps: 0, max_execs: 0, min_outcomes: 0, deadlock_ok: false }
    }
    pub fn full(mut self) -> Self {
        self.mode = Mode::Full;
        self
    }
    /// Every schedule with at most `k` departures from the default one.
    pub fn delays(mut self, k: usize) -> Self {
        self.mode = Mode::Delay(k);
        self
    }
    pub fn outcomes(mut self, n: usize) -> Self {
        self.min_outcomes = n;
        self
    }
    pub fn steps(mut self, n: usize) -> Self {
        self.max_steps = n;
        self
    }
}
/// Counters of a sequential enumeration.
#[derive(Default)]
pub struct Seq {
    pub states: u64,
    pub transitions: u64,
    /// cases in which the implementation's answer was compared with the reference
    pub compared: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violation: Option<(String, String)>,
    pub capped: bool,
    pub only: Option<String>,
}
impl Seq {
    pub fn tick(&mut self) {
        PROGRESS.fetch_add(1, Ordering::Relaxed);
    }
    pub fn outcome(&mut self, o: impl Into<String>) {
        *self.outcomes.entry(o.into()).or_insert(0) += 1;
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let s = s();
            self.samples.push(s)
        }
    }
    /// Report a violation (the first one is kept).
    pub fn fail(&mut self, msg: impl Into<String>, case: impl Into<String>) {
        if self.violation.is_none() {
            self.violation = Some((msg.into(), case.into()));
        }
    }
    pub fn failed(&self) -> bool {
        self.violation.is_some()
    }
}
static PROGRESS: AtomicU64 = AtomicU64::new(0);
static RESULT_FD: AtomicUsize = AtomicUsize::new(1);
static CUR_SCEN: AtomicUsize = AtomicUsize::new(usize::MAX);

pub struct Check {
    pub property: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub scenarios: fn(Tier) -> Vec<Scenario>,
}

fn emit(v: Value) {
    let s = format!("{v}\n");
    let fd = RESULT_FD.load(Ordering::Relaxed) as i32;
    let b = s.as_bytes();
    let mut o = 0;
    while o < b.len() {
        let n = unsafe { libc::syscall(libc::SYS_write, fd, b[o..].as_ptr(), b.len() - o) };
        if n <= 0 {
            break;
        }
        o += n as usize;
    }
}
fn worker_abort(kind: &str, msg: String) -> ! {
    rt::set_cur(rt::NONE);
    let s = rt::st();
    let d = s.decisions();
    let verdict = kind != "NONDETERMINISM";
    emit(json!({"scenario": CUR_SCEN.load(Ordering::Relaxed), "abort": kind, "verdict": verdict, "msg": msg, "decisions": d, "trace": s.trace,
        "states": s.n_states, "transitions": s.n_events}));
    unsafe { libc::_exit(0) }
}
extern "C" fn on_crash(sig: i32) {
    // best effort: the scheduler state is owned by the crashing thread
    let s = rt::st();
    let d = s.decisions();
    emit(json!({"scenario": CUR_SCEN.load(Ordering::Relaxed), "abort": "CRASH", "verdict": true, "msg": format!("process died with signal {sig}"), "decisions": d, "trace": s.trace}));
    unsafe { libc::_exit(0) }
}

fn worker_setup(pin: usize, in_conc: bool) {
    unsafe {
        let fd = libc::dup(1);
        RESULT_FD.store(fd as usize, Ordering::Relaxed);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        if std::env::var("MC_STDERR").is_err() {
            libc::dup2(null, 2);
        }
        rt::ABORT = worker_abort;
        libc::mallopt(libc::M_ARENA_MAX, 1);
        // alternate stack so that stack overflows are reported too
        let sz = 1 << 16;
        let mut ss: libc::stack_t = std::mem::zeroed();
        ss.ss_sp = libc::mmap(std::ptr::null_mut(), sz, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        ss.ss_size = sz;
        libc::sigaltstack(&ss, std::ptr::null_mut());
        for sig in [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_crash as *const () as usize;
            sa.sa_flags = libc::SA_ONSTACK;
            libc::sigaction(sig, &sa, std::ptr::null_mut());
        }
        if in_conc {
            let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(1);
            let mut set: libc::cpu_set_t = std::mem::zeroed();
            let mut have: libc::cpu_set_t = std::mem::zeroed();
            libc::sched_getaffinity(0, std::mem::size_of_val(&have), &mut have);
            let cpus: Vec<usize> = (0..1024).filter(|i| libc::CPU_ISSET(*i, &have)).collect();
            if !cpus.is_empty() {
                libc::CPU_SET(cpus[pin % n % cpus.len()], &mut set);
                libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
            }
        }
    }
    std::panic::set_hook(Box::new(|_| {}));
}

fn run_scenario(i: usize, s: &Scenario, deadline: Option<Instant>, replay: Option<Vec<usize>>) -> Value {
    CUR_SCEN.store(i, Ordering::Relaxed);
    match &s.body {
        Body::Conc(b) => {
            let body = || {
                PROGRESS.fetch_add(1, Ordering::Relaxed);
                b()
            };
            let is_replay = replay.is_some();
            let ex = rt::explore(&body, s.mode, s.max_steps, s.max_execs, deadline, replay, s.deadlock_ok);
            let mut violation = ex.violation.clone().map(|(m, d)| json!({"msg": m, "decisions": d}));
            if violation.is_none() && !ex.capped && !is_replay && ex.outcomes.len() < s.min_outcomes {
                violation = Some(json!({"msg": format!("only {} of the expected {} different outcomes are reachable: {:?}", ex.outcomes.len(), s.min_outcomes, ex.outcomes.keys().collect::<Vec<_>>()), "decisions": Value::Null}));
            }
            json!({"scenario": i, "name": s.name, "execs": ex.execs, "redundant": ex.redundant, "states": ex.states,
                "transitions": ex.transitions, "ticks": ex.ticks, "threads": ex.max_threads, "depth": ex.max_depth,
                "outcomes": ex.outcomes, "capped": ex.capped, "diverged": ex.diverged, "violation": violation, "trace": ex.trace})
        },
        Body::Seq(b) => {
            let mut q = Seq::default();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b(&mut q)));
            if let Err(e) = r {
                let m = rt::panic_text(&e);
                if q.violation.is_none() {
                    q.violation = Some((format!("panicked: {m}"), String::new()));
                }
            }
            let violation = q.violation.clone().map(|(m, c)| json!({"msg": m, "case": c}));
            json!({"scenario": i, "name": s.name, "states": q.states, "transitions": q.transitions, "compared": q.compared,
                "outcomes": q.outcomes, "samples": q.samples, "capped": q.capped, "violation": violation})
        },
    }
}

fn watchdog() {
    // an execution that makes no visible step at all
    std::thread::spawn(|| {
        let mut last = (0, 0);
        let mut same = 0;
        loop {
            std::thread::sleep(Duration::from_secs(1));
            let p = PROGRESS.load(Ordering::Relaxed);
            let cur = (p, CUR_SCEN.load(Ordering::Relaxed));
            if cur == last && cur.1 != usize::MAX {
                same += 1;
            } else {
                same = 0;
            }
            last = cur;
            if same >= 60 {
                emit(json!({"scenario": cur.1, "abort": "HANG", "verdict": true, "msg": "no execution finished for 60 s", "decisions": Value::Null}));
                unsafe { libc::_exit(0) }
            }
        }
    });
}

fn known_findings(verif: &str, property: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{verif}/known_findings.txt")) {
        for l in t.lines() {
            // open: property=<id> scenario=<name> match=<text in the violation message> # description
            if let Some(r) = l.strip_prefix(&format!("open: property={property} scenario=")) {
                if let Some((sc, rest)) = r.split_once(" match=") {
                    v.push((sc.to_string(), rest.to_string()));
                }
            }
        }
    }
    v
}

pub fn main(check: Check) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let arg = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let tier = match arg("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mode = args.get(1).cloned().unwrap_or_else(|| "run".into());
    match mode.as_str() {
        "worker" => {
            let pin: usize = arg("--pin").unwrap().parse().unwrap();
            let budget: f64 = arg("--budget").unwrap().parse().unwrap();
            worker_setup(pin, true);
            watchdog();
            let deadline = Instant::now() + Duration::from_secs_f64(budget);
            let sc = (check.scenarios)(tier);
            let stdin = std::io::stdin();
            for l in stdin.lock().lines() {
                let Ok(l) = l else { break };
                let Ok(i) = l.trim().parse::<usize>() else { break };
                let v = run_scenario(i, &sc[i], Some(deadline), None);
                CUR_SCEN.store(usize::MAX, Ordering::Relaxed);
                emit(v);
            }
            unsafe { libc::_exit(0) }
        },
        "replay1" => {
            let i: usize = arg("--scenario").unwrap().parse().unwrap();
            let d: Option<Vec<usize>> = arg("--decisions").filter(|d| d != "null").map(|d| serde_json::from_str(&d).unwrap());
            worker_setup(0, true);
            watchdog();
            let sc = (check.scenarios)(tier);
            let v = run_scenario(i, &sc[i], Some(Instant::now() + Duration::from_secs(300)), d);
            emit(v);
            unsafe { libc::_exit(0) }
        },
        "replay" => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let t = if v["tier"] == "thorough" { "thorough" } else { "quick" };
            if let Some(h) = v["history"].as_array() {
                let h: Vec<usize> = h.iter().map(|x| x.as_u64().unwrap() as usize).collect();
                println!("{}", serde_json::to_string_pretty(&replay_history(&h, t).unwrap_or(Value::Null)).unwrap());
                std::process::exit(0)
            }
            let out = replay_once(v["scenario"].as_u64().unwrap() as usize, &v["decisions"], t);
            println!("{}", serde_json::to_string_pretty(&out).unwrap());
            std::process::exit(0)
        },
        "list" => {
            for (i, s) in (check.scenarios)(tier).iter().enumerate() {
                println!("{i} {}", s.name)
            }
            std::process::exit(0)
        },
        "one" => {
            // debugging aid: run one scenario in this process
            let f = &args[2];
            rt_abort_stderr();
            let sc = (check.scenarios)(tier);
            for (i, s) in sc.iter().enumerate() {
                if s.name.contains(f.as_str()) {
                    let t = Instant::now();
                    let v = run_scenario(i, s, None, arg("--decisions").map(|d| serde_json::from_str(&d).unwrap()));
                    println!("{v} wall={:?}", t.elapsed());
                }
            }
            std::process::exit(0)
        },
        _ => run(check, tier),
    }
}
fn rt_abort_stderr() {
    fn f(kind: &str, msg: String) -> ! {
        rt::set_cur(rt::NONE);
        eprintln!("{kind}: {msg}\ndecisions {:?}", rt::st().decisions());
        for l in &rt::st().trace {
            eprintln!("  {l}")
        }
        unsafe { libc::_exit(3) }
    }
    unsafe { rt::ABORT = f }
    std::panic::set_hook(Box::new(|_| {}));
}

fn replay_once(i: usize, decisions: &Value, tier: &str) -> Value {
    let exe = std::env::current_exe().unwrap();
    let o = Command::new(exe)
        .args(["replay1", "--tier", tier, "--scenario", &i.to_string(), "--decisions", &decisions.to_string()])
        .stdin(Stdio::null())
        .output()
        .unwrap();
    let t = String::from_utf8_lossy(&o.stdout).to_string();
    t.lines().next().and_then(|l| serde_json::from_str(l).ok()).unwrap_or(json!({"abort": "CRASH", "verdict": true, "msg": format!("replay died: {}", o.status)}))
}
/// Runs the scenarios of `list` one after another in one fresh process; the answer of the last one.
fn replay_history(list: &[usize], tier: &str) -> Option<Value> {
    let exe = std::env::current_exe().unwrap();
    let mut child = Command::new(exe)
        .args(["worker", "--tier", tier, "--pin", "0", "--budget", "600"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .spawn()
        .ok()?;
    let mut cin = child.stdin.take()?;
    let mut rd = BufReader::new(child.stdout.take()?);
    let mut last = None;
    for i in list {
        let _ = writeln!(cin, "{i}");
        let _ = cin.flush();
        let mut line = String::new();
        let _ = rd.read_line(&mut line);
        last = serde_json::from_str::<Value>(&line).ok();
        if last.as_ref().map_or(true, |v| v["abort"].is_string()) {
            break;
        }
    }
    drop(cin);
    let _ = child.kill();
    let _ = child.wait();
    last
}
fn verdict_of(v: &Value) -> Option<(String, Value)> {
    if let Some(k) = v["abort"].as_str() {
        if v["verdict"].as_bool() == Some(true) {
            return Some((format!("{k}: {}", v["msg"].as_str().unwrap_or("")), v["decisions"].clone()));
        }
        return None;
    }
    if v["violation"].is_object() {
        return Some((v["violation"]["msg"].as_str().unwrap_or("").to_string(), v["violation"]["decisions"].clone()));
    }
    None
}

fn run(check: Check, tier: Tier) -> ! {
    let t0 = Instant::now();
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let tname = if tier == Tier::Quick { "quick" } else { "thorough" };
    let budget: f64 = std::env::var("MC_BUDGET").ok().and_then(|b| b.parse().ok()).unwrap_or(if tier == Tier::Quick { 120.0 } else { 600.0 });
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let sc = (check.scenarios)(tier);
    let names: Vec<String> = sc.iter().map(|s| s.name.clone()).collect();
    drop(sc);
    let n = names.len();
    let next = AtomicUsize::new(0);
    let hangs = AtomicUsize::new(0);
    let results: Mutex<Vec<Value>> = Mutex::new(vec![]);
    let engine_errors: Mutex<Vec<String>> = Mutex::new(vec![]);
    let exe = std::env::current_exe().unwrap();
    let nw = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(n.max(1));
    let t_start = Instant::now();
    std::thread::scope(|scope| {
        for w in 0..nw {
            let (next, hangs, results, engine_errors, exe) = (&next, &hangs, &results, &engine_errors, &exe);
            scope.spawn(move || 'outer: loop {
                if next.load(Ordering::SeqCst) >= n {
                    break;
                }
                let left = (budget - t_start.elapsed().as_secs_f64()).max(1.0);
                let mut child = Command::new(exe)
                    .args(["worker", "--tier", tname, "--pin", &w.to_string(), "--budget", &left.to_string()])
                    .stdin(Stdio::piped())
                    .stdout(Stdio::piped())
                    .spawn()
                    .unwrap();
                let mut cin = child.stdin.take().unwrap();
                let mut rd = BufReader::new(child.stdout.take().unwrap());
                let mut history = vec![];
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n {
                        drop(cin);
                        let _ = child.wait();
                        break 'outer;
                    }
                    let _ = writeln!(cin, "{i}");
                    let _ = cin.flush();
                    let mut line = String::new();
                    let _ = rd.read_line(&mut line);
                    match serde_json::from_str::<Value>(&line) {
                        Ok(mut v) => {
                            history.push(i);
                            v["history"] = json!(history);
                            let aborted = v["abort"].is_string();
                            // a process that hangs costs a minute: the others need not be tried
                            if v["abort"] == "HANG" {
                                hangs.fetch_add(1, Ordering::SeqCst);
                                next.fetch_max(n, Ordering::SeqCst);
                            }
                            results.lock().unwrap().push(v);
                            if aborted {
                                let _ = child.kill();
                                let _ = child.wait();
                                continue 'outer;
                            }
                        },
                        Err(_) => {
                            let st = child.wait();
                            engine_errors.lock().unwrap().push(format!("worker died in scenario {i}: {st:?}"));
                            continue 'outer;
                        },
                    }
                }
            });
        }
    });
    let results = results.into_inner().unwrap();
    let mut engine_errors = engine_errors.into_inner().unwrap();
    let known = known_findings(&verif, check.property);
    let mut n_viol = 0;
    let mut tries = 0;
    let mut confirmed: Option<String> = None;
    let mut known_hit = BTreeSet::new();
    for v in &results {
        let i = v["scenario"].as_u64().unwrap() as usize;
        if let Some(k) = v["abort"].as_str() {
            if v["verdict"].as_bool() != Some(true) {
                engine_errors.push(format!("{k} in {}: {}", names[i], v["msg"]));
                continue;
            }
        }
        if v["diverged"].as_u64().unwrap_or(0) > 0 {
            engine_errors.push(format!("{}: {} executions did not repeat the steps of an earlier one", names[i], v["diverged"]));
        }
        let Some((msg, dec)) = verdict_of(v) else { continue };
        if let Some(k) = known.iter().find(|k| k.0 == names[i] && msg.contains(&k.1)) {
            known_hit.insert(format!("{}: {}", k.0, k.1));
            continue;
        }
        n_viol += 1;
        if confirmed.is_some() {
            continue;
        }
        let a = replay_once(i, &dec, tname);
        let b = replay_once(i, &dec, tname);
        let (va, vb) = (verdict_of(&a), verdict_of(&b));
        let (mut a, mut dec, mut msg, mut history) = (a, dec, msg, Value::Null);
        if va.is_none() || vb.is_none() || a["trace"] != b["trace"] {
            // not the schedule alone: the code may remember what happened earlier in the process
            tries += 1;
            let h: Vec<usize> = v["history"].as_array().map_or(vec![], |h| h.iter().filter_map(|x| x.as_u64().map(|x| x as usize)).collect());
            let c = if tries <= 3 { [vec![i], h].into_iter().find_map(|h| replay_history(&h, tname).filter(|c| c["scenario"] == i && verdict_of(c).is_some()).map(|c| (c, h))) } else { None };
            let Some((c, h)) = c else {
                engine_errors.push(format!("violation in {} did not reproduce: {msg}", names[i]));
                continue;
            };
            let (m, d) = verdict_of(&c).unwrap();
            msg = format!("{m} (depends on the earlier sessions of the process)");
            dec = d;
            history = json!(h);
            a = c;
        }
        let dir = format!("{verif}/evidence/replays");
        let _ = std::fs::create_dir_all(&dir);
        let p = format!("{dir}/{}.json", check.property);
        let rep = json!({"property": check.property, "tier": tname, "scenario": i, "name": names[i], "message": msg,
            "decisions": dec, "history": history, "case": v["violation"]["case"], "trace": a["trace"],
            "how_to_replay": format!("{} replay {p}", exe.display())});
        let _ = std::fs::write(&p, serde_json::to_string_pretty(&rep).unwrap());
        eprintln!("{}: {}", names[i], msg);
        if let Some(c) = v["violation"]["case"].as_str() {
            eprintln!("{c}");
        }
        confirmed = Some(p);
    }
    // evidence
    let sum = |k: &str| results.iter().filter_map(|v| v[k].as_u64()).sum::<u64>();
    let mut outcomes = BTreeSet::new();
    let mut samples = vec![];
    let mut capped = vec![];
    for v in &results {
        let i = v["scenario"].as_u64().unwrap() as usize;
        if let Some(o) = v["outcomes"].as_object() {
            for k in o.keys() {
                outcomes.insert(format!("{}:{k}", names[i]));
            }
            if samples.len() < 6 && (i % (n / 6).max(1) == 0) {
                samples.push(json!({"scenario": names[i], "executions": v["execs"], "outcomes": o.iter().take(6).collect::<BTreeMap<_, _>>(), "cases": v["samples"]}));
            }
        }
        if v["capped"].as_bool() == Some(true) {
            capped.push(names[i].clone());
        }
    }
    if samples.is_empty() {
        samples.push(json!({"scenario": names.first()}));
    }
    let exhaustive = capped.is_empty() && engine_errors.is_empty() && n_viol == 0;
    let extra: BTreeMap<String, Value> = std::env::var("MC_EXTRA_EVIDENCE").ok().and_then(|e| serde_json::from_str(&e).ok()).unwrap_or_default();
    let mut cov = json!({
        "states": sum("states"), "transitions": sum("transitions"),
        "traces_validated_against_impl": sum("execs") + sum("compared"),
        "redundant_schedules": sum("redundant"), "time_advances": sum("ticks"),
        "scenarios": n, "distinct_outcomes": outcomes.len(),
        "max_threads": results.iter().filter_map(|v| v["threads"].as_u64()).max(),
        "max_schedule_length": results.iter().filter_map(|v| v["depth"].as_u64()).max(),
        "rule": check.rule, "exhaustive": exhaustive, "capped_scenarios": capped, "samples": samples,
    });
    for (k, v) in extra {
        cov[k] = v;
    }
    let ev = json!({"property": check.property, "tier": tname, "seed": seed, "level": "model_checking", "coverage": cov,
        "assumptions": check.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": n_viol});
    let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
    std::fs::write(format!("{verif}/evidence/{}.json", check.property), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{} {tname}: {} scenarios, {} executions (+{} redundant), {} compared, {} states, {} transitions, {} outcomes, capped {:?}, {:.1}s",
        check.property, n, sum("execs"), sum("redundant"), sum("compared"), sum("states"), sum("transitions"), outcomes.len(), cov["capped_scenarios"], t0.elapsed().as_secs_f64()
    );
    if std::env::var("MC_VERBOSE").is_ok() {
        let mut r: Vec<&Value> = results.iter().collect();
        r.sort_by_key(|v| v["scenario"].as_u64());
        for v in r {
            println!("  {} execs={} red={} states={} compared={} outcomes={}", names[v["scenario"].as_u64().unwrap() as usize], v["execs"], v["redundant"], v["states"], v["compared"], v["outcomes"].as_object().map_or(0, |o| o.len()));
        }
    }
    for k in known_hit {
        println!("KNOWN-FINDING: property={} {k}", check.property);
    }
    for e in &engine_errors {
        eprintln!("ENGINE ERROR: {e}");
    }
    if let Some(p) = confirmed {
        println!("VIOLATION property={} replay={p}", check.property);
        std::process::exit(1);
    }
    if !engine_errors.is_empty() || results.len() != n {
        eprintln!("engine error: {} of {n} scenarios answered", results.len());
        std::process::exit(2);
    }
    std::process::exit(0)
}

