//! Runtime of the generated multiparty programs: contexts, logs, the reference interpretation of a
//! global protocol and the oracles over complete and interrupted runs.
use mcrt::driver::Outcome;
use std::collections::{BTreeMap, HashMap};
use std::error::Error;
use std::time::{Duration, Instant};
use std::sync::{Arc, Mutex};
use std::thread::JoinHandle;

pub const ASSUME: &[&str] = &["crossbeam-channel behaves as the replacement in mc/xchan (compared with the real crate by mc/conform)", "threads interact only through channels, thread start/join and time"];
pub type R = Result<(), Box<dyn Error>>;

/// Global protocol.
#[derive(Clone, Debug)]
pub enum Act {
    /// sender, receiver, identifier
    Msg(usize, usize, i32),
    /// chooser, name, branches; always last of its block
    Choice(usize, &'static str, Vec<Vec<Act>>),
    /// back to the named choice; always last of its block
    Loop(&'static str),
    /// at the start of a block: every role sends all its messages of the block before it receives
    Async,
}
pub struct Case {
    pub name: &'static str,
    pub roles: &'static [&'static str],
    /// role 0 is a cancellation broadcaster that takes no part in the protocol
    pub supervised: bool,
    pub acts: fn() -> Vec<Act>,
    /// starts all roles
    pub run: fn(Vec<Ctx>) -> Vec<JoinHandle<()>>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Stop {
    /// cancel the endpoint and return normally
    Cancel,
    /// return an error, dropping the endpoint
    Return,
    Panic,
    /// timed sessions: wait until the window of the step is over, then go on
    Late,
    /// timed sessions: act before the window of the step begins
    Early,
}
pub const STOPS: [Stop; 3] = [Stop::Cancel, Stop::Return, Stop::Panic];

/// Nothing in an untimed session may depend on time.
const SLOW: Duration = Duration::from_secs(100_000);

pub struct Shared {
    pub logs: Mutex<Vec<Vec<String>>>,
    pub hist: Mutex<Vec<(&'static str, usize)>>,
    pub roles: &'static [&'static str],
    pub victim: Option<(usize, usize, Stop)>,
    /// takes a very long time before each of its actions
    pub slow: Option<usize>,
    pub max_branches: i32,
    /// long runs: every choice repeats its first two selections until the run has to end
    pub long: Option<Mutex<HashMap<&'static str, Vec<usize>>>>,
    pub clock_errors: Mutex<Vec<String>>,
}
#[derive(Clone)]
pub struct Ctx {
    pub me: usize,
    pub sh: Arc<Shared>,
    steps: usize,
    iter: i32,
    late: Option<Stop>,
    clocks: BTreeMap<char, Instant>,
}
fn lk<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}
impl Ctx {
    pub fn add(&self, what: String) {
        mcrt::note(|| format!("    [{}] {what}", self.sh.roles[self.me]));
        lk(&self.sh.logs)[self.me].push(what)
    }
    pub fn val(&self, id: i32) -> i32 {
        id * 100 + self.iter
    }
    pub fn sent(&mut self, id: i32, to: usize) {
        self.add(ev_send(id, self.iter, self.sh.roles[to]))
    }
    pub fn got(&mut self, id: i32, from: usize, v: i32) {
        self.add(format!("r{id}={v}<{}", self.sh.roles[from]))
    }
    pub fn branch(&mut self, k: &str, b: usize) {
        self.iter += 1;
        self.add(format!("{k}.{b}"))
    }
    pub fn pick(&mut self, k: &'static str, n: usize, exits: &[usize]) -> usize {
        let b = if self.iter + 1 >= self.sh.max_branches && !exits.is_empty() {
            exits[mcrt::choose(exits.len())]
        } else if let Some(pattern) = &self.sh.long {
            let on: Vec<usize> = (0..n).filter(|b| !exits.contains(b)).collect();
            let nth = lk(&self.sh.hist).iter().filter(|h| h.0 == k).count();
            let known = lk(pattern).entry(k).or_default().get(nth % 2).copied();
            known.unwrap_or_else(|| {
                let b = if on.is_empty() { mcrt::choose(n) } else { on[mcrt::choose(on.len())] };
                lk(pattern).entry(k).or_default().push(b);
                b
            })
        } else {
            mcrt::choose(n)
        };
        lk(&self.sh.hist).push((k, b));
        b
    }
    /// Called before every action of the role.
    pub fn stop(&mut self) -> Option<Stop> {
        let s = self.steps;
        self.steps += 1;
        if self.sh.slow == Some(self.me) {
            std::thread::sleep(SLOW);
        }
        match self.sh.victim {
            Some((v, at, kind @ (Stop::Late | Stop::Early))) => {
                self.late = (v == self.me && at == s).then_some(kind);
                None
            }
            Some((v, at, kind)) if v == self.me && at == s => {
                self.add(format!("stop:{kind:?}"));
                Some(kind)
            }
            _ => None,
        }
    }
    /// Timed roles start both clocks together.
    pub fn start(&mut self, k: &mut HashMap<char, Instant>) {
        assert!(k.is_empty(), "a new participant has clocks");
        k.insert('a', Instant::now());
        k.insert('b', Instant::now());
        self.clocks = k.iter().map(|(c, i)| (*c, *i)).collect();
    }
    /// After a successful timed action: only the declared clock was restarted, now.
    pub fn clk(&mut self, k: &HashMap<char, Instant>, reset: char) {
        if let Some(c) = self.clocks.get_mut(&reset) {
            *c = Instant::now();
        }
        let got: BTreeMap<char, Instant> = k.iter().map(|(c, i)| (*c, *i)).collect();
        if got != self.clocks {
            let t = |m: &BTreeMap<char, Instant>| m.iter().map(|(c, i)| format!("{c} shows {:?}", i.elapsed())).collect::<Vec<_>>();
            let e = format!("role {} after {}: clocks {:?}, expected {:?}", self.sh.roles[self.me], lk(&self.sh.logs)[self.me].last().unwrap(), t(&got), t(&self.clocks));
            lk(&self.sh.clock_errors).push(e);
        }
        self.clocks = got;
    }
    /// Waits until clock 'a' shows `ms`, longer for the role that is late here.
    pub fn pace(&mut self, k: &HashMap<char, Instant>, ms: u64, timed: bool) {
        let mut ms = ms;
        match self.late {
            Some(Stop::Early) if ms >= 3000 => ms = ms / 4000 * 4000 - 1400,
            Some(Stop::Late) => ms += 1600,
            _ => self.late = None,
        }
        if self.late.is_some() {
            self.add(if timed { "late" } else { "slow" }.into());
        }
        let age = k[&'a'].elapsed();
        let t = Duration::from_millis(ms);
        if t > age {
            std::thread::sleep(t - age);
        }
    }
    pub fn closing(&mut self) {
        self.add("closing".into())
    }
    pub fn closed(&mut self) -> R {
        self.add("closed".into());
        Ok(())
    }
}
pub fn after_stop(k: Stop) -> R {
    match k {
        Stop::Cancel => Ok(()),
        Stop::Return => Err("stopped".into()),
        Stop::Panic => panic!("stopped"),
        Stop::Late | Stop::Early => unreachable!(),
    }
}
/// Stops here if this is the role and step selected for failing.
#[macro_export]
macro_rules! st {
    ($s:ident, $c:ident, $cancel:ident) => {
        #[allow(unreachable_code)]
        if let Some(k) = $c.stop() {
            if k == $crate::Stop::Cancel {
                $crate::cancel_with!($s, $cancel);
            }
            return $crate::after_stop(k);
        }
    };
}
#[macro_export]
macro_rules! cancel_with {
    ($s:ident, method) => {
        $s.cancel();
    };
    ($s:ident, func) => {
        mpstthree::binary::cancel::cancel($s);
    };
    ($s:ident, $f:ident) => {
        return $f($s);
    };
}
fn ev_send(id: i32, iter: i32, to: &str) -> String {
    format!("s{id}={}>{to}", id * 100 + iter)
}

/// The log every role must produce when nothing fails.
pub fn expected(case: &Case, hist: &[(&'static str, usize)]) -> Result<Vec<Vec<String>>, String> {
    let n = case.roles.len();
    let root = (case.acts)();
    let mut choices = vec![];
    fn collect(a: &[Act], out: &mut Vec<Act>) {
        for x in a {
            if let Act::Choice(_, _, bs) = x {
                out.push(x.clone());
                bs.iter().for_each(|b| collect(b, out));
            }
        }
    }
    collect(&root, &mut choices);
    let mut logs = vec![vec![]; n];
    let mut cur = root;
    let mut hist = hist.iter();
    let mut iter = 0;
    'blocks: loop {
        // messages received in an asynchronous block: every role sends first
        let mut early: Option<Vec<(usize, String)>> = None;
        for a in cur.clone() {
            if !matches!(a, Act::Msg(..)) {
                early.take().into_iter().flatten().for_each(|(j, e)| logs[j].push(e));
            }
            let ch = match a {
                Act::Async => {
                    early = Some(vec![]);
                    continue;
                }
                Act::Msg(i, j, id) if early.is_some() => {
                    logs[i].push(ev_send(id, iter, case.roles[j]));
                    early.as_mut().unwrap().push((j, format!("r{id}={}<{}", id * 100 + iter, case.roles[i])));
                    continue;
                }
                Act::Msg(i, j, id) => {
                    logs[i].push(ev_send(id, iter, case.roles[j]));
                    logs[j].push(format!("r{id}={}<{}", id * 100 + iter, case.roles[i]));
                    continue;
                }
                Act::Choice(..) => a,
                Act::Loop(k) => choices.iter().find(|c| matches!(c, Act::Choice(_, kk, _) if *kk == k)).unwrap().clone(),
            };
            let Act::Choice(_, k, bs) = ch else { unreachable!() };
            match hist.next() {
                // the run ended before this choice was made
                None => {
                    if case.supervised {
                        logs[0].push("closing".to_string());
                    }
                    return Ok(logs);
                },
                Some((kk, b)) => {
                    if *kk != k {
                        return Err(format!("the chooser took a choice at {kk} where the protocol is at {k}"));
                    }
                    iter += 1;
                    logs.iter_mut().skip(case.supervised as usize).for_each(|l| l.push(format!("{k}.{b}")));
                    cur = bs[*b].clone();
                    continue 'blocks;
                }
            }
        }
        early.into_iter().flatten().for_each(|(j, e)| logs[j].push(e));
        break;
    }
    if hist.next().is_some() {
        return Err("a choice was made after the end of the protocol".into());
    }
    logs.iter_mut().for_each(|l| l.extend(["closing".to_string(), "closed".to_string()]));
    Ok(logs)
}
pub struct Ran {
    pub results: Vec<Result<(), String>>,
    pub logs: Vec<Vec<String>>,
    pub hist: Vec<(&'static str, usize)>,
    pub clock_errors: Vec<String>,
}
pub fn launch(case: &Case, victim: Option<(usize, usize, Stop)>, max_branches: i32) -> Ran {
    launch_slow(case, victim, None, max_branches)
}
pub fn launch_slow(case: &Case, victim: Option<(usize, usize, Stop)>, slow: Option<usize>, max_branches: i32) -> Ran {
    launch_with(case, victim, slow, max_branches, false)
}
fn launch_with(case: &Case, victim: Option<(usize, usize, Stop)>, slow: Option<usize>, max_branches: i32, long: bool) -> Ran {
    let n = case.roles.len();
    let sh = Arc::new(Shared { logs: Mutex::new(vec![vec![]; n]), hist: Mutex::new(vec![]), roles: case.roles, victim, slow, max_branches, long: long.then(Default::default), clock_errors: Mutex::new(vec![]) });
    let hs = (case.run)((0..n).map(|me| Ctx { me, sh: sh.clone(), steps: 0, iter: 0, late: None, clocks: BTreeMap::new() }).collect());
    let results = hs.into_iter().map(|h| h.join().map_err(|e| mcrt::rt::panic_text(&e))).collect();
    let logs = lk(&sh.logs).clone();
    let hist = lk(&sh.hist).clone();
    let clock_errors = lk(&sh.clock_errors).clone();
    Ran { results, logs, hist, clock_errors }
}
fn show(case: &Case, r: &Ran) -> String {
    case.roles.iter().zip(&r.logs).zip(&r.results).map(|((n, l), r)| format!("{n}[{}]={}", l.join(" "), match r { Ok(()) => "ok".into(), Err(e) => format!("err({})", e.lines().next().unwrap_or("")) })).collect::<Vec<_>>().join("; ")
}
/// Nothing fails: everybody follows the protocol to the end.
pub fn complete(case: &Case, max_branches: i32) -> Outcome {
    complete_slow(case, max_branches, None)
}
/// The same, also with each role taking very long before each of its actions.
pub fn any_speed(case: &Case, max_branches: i32) -> Outcome {
    let slow = mcrt::choose(case.roles.len() + 1).checked_sub(1);
    complete_slow(case, max_branches, slow)
}
/// Can a run of this protocol be arbitrarily long?
pub fn has_loop(case: &Case) -> bool {
    fn go(a: &[Act]) -> bool {
        a.iter().any(|x| match x {
            Act::Loop(_) => true,
            Act::Choice(_, _, bs) => bs.iter().any(|b| go(b)),
            _ => false,
        })
    }
    go(&(case.acts)())
}
/// Many rounds: every choice repeats its first two selections until the run has to end.
pub fn many_rounds(case: &Case, rounds: i32) -> Outcome {
    complete_run(case, launch_with(case, None, None, rounds, true))
}
/// One role stops after many rounds.
pub fn many_rounds_interrupted(case: &Case, rounds: i32, kinds: &[Stop]) -> Outcome {
    let v = mcrt::choose(case.roles.len());
    let kind = kinds[mcrt::choose(kinds.len())];
    let step = rounds as usize + mcrt::choose(8);
    let r = launch_with(case, Some((v, step, kind)), None, rounds, true);
    judge_interrupted(case, &r, v, kind)
}
fn complete_slow(case: &Case, max_branches: i32, slow: Option<usize>) -> Outcome {
    complete_run(case, launch_slow(case, None, slow, max_branches))
}
fn complete_run(case: &Case, r: Ran) -> Outcome {
    let exp = expected(case, &r.hist)?;
    for p in 0..case.roles.len() {
        if r.logs[p] != exp[p] {
            return Err(format!("role {} did [{}], the protocol prescribes [{}] ({})", case.roles[p], r.logs[p].join(" "), exp[p].join(" "), show(case, &r)));
        }
        if let Err(e) = &r.results[p] {
            return Err(format!("role {} reported failure in a run without failure: {e} ({})", case.roles[p], show(case, &r)));
        }
    }
    Ok(format!("{:?}", r.hist))
}
/// Upper bound of the number of actions of any role, close included.
pub fn max_steps(case: &Case, max_branches: i32) -> usize {
    fn blk(a: &[Act], root: &[Act], left: i32, who: usize) -> usize {
        let mut t = 0;
        for x in a {
            t += match x {
                Act::Msg(i, j, _) => (*i == who || *j == who) as usize,
                Act::Async => 0,
                Act::Choice(_, _, bs) => 1 + if left <= 0 { 0 } else { bs.iter().map(|b| blk(b, root, left - 1, who)).max().unwrap_or(0) },
                Act::Loop(k) => {
                    fn find<'a>(a: &'a [Act], k: &str) -> Option<&'a Act> {
                        a.iter().find_map(|x| match x {
                            Act::Choice(_, kk, _) if *kk == k => Some(x),
                            Act::Choice(_, _, bs) => bs.iter().find_map(|b| find(b, k)),
                            _ => None,
                        })
                    }
                    let c = find(root, k).unwrap().clone();
                    if left <= 0 { 0 } else { blk(&[c], root, left, who) }
                }
            }
        }
        t
    }
    let root = (case.acts)();
    (0..case.roles.len()).map(|w| blk(&root, &root, max_branches, w)).max().unwrap() + 1
}
/// One role stops at one step: every role terminates (the engine reports the runs that block),
/// nobody reports success wrongly, nothing already sent is lost or altered.
pub fn interrupted(case: &Case, victims: &[usize], kinds: &[Stop], max_branches: i32, at: Option<usize>) -> Outcome {
    let v = victims[mcrt::choose(victims.len())];
    interrupt(case, v, kinds, max_branches, at, None)
}
/// The role that stops takes very long before each of its actions and before it stops.
pub fn interrupted_slowly(case: &Case, victims: &[usize], kinds: &[Stop], max_branches: i32) -> Outcome {
    let v = victims[mcrt::choose(victims.len())];
    interrupt(case, v, kinds, max_branches, None, Some(v))
}
fn interrupt(case: &Case, v: usize, kinds: &[Stop], max_branches: i32, at: Option<usize>, slow: Option<usize>) -> Outcome {
    let kind = kinds[mcrt::choose(kinds.len())];
    let step = at.unwrap_or_else(|| mcrt::choose(max_steps(case, max_branches)));
    let r = launch_slow(case, Some((v, step, kind)), slow, max_branches);
    judge_interrupted(case, &r, v, kind)
}
pub fn judge_interrupted(case: &Case, r: &Ran, v: usize, kind: Stop) -> Outcome {
    let stopped = r.logs[v].last().map_or(false, |l| l.starts_with("stop:"));
    judge_part(case, r, stopped.then_some((v, kind)), stopped, None).map(|o| format!("{o}{kind:?}"))
}
/// `stop`: the role of this session that stopped; `any`: somebody stopped, here or in another session;
/// `guest`: a role that may end because of another session.
pub fn judge_part(case: &Case, r: &Ran, stop: Option<(usize, Stop)>, any: bool, guest: Option<usize>) -> Outcome {
    let exp = expected(case, &r.hist)?;
    let names = case.roles;
    let mut out = String::new();
    for p in 0..names.len() {
        let mut log = r.logs[p].clone();
        let me = stop.filter(|(v, _)| *v == p);
        if me.is_some() {
            log.pop();
        }
        // a role that was about to announce a selection when it failed may lack the label in its log
        if log.len() > exp[p].len() && log[..exp[p].len()] == exp[p][..] {
            return Err(format!("role {} went on after the end of the known protocol ({})", names[p], show(case, r)));
        }
        if log[..] != exp[p][..log.len().min(exp[p].len())] {
            return Err(format!("role {} did [{}], which is not a beginning of [{}] ({})", names[p], log.join(" "), exp[p].join(" "), show(case, r)));
        }
        let closed = log.last().map_or(false, |l| l == "closed");
        let want_ok = if let Some((_, kind)) = me { kind == Stop::Cancel && !case.supervised } else { closed };
        if r.results[p].is_ok() != want_ok {
            return Err(format!("role {} reports {:?} after [{}] ({})", names[p], r.results[p], r.logs[p].join(" "), show(case, r)));
        }
        if closed {
            for q in 0..names.len() {
                if !r.logs[q].iter().any(|l| l == "closing") {
                    return Err(format!("role {} closed successfully although role {} never reached its end ({})", names[p], names[q], show(case, r)));
                }
            }
        }
        if !any && !closed {
            return Err(format!("role {} failed although no role stopped early ({})", names[p], show(case, r)));
        }
        if me.is_none() && !closed && guest != Some(p) {
            if let Some(e) = lost(case, r, &exp, p) {
                return Err(e);
            }
        }
        out.push_str(&format!("{}:{} ", names[p], log.len()));
    }
    Ok(out)
}
/// Role `p` did not go on although what it needed next had been sent.
fn lost(case: &Case, r: &Ran, exp: &[Vec<String>], p: usize) -> Option<String> {
    let names = case.roles;
    let log = &r.logs[p];
    let next = exp[p].get(log.len())?;
    if next.starts_with('r') {
        let (body, from) = next[1..].split_once('<').unwrap();
        let s = format!("s{body}>{}", names[p]);
        let q = names.iter().position(|x| *x == from).unwrap();
        if r.logs[q].contains(&s) {
            return Some(format!("role {} failed to receive {body} from {from}, which {from} had sent ({})", names[p], show(case, r)));
        }
    } else if !next.starts_with(['s', 'c']) {
        // a branch label
        let seen = log.iter().filter(|l| *l == next).count();
        if let Some(ch) = chooser(case, next) {
            if ch != p && !case.supervised && r.logs[ch].iter().filter(|l| *l == next).count() > seen {
                return Some(format!("role {} failed to take branch {next}, which {} had selected and announced ({})", names[p], names[ch], show(case, r)));
            }
        }
    }
    None
}
fn chooser(case: &Case, label: &str) -> Option<usize> {
    fn go(a: &[Act], k: &str) -> Option<usize> {
        a.iter().find_map(|x| match x {
            Act::Choice(c, kk, bs) => if *kk == k { Some(*c) } else { bs.iter().find_map(|b| go(b, k)) },
            _ => None,
        })
    }
    go(&(case.acts)(), label.split('.').next().unwrap())
}

/// Timed sessions: one role is late at one step.
pub fn late(case: &Case, victims: &[usize], kinds: &[Stop], max_branches: i32) -> Outcome {
    let kind = kinds[mcrt::choose(kinds.len())];
    let v = victims[mcrt::choose(victims.len())];
    let step = mcrt::choose(max_steps(case, max_branches));
    let r = launch(case, Some((v, step, kind)), max_branches);
    let exp = expected(case, &r.hist)?;
    let was_late = r.logs[v].iter().any(|l| l == "late");
    let clean = |p: usize| r.logs[p].iter().filter(|l| *l != "late" && *l != "slow").cloned().collect::<Vec<_>>();
    for p in 0..case.roles.len() {
        let log = clean(p);
        if log[..] != exp[p][..log.len().min(exp[p].len())] {
            return Err(format!("role {} did [{}], which is not a beginning of [{}] ({})", case.roles[p], log.join(" "), exp[p].join(" "), show(case, &r)));
        }
        if r.results[p].is_ok() != log.last().map_or(false, |l| l == "closed") {
            return Err(format!("role {} reports {:?} after [{}] ({})", case.roles[p], r.results[p], log.join(" "), show(case, &r)));
        }
    }
    if was_late {
        if r.logs[v].last().unwrap() != "late" {
            return Err(format!("role {} went on although it acted outside the window ({})", case.roles[v], show(case, &r)));
        }
        if let Some(p) = (0..case.roles.len()).find(|p| r.results[*p].is_ok()) {
            return Err(format!("role {} reported success although role {} missed its window ({})", case.roles[p], case.roles[v], show(case, &r)));
        }
        // a role that never depends on the late role keeps its pace until it has to close
        Ok(format!("late {}", (0..case.roles.len()).map(|p| clean(p).len().to_string()).collect::<Vec<_>>().join(",")))
    } else {
        let oks = r.results.iter().filter(|x| x.is_ok()).count();
        if r.logs[v].iter().all(|l| l != "slow") && oks != case.roles.len() {
            return Err(format!("nobody was late and the session failed ({})", show(case, &r)));
        }
        Ok(format!("in time {oks}"))
    }
}

/// Timed sessions: every successful action changed exactly the clock it declares, also when a
/// role is late or early.
pub fn clocks(case: &Case, victims: &[usize], max_branches: i32) -> Outcome {
    let k = mcrt::choose(1 + 2 * victims.len());
    let victim = if k == 0 {
        None
    } else {
        let kind = if k % 2 == 0 { Stop::Late } else { Stop::Early };
        Some((victims[(k - 1) / 2], mcrt::choose(max_steps(case, max_branches)), kind))
    };
    let r = launch(case, victim, max_branches);
    match r.clock_errors.first() {
        Some(e) => Err(format!("{e} ({})", show(case, &r))),
        None => Ok(format!("{:?}", r.logs.iter().map(|l| l.len()).collect::<Vec<_>>())),
    }
}

/// Two sessions that share one participant.
pub struct Case2 {
    pub name: &'static str,
    pub roles: [&'static [&'static str]; 2],
    /// the shared participant's role in each session
    pub shared: [usize; 2],
    pub acts: [fn() -> Vec<Act>; 2],
    /// starts everybody: the others of session one, the others of session two, the shared one
    pub run: fn(Vec<Ctx>, Vec<Ctx>) -> Vec<JoinHandle<()>>,
}
pub fn text(e: &dyn Error) -> String {
    e.to_string()
}
/// Results of one thread that plays all roles.
pub fn solo(n: usize, r: R) -> Vec<JoinHandle<()>> {
    let r = r.map_err(|e| e.to_string());
    (0..n)
        .map(|_| {
            let r = r.clone();
            std::thread::spawn(move || r.unwrap_or_else(|e| panic!("{e}")))
        })
        .collect()
}
impl Ctx {
    /// A selection that follows from the program.
    pub fn forced(&mut self, k: &'static str, b: usize) {
        lk(&self.sh.hist).push((k, b))
    }
}
fn no_run(_: Vec<Ctx>) -> Vec<JoinHandle<()>> {
    unreachable!()
}
/// All roles of both sessions (the shared one once, as a role of session one) for `victim`.
pub fn people(case: &Case2) -> Vec<(usize, usize)> {
    (0..2).flat_map(|k| (0..case.roles[k].len()).map(move |p| (k, p))).filter(|(k, p)| *k == 0 || *p != case.shared[1]).collect()
}
/// One role (session, role) of two interleaved sessions may stop at one step.
pub fn interleaved(case: &Case2, victims: &[(usize, usize)], kinds: &[Stop], max_branches: i32, steps: usize) -> Outcome {
    interleaved_slow(case, victims, kinds, max_branches, steps, &[])
}
/// The same with one of `slow` taking very long before each of its actions.
pub fn interleaved_slow(case: &Case2, victims: &[(usize, usize)], kinds: &[Stop], max_branches: i32, steps: usize, slow: &[(usize, usize)]) -> Outcome {
    let slow = if slow.is_empty() { None } else { Some(slow[mcrt::choose(slow.len())]) };
    let victim = if victims.is_empty() { None } else { Some((victims[mcrt::choose(victims.len())], mcrt::choose(steps), kinds[mcrt::choose(kinds.len())])) };
    let shs: Vec<Arc<Shared>> = (0..2)
        .map(|k| {
            let v = victim.and_then(|((s, p), at, kind)| (s == k).then_some((p, at, kind)));
            Arc::new(Shared { logs: Mutex::new(vec![vec![]; case.roles[k].len()]), hist: Mutex::new(vec![]), roles: case.roles[k], victim: v, slow: slow.and_then(|(s, p)| if s == k { Some(p) } else if (s, p) == (0, case.shared[0]) { Some(case.shared[1]) } else { None }), max_branches, long: None, clock_errors: Mutex::new(vec![]) })
        })
        .collect();
    let ctx = |k: usize| (0..case.roles[k].len()).map(|me| Ctx { me, sh: shs[k].clone(), steps: 0, iter: 0, late: None, clocks: BTreeMap::new() }).collect::<Vec<_>>();
    let hs = (case.run)(ctx(0), ctx(1));
    let mut joined: Vec<Result<(), String>> = hs.into_iter().map(|h| h.join().map_err(|e| mcrt::rt::panic_text(&e))).collect();
    let shared = joined.pop().unwrap();
    let mut rs: Vec<Ran> = vec![];
    let mut it = joined.into_iter();
    let fin = |l: &Vec<String>| l.iter().any(|x| x == "closed");
    let mut shared_closed = true;
    for k in 0..2 {
        let logs = lk(&shs[k].logs).clone();
        let mine = fin(&logs[case.shared[k]]);
        shared_closed &= mine;
        let mut results: Vec<Result<(), String>> = vec![];
        for p in 0..case.roles[k].len() {
            results.push(if p == case.shared[k] { if mine { Ok(()) } else { Err("shared".into()) } } else { it.next().unwrap() });
        }
        rs.push(Ran { results, logs, hist: lk(&shs[k].hist).clone(), clock_errors: lk(&shs[k].clock_errors).clone() });
    }
    let as_case = |k: usize| Case { name: case.name, roles: case.roles[k], supervised: false, acts: case.acts[k], run: no_run };
    let stopped = victim.map_or(false, |((k, p), _, _)| rs[k].logs[p].last().map_or(false, |l| l.starts_with("stop:")));
    if stopped {
        let ((k, p), _, kind) = victim.unwrap();
        if k == 0 && p == case.shared[0] {
            if shared.is_ok() != (kind == Stop::Cancel) {
                return Err(format!("the shared participant stopped with {kind:?} and reports {shared:?} ({} | {})", show(&as_case(0), &rs[0]), show(&as_case(1), &rs[1])));
            }
            // judged per session: its result there
            rs[0].results[p] = shared.clone();
        } else if shared.is_ok() != shared_closed {
            return Err(format!("the shared participant reports {shared:?} ({} | {})", show(&as_case(0), &rs[0]), show(&as_case(1), &rs[1])));
        }
    } else if shared.is_ok() != shared_closed {
        return Err(format!("the shared participant reports {shared:?} ({} | {})", show(&as_case(0), &rs[0]), show(&as_case(1), &rs[1])));
    }
    let mut out = String::new();
    for k in 0..2 {
        let c = as_case(k);
        if let Some(e) = rs[k].clock_errors.first() {
            return Err(format!("session {}: {e} ({})", k + 1, show(&c, &rs[k])));
        }
        let v = victim.and_then(|((s, p), _, kind)| (s == k && stopped).then_some((p, kind)));
        match judge_part(&c, &rs[k], v, stopped, Some(case.shared[k])) {
            Ok(o) => out.push_str(&format!("{o}{:?} ", rs[k].hist)),
            Err(e) => return Err(format!("session {}: {e} (other session: {})", k + 1, show(&as_case(1 - k), &rs[1 - k]))),
        }
    }
    // the shared participant failed although it could have gone on in both sessions
    let i_stopped = stopped && victim.map_or(false, |((k, p), _, _)| k == 0 && p == case.shared[0]);
    if !shared_closed && !i_stopped {
        let mut why = vec![];
        for k in 0..2 {
            let c = as_case(k);
            let p = case.shared[k];
            if !fin(&rs[k].logs[p]) {
                why.push(lost(&c, &rs[k], &expected(&c, &rs[k].hist)?, p));
            }
        }
        if let Some(e) = why.into_iter().collect::<Option<Vec<_>>>() {
            return Err(e.join(" and "));
        }
    }
    Ok(out)
}
/// Upper bound of the actions of any participant of two sessions.
pub fn max_steps2(case: &Case2, max_branches: i32) -> usize {
    (0..2).map(|k| max_steps(&Case { name: case.name, roles: case.roles[k], supervised: false, acts: case.acts[k], run: no_run }, max_branches)).sum()
}
