//! Controlled scheduler and exhaustive explorer.
//!
//! Real OS threads run one at a time.  Every visible operation (channel operation, endpoint drop,
//! thread start/join, sleep) is a scheduling point.  A depth-first search enumerates, by replaying
//! prefixes, all inequivalent interleavings (dynamic partial-order reduction in the style of
//! Flanagan and Godefroid, with sleep sets), all answers of `choose`, and all pick orders of
//! `Select`.  Time is virtual and advances only when nothing is enabled.
use std::cell::Cell;
use std::collections::VecDeque;
use std::sync::atomic::{AtomicPtr, AtomicU32, Ordering};

/// System calls that are not taken over.
pub mod raw {
    pub fn syscall(nr: libc::c_long, a: [usize; 6]) -> isize {
        let r: isize;
        unsafe {
            std::arch::asm!("syscall", inlateout("rax") nr as isize => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
                in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _);
        }
        r
    }
    pub fn libc_like(r: isize) -> isize {
        if (-4095..0).contains(&r) {
            unsafe { *libc::__errno_location() = -r as i32 };
            -1
        } else {
            r
        }
    }
}
pub type Tid = usize;
pub type Ch = u32;
pub const NONE: usize = usize::MAX;

/// Waiting mode of an operation.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dl {
    Block,
    Try,
    At(u64),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Start,
    Join(Tid),
    WaitAll,
    Sleep(u64),
    Send { ch: Ch, dl: Dl },
    /// second half of a send on a zero-capacity channel
    SendWait { ch: Ch, ticket: u64, dl: Dl },
    Recv { ch: Ch, dl: Dl },
    /// (channel, is_send)
    Select { cases: Vec<(Ch, bool)>, dl: Dl },
    /// state query (len, is_empty ...)
    Query { ch: Ch },
    /// a receiver commits to a rendezvous
    Arrive(Ch),
    DropS(Ch),
    DropR(Ch),
    /// waits for a lock, a condition or a wake-up of the standard library
    Lock { addr: usize, dl: Dl },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Send,
    PollSend,
    DropS,
    Recv,
    RecvDisc,
    PollRecv,
    DropR,
}

type VC = Vec<u32>;
fn vc_get(c: &VC, i: usize) -> u32 {
    c.get(i).copied().unwrap_or(0)
}
fn vc_join(a: &mut VC, b: &VC) {
    if a.len() < b.len() {
        a.resize(b.len(), 0)
    }
    for (i, v) in b.iter().enumerate() {
        if a[i] < *v {
            a[i] = *v
        }
    }
}

pub struct Event {
    pub thread: Tid,
    pub node: usize,
    pub idx: u32,
    pub clock: VC,
}

pub struct Chan {
    pub cap: Option<usize>,
    pub len: usize,
    pub snd: usize,
    pub rcv: usize,
    pub version: u64,
    evs: Vec<(usize, Kind)>,
    msgs: VecDeque<usize>,
    recv_evs: Vec<usize>,
    n_sent: usize,
    /// zero-capacity channel: offers made, offers taken (in order)
    next_ticket: u64,
    taken: u64,
    withdrawn: Vec<u64>,
}

pub struct Thread {
    futex: AtomicU32,
    pending: Option<Op>,
    exited: bool,
    joined: bool,
    clock: VC,
    nev: u32,
    /// channel, its version, and how often it was polled in vain at that version
    polls: Vec<(Ch, u64, u32)>,
    pthread: u64,
    /// woken up while waiting in `Op::Lock`
    woken: bool,
    pub name: String,
}

#[derive(Clone, Debug)]
enum NodeKind {
    Sched {
        enabled: Vec<Tid>,
        ops: Vec<Op>,
        backtrack: Vec<Tid>,
        done: Vec<Tid>,
        sleep: Vec<(Tid, Op)>,
        chosen: Tid,
    },
    Choice {
        n: usize,
        cur: usize,
    },
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Dpor,
    Full,
    /// every schedule that departs from the default one (go on with the running thread, else the first) at most this often
    Delay(usize),
}

pub struct St {
    pub run_id: u64,
    threads: Vec<Box<Thread>>,
    chans: Vec<Chan>,
    events: Vec<Event>,
    stack: Vec<NodeKind>,
    pos: usize,
    cur_node: usize,
    cur_sleep: Vec<(Tid, Op)>,
    /// sleep-blocked: finish without recording
    unrecorded: bool,
    mode: Mode,
    pub now: u64,
    running: Tid,
    /// departures from the default schedule so far
    spent: usize,
    steps: usize,
    max_steps: usize,
    /// moments at which only polling threads were left, since the last progress
    idle: u32,
    // statistics
    pub n_states: u64,
    pub n_events: u64,
    pub n_ticks: u64,
    // replay of a recorded decision list
    replay: Option<Vec<usize>>,
    replay_pos: usize,
    /// set after a deadlock or livelock: every blocked operation fails so that the threads unwind
    dead: bool,
    fatal_pos: usize,
    fatal_unrecorded: bool,
    pub fatal: Option<String>,
    /// executions that did not follow the recorded prefix: the code under test has process-wide state
    pub diverged: u64,
    pub verbose: bool,
    pub trace: Vec<String>,
}

static PATIENCE: AtomicU32 = AtomicU32::new(0);
/// How often a thread may repeat a poll that found nothing while nothing has changed.
pub fn set_patience(n: u32) {
    PATIENCE.store(n, Ordering::Relaxed)
}
static STP: AtomicPtr<St> = AtomicPtr::new(std::ptr::null_mut());
thread_local! { static CUR: Cell<usize> = const { Cell::new(NONE) }; }

pub fn cur() -> Tid {
    CUR.with(|c| c.get())
}
pub fn set_cur(t: Tid) {
    CUR.with(|c| c.set(t))
}
/// Is the calling thread under the scheduler's control?
pub fn active() -> bool {
    cur() != NONE
}
#[allow(clippy::mut_from_ref)]
pub fn st() -> &'static mut St {
    // Only the thread holding the baton touches the state.
    unsafe { &mut *STP.load(Ordering::Relaxed) }
}
pub fn run_id() -> u64 {
    let p = STP.load(Ordering::Relaxed);
    if p.is_null() { 0 } else { unsafe { (*p).run_id } }
}
/// Virtual nanoseconds since the start of the run.
pub fn now() -> u64 {
    st().now
}

/// What the process does when an execution cannot go on (deadlock, livelock, nondeterminism).
pub static mut ABORT: fn(kind: &str, msg: String) -> ! = default_abort;
fn default_abort(kind: &str, msg: String) -> ! {
    eprintln!("{kind}: {msg}");
    unsafe { libc::_exit(3) }
}
fn abort(kind: &str, msg: String) -> ! {
    unsafe { (ABORT)(kind, msg) }
}

fn futex_wait(w: &AtomicU32) {
    while w.load(Ordering::Acquire) == 0 {
        raw::syscall(libc::SYS_futex, [w as *const _ as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, 0, 0, 0, 0]);
    }
    w.store(0, Ordering::Relaxed);
}
fn futex_wake(w: &AtomicU32) {
    w.store(1, Ordering::Release);
    raw::syscall(libc::SYS_futex, [w as *const _ as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, 1, 0, 0, 0]);
}

impl Op {
    fn chans(&self) -> Vec<Ch> {
        match self {
            Op::Send { ch, .. } | Op::SendWait { ch, .. } | Op::Recv { ch, .. } | Op::Query { ch } => vec![*ch],
            Op::Select { cases, .. } => cases.iter().map(|c| c.0).collect(),
            Op::DropS(c) | Op::DropR(c) | Op::Arrive(c) => vec![*c],
            _ => vec![],
        }
    }
}

fn dep_race(f: Kind, e: Kind, nonempty: bool) -> (bool, bool) {
    use Kind::*;
    let snd = |k| matches!(k, Send | PollSend);
    let rcv = |k| matches!(k, Recv | RecvDisc | PollRecv);
    match (f, e) {
        (a, b) if snd(a) && snd(b) => (true, true),
        (a, b) if rcv(a) && rcv(b) => (true, true),
        (Send, Recv) | (Recv, Send) => (false, false),
        (Send, RecvDisc) | (RecvDisc, Send) => (true, false),
        (Send, PollRecv) | (PollRecv, Send) => (true, true),
        (PollSend, b) if rcv(b) => (true, true),
        (a, PollSend) if rcv(a) => (true, true),
        (DropS, Recv) | (Recv, DropS) => (false, false),
        (DropS, RecvDisc) | (RecvDisc, DropS) => (true, false),
        (DropS, PollRecv) | (PollRecv, DropS) => (true, true),
        (DropS, b) if snd(b) => (false, false),
        (a, DropS) if snd(a) => (false, false),
        (DropR, b) if snd(b) => (true, true),
        (a, DropR) if snd(a) => (true, true),
        (DropR, b) if rcv(b) => (false, false),
        (a, DropR) if rcv(a) => (false, false),
        _ => (nonempty, nonempty), // drop-drop pairs
    }
}

impl St {
    pub fn new(mode: Mode, max_steps: usize) -> St {
        St {
            run_id: 0,
            threads: vec![],
            chans: vec![],
            events: vec![],
            stack: vec![],
            pos: 0,
            cur_node: 0,
            cur_sleep: vec![],
            unrecorded: false,
            mode,
            now: 0,
            running: 0,
            spent: 0,
            steps: 0,
            max_steps,
            idle: 0,
            n_states: 0,
            n_events: 0,
            n_ticks: 0,
            replay: None,
            replay_pos: 0,
            dead: false,
            fatal_pos: 0,
            fatal_unrecorded: false,
            fatal: None,
            diverged: 0,
            verbose: false,
            trace: vec![],
        }
    }
    pub fn set_replay(&mut self, d: Vec<usize>) {
        self.replay = Some(d);
        self.verbose = true;
    }
    fn reset_run(&mut self) {
        self.run_id += 1;
        self.threads.clear();
        self.chans.clear();
        self.events.clear();
        self.pos = 0;
        self.cur_node = 0;
        self.cur_sleep.clear();
        self.unrecorded = false;
        self.dead = false;
        self.fatal = None;
        self.now = 0;
        self.steps = 0;
        self.spent = 0;
        self.idle = 0;
        self.running = 0;
        self.replay_pos = 0;
        self.trace.clear();
        self.add_thread(vec![], "main".into());
    }
    fn add_thread(&mut self, clock: VC, name: String) -> Tid {
        self.threads.push(Box::new(Thread {
            futex: AtomicU32::new(0),
            pending: None,
            exited: false,
            joined: false,
            clock,
            nev: 0,
            polls: vec![],
            pthread: 0,
            woken: false,
            name,
        }));
        self.threads.len() - 1
    }
    pub fn decisions(&self) -> Vec<usize> {
        self.stack[..self.pos.min(self.stack.len())]
            .iter()
            .map(|n| match n {
                NodeKind::Sched { chosen, .. } => *chosen,
                NodeKind::Choice { cur, .. } => *cur,
            })
            .collect()
    }
    pub fn chan(&mut self, c: Ch) -> &mut Chan {
        &mut self.chans[c as usize]
    }
    pub fn note(&mut self, s: String) {
        if self.verbose {
            self.trace.push(s)
        }
    }

    // ---- enabledness -------------------------------------------------------------------------
    fn recv_ready(&self, c: Ch) -> bool {
        let c = &self.chans[c as usize];
        c.len > 0 || c.snd == 0
    }
    /// another thread is committed to receiving on this zero-capacity channel
    fn waiting_receiver(&self, ch: Ch, me: Tid) -> bool {
        self.threads.iter().enumerate().any(|(i, t)| {
            i != me
                && !t.exited
                && match &t.pending {
                    Some(Op::Recv { ch: c, dl }) => *c == ch && *dl != Dl::Try,
                    Some(Op::Select { cases, dl }) => *dl != Dl::Try && cases.iter().any(|x| x.0 == ch && !x.1),
                    _ => false,
                }
        })
    }
    pub fn send_ready(&self, ch: Ch, me: Tid) -> bool {
        let c = &self.chans[ch as usize];
        match c.cap {
            _ if c.rcv == 0 => true,
            None => true,
            Some(0) => c.len == 0 && self.waiting_receiver(ch, me),
            Some(k) => c.len < k,
        }
    }
    fn expired(&self, dl: Dl) -> bool {
        match dl {
            Dl::Block => false,
            Dl::Try => true,
            Dl::At(t) => self.now >= t,
        }
    }
    fn enabled(&self, t: Tid) -> bool {
        let th = &self.threads[t];
        if th.exited {
            return false;
        }
        let Some(op) = &th.pending else { return false };
        if self.dead && !matches!(op, Op::Join(_) | Op::WaitAll) {
            return true;
        }
        match op {
            Op::Start | Op::DropS(_) | Op::DropR(_) | Op::Arrive(_) => true,
            Op::Join(o) => self.threads[*o].exited,
            Op::WaitAll => self.threads.iter().skip(1).all(|x| x.exited),
            Op::Sleep(d) => self.now >= *d,
            Op::Lock { dl, .. } => th.woken || self.expired(*dl),
            Op::Send { ch, dl } => {
                // zero capacity: depositing the offer is always possible
                if *dl == Dl::Try {
                    return self.send_ready(*ch, t) || self.spin_ok(th, *ch);
                }
                // zero capacity: depositing the offer is always possible
                self.chans[*ch as usize].cap == Some(0) || self.send_ready(*ch, t) || self.expired(*dl)
            },
            Op::SendWait { ch, ticket, dl } => {
                let c = &self.chans[*ch as usize];
                c.taken > *ticket || c.rcv == 0 || self.expired(*dl)
            },
            Op::Recv { ch, dl } => {
                if *dl == Dl::Try {
                    return self.chans[*ch as usize].len > 0 || self.spin_ok(th, *ch);
                }
                self.recv_ready(*ch) || self.expired(*dl)
            },
            Op::Query { ch } => self.spin_ok(th, *ch),
            Op::Select { cases, dl } => {
                let r = cases.iter().any(|(c, s)| if *s { self.send_ready(*c, t) } else { self.recv_ready(*c) });
                if r {
                    return true;
                }
                match dl {
                    Dl::Try => cases.iter().all(|(c, _)| self.spin_ok(th, *c)),
                    d => self.expired(*d),
                }
            },
        }
    }
    /// A thread that polled `ch` in vain since its last progress may poll it again only a bounded number of
    /// times (`set_patience`), or when one of the channels it polled since then has changed.
    fn spin_ok(&self, th: &Thread, ch: Ch) -> bool {
        if !th.polls.iter().any(|(c, v, k)| *c == ch && self.chans[*c as usize].version == *v && *k > PATIENCE.load(Ordering::Relaxed)) {
            return true;
        }
        th.polls.iter().any(|(c, v, _)| self.chans[*c as usize].version != *v)
    }
    fn polling(t: &Thread) -> bool {
        matches!(&t.pending, Some(Op::Query { .. }) | Some(Op::Send { dl: Dl::Try, .. }) | Some(Op::Recv { dl: Dl::Try, .. }) | Some(Op::Select { dl: Dl::Try, .. }))
    }
    fn next_deadline(&self) -> Option<u64> {
        let mut best: Option<u64> = None;
        for th in self.threads.iter().filter(|t| !t.exited) {
            let d = match &th.pending {
                Some(Op::Sleep(d)) => Some(*d),
                Some(Op::Send { dl: Dl::At(d), .. })
                | Some(Op::SendWait { dl: Dl::At(d), .. })
                | Some(Op::Recv { dl: Dl::At(d), .. })
                | Some(Op::Lock { dl: Dl::At(d), .. })
                | Some(Op::Select { dl: Dl::At(d), .. }) => Some(*d),
                _ => None,
            };
            if let Some(d) = d {
                if d > self.now && d != u64::MAX && best.is_none_or(|b| d < b) {
                    best = Some(d)
                }
            }
        }
        best
    }
    fn tick(&mut self, t: u64) {
        self.n_ticks += 1;
        self.now = t;
        let mut all: VC = vec![];
        for th in &self.threads {
            vc_join(&mut all, &th.clock);
        }
        for th in &mut self.threads {
            vc_join(&mut th.clock, &all);
            th.polls.clear();
        }
        if self.verbose {
            self.trace.push(format!("time advances to {:.3}s", t as f64 / 1e9));
        }
    }

    // ---- decisions ---------------------------------------------------------------------------
    fn describe_blocked(&self) -> String {
        let mut v = vec![];
        for (i, t) in self.threads.iter().enumerate() {
            if !t.exited {
                v.push(format!("{}#{} waits in {:?}", t.name, i, t.pending.as_ref()));
            }
        }
        v.join("; ")
    }
    fn die(&mut self, kind: &str, msg: String) {
        // races of the operations that will never be executed
        for t in 0..self.threads.len() {
            if self.threads[t].exited {
                continue;
            }
            let touches = match &self.threads[t].pending {
                Some(Op::Send { ch, .. }) | Some(Op::SendWait { ch, .. }) => vec![(*ch, Kind::PollSend)],
                Some(Op::Recv { ch, .. }) => vec![(*ch, Kind::PollRecv)],
                Some(Op::Query { ch }) => vec![(*ch, Kind::PollRecv), (*ch, Kind::PollSend)],
                Some(Op::Select { cases, .. }) => {
                    cases.iter().map(|(c, s)| (*c, if *s { Kind::PollSend } else { Kind::PollRecv })).collect()
                },
                _ => continue,
            };
            self.races(t, &touches, false);
        }
        self.dead = true;
        self.fatal = Some(format!("{kind}: {msg}"));
        self.note(format!("{kind}: {msg}"));
        self.fatal_pos = self.pos;
        self.fatal_unrecorded = self.unrecorded;
        // what follows only unwinds the threads
        self.unrecorded = true;
    }
    fn pick_next(&mut self) -> Tid {
        self.steps += 1;
        if self.steps > self.max_steps && !self.dead {
            self.die("LIVELOCK", format!("no termination after {} visible operations: {}", self.max_steps, self.describe_blocked()));
        }
        if self.steps > 2 * self.max_steps + 1000 {
            if let Some(m) = self.fatal.take() {
                self.unrecorded = self.fatal_unrecorded;
                self.pos = self.fatal_pos;
                abort("STUCK", m);
            }
            abort("LIVELOCK", format!("no termination after {} visible operations: {}", self.max_steps, self.describe_blocked()));
        }
        let mut en: Vec<Tid>;
        loop {
            en = (0..self.threads.len()).filter(|t| self.enabled(*t)).collect();
            if !en.is_empty() {
                break;
            }
            match self.next_deadline() {
                Some(d) => self.tick(d),
                None if self.dead => abort("DEADLOCK", self.describe_blocked()),
                // a poll that is repeated only so often, or until some time has passed
                None if self.idle < 24 && self.threads.iter().any(|t| !t.exited && Self::polling(t)) => {
                    self.idle += 1;
                    self.tick(self.now + (1_000_000 << self.idle.min(16)));
                },
                None => self.die("DEADLOCK", self.describe_blocked()),
            }
        }
        if self.dead {
            // unwinding threads release their locks
            let free: Vec<Tid> = en.iter().copied().filter(|t| self.threads[*t].woken || !matches!(self.threads[*t].pending, Some(Op::Lock { .. }))).collect();
            if !free.is_empty() {
                en = free
            }
        }
        let dflt = |c: &[Tid], running: Tid| if c.contains(&running) { running } else { c[0] };
        if let (Some(r), false) = (&self.replay, self.dead) {
            let c = if self.replay_pos < r.len() {
                let c = r[self.replay_pos];
                if !en.contains(&c) {
                    abort("NONDETERMINISM", format!("replay: thread {c} not enabled at decision {}", self.replay_pos));
                }
                c
            } else {
                dflt(&en, self.running)
            };
            self.replay_pos += 1;
            self.stack.push(NodeKind::Sched { enabled: en, ops: vec![], backtrack: vec![], done: vec![], sleep: vec![], chosen: c });
            self.pos = self.stack.len();
            self.cur_node = self.pos - 1;
            self.running = c;
            return c;
        }
        if self.unrecorded {
            let c = dflt(&en, self.running);
            self.running = c;
            return c;
        }
        if let Some(NodeKind::Sched { enabled, .. }) = self.stack.get(self.pos) {
            if *enabled != en {
                self.diverge();
            }
        } else if self.pos < self.stack.len() {
            self.diverge();
        }
        let chosen;
        if self.pos < self.stack.len() {
            match &self.stack[self.pos] {
                NodeKind::Sched { enabled, ops, chosen: c, sleep, done, .. } => {
                    chosen = *c;
                    self.spent += !done.is_empty() as usize;
                    let mut s = sleep.clone();
                    for d in done {
                        let k = enabled.iter().position(|t| t == d).unwrap();
                        s.push((*d, ops[k].clone()));
                    }
                    self.cur_sleep = s;
                },
                _ => unreachable!(),
            }
        } else {
            let sleep = std::mem::take(&mut self.cur_sleep);
            let cand: Vec<Tid> = en.iter().copied().filter(|t| !sleep.iter().any(|s| s.0 == *t)).collect();
            if cand.is_empty() {
                self.unrecorded = true;
                let c = dflt(&en, self.running);
                self.running = c;
                return c;
            }
            chosen = dflt(&cand, self.running);
            let backtrack = match self.mode {
                Mode::Full => en.clone(),
                Mode::Delay(k) if self.spent < k => en.clone(),
                _ => vec![chosen],
            };
            self.cur_sleep = sleep.clone();
            let ops = en.iter().map(|t| self.threads[*t].pending.clone().unwrap()).collect();
            self.stack.push(NodeKind::Sched { enabled: en, ops, backtrack, done: vec![], sleep, chosen });
            self.n_states += 1;
        }
        self.cur_node = self.pos;
        self.pos += 1;
        self.running = chosen;
        // update the sleep set: keep what is independent of the chosen step
        let op = self.threads[chosen].pending.clone().unwrap();
        let oc = op.chans();
        if self.mode != Mode::Dpor {
            self.cur_sleep.clear();
        } else {
            let threads = &self.threads;
            self.cur_sleep.retain(|(q, qop)| {
                *q != chosen
                    && !qop.chans().iter().any(|c| oc.contains(c))
                    && !threads[*q].polls.iter().any(|(c, ..)| oc.contains(c))
            });
        }
        chosen
    }

    /// The execution leaves the recorded prefix here: what follows is explored afresh.
    fn diverge(&mut self) {
        self.diverged += 1;
        self.stack.truncate(self.pos);
        self.cur_sleep.clear();
    }
    pub fn choose(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        if self.dead {
            return 0;
        }
        if let Some(r) = &self.replay {
            let c = if self.replay_pos < r.len() { r[self.replay_pos] } else { 0 };
            if c >= n {
                abort("NONDETERMINISM", "replay: choice out of range".into());
            }
            self.replay_pos += 1;
            self.stack.push(NodeKind::Choice { n, cur: c });
            self.pos = self.stack.len();
            self.trace.push(format!("choice {c} of {n}"));
            return c;
        }
        if self.unrecorded {
            return 0;
        }
        if !matches!(self.stack.get(self.pos), None | Some(NodeKind::Choice { .. })) || matches!(self.stack.get(self.pos), Some(NodeKind::Choice { n: m, .. }) if *m != n) {
            self.diverge();
        }
        let r;
        if self.pos < self.stack.len() {
            match &self.stack[self.pos] {
                NodeKind::Choice { n: m, cur } if *m == n => r = *cur,
                _ => unreachable!(),
            }
        } else {
            self.stack.push(NodeKind::Choice { n, cur: 0 });
            r = 0;
        }
        self.pos += 1;
        r
    }

    /// Advance to the next unexplored branch; false when the space is exhausted.
    fn backtrack(&mut self) -> bool {
        while let Some(top) = self.stack.last_mut() {
            match top {
                NodeKind::Choice { n, cur } => {
                    if *cur + 1 < *n {
                        *cur += 1;
                        return true;
                    }
                },
                NodeKind::Sched { backtrack, done, sleep, chosen, .. } => {
                    done.push(*chosen);
                    if let Some(next) = backtrack
                        .iter()
                        .copied()
                        .find(|t| !done.contains(t) && !sleep.iter().any(|s| s.0 == *t))
                    {
                        *chosen = next;
                        return true;
                    }
                },
            }
            self.stack.pop();
        }
        false
    }

    // ---- recording ---------------------------------------------------------------------------
    /// Record the execution of an event of the running thread touching `touches`.
    /// `nonempty`: queue non-empty when an endpoint is dropped.
    fn record(&mut self, touches: &[(Ch, Kind)], extra: &[usize], nonempty: bool) -> usize {
        let me = self.running;
        self.n_events += 1;
        let mut acc = self.races(me, touches, nonempty);
        // Edges of the message received or of the slot freed come last: they order the two events of
        // a race for the same message or slot without making that race impossible.
        for ev in extra {
            let cl = std::mem::take(&mut self.events[*ev].clock);
            vc_join(&mut acc, &cl);
            self.events[*ev].clock = cl;
        }
        let th = &mut self.threads[me];
        th.nev += 1;
        if acc.len() <= me {
            acc.resize(me + 1, 0)
        }
        acc[me] = th.nev;
        th.clock = acc.clone();
        let idx = th.nev;
        let id = self.events.len();
        self.events.push(Event { thread: me, node: self.cur_node, idx, clock: acc });
        for (c, k) in touches {
            self.chans[*c as usize].evs.push((id, *k));
        }
        id
    }
    /// Adds backtracking points for the races of `me`'s step with earlier events; returns its clock.
    fn races(&mut self, me: Tid, touches: &[(Ch, Kind)], nonempty: bool) -> VC {
        let before = self.threads[me].clock.clone();
        let mut deps: Vec<(usize, bool)> = vec![];
        for (c, k) in touches {
            for (ev, fk) in &self.chans[*c as usize].evs {
                if self.events[*ev].thread == me {
                    continue;
                }
                let (d, r) = dep_race(*fk, *k, nonempty);
                if d {
                    deps.push((*ev, r));
                }
            }
        }
        deps.sort_by(|a, b| b.0.cmp(&a.0).then(b.1.cmp(&a.1)));
        let mut acc = before.clone();
        let record_races = self.mode == Mode::Dpor && !self.unrecorded && self.replay.is_none();
        for (ev, race) in deps {
            let (ft, fi) = (self.events[ev].thread, self.events[ev].idx);
            if vc_get(&acc, ft) >= fi {
                continue;
            }
            if race && record_races {
                self.add_backtrack(ev, me, &before);
            }
            let cl = std::mem::take(&mut self.events[ev].clock);
            vc_join(&mut acc, &cl);
            self.events[ev].clock = cl;
        }
        acc
    }
    fn add_backtrack(&mut self, ev: usize, p: Tid, before: &VC) {
        let node = self.events[ev].node;
        // threads with an event after `ev` that happens before p's next step
        let mut e: Vec<Tid> = vec![p];
        for k in &self.events[ev + 1..] {
            if vc_get(before, k.thread) >= k.idx && !e.contains(&k.thread) {
                e.push(k.thread);
            }
        }
        if let NodeKind::Sched { enabled, backtrack, .. } = &mut self.stack[node] {
            let cand: Vec<Tid> = e.into_iter().filter(|t| enabled.contains(t)).collect();
            if cand.is_empty() {
                for t in enabled.iter() {
                    if !backtrack.contains(t) {
                        backtrack.push(*t)
                    }
                }
            } else if !cand.iter().any(|t| backtrack.contains(t)) {
                backtrack.push(cand[0]);
            }
        }
    }
}


// ---- scheduling points -------------------------------------------------------------------------

/// Announce `op`; returns when the scheduler lets the calling thread execute it.
fn point(op: Op) -> &'static mut St {
    let me = cur();
    let s = st();
    s.threads[me].pending = Some(op);
    let next = s.pick_next();
    if next != me {
        let w = &s.threads[me].futex as *const AtomicU32;
        futex_wake(&s.threads[next].futex);
        futex_wait(unsafe { &*w });
    }
    let s = st();
    let op = s.threads[me].pending.take().unwrap();
    if s.verbose {
        let n = s.threads[me].name.clone();
        s.trace.push(format!("{n}#{me} {op:?}"));
    }
    s
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum R {
    Ok,
    Disc,
    Timeout,
}

pub fn chan_new(cap: Option<usize>) -> Ch {
    let s = st();
    s.chans.push(Chan {
        cap,
        len: 0,
        snd: 1,
        rcv: 1,
        version: 0,
        evs: vec![],
        msgs: VecDeque::new(),
        recv_evs: vec![],
        n_sent: 0,
        next_ticket: 0,
        taken: 0,
        withdrawn: vec![],
    });
    (s.chans.len() - 1) as Ch
}
pub fn clone_sender(ch: Ch) {
    st().chan(ch).snd += 1
}
pub fn clone_receiver(ch: Ch) {
    st().chan(ch).rcv += 1
}

impl St {
    fn progress(&mut self) {
        let me = self.running;
        self.idle = 0;
        self.threads[me].polls.clear();
    }
    fn polled(&mut self, ch: Ch) {
        let v = self.chans[ch as usize].version;
        let me = self.running;
        let p = &mut self.threads[me].polls;
        let k = p.iter().find(|(c, w, _)| *c == ch && *w == v).map_or(0, |x| x.2);
        p.retain(|(c, ..)| *c != ch);
        p.push((ch, v, k + 1));
    }
    fn do_send(&mut self, ch: Ch, kind: Kind) {
        let c = &self.chans[ch as usize];
        let mut extra = vec![];
        if let Some(k) = c.cap {
            if k > 0 && c.n_sent >= k {
                if let Some(e) = c.recv_evs.get(c.n_sent - k) {
                    extra.push(*e)
                }
            }
        }
        let ev = self.record(&[(ch, kind)], &extra, false);
        let c = self.chan(ch);
        c.len += 1;
        c.n_sent += 1;
        c.version += 1;
        c.msgs.push_back(ev);
        self.progress();
    }
    fn do_recv(&mut self, ch: Ch, kinds: &[(Ch, Kind)]) {
        let m = self.chan(ch).msgs.pop_front();
        let extra: Vec<usize> = m.into_iter().collect();
        let ev = self.record(kinds, &extra, false);
        let c = self.chan(ch);
        c.len -= 1;
        c.taken += 1;
        c.version += 1;
        c.recv_evs.push(ev);
        self.progress();
    }
}

/// Returns the outcome; on `Ok` the caller stores the message (already counted).
pub fn send(ch: Ch, dl: Dl, store: &mut dyn FnMut()) -> R {
    let s = point(Op::Send { ch, dl });
    let me = cur();
    let exp = s.expired(dl);
    let k = if exp { Kind::PollSend } else { Kind::Send };
    if s.chan(ch).rcv == 0 {
        s.record(&[(ch, k)], &[], false);
        s.progress();
        return R::Disc;
    }
    if s.chan(ch).cap == Some(0) {
        if dl == Dl::Try {
            if !s.send_ready(ch, me) {
                s.record(&[(ch, Kind::PollSend)], &[], false);
                s.polled(ch);
                return R::Timeout;
            }
            s.do_send(ch, Kind::PollSend);
            s.chan(ch).next_ticket += 1;
            store();
            return R::Ok;
        }
        s.do_send(ch, k);
        let ticket = s.chan(ch).next_ticket;
        s.chan(ch).next_ticket += 1;
        store();
        let s = point(Op::SendWait { ch, ticket, dl });
        let exp = s.expired(dl);
        let c = s.chan(ch);
        if c.taken > ticket {
            let e = c.recv_evs.get(ticket as usize).copied();
            let extra: Vec<usize> = e.into_iter().collect();
            s.record(&[(ch, if exp { Kind::PollSend } else { Kind::Send })], &extra, false);
            s.progress();
            return R::Ok;
        }
        // withdraw the offer (single outstanding offer per sender; the caller removes the message)
        let disc = c.rcv == 0;
        c.len -= 1;
        c.taken += 1;
        c.version += 1;
        c.msgs.pop_back();
        c.withdrawn.push(ticket);
        let ev = s.record(&[(ch, Kind::PollSend)], &[], false);
        s.chan(ch).recv_evs.push(ev);
        s.progress();
        return if disc || s.dead { R::Disc } else { R::Timeout };
    }
    if s.send_ready(ch, me) {
        s.do_send(ch, k);
        store();
        R::Ok
    } else {
        s.record(&[(ch, Kind::PollSend)], &[], false);
        if dl == Dl::Try { s.polled(ch) } else { s.progress() }
        if s.dead { R::Disc } else { R::Timeout }
    }
}

pub fn recv(ch: Ch, dl: Dl) -> R {
    if dl != Dl::Try && st().chan(ch).cap == Some(0) {
        // arriving at a rendezvous is visible to `try_send`
        let s = point(Op::Arrive(ch));
        s.record(&[(ch, Kind::PollRecv)], &[], false);
        s.chan(ch).version += 1;
        s.progress();
    }
    let s = point(Op::Recv { ch, dl });
    let exp = s.expired(dl);
    let (len, snd) = (s.chan(ch).len, s.chan(ch).snd);
    if len > 0 {
        s.do_recv(ch, &[(ch, if exp { Kind::PollRecv } else { Kind::Recv })]);
        R::Ok
    } else if snd == 0 {
        s.record(&[(ch, if exp { Kind::PollRecv } else { Kind::RecvDisc })], &[], false);
        // asking again brings nothing new
        if dl == Dl::Try { s.polled(ch) } else { s.progress() }
        R::Disc
    } else {
        s.record(&[(ch, Kind::PollRecv)], &[], false);
        if dl == Dl::Try { s.polled(ch) } else { s.progress() }
        if s.dead { R::Disc } else { R::Timeout }
    }
}

/// Receive from a byte queue: `f` runs once a segment is there and tells whether it is used up.
pub fn recv_bytes(ch: Ch, dl: Dl, f: &mut dyn FnMut() -> bool) -> R {
    let s = point(Op::Recv { ch, dl });
    let exp = s.expired(dl);
    let (len, snd) = (s.chan(ch).len, s.chan(ch).snd);
    let k = if exp { Kind::PollRecv } else { Kind::Recv };
    if len > 0 {
        let m = s.chan(ch).msgs.front().copied();
        let extra: Vec<usize> = m.into_iter().collect();
        let ev = s.record(&[(ch, k)], &extra, false);
        let used = f();
        let c = st().chan(ch);
        c.version += 1;
        if used {
            c.msgs.pop_front();
            c.len -= 1;
            c.taken += 1;
            c.recv_evs.push(ev);
        } else {
            c.msgs[0] = ev;
        }
        st().progress();
        R::Ok
    } else if snd == 0 {
        s.record(&[(ch, if exp { Kind::PollRecv } else { Kind::RecvDisc })], &[], false);
        // asking again brings nothing new
        if dl == Dl::Try { s.polled(ch) } else { s.progress() }
        R::Disc
    } else {
        s.record(&[(ch, Kind::PollRecv)], &[], false);
        if dl == Dl::Try { s.polled(ch) } else { s.progress() }
        if s.dead { R::Disc } else { R::Timeout }
    }
}

/// Completes a receive already granted by `select`.
pub fn recv_granted(ch: Ch) -> R {
    let s = st();
    let (len, snd) = (s.chan(ch).len, s.chan(ch).snd);
    if len > 0 {
        s.do_recv(ch, &[(ch, Kind::PollRecv)]);
        R::Ok
    } else if snd == 0 {
        s.record(&[(ch, Kind::PollRecv)], &[], false);
        R::Disc
    } else {
        recv(ch, Dl::Block)
    }
}
pub fn send_granted(ch: Ch, store: &mut dyn FnMut()) -> R {
    let me = cur();
    let s = st();
    if s.chan(ch).rcv == 0 {
        s.record(&[(ch, Kind::PollSend)], &[], false);
        R::Disc
    } else if s.send_ready(ch, me) {
        s.do_send(ch, Kind::PollSend);
        store();
        R::Ok
    } else {
        send(ch, Dl::Block, store)
    }
}

/// Index of a ready case, every ready case being explored; `None` on timeout.
pub fn select(cases: Vec<(Ch, bool)>, dl: Dl, biased: bool) -> Option<usize> {
    let s = point(Op::Select { cases: cases.clone(), dl });
    let me = cur();
    let ready: Vec<usize> = (0..cases.len())
        .filter(|i| if cases[*i].1 { s.send_ready(cases[*i].0, me) } else { s.recv_ready(cases[*i].0) })
        .collect();
    let mut touches: Vec<(Ch, Kind)> = vec![];
    for (c, snd) in &cases {
        let t = (*c, if *snd { Kind::PollSend } else { Kind::PollRecv });
        if !touches.contains(&t) {
            touches.push(t)
        }
    }
    s.record(&touches, &[], false);
    if ready.is_empty() {
        if s.dead {
            return Some(0);
        }
        if dl == Dl::Try {
            for (c, _) in &cases {
                s.polled(*c)
            }
        } else {
            s.progress()
        }
        return None;
    }
    s.progress();
    // with few departures, taking another ready operation than the first is one of them
    let first = biased || matches!(s.mode, Mode::Delay(k) if s.spent >= k);
    let i = if first { 0 } else { s.choose(ready.len()) };
    if i > 0 && matches!(s.mode, Mode::Delay(_)) {
        s.spent += 1;
    }
    Some(ready[i])
}

/// State query; returns (len, senders, receivers).
pub fn query(ch: Ch) -> (usize, usize, usize) {
    let s = point(Op::Query { ch });
    s.record(&[(ch, Kind::PollRecv), (ch, Kind::PollSend)], &[], false);
    s.polled(ch);
    let c = s.chan(ch);
    (c.len, c.snd, c.rcv)
}

/// True when the queued messages must be dropped now by the caller.
pub fn drop_sender(ch: Ch) -> bool {
    let s = point(Op::DropS(ch));
    let ne = s.chan(ch).len > 0;
    s.record(&[(ch, Kind::DropS)], &[], ne);
    let c = s.chan(ch);
    c.snd -= 1;
    if c.snd == 0 {
        c.version += 1;
    }
    let destroy = c.snd == 0 && c.rcv == 0 && c.len > 0;
    if destroy {
        c.len = 0;
        c.msgs.clear();
    }
    s.progress();
    destroy
}
pub fn drop_receiver(ch: Ch) -> bool {
    let s = point(Op::DropR(ch));
    let ne = s.chan(ch).len > 0;
    s.record(&[(ch, Kind::DropR)], &[], ne);
    let c = s.chan(ch);
    c.rcv -= 1;
    if c.rcv == 0 {
        c.version += 1;
    }
    let destroy = c.rcv == 0 && c.len > 0 && (c.snd == 0 || c.cap.is_none());
    if destroy {
        c.len = 0;
        c.msgs.clear();
    }
    s.progress();
    destroy
}

/// Waits until `futex_unblock(addr)`; returns 0 or an error number.
pub fn futex_block(addr: usize, expected: u32, until: Option<u64>) -> i32 {
    if unsafe { &*(addr as *const AtomicU32) }.load(Ordering::SeqCst) != expected {
        return libc::EAGAIN;
    }
    let me = cur();
    st().threads[me].woken = false;
    // a real wait takes some time: code that waits again for the rest of its time must get past it
    let dl = until.map_or(Dl::Block, |d| Dl::At(d.max(now() + 1)));
    let s = point(Op::Lock { addr, dl });
    let woken = std::mem::take(&mut s.threads[me].woken);
    s.record(&[], &[], false);
    s.progress();
    if woken { 0 } else if until.is_some() { libc::ETIMEDOUT } else { libc::EINTR }
}
/// Wakes up at most `n` waiting threads, the first ones first.
pub fn futex_unblock(addr: usize, n: usize) -> usize {
    let me = cur();
    let s = st();
    let clock = s.threads[me].clock.clone();
    let mut k = 0;
    for t in s.threads.iter_mut() {
        if k < n && !t.exited && !t.woken && matches!(t.pending, Some(Op::Lock { addr: a, .. }) if a == addr) {
            t.woken = true;
            vc_join(&mut t.clock, &clock);
            k += 1;
        }
    }
    k
}

pub fn sleep_until(d: u64) {
    let s = point(Op::Sleep(d));
    s.record(&[], &[], false);
    s.progress();
}
/// Environment choice among `n` answers, all explored.
pub fn choose(n: usize) -> usize {
    if active() { st().choose(n) } else { 0 }
}
pub fn note(s: impl FnOnce() -> String) {
    if active() && st().verbose {
        let x = s();
        st().note(x)
    }
}

// ---- threads -----------------------------------------------------------------------------------
pub fn register_child() -> Tid {
    let me = cur();
    let s = st();
    let clock = s.threads[me].clock.clone();
    let t = s.add_thread(clock, "thread".into());
    s.threads[t].pending = Some(Op::Start);
    t
}
pub fn set_pthread(t: Tid, p: u64) {
    st().threads[t].pthread = p
}
pub fn child_failed(t: Tid) {
    st().threads[t].exited = true
}
/// Name of the calling thread in printed traces.
pub fn set_name(n: &str) {
    if active() {
        let me = cur();
        st().threads[me].name = n.into()
    }
}
/// Waits for the first scheduling of a child thread.
/// # Safety
/// `w` is the futex word of thread `t`.
pub fn child_enter(t: Tid, w: *const AtomicU32) {
    futex_wait(unsafe { &*w });
    set_cur(t);
    let s = st();
    s.threads[t].pending = None;
    s.record(&[], &[], false);
    if s.verbose {
        s.trace.push(format!("thread#{t} starts"));
    }
}
pub fn futex_word(t: Tid) -> *const AtomicU32 {
    &st().threads[t].futex
}
pub fn child_exit() {
    let me = cur();
    let s = st();
    s.threads[me].exited = true;
    if s.verbose {
        let n = s.threads[me].name.clone();
        s.trace.push(format!("{n}#{me} ends"));
    }
    let next = s.pick_next();
    set_cur(NONE);
    futex_wake(&s.threads[next].futex);
}
pub fn join_pthread(p: u64) {
    let s = st();
    let Some(t) = s.threads.iter().rposition(|t| t.pthread == p && !t.joined) else { return };
    s.threads[t].joined = true;
    let s = point(Op::Join(t));
    let me = cur();
    let c = s.threads[t].clock.clone();
    vc_join(&mut s.threads[me].clock, &c);
    s.record(&[], &[], false);
    s.progress();
}

// ---- exploration -------------------------------------------------------------------------------
pub struct Exploration {
    pub execs: u64,
    pub redundant: u64,
    pub states: u64,
    pub transitions: u64,
    pub ticks: u64,
    pub max_threads: usize,
    pub max_depth: usize,
    pub outcomes: std::collections::BTreeMap<String, u64>,
    pub capped: bool,
    pub diverged: u64,
    pub violation: Option<(String, Vec<usize>)>,
    pub trace: Vec<String>,
}

/// Waits while the kernel is behind with releasing the stacks of finished threads.
fn breathe() {
    for _ in 0..200 {
        let t = std::fs::read_to_string("/proc/meminfo").unwrap_or_default();
        let kb = |k: &str| t.lines().find(|l| l.starts_with(k)).and_then(|l| l.split_whitespace().nth(1)).and_then(|x| x.parse::<u64>().ok());
        match (kb("MemAvailable:"), kb("MemTotal:"), kb("VmallocUsed:")) {
            (Some(_), Some(t), Some(v)) if v > t / 24 => unsafe {
                libc::usleep(2_000);
            },
            _ => break,
        }
    }
}

/// Runs `body` once per inequivalent behaviour.  `body` returns the observed outcome or what broke.
pub fn explore(
    body: &dyn Fn() -> Result<String, String>,
    mode: Mode,
    max_steps: usize,
    max_execs: u64,
    deadline: Option<std::time::Instant>,
    replay: Option<Vec<usize>>,
    deadlock_ok: bool,
) -> Exploration {
    let is_replay = replay.is_some();
    let mut s = St::new(mode, max_steps);
    s.run_id = run_id() + 1_000_000;
    if let Some(d) = replay {
        s.set_replay(d)
    }
    let sp = Box::into_raw(Box::new(s));
    STP.store(sp, Ordering::SeqCst);
    let mut ex = Exploration {
        execs: 0,
        redundant: 0,
        states: 0,
        transitions: 0,
        ticks: 0,
        max_threads: 0,
        max_depth: 0,
        outcomes: Default::default(),
        capped: false,
        diverged: 0,
        violation: None,
        trace: vec![],
    };
    loop {
        st().reset_run();
        set_cur(0);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
        let r = match r {
            Ok(r) => r,
            Err(e) => {
                let m = panic_text(&e);
                std::mem::forget(e);
                Err(format!("driver panicked: {m}"))
            },
        };
        let s = point(Op::WaitAll);
        set_cur(NONE);
        let r = match s.fatal.take() {
            None => r,
            Some(m) => {
                s.unrecorded = s.fatal_unrecorded;
                s.pos = s.fatal_pos;
                if deadlock_ok { Ok(m.split(':').next().unwrap().to_string()) } else { Err(m) }
            },
        };
        if s.unrecorded {
            ex.redundant += 1;
        } else {
            ex.execs += 1;
        }
        ex.max_threads = ex.max_threads.max(s.threads.len());
        ex.max_depth = ex.max_depth.max(s.pos);
        match r {
            Ok(o) => {
                if !s.unrecorded {
                    *ex.outcomes.entry(o).or_insert(0) += 1
                }
            },
            Err(m) => {
                if !s.unrecorded {
                    ex.violation = Some((m, s.decisions()));
                    break;
                }
            },
        }
        if is_replay {
            break;
        }
        if s.pos != s.stack.len() && !s.unrecorded {
            s.diverged += 1;
            s.stack.truncate(s.pos);
        }
        if !s.backtrack() {
            break;
        }
        if (ex.execs + ex.redundant) % 128 == 0 {
            breathe();
        }
        if s.diverged > 2_000 || ex.execs + ex.redundant >= max_execs || deadline.is_some_and(|d| std::time::Instant::now() > d) {
            ex.capped = true;
            break;
        }
    }
    let s = st();
    ex.states = s.n_states;
    ex.transitions = s.n_events;
    ex.ticks = s.n_ticks;
    ex.diverged = s.diverged;
    ex.trace = std::mem::take(&mut s.trace);
    ex
}

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}
