//! Two-party timed sessions: a generic runner over timed session types and a reference model in
//! virtual time.  The type of the session is the only source of the reference: its constants are
//! reflected into a `Spec`, the model predicts every result, instant and clock.
use mcrt::driver::*;
use mpstthree::binary::close::close;
use mpstthree::binary::struct_trait::{end::End, session::Session};
use mpstthree::binary_atmp::choose::{choose_left, choose_right};
use mpstthree::binary_atmp::offer::offer_either;
use mpstthree::binary_atmp::recv::recv;
use mpstthree::binary_atmp::send::{send, send_without_reset};
use mpstthree::binary_atmp::struct_trait::{recv::RecvTimed, send::SendTimed};
use either::Either;
use std::collections::{BTreeMap, HashMap};
use std::error::Error;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub struct Win {
    pub clock: char,
    pub start: i128,
    pub incs: bool,
    pub end: i128,
    pub ince: bool,
    pub reset: char,
}
#[derive(Clone, Debug)]
pub enum Spec {
    End,
    /// true: this side sends
    Step(bool, Win, Box<Spec>),
    Branch(bool, Win, Box<Spec>, Box<Spec>),
}

/// What happened at one step of one side; times in ms of virtual time.
#[derive(Clone, Debug, PartialEq)]
pub struct Rec {
    pub at: u64,
    pub ok: bool,
    pub val: String,
    /// instant each clock was (re)started at
    pub clocks: BTreeMap<char, i64>,
}
#[derive(Clone, Debug, Default)]
pub struct Side {
    /// age of each clock when the side reaches its first step, ms
    pub ages: Vec<(char, u64)>,
    /// delay before each step, ms
    pub delays: Vec<u64>,
    /// side gives up before this step instead of performing it
    pub quit: Option<usize>,
    pub picks: Vec<bool>,
    /// sends payloads with the variant that resets no clock
    pub plain: bool,
}
impl Side {
    fn first_clocks(&self) -> BTreeMap<char, i64> {
        let d = self.delays.first().copied().unwrap_or(0) as i64;
        self.ages.iter().map(|(c, a)| (*c, d - *a as i64)).collect()
    }
}
pub struct Cx {
    pub side: Side,
    pub clocks: HashMap<char, Instant>,
    pub base: Instant,
    pub n: usize,
    pub log: Arc<Mutex<Vec<Rec>>>,
}
pub fn ms() -> u64 {
    mcrt::rt::now() / 1_000_000
}
impl Cx {
    fn arrive(&mut self) -> bool {
        let d = self.side.delays.get(self.n).copied().unwrap_or(0);
        if d > 0 {
            std::thread::sleep(Duration::from_millis(d));
        }
        if self.n == 0 {
            let now = Instant::now();
            for (c, age) in &self.side.ages {
                self.clocks.insert(*c, now - Duration::from_millis(*age));
            }
        }
        let q = self.side.quit == Some(self.n);
        self.n += 1;
        q
    }
    fn rec(&self, ok: bool, val: String) {
        let clocks = self
            .clocks
            .iter()
            .map(|(c, i)| {
                let v = match i.checked_duration_since(self.base) {
                    Some(d) => d.as_millis() as i64,
                    None => -(self.base.duration_since(*i).as_millis() as i64),
                };
                (*c, v)
            })
            .collect();
        let r = Rec { at: ms(), ok, val, clocks };
        mcrt::note(|| format!("    step {} -> {r:?}", self.n - 1));
        self.log.lock().unwrap_or_else(|e| e.into_inner()).push(r);
    }
    /// Runs one step; a panic of the library counts as a failure of the step.
    fn step<R>(&mut self, f: impl FnOnce(&mut Cx) -> Result<(R, String), Box<dyn Error>>) -> Option<R> {
        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        match r {
            Ok(Ok((r, v))) => {
                self.rec(true, v);
                Some(r)
            },
            Ok(Err(_)) => {
                self.rec(false, "failed".into());
                None
            },
            Err(_) => {
                self.rec(false, "failed".into());
                None
            },
        }
    }
}

pub trait Prog: Session + Sized + 'static {
    fn spec() -> Spec;
    /// false when the side stopped early
    fn run(self, cx: &mut Cx) -> bool;
}
impl Prog for End {
    fn spec() -> Spec {
        Spec::End
    }
    fn run(self, cx: &mut Cx) -> bool {
        let r = close(self).is_ok();
        cx.n += 1;
        cx.rec(r, if r { "closed" } else { "failed" }.into());
        r
    }
}
macro_rules! win {
    () => {
        Win { clock: C, start: ST, incs: IS, end: EN, ince: IE, reset: R }
    };
}
impl<const C: char, const ST: i128, const IS: bool, const EN: i128, const IE: bool, const R: char, S> Prog
    for SendTimed<i32, C, ST, IS, EN, IE, R, S>
where
    S: Prog,
    S::Dual: Prog,
{
    fn spec() -> Spec {
        Spec::Step(true, win!(), Box::new(S::spec()))
    }
    fn run(self, cx: &mut Cx) -> bool {
        if cx.arrive() {
            return false;
        }
        let v = 100 + cx.n as i32;
        match cx.step(|cx| {
            let s = if cx.side.plain { send_without_reset(v, &mut cx.clocks, self) } else { send(v, &mut cx.clocks, self) };
            s.map(|s| (s, format!("sent {v}")))
        }) {
            Some(s) => s.run(cx),
            None => false,
        }
    }
}
impl<const C: char, const ST: i128, const IS: bool, const EN: i128, const IE: bool, const R: char, S> Prog
    for RecvTimed<i32, C, ST, IS, EN, IE, R, S>
where
    S: Prog,
    S::Dual: Prog,
{
    fn spec() -> Spec {
        Spec::Step(false, win!(), Box::new(S::spec()))
    }
    fn run(self, cx: &mut Cx) -> bool {
        if cx.arrive() {
            return false;
        }
        match cx.step(|cx| recv(&mut cx.clocks, self).map(|(v, s)| (s, format!("got {v}")))) {
            Some(s) => s.run(cx),
            None => false,
        }
    }
}
impl<const C: char, const ST: i128, const IS: bool, const EN: i128, const IE: bool, const R: char, D1, D2> Prog
    for SendTimed<Either<D1, D2>, C, ST, IS, EN, IE, R, End>
where
    D1: Prog + Send,
    D2: Prog + Send,
    D1::Dual: Prog + Session<Dual = D1>,
    D2::Dual: Prog + Session<Dual = D2>,
{
    fn spec() -> Spec {
        Spec::Branch(true, win!(), Box::new(D1::Dual::spec()), Box::new(D2::Dual::spec()))
    }
    fn run(self, cx: &mut Cx) -> bool {
        if cx.arrive() {
            return false;
        }
        let left = cx.side.picks.first().copied().unwrap_or(true);
        if left {
            let s = cx.step(|cx| {
                choose_left::<D1::Dual, D2::Dual, C, ST, IS, EN, IE, R>(&mut cx.clocks, self).map(|s| (s, "left".to_string()))
            });
            s.is_some_and(|s| s.run(cx))
        } else {
            let s = cx.step(|cx| {
                choose_right::<D1::Dual, D2::Dual, C, ST, IS, EN, IE, R>(&mut cx.clocks, self).map(|s| (s, "right".to_string()))
            });
            s.is_some_and(|s| s.run(cx))
        }
    }
}
impl<const C: char, const ST: i128, const IS: bool, const EN: i128, const IE: bool, const R: char, S1, S2> Prog
    for RecvTimed<Either<S1, S2>, C, ST, IS, EN, IE, R, End>
where
    S1: Prog + Send,
    S2: Prog + Send,
    S1::Dual: Prog,
    S2::Dual: Prog,
{
    fn spec() -> Spec {
        Spec::Branch(false, win!(), Box::new(S1::spec()), Box::new(S2::spec()))
    }
    fn run(self, cx: &mut Cx) -> bool {
        if cx.arrive() {
            return false;
        }
        // the branch runs inside the offer, as users write it; the step ends when it starts
        let mut entered = None;
        let c = std::cell::RefCell::new(&mut entered);
        let s = cx.step(|cx| {
            offer_either(
                &mut cx.clocks,
                self,
                |_, s| {
                    **c.borrow_mut() = Some(Either::Left(s));
                    Ok(())
                },
                |_, s| {
                    **c.borrow_mut() = Some(Either::Right(s));
                    Ok(())
                },
            )?;
            let e = c.borrow_mut().take().ok_or("no branch was run")?;
            let t = if e.is_left() { "entered left" } else { "entered right" };
            Ok((e, t.to_string()))
        });
        match s {
            Some(Either::Left(s)) => s.run(cx),
            Some(Either::Right(s)) => s.run(cx),
            None => false,
        }
    }
}

// ---------------------------------------------------------------------------------- reference

#[derive(Clone, Copy, PartialEq, Debug)]
enum Verdict {
    In,
    Out,
    /// strictly inside the first unit after an excluded lower bound: the library counts in whole
    /// units, so both answers are acceptable
    Either,
}
/// May an operation start at this age (ms)?
fn admit(w: &Win, age: Option<i64>) -> Verdict {
    if w.start > w.end {
        return Verdict::Out;
    }
    if w.start < 0 && w.end < 0 {
        return if w.incs || w.ince { Verdict::Out } else { Verdict::In };
    }
    let Some(age) = age else { return Verdict::Out };
    let age = age as i128;
    if w.end >= 0 && (age > w.end * 1000 || (age == w.end * 1000 && !w.ince)) {
        return Verdict::Out;
    }
    if w.start >= 0 {
        if age < w.start * 1000 || (age == w.start * 1000 && !w.incs) {
            return Verdict::Out;
        }
        if !w.incs && age < (w.start + 1) * 1000 {
            return Verdict::Either;
        }
    }
    Verdict::In
}
struct M {
    t: u64,
    clocks: BTreeMap<char, i64>,
    gone: Option<u64>,
    recs: Vec<Rec>,
    n: usize,
    plain: bool,
}
impl M {
    fn age(&self, c: char) -> Option<i64> {
        self.clocks.get(&c).map(|s| self.t as i64 - s)
    }
    fn fail(&mut self, t: u64) {
        self.t = t;
        self.gone = Some(t);
        self.push(false, "failed");
    }
    fn push(&mut self, ok: bool, v: &str) {
        self.recs.push(Rec { at: self.t, ok, val: v.into(), clocks: self.clocks.clone() });
    }
    /// windowless steps touch no clock; false: the declared clock is unknown
    fn reset(&mut self, w: &Win) -> bool {
        if w.reset == ' ' || (w.start < 0 && w.end < 0) {
            return true;
        }
        let t = self.t as i64;
        match self.clocks.get_mut(&w.reset) {
            Some(c) => {
                *c = t;
                true
            },
            None => false,
        }
    }
}
pub enum Pred {
    Exact(Vec<Rec>, Vec<Rec>),
    /// two instants coincide or the age falls in the unit left open: only termination is checked
    Unspecified,
}
/// What the two sides (a runs `spec`) must observe.
pub fn predict(spec: &Spec, a: &Side, b: &Side) -> Pred {
    let mk = |s: &Side| M {
        t: 0,
        clocks: s.first_clocks(),
        gone: None,
        recs: vec![],
        n: 0,
        plain: s.plain,
    };
    let (mut x, mut y) = (mk(a), mk(b));
    let mut sp = spec.clone();
    loop {
        if x.gone.is_some() && y.gone.is_some() {
            return Pred::Exact(x.recs, y.recs);
        }
        let (asends, w, l, r, branch) = match sp {
            Spec::End => {
                // close: tell the peer, then wait for it
                for i in 0..2 {
                    let (m, o) = if i == 0 { (&mut x, &y) } else { (&mut y, &x) };
                    if m.gone.is_some() {
                        continue;
                    }
                    match o.gone {
                        Some(g) => m.fail(m.t.max(g)),
                        None => {},
                    }
                }
                if x.gone.is_none() && y.gone.is_none() {
                    let t = x.t.max(y.t);
                    x.t = t;
                    y.t = t;
                    x.push(true, "closed");
                    y.push(true, "closed");
                }
                return Pred::Exact(x.recs, y.recs);
            },
            Spec::Step(s, w, n) => (s, w, n.clone(), n, false),
            Spec::Branch(s, w, l, r) => (s, w, l, r, true),
        };
        // the two sides arrive
        for (m, s) in [(&mut x, a), (&mut y, b)] {
            if m.gone.is_none() {
                m.t += s.delays.get(m.n).copied().unwrap_or(0);
                if s.quit == Some(m.n) {
                    m.gone = Some(m.t);
                }
                m.n += 1;
            }
        }
        let picks = if asends { &a.picks } else { &b.picks };
        let left = picks.first().copied().unwrap_or(true);
        let (tx, rx) = if asends { (&mut x, &mut y) } else { (&mut y, &mut x) };
        // receiver's own window
        let mut rx_waiting = None;
        if rx.gone.is_none() {
            match admit(&w, rx.age(w.clock)) {
                Verdict::Either => return Pred::Unspecified,
                Verdict::Out => rx.fail(rx.t),
                Verdict::In => {
                    let dl = if w.end >= 0 { Some((rx.clocks[&w.clock] + (w.end * 1000).min(1 << 61) as i64) as u64) } else { None };
                    rx_waiting = Some(dl);
                },
            }
        }
        // sender's own window and action
        let mut arrival = None;
        let mut txgone = tx.gone;
        if tx.gone.is_none() {
            match admit(&w, tx.age(w.clock)) {
                Verdict::Either => return Pred::Unspecified,
                Verdict::Out => {
                    tx.fail(tx.t);
                    txgone = Some(tx.t);
                },
                Verdict::In => {
                    // the receiver may be gone, or give up waiting before
                    let limit = match rx_waiting {
                        Some(Some(dl)) => Some(dl.max(rx.t)),
                        Some(None) => None,
                        None => rx.gone,
                    };
                    match limit {
                        Some(l) if l == tx.t => return Pred::Unspecified,
                        Some(l) if l < tx.t => {
                            tx.fail(tx.t);
                            txgone = Some(tx.t);
                        },
                        _ => {
                            arrival = Some(tx.t);
                            if !(tx.plain && !branch) && !tx.reset(&w) {
                                tx.fail(tx.t);
                            }
                        },
                    }
                },
            }
        }
        // text of the step
        let (sv, rv) = if branch {
            let d = if left { "left" } else { "right" };
            (d.to_string(), format!("entered {d}"))
        } else {
            (format!("sent {}", 100 + tx.n), format!("got {}", 100 + tx.n))
        };
        if arrival.is_some() && tx.gone.is_none() {
            tx.push(true, &sv);
        }
        if let Some(dl) = rx_waiting {
            let t0 = rx.t;
            let ev = match (arrival, txgone) {
                (Some(t), _) => Some((t, true)),
                (None, Some(g)) => Some((g, false)),
                _ => None,
            };
            match (ev, dl) {
                (Some((t, okk)), dl) if t <= t0 || dl.is_none_or(|d| t < d) => {
                    rx.t = t0.max(t);
                    if okk {
                        if rx.reset(&w) {
                            rx.push(true, &rv);
                        } else {
                            rx.fail(rx.t);
                        }
                    } else {
                        rx.fail(rx.t);
                    }
                },
                (Some((t, _)), Some(d)) if t == d => {
                    // a message exactly at the deadline may or may not be taken; a peer
                    // leaving exactly then is a failure at that instant either way
                    if arrival.is_some() {
                        return Pred::Unspecified;
                    }
                    rx.fail(d);
                },
                (_, Some(d)) => rx.fail(d),
                (None, None) => unreachable!("sender neither acts nor leaves"),
                (Some(_), None) => unreachable!(),
            }
        }
        sp = *if left { l } else { r };
    }
}

// ---------------------------------------------------------------------------------- execution

/// One execution: `a` runs S in the library's own thread, `b` its dual in the main thread.
pub fn execute<S>(a: &Side, b: &Side) -> Result<(Vec<Rec>, Vec<Rec>), String>
where
    S: Prog + Send,
    S::Dual: Prog,
{
    let base = Instant::now();
    let (la, lb) = (Arc::new(Mutex::new(vec![])), Arc::new(Mutex::new(vec![])));
    let (a2, la2) = (a.clone(), la.clone());
    let (h, s) = mpstthree::binary_atmp::fork::fork_with_thread_id(move |s: S, clocks: &mut HashMap<char, Instant>| {
        if !clocks.is_empty() {
            la2.lock().unwrap().push(Rec { at: 0, ok: false, val: "clocks of a new participant are not empty".into(), clocks: BTreeMap::new() });
        }
        let mut mine = HashMap::new();
        std::mem::swap(&mut mine, clocks);
        let mut cx = Cx { side: a2, clocks: mine, base, n: 0, log: la2 };
        s.run(&mut cx);
        Ok(())
    });
    let mut cx = Cx { side: b.clone(), clocks: HashMap::new(), base, n: 0, log: lb.clone() };
    s.run(&mut cx);
    crate::join(h).map_err(|e| format!("participant thread: {e}"))?;
    let r = (la.lock().unwrap().clone(), lb.lock().unwrap().clone());
    Ok(r)
}
/// Compares every step of both sides with the prediction.
pub fn judge_steps<S>(a: &Side, b: &Side) -> Outcome
where
    S: Prog + Send,
    S::Dual: Prog,
{
    let (ra, rb) = execute::<S>(a, b)?;
    let show = |v: &[Rec]| v.iter().map(|r| format!("{}@{}ms", r.val, r.at)).collect::<Vec<_>>();
    match predict(&S::spec(), a, b) {
        Pred::Unspecified => Ok("unspecified".into()),
        Pred::Exact(ea, eb) => {
            for (who, got, want) in [("first side", &ra, ea), ("second side", &rb, eb)] {
                let (g, w) = (show(got), show(&want));
                if g != w {
                    return Err(format!("{who} observed {g:?}, the time windows allow only {w:?} (first side {a:?}, second side {b:?}, session {:?})", S::spec()));
                }
            }
            Ok(format!("{:?} {:?}", ra.iter().map(|r| r.ok).collect::<Vec<_>>(), rb.iter().map(|r| r.ok).collect::<Vec<_>>()))
        },
    }
}
/// Checks that every step changed exactly the clock it had to change.
pub fn judge_clocks<S>(a: &Side, b: &Side) -> Outcome
where
    S: Prog + Send,
    S::Dual: Prog,
{
    let (ra, rb) = execute::<S>(a, b)?;
    let mut out = String::new();
    for (who, recs, side) in [("first side", &ra, a), ("second side", &rb, b)] {
        let mut prev = side.first_clocks();
        let mut sp = S::spec();
        for (i, r) in recs.iter().enumerate() {
            let mut want = prev.clone();
            let plain = side.plain && matches!(sp, Spec::Step(true, ..)) == (who == "first side") && matches!(sp, Spec::Step(..));
            let (w, next) = match sp {
                Spec::End => (None, Spec::End),
                Spec::Step(_, w, n) => (Some(w), *n),
                Spec::Branch(_, w, l, rr) => (Some(w), if r.val.contains("right") { *rr } else { *l }),
            };
            if let Some(w) = w {
                if r.ok && !plain && w.reset != ' ' && !(w.start < 0 && w.end < 0) && want.contains_key(&w.reset) {
                    want.insert(w.reset, r.at as i64);
                    out.push(w.reset);
                } else {
                    out.push(if r.ok { '.' } else { 'x' });
                }
                if r.clocks != want {
                    return Err(format!("{who}, step {i} ({}): clocks started at {:?} ms, expected {want:?} (before the step {prev:?}; first side {a:?}, second side {b:?}, session {:?})", r.val, r.clocks, S::spec()));
                }
            }
            prev = r.clocks.clone();
            sp = next;
        }
    }
    Ok(out)
}

// ---------------------------------------------------------------------------------- scenarios

pub type Judge = fn(&Side, &Side) -> Outcome;
/// A session type, by name, with its judge in both roles' order.
pub struct Ty {
    pub name: String,
    pub spec: Spec,
    pub judge: Judge,
}
pub fn first_win(s: &Spec) -> (bool, Win) {
    match s {
        Spec::Step(d, w, _) | Spec::Branch(d, w, _, _) => (*d, w.clone()),
        Spec::End => unreachable!(),
    }
}
/// An age at which an operation may start, if there is one.
fn legal(w: &Win) -> u64 {
    let base = if w.end > 20 { w.start.max(0) as u64 * 2 } else { 0 };
    for a in base..base + 20 {
        if admit(w, Some(a as i64 * 500)) == Verdict::In {
            return a as u64 * 500;
        }
    }
    0
}
fn grid(w: &Win, step: u64) -> Vec<u64> {
    if w.end > i32::MAX as i128 {
        return vec![0, 500, 1000, 6500, 90_000_000];
    }
    let top = (w.end.max(w.start).max(0) as u64) * 1000 + 1500;
    // long windows: around the bounds only
    (0..=top / step).map(|k| k * step).filter(|a| top < 20_000 || [0, w.start, w.end].iter().any(|b| (*a as i128 - b * 1000).abs() <= 1500)).collect()
}
/// Delays of the peer besides the usual ones: about as long as the window, and very long.
fn far(w: &Win) -> Vec<u64> {
    let len = ((w.end - w.start.max(0)).max(0) * 1000).min(1 << 62) as u64;
    if w.end > i32::MAX as i128 {
        vec![90_000_270]
    } else if len > 5000 {
        vec![len - 480, len - 270, len + 270, 90_000_270]
    } else {
        vec![90_000_270]
    }
}
fn pick<T: Clone>(v: &[T]) -> T {
    v[mcrt::choose(v.len())].clone()
}
/// One step, every window: the receiver's and the sender's clock, the peer's delay and its
/// disappearance are environment choices.
pub fn single(t: Ty, step: u64, peer: Vec<u64>) -> Scenario {
    let (a_sends, w) = first_win(&t.spec);
    let judge = t.judge;
    let mut peer = peer;
    peer.extend(far(&w));
    Scenario::conc(t.name.clone(), move || {
        let ages = |x: u64| vec![('a', x), ('b', 7000 + x / 2), ('c', 100), ('Z', x + 40), ('é', x)];
        let left = mcrt::choose(if matches!(t.spec, Spec::Branch(..)) { 2 } else { 1 }) == 0;
        let (mut tx, mut rx) = (Side::default(), Side::default());
        tx.picks = vec![left];
        match mcrt::choose(2) {
            0 => {
                // receiver under test; the sender acts inside its own window, or leaves
                rx.ages = ages(pick(&grid(&w, step)));
                rx.delays = vec![50];
                tx.ages = ages(legal(&w));
                tx.delays = vec![pick(&peer)];
                tx.quit = if mcrt::choose(2) == 1 { Some(0) } else { None };
            },
            _ => {
                // sender under test
                tx.ages = ages(pick(&grid(&w, step)));
                rx.ages = ages(legal(&w));
                (tx.delays, rx.delays) = match mcrt::choose(3) {
                    0 => (vec![130], vec![0]),
                    1 => (vec![0], vec![130]),
                    _ => (vec![130], vec![70]),
                };
                rx.quit = if mcrt::choose(2) == 1 { Some(0) } else { None };
                tx.plain = matches!(t.spec, Spec::Step(..)) && mcrt::choose(2) == 1;
            },
        }
        if a_sends { judge(&tx, &rx) } else { judge(&rx, &tx) }
    })
}
/// Several steps: every delay of both sides before every step.
pub fn chain(t: Ty, depth: usize, da: Vec<u64>, db: Vec<u64>, quits: bool) -> Scenario {
    let judge = t.judge;
    Scenario::conc(t.name, move || {
        let mut s = [Side::default(), Side::default()];
        let left = mcrt::choose(2) == 0;
        let plain = mcrt::choose(3);
        for (i, ds) in [&da, &db].into_iter().enumerate() {
            s[i].ages = vec![('a', 0), ('b', 0), ('c', 3000)];
            s[i].picks = vec![left];
            s[i].plain = plain == i + 1;
            s[i].delays = (0..depth).map(|_| pick(ds)).collect();
        }
        if quits {
            let k = mcrt::choose(2 * depth + 1);
            if k > 0 {
                s[(k - 1) % 2].quit = Some((k - 1) / 2);
            }
        }
        judge(&s[0], &s[1])
    })
}
/// Expands to a vector of single-step session types.
#[macro_export]
macro_rules! timed_singles {
    ($judge:ident; $($c:literal $r:literal),+ ; $w:tt ; $k:tt) => {{
        let mut v: Vec<$crate::timed::Ty> = vec![];
        $( $crate::timed_singles!(@w v $judge $c $r $w $k); )+
        v
    }};
    (@w $v:ident $j:ident $c:literal $r:literal [$(($s:literal, $e:literal)),+] $k:tt) => {
        $( $crate::timed_singles!(@i $v $j $c $r $s $e $k [(true,true) (true,false) (false,true) (false,false)]); )+
    };
    (@i $v:ident $j:ident $c:literal $r:literal $s:literal $e:literal $k:tt [$(($is:literal,$ie:literal))+]) => {
        $( $crate::timed_singles!(@k $v $j $c $r $s $e $is $ie $k); )+
    };
    (@k $v:ident $j:ident $c:literal $r:literal $s:literal $e:literal $is:literal $ie:literal send) => {
        $crate::timed_singles!(@p $v $j ("send " $c $s $is $e $ie $r) $crate::timed::STimed<i32, $c, $s, $is, $e, $ie, $r, $crate::timed::EndT>);
    };
    (@k $v:ident $j:ident $c:literal $r:literal $s:literal $e:literal $is:literal $ie:literal recv) => {
        $crate::timed_singles!(@p $v $j ("recv " $c $s $is $e $ie $r) $crate::timed::RTimed<i32, $c, $s, $is, $e, $ie, $r, $crate::timed::EndT>);
    };
    (@k $v:ident $j:ident $c:literal $r:literal $s:literal $e:literal $is:literal $ie:literal offer) => {
        $crate::timed_singles!(@p $v $j ("offer " $c $s $is $e $ie $r) $crate::timed::RTimed<$crate::timed::L, $c, $s, $is, $e, $ie, $r, $crate::timed::EndT>);
    };
    (@p $v:ident $j:ident ($n:literal $c:literal $s:literal $is:literal $e:literal $ie:literal $r:literal) $t:ty) => {
        $v.push($crate::timed::Ty {
            name: format!("{}clock {} window {}{},{}{} reset {:?}", $n, $c, if $is { "[" } else { "(" }, $s as i128, $e as i128, if $ie { "]" } else { ")" }, $r),
            spec: <$t as $crate::timed::Prog>::spec(),
            judge: $crate::timed::$j::<$t>,
        });
    };
}
pub use mpstthree::binary::struct_trait::end::End as EndT;
pub use mpstthree::binary_atmp::struct_trait::{recv::RecvTimed as RTimed, send::SendTimed as STimed};
/// branches: send once more, or receive once more, without windows
pub type L = Either<STimed<i32, 'a', -2, false, -1, false, ' ', EndT>, RTimed<i32, 'a', -2, false, -1, false, ' ', EndT>>;
/// Multi-step timed session types with their number of timed steps.
#[macro_export]
macro_rules! timed_chains {
    ($judge:ident) => {{
        use $crate::timed::{EndT, RTimed as R, STimed as S, Ty, Prog};
        type C1 = S<i32, 'a', 0, true, 1, true, 'a', S<i32, 'a', 1, true, 2, true, ' ', EndT>>;
        type C2 = S<i32, 'a', 0, true, 2, true, 'a', R<i32, 'a', 0, true, 1, true, 'b', S<i32, 'b', 0, false, 3, true, ' ', EndT>>>;
        type C3 = R<i32, 'a', 0, true, 2, true, 'b', S<i32, 'b', 1, true, 2, false, 'a', EndT>>;
        type C4 = R<i32, 'c', 3, true, 5, true, 'c', R<i32, 'c', -1, false, 1, true, 'a', EndT>>;
        type C5 = S<i32, 'b', -1, true, 2, true, 'b', R<i32, 'a', 0, true, 3, true, 'a', R<i32, 'a', 0, true, 2, false, 'b', EndT>>>;
        type B1 = S<i32, 'a', 0, true, 1, true, ' ', EndT>;
        type B2 = R<i32, 'b', 1, true, 3, true, 'a', EndT>;
        type C6 = R<either::Either<B1, B2>, 'a', 0, true, 2, true, 'a', EndT>;
        type C7 = S<i32, 'a', 0, true, 2, true, 'a', S<either::Either<B1, B2>, 'a', 0, true, 2, false, 'b', EndT>>;
        type C8 = S<i32, 'a', -2, false, -1, false, ' ', R<i32, 'a', 0, true, 2, true, 'a', EndT>>;
        macro_rules! ty {
            ($t:ty, $n:literal) => {
                (Ty { name: format!("session {}", stringify!($t)), spec: <$t as Prog>::spec(), judge: $crate::timed::$judge::<$t> }, $n)
            };
        }
        vec![ty!(C1, 2), ty!(C2, 3), ty!(C3, 2), ty!(C4, 2), ty!(C5, 3), ty!(C6, 2), ty!(C7, 3), ty!(C8, 2)]
    }};
}
