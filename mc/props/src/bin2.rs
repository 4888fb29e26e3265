//! Generic drivers of two-party sessions: every session type built from sends, receives and
//! delegations knows how to run itself and what it must observe.
use crate::{Obs, Stop};
use mpstthree::binary::cancel::cancel;
use mpstthree::binary::close::close;
use mpstthree::binary::recv::recv;
use mpstthree::binary::send::{send, send_canceled};
use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send, session::Session};
use std::error::Error;

pub type Res = Result<(), Box<dyn Error>>;
/// One participant's run.
pub struct Ctx {
    pub who: &'static str,
    pub peer: &'static str,
    pub obs: Obs,
    pub step: usize,
    /// stop before this step
    pub stop: Option<(usize, Stop)>,
    /// use the cancellation-aware send
    pub aware: bool,
}
impl Ctx {
    pub fn new(who: &'static str, peer: &'static str, obs: &Obs) -> Ctx {
        Ctx { who, peer, obs: obs.clone(), step: 0, stop: None, aware: false }
    }
    pub fn log(&self, s: impl Into<String>) {
        self.obs.add(self.who, s)
    }
    pub fn stops_here(&self) -> Option<Stop> {
        self.obs.pause(self.who);
        match self.stop {
            Some((k, m)) if k == self.step => Some(m),
            _ => None,
        }
    }
}
/// Performs a planned stop on session `s`.
pub fn stop_now<S: Session>(c: &Ctx, s: S, m: Stop) -> Res {
    c.log(format!("stop{}", c.step));
    match m {
        Stop::Cancel => {
            cancel(s);
            Ok(())
        },
        Stop::Return => Err("stopped".into()),
        Stop::Panic => panic!("stopped"),
    }
}
pub fn val(who: &str, step: usize) -> i32 {
    (if who == "A" { 1000 } else { 2000 }) + step as i32
}
pub trait Drive: Session + 'static {
    fn drive(self, c: Ctx) -> Res;
    /// number of steps, the final close included
    fn steps() -> usize;
    fn shape() -> String;
    /// What `who` logs when its peer stops before step `peer_stop` (None: never).
    fn expected(who: &str, peer: &str, step: usize, peer_stop: Option<usize>, aware: bool, out: &mut Vec<String>);
}
impl Drive for End {
    fn drive(self, c: Ctx) -> Res {
        if let Some(m) = c.stops_here() {
            return stop_now(&c, self, m);
        }
        match close(self) {
            Ok(()) => {
                c.log("closed");
                Ok(())
            },
            Err(e) => {
                c.log(format!("close{}err", c.step));
                Err(e)
            },
        }
    }
    fn steps() -> usize {
        1
    }
    fn shape() -> String {
        ".".into()
    }
    fn expected(_: &str, _: &str, step: usize, peer_stop: Option<usize>, _: bool, out: &mut Vec<String>) {
        out.push(if peer_stop.is_some() { format!("close{step}err") } else { "closed".into() })
    }
}
fn gone(step: usize, p: Option<usize>) -> bool {
    p.is_some_and(|p| step >= p)
}
impl<S: Drive> Drive for Send<i32, S>
where
    S::Dual: Drive,
{
    fn drive(self, mut c: Ctx) -> Res {
        if let Some(m) = c.stops_here() {
            return stop_now(&c, self, m);
        }
        let v = val(c.who, c.step);
        let s = if c.aware {
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| send_canceled(v, self))) {
                Ok(Ok(s)) => s,
                _ => {
                    c.log(format!("s{}loud", c.step));
                    return Err("send failed".into());
                },
            }
        } else {
            send(v, self)
        };
        c.log(format!("s{}", c.step));
        c.step += 1;
        s.drive(c)
    }
    fn steps() -> usize {
        1 + S::steps()
    }
    fn shape() -> String {
        format!("!{}", S::shape())
    }
    fn expected(who: &str, peer: &str, step: usize, ps: Option<usize>, aware: bool, out: &mut Vec<String>) {
        // With the cancellation-aware send the outcome of a send at or after the stop depends on the
        // race with the peer's stop: "?" marks that both "s" and "sloud" are allowed.
        if aware && gone(step, ps) {
            out.push(format!("s{step}?"));
        } else {
            out.push(format!("s{step}"));
        }
        S::expected(who, peer, step + 1, ps, aware, out)
    }
}
impl<S: Drive> Drive for Recv<i32, S>
where
    S::Dual: Drive,
{
    fn drive(self, mut c: Ctx) -> Res {
        if let Some(m) = c.stops_here() {
            return stop_now(&c, self, m);
        }
        let (v, s) = match recv(self) {
            Ok(x) => x,
            Err(e) => {
                c.log(format!("r{}err", c.step));
                return Err(e);
            },
        };
        c.log(format!("r{}={v}", c.step));
        c.step += 1;
        s.drive(c)
    }
    fn steps() -> usize {
        1 + S::steps()
    }
    fn shape() -> String {
        format!("?{}", S::shape())
    }
    fn expected(who: &str, peer: &str, step: usize, ps: Option<usize>, aware: bool, out: &mut Vec<String>) {
        if gone(step, ps) {
            out.push(format!("r{step}err"));
        } else {
            out.push(format!("r{step}={}", val(peer, step)));
            S::expected(who, peer, step + 1, ps, aware, out)
        }
    }
}
/// Delegation: the payload is itself the receiving end of a session whose other end the sender
/// keeps and drives.
pub type Deleg = Recv<i32, Send<i32, End>>;
impl<S: Drive> Drive for Send<Deleg, S>
where
    S::Dual: Drive,
{
    fn drive(self, mut c: Ctx) -> Res {
        let (give, keep) = Deleg::new();
        let s = send(give, self);
        let keep = send(val(c.who, 100 + c.step), keep);
        let (v, keep) = recv(keep)?;
        c.log(format!("d{}={v}", c.step));
        close(keep)?;
        c.step += 1;
        s.drive(c)
    }
    fn steps() -> usize {
        1 + S::steps()
    }
    fn shape() -> String {
        format!("D{}", S::shape())
    }
    fn expected(who: &str, peer: &str, step: usize, ps: Option<usize>, aware: bool, out: &mut Vec<String>) {
        out.push(format!("d{step}={}", val(peer, 200 + step)));
        S::expected(who, peer, step + 1, ps, aware, out)
    }
}
impl<S: Drive> Drive for Recv<Deleg, S>
where
    S::Dual: Drive,
{
    fn drive(self, mut c: Ctx) -> Res {
        let (d, s) = recv(self)?;
        let (v, d) = recv(d)?;
        c.log(format!("d{}={v}", c.step));
        let d = send(val(c.who, 200 + c.step), d);
        close(d)?;
        c.step += 1;
        s.drive(c)
    }
    fn steps() -> usize {
        1 + S::steps()
    }
    fn shape() -> String {
        format!("d{}", S::shape())
    }
    fn expected(who: &str, peer: &str, step: usize, ps: Option<usize>, aware: bool, out: &mut Vec<String>) {
        out.push(format!("d{step}={}", val(peer, 100 + step)));
        S::expected(who, peer, step + 1, ps, aware, out)
    }
}

/// Does an observed log match the expected one?  After "s<k>?" either the send failed loudly and
/// the log ends, or it went through and the log continues.
pub fn log_matches(got: &[String], want: &[String]) -> bool {
    let mut i = 0;
    for w in want {
        if let Some(k) = w.strip_suffix('?') {
            if got.get(i).is_some_and(|g| *g == format!("{k}loud")) {
                return i + 1 == got.len();
            }
            if got.get(i).map(|s| s.as_str()) != Some(k) {
                return false;
            }
        } else if got.get(i) != Some(w) {
            return false;
        }
        i += 1;
    }
    i == got.len()
}

// ---- enumeration of all shapes up to a depth ----------------------------------------------------
pub struct Z;
pub struct Su<N>(N);
pub trait Visit {
    fn shape<S: Drive>(&mut self)
    where
        S::Dual: Drive;
}
/// Visits every extension of `S` by up to N sends and receives in front of it.
pub trait Enum<S> {
    fn all<V: Visit>(v: &mut V);
}
impl<S: Drive> Enum<S> for Z
where
    S::Dual: Drive,
{
    fn all<V: Visit>(v: &mut V) {
        v.shape::<S>()
    }
}
impl<S: Drive, N> Enum<S> for Su<N>
where
    S::Dual: Drive,
    N: Enum<Send<i32, S>> + Enum<Recv<i32, S>>,
{
    fn all<V: Visit>(v: &mut V) {
        v.shape::<S>();
        <N as Enum<Send<i32, S>>>::all(v);
        <N as Enum<Recv<i32, S>>>::all(v);
    }
}
/// As `Enum`, with delegations too.
pub trait EnumD<S> {
    fn all<V: Visit>(v: &mut V);
}
impl<S: Drive> EnumD<S> for Z
where
    S::Dual: Drive,
{
    fn all<V: Visit>(v: &mut V) {
        v.shape::<S>()
    }
}
impl<S: Drive, N> EnumD<S> for Su<N>
where
    S::Dual: Drive,
    N: EnumD<Send<i32, S>> + EnumD<Recv<i32, S>> + EnumD<Send<Deleg, S>> + EnumD<Recv<Deleg, S>>,
{
    fn all<V: Visit>(v: &mut V) {
        v.shape::<S>();
        <N as EnumD<Send<i32, S>>>::all(v);
        <N as EnumD<Recv<i32, S>>>::all(v);
        <N as EnumD<Send<Deleg, S>>>::all(v);
        <N as EnumD<Recv<Deleg, S>>>::all(v);
    }
}
