//! C22: launching participants and joining them; grouped attempts.
#[cfg(not(feature = "thorough"))]
#[path = "../gen/c22.rs"]
mod gen;
#[cfg(feature = "thorough")]
#[path = "../gen/c22_t.rs"]
mod gen;
use mcrt::driver::*;
use mpstthree::attempt;
use mpstthree::binary::struct_trait::end::End;
use std::error::Error;
use std::sync::{Arc, Mutex};
use std::thread::JoinHandle;

type R = Result<(), Box<dyn Error>>;

/// What a participant does with its endpoint.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Plan {
    Close,
    /// returns success without using its endpoint
    Leave,
    Fail,
    Panic,
    CloseErr,
    ClosePanic,
}
use Plan::*;
const ALL: [Plan; 6] = [Close, Leave, Fail, Panic, CloseErr, ClosePanic];

pub struct P {
    me: usize,
    plan: Plan,
    /// takes a day to start with: nothing may depend on time
    slow: bool,
    started: Arc<Mutex<Vec<(usize, String)>>>,
}
impl P {
    fn act<S>(self, s: S, role: &str, close: impl FnOnce(S) -> R) -> R {
        let me = self.me;
        if self.slow {
            std::thread::sleep(std::time::Duration::from_secs(100_000));
        }
        mcrt::note(|| format!("    participant {me} ({role}): {:?}", self.plan));
        self.started.lock().unwrap_or_else(|e| e.into_inner()).push((me, role.to_string()));
        match self.plan {
            Close => close(s),
            Leave => Ok(()),
            Fail => Err(format!("error {me}").into()),
            Panic => panic!("panic {me}"),
            CloseErr => {
                close(s)?;
                Err(format!("error {me}").into())
            },
            ClosePanic => {
                close(s)?;
                panic!("panic {me}")
            },
        }
    }
}
/// groups[k]: participants connected with each other
fn judge(plans: &[Plan], groups: &[Vec<usize>], results: &[Result<(), String>], started: &[(usize, String)], names: &[&str]) -> Outcome {
    let n = plans.len();
    let mut seen: Vec<usize> = started.iter().map(|x| x.0).collect();
    seen.sort_unstable();
    if seen != (0..n).collect::<Vec<_>>() {
        return Err(format!("participants started: {seen:?}, launched {n} (plans {plans:?})"));
    }
    for (p, role) in started {
        if names.get(*p).map_or(false, |x| x != role) {
            return Err(format!("participant {p} got the endpoint of {role}"));
        }
    }
    let closing = |p: usize| matches!(plans[p], Close | CloseErr | ClosePanic);
    // a participant closes successfully when everybody it is connected with closes
    let closed = |p: usize| groups.iter().filter(|g| g.contains(&p)).all(|g| g.iter().all(|q| closing(*q)));
    for p in 0..n {
        // a participant of two sessions closes the second one only if the first could be closed
        let chained = groups.iter().filter(|g| g.contains(&p)).any(|g| g.iter().any(|q| *q != p && groups.iter().filter(|h| h.contains(q)).count() > 1));
        let want: &[&str] = match plans[p] {
            Leave => &["ok"],
            Fail => &["error"],
            Panic => &["panic"],
            _ if closed(p) && chained => &["ok", "disc"],
            _ if !closed(p) => &["disc"],
            _ => &["ok"],
        };
        let own = match plans[p] {
            CloseErr => "error",
            ClosePanic => "panic",
            _ => "ok",
        };
        let (e, q) = (format!("error {p}"), format!("panic {p}"));
        let got = match &results[p] {
            Ok(()) => "ok",
            Err(t) if t.contains(&e) => "error",
            Err(t) if t.contains(&q) => "panic",
            Err(t) if t.contains("error ") || t.contains("panic ") => return Err(format!("joining participant {p} reports the failure of another: {t} (plans {plans:?})")),
            Err(_) => "disc",
        };
        let want: Vec<&str> = want.iter().map(|w| if *w == "ok" { own } else { *w }).collect();
        if !want.contains(&got) {
            return Err(format!("participant {p} of {plans:?}: join reports {:?}, expected {want:?}", results[p]));
        }
    }
    Ok(format!("{plans:?}"))
}
fn plans(n: usize, kinds: &[Plan]) -> Vec<Plan> {
    (0..n).map(|_| kinds[mcrt::choose(kinds.len())]).collect()
}
/// Nobody, or one participant (with more than three: all but the first), is slow.
fn slowness(n: usize) -> impl Fn(usize) -> bool {
    let k = mcrt::choose(if n > 3 { 2 } else { n + 1 });
    move |me| if n > 3 { k == 1 && me > 0 } else { k == me + 1 }
}
fn join_all(hs: Vec<JoinHandle<()>>, order: usize) -> Vec<Result<(), String>> {
    let n = hs.len();
    let mut out: Vec<Result<(), String>> = vec![Ok(()); n];
    let mut hs: Vec<Option<JoinHandle<()>>> = hs.into_iter().map(Some).collect();
    for k in 0..n {
        let k = if order == 0 { k } else { n - 1 - k };
        out[k] = hs[k].take().unwrap().join().map_err(|e| mcrt::rt::panic_text(&e));
    }
    out
}
fn several(n: usize, groups: &[Vec<usize>], kinds: &[Plan], run: fn(Vec<P>) -> Vec<JoinHandle<()>>, names: &[&str]) -> Outcome {
    let plans = plans(n, kinds);
    let order = mcrt::choose(2);
    let slow = slowness(n);
    let started = Arc::new(Mutex::new(vec![]));
    let hs = run((0..n).map(|me| P { me, plan: plans[me], slow: slow(me), started: started.clone() }).collect());
    if hs.len() != n {
        return Err(format!("{} handles for {n} participants", hs.len()));
    }
    let rs = join_all(hs, order);
    let st = started.lock().unwrap_or_else(|e| e.into_inner()).clone();
    judge(&plans, groups, &rs, &st, names)
}
/// Two parties: the launched one and the caller.
fn two(kind: usize) -> Outcome {
    let plans = plans(2, &ALL);
    let started = Arc::new(Mutex::new(vec![]));
    let slow = slowness(2);
    let mk = |me: usize| P { me, plan: plans[me], slow: slow(me), started: started.clone() };
    let (p0, p1) = (mk(0), mk(1));
    let cl = |s: End| mpstthree::binary::close::close(s);
    let mut keep: Option<Box<dyn std::any::Any>> = None;
    let (h, d): (Option<JoinHandle<()>>, End) = match kind {
        0 => {
            let (h, d) = mpstthree::binary::fork::fork_with_thread_id(move |s: End| p0.act(s, "0", cl));
            (Some(h), d)
        },
        1 => (None, mpstthree::binary::fork::fork(move |s: End| p0.act(s, "0", cl))),
        2 => {
            let (h, d) = mpstthree::binary_atmp::fork::fork_with_thread_id(move |s: End, k: &mut std::collections::HashMap<char, std::time::Instant>| {
                assert!(k.is_empty());
                p0.act(s, "0", cl)
            });
            (Some(h), d)
        },
        3 => (None, mpstthree::binary_atmp::fork::fork(move |s: End, _: &mut std::collections::HashMap<char, std::time::Instant>| p0.act(s, "0", cl))),
        4 => {
            let a = "127.0.0.1:7001";
            let (_, (fd, _)) = mcrt::net::accept_next(false, mcrt::net::Faults::default());
            let l = unsafe { <std::net::TcpStream as std::os::fd::FromRawFd>::from_raw_fd(fd) };
            let (h, d, st) = mpstthree::transport::tcp::fork::fork_tcp(move |s: End, _st| p0.act(s, "0", cl), a).map_err(|e| e.to_string())?;
            keep = Some(Box::new((l, st)));
            (Some(h), d)
        },
        _ => {
            let (_, (fd, _)) = mcrt::net::accept_next(true, mcrt::net::Faults::default());
            let peer = unsafe { <std::net::UdpSocket as std::os::fd::FromRawFd>::from_raw_fd(fd) };
            let (h, d, so) = mpstthree::transport::udp::fork::fork_udp(move |s: End, _so| p0.act(s, "0", cl), "127.0.0.1:7002", "127.0.0.1:7003").map_err(|e| e.to_string())?;
            keep = Some(Box::new((peer, so)));
            (Some(h), d)
        },
    };
    let me = std::thread::spawn(move || {
        if let Err(e) = p1.act(d, "1", cl) {
            panic!("{e}")
        }
    });
    let mine = me.join().map_err(|e| mcrt::rt::panic_text(&e));
    let theirs = match h {
        Some(h) => h.join().map_err(|e| mcrt::rt::panic_text(&e)),
        // not joinable: wait until it has started
        None => {
            std::thread::sleep(std::time::Duration::from_secs(300_000));
            match plans[0] {
                Leave => Ok(()),
                Fail => Err("error 0".into()),
                Panic => Err("panic 0".into()),
                _ if !matches!(plans[1], Close | CloseErr | ClosePanic) => Err("".into()),
                CloseErr => Err("error 0".into()),
                ClosePanic => Err("panic 0".into()),
                Close => Ok(()),
            }
        },
    };
    drop(keep);
    let st = started.lock().unwrap_or_else(|e| e.into_inner()).clone();
    judge(&plans, &[vec![0, 1]], &[theirs, mine], &st, &["0", "1"])
}
/// The address cannot be reached: an error, and nobody is started.
fn unreachable_peer(udp: bool) -> Outcome {
    let started = Arc::new(Mutex::new(vec![]));
    let p0 = P { me: 0, plan: Leave, slow: false, started: started.clone() };
    let cl = |s: End| mpstthree::binary::close::close(s);
    let ok = if udp {
        let a = "127.0.0.1:7004";
        if mcrt::choose(2) == 0 { mcrt::net::bind_fails_next(98) } else { mcrt::net::refuse_next(101) }
        mpstthree::transport::udp::fork::fork_udp::<End, _>(move |s, _so| p0.act(s, "0", cl), a, a).is_ok()
    } else {
        mcrt::net::refuse_next(111);
        mpstthree::transport::tcp::fork::fork_tcp::<End, _>(move |s, _st| p0.act(s, "0", cl), "127.0.0.1:7005").is_ok()
    };
    std::thread::sleep(std::time::Duration::from_secs(1));
    if ok {
        return Err("launching reports success although the address cannot be used".into());
    }
    if !started.lock().unwrap().is_empty() {
        return Err("a participant was started although launching failed".into());
    }
    Ok("refused".into())
}

mod solo2 {
    use mpstthree::binary::struct_trait::end::End;
    pub fn solo(p: super::P) -> super::R {
        fork_mpst_solo(move |a: E<NameA>, b: E<NameB>, c: E<NameC>| p.act((a, b, c), "0", |(a, b, c)| close_solo(a, b, c)))
    }
    mpstthree::create_meshedchannels!(MC, 3);
    mpstthree::fork_mpst_multi_solo!(fork_mpst_solo, MC, 3);
    mpstthree::close_mpst_interleaved!(close_solo, MC, 3);
    mpstthree::create_multiple_normal_name!(NameA, NameB, NameC);
    type E<N> = MC<End, End, mpstthree::role::end::RoleEnd, N>;
}
/// One function playing all roles: run once, its outcome is the result.
fn solo(multi: bool) -> Outcome {
    use mpstthree::name::{a::NameA, b::NameB, c::NameC};
    type M<N> = mpstthree::meshedchannels::MeshedChannels<End, End, mpstthree::role::end::RoleEnd, N>;
    let plan = ALL[mcrt::choose(ALL.len())];
    let started = Arc::new(Mutex::new(vec![]));
    let p = P { me: 0, plan, slow: mcrt::choose(2) == 1, started: started.clone() };
    let r = std::thread::spawn(move || {
        let r = if multi {
            solo2::solo(p)
        } else {
            mpstthree::interleaved::fork::fork_mpst_solo(move |a: M<NameA>, b: M<NameB>, c: M<NameC>| p.act((a, b, c), "0", |(a, b, c)| mpstthree::interleaved::close::close_mpst_interleaved(a, b, c)))
        };
        if let Err(e) = r {
            panic!("{e}")
        }
    })
    .join()
    .map_err(|e| mcrt::rt::panic_text(&e));
    let st = started.lock().unwrap_or_else(|e| e.into_inner()).clone();
    judge(&[plan], &[vec![0]], &[r], &st, &["0"])
}

/// Steps of a grouped attempt: every step succeeds or fails.
fn attempts(n: usize) -> Outcome {
    let plan: Vec<bool> = (0..n).map(|_| mcrt::choose(2) == 0).collect();
    let log = Mutex::new(vec![]);
    let step = |i: usize| -> Result<usize, String> {
        log.lock().unwrap().push(i);
        if plan[i] { Ok(i) } else { Err(format!("step {i}")) }
    };
    let mut handled: Vec<String> = vec![];
    match n {
        1 => attempt! {{ step(0); } catch (e) { handled.push(e) }},
        2 => attempt! {{ step(0); step(1); } catch (e) { handled.push(e) }},
        3 => attempt! {{ step(0); step(1); step(2); } catch (e) { handled.push(e) }},
        4 => attempt! {{ step(0); step(1); step(2); step(3); } catch (e) { handled.push(e) }},
        5 => attempt! {{ step(0); step(1); step(2); step(3); step(4); } catch (e) { handled.push(e) }},
        6 => attempt! {{ step(0); step(1); step(2); step(3); step(4); step(5); } catch (e) { handled.push(e) }},
        _ => attempt! {{ step(0); step(1); step(2); step(3); step(4); step(5); step(6); } catch (e) { handled.push(e) }},
    }
    let done = log.lock().unwrap().clone();
    let fail = plan.iter().position(|b| !b);
    let want: Vec<usize> = (0..fail.map_or(n, |f| f + 1)).collect();
    let want_h: Vec<String> = fail.map(|f| format!("step {f}")).into_iter().collect();
    if done != want || handled != want_h {
        return Err(format!("steps succeed {plan:?}: ran {done:?} and handled {handled:?}, expected {want:?} and {want_h:?}"));
    }
    Ok(format!("{plan:?}"))
}

fn scenarios(t: Tier) -> Vec<Scenario> {
    let deep = t == Tier::Thorough;
    let mut v = vec![];
    for n in 1..=7 {
        v.push(Scenario::conc(format!("attempt {n}"), move || attempts(n)));
    }
    for (k, n) in ["binary handle", "binary", "timed binary handle", "timed binary", "tcp", "udp"].iter().enumerate() {
        v.push(Scenario::conc(format!("two {n}"), move || two(k)));
    }
    v.push(Scenario::conc("tcp refused", || unreachable_peer(false)));
    v.push(Scenario::conc("udp refused", || unreachable_peer(true)));
    v.push(Scenario::conc("solo", || solo(false)));
    v.push(Scenario::conc("solo macro", || solo(true)));
    for (name, n, run) in gen::launchers() {
        let (groups, names): (Vec<Vec<usize>>, Vec<&'static str>) = if name.starts_with("two_") {
            let b = name.as_bytes();
            let n1 = (b[b.len() - 5] - b'0') as usize;
            (vec![(0..n1 - 1).chain([n - 1]).collect(), (n1 - 1..n).collect()], vec![])
        } else {
            (vec![(0..n).collect()], ["A", "B", "C", "D", "E"][..n].to_vec())
        };
        let kinds: &'static [Plan] = if n < 4 { &ALL } else if deep && n == 4 { &ALL[..4] } else { &[Close, Fail, Panic] };
        v.push(Scenario::conc(format!("launch {name}"), move || several(n, &groups, kinds, run, &names)));
    }
    v
}
fn main() {
    mcrt::driver::main(Check { property: "C22", rule: "every launcher of the library (two-party with and without handle, timed, TCP, UDP, three-role functions, forks generated for 2..5 roles in all macro families, two interleaved sessions with the shared participant at every position, single-threaded), every combination of participants that close, leave, return an error, panic, or fail after closing (3 kinds for more than 3 participants), both join orders, one participant or none (with more than three: all but one or none) starting only after a day, every inequivalent schedule: each participant starts exactly once with its own endpoint, each join reports its own participant's outcome; refused addresses start nobody; attempt! with 1..7 steps and every pattern of failing steps", assumptions: mp::ASSUME, scenarios })
}
