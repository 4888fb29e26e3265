//! C12: a timed step happens exactly within its declared window (virtual time).
#[cfg(not(feature = "thorough"))]
#[path = "../gen/c14.rs"]
mod gen;
#[cfg(feature = "thorough")]
#[path = "../gen/c14_t.rs"]
mod gen;
use mcrt::driver::*;
use props::timed::*;
use props::{timed_singles, timed_chains};

/// Labelled timed branching: the chooser and the offerer act at every pair of instants.
fn labelled(v: &mut Vec<Scenario>) {
    use mpstthree::binary::{close::close, struct_trait::{end::End, session::Session}};
    use mpstthree::binary_atmp::{recv::recv, send::send, struct_trait::{recv::RecvTimed, send::SendTimed}};
    use std::{collections::HashMap, error::Error, time::{Duration, Instant}};
    type More = RecvTimed<i32, 'a', 0, true, 1, true, ' ', End>;
    enum Ch {
        More(More),
        Stop(End),
    }
    type Pick = SendTimed<Ch, 'a', 1, true, 2, true, 'a', End>;
    type Clocks = HashMap<char, Instant>;
    fn clocks(wait: u64) -> Clocks {
        let k = HashMap::from([('a', Instant::now()), ('b', Instant::now())]);
        std::thread::sleep(Duration::from_millis(wait));
        k
    }
    /// Where it came to, and the ages of both clocks there.
    fn chooser(s: Pick, more: bool, wait: u64) -> Result<String, Box<dyn Error>> {
        let k = &mut clocks(wait);
        let seen = |k: &Clocks| format!("{} {}", k[&'a'].elapsed().as_millis(), k[&'b'].elapsed().as_millis());
        if more {
            let s: SendTimed<i32, 'a', 0, true, 1, true, ' ', End> = mpstthree::choose_atmp!(Ch::More, k, s)?;
            let at = seen(k);
            close(send(7, k, s)?)?;
            Ok(format!("more {at}"))
        } else {
            let s: End = mpstthree::choose_atmp!(Ch::Stop, k, s)?;
            let at = seen(k);
            close(s)?;
            Ok(format!("stop {at}"))
        }
    }
    fn offerer(s: <Pick as Session>::Dual, wait: u64) -> Result<String, Box<dyn Error>> {
        let mut clocks = clocks(wait);
        let k = &mut clocks;
        let seen = |k: &Clocks| format!("{} {}", k[&'a'].elapsed().as_millis(), k[&'b'].elapsed().as_millis());
        mpstthree::offer_atmp!(k, s, {
            Ch::More(s) => {
                let at = seen(k);
                let (x, s) = recv(k, s)?;
                close(s)?;
                if x == 7 { Ok(format!("more {at}")) } else { Ok(format!("received {x}")) }
            },
            Ch::Stop(s) => {
                let at = seen(k);
                close(s)?;
                Ok(format!("stop {at}"))
            },
        })
    }
    for more in [true, false] {
        for c in [1300, 1900, 2600] {
            for o in [1100, 1500, 2700] {
                v.push(Scenario::conc(format!("labelled timed choice, more {more}, chooser {c}, offerer {o}"), move || {
                    let (here, there) = Pick::new();
                    let run = |f: Box<dyn FnOnce() -> Result<String, Box<dyn Error>>>| std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|_| Err("panic".into())).unwrap_or_else(|_| "failed".into());
                    let h = std::thread::spawn(move || run(Box::new(move || chooser(here, more, c))));
                    let got = run(Box::new(move || offerer(there, o)));
                    let sent = h.join().map_err(|_| "the chooser's thread".to_string())?;
                    let label = if more { "more" } else { "stop" };
                    let (ok_c, ok_o) = (c <= 2000, c <= 2000 && o <= 2000);
                    let want_o = if ok_o { format!("{label} 0 {}", c.max(o)) } else { "failed".into() };
                    if got != want_o {
                        return Err(format!("the offering side: {got} instead of {want_o}"));
                    }
                    let want_c = if ok_c && ok_o { format!("{label} 0 {c}") } else { "failed".into() };
                    if sent != want_c {
                        return Err(format!("the choosing side: {sent} instead of {want_c}"));
                    }
                    Ok(format!("{sent} / {got}"))
                }));
            }
        }
    }
}
fn scenarios(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    let peer = vec![0, 270, 770, 1270, 1770, 2270, 3270];
    let step = if t == Tier::Quick { 500 } else { 250 };
    let mut tys = timed_singles!(judge_steps; 'a' ' ', 'a' 'a', 'a' 'b', 'u' ' ', 'a' 'u';
        [(-2,-1),(-1,-2),(-1,0),(-1,2),(0,-1),(1,-1),(0,0),(0,2),(1,1),(1,2),(1,3),(2,1)]; send);
    tys.extend(timed_singles!(judge_steps; 'a' 'a', 'a' ' ', 'u' ' ', 'a' 'u';
        [(-2,-1),(-1,-2),(-1,0),(-1,2),(0,-1),(1,-1),(0,0),(0,2),(1,1),(1,2),(1,3),(2,1)]; recv));
    tys.extend(timed_singles!(judge_steps; 'b' 'a'; [(-2,-1),(-1,2),(0,2),(1,3),(2,2)]; recv));
    tys.extend(timed_singles!(judge_steps; 'a' ' ', 'a' 'b'; [(-2,-1),(-1,-2),(-1,0),(-1,2),(0,-1),(1,-1),(0,0),(0,2),(1,1),(1,2),(1,3),(2,1)]; offer));
    tys.extend(timed_singles!(judge_steps; 'u' ' ', 'a' 'u'; [(-1,2),(0,2),(1,3)]; offer));
    // long windows and unusual clocks
    tys.extend(timed_singles!(judge_steps; 'a' 'a', 'Z' 'é', 'é' ' '; [(-1,300),(0,3600),(100,7200),(10,4294967300),(-1,4294967300),(0,4611686018427387904),(0,9223372036854775807),(1,18446744073709551615)]; send));
    tys.extend(timed_singles!(judge_steps; 'a' 'a', 'Z' 'é', 'é' ' '; [(-1,300),(0,3600),(100,7200),(10,4294967300),(-1,4294967300),(0,4611686018427387904),(0,9223372036854775807),(1,18446744073709551615)]; recv));
    for ty in tys {
        v.push(single(ty, step, peer.clone()));
    }
    let (d2, d3) = (vec![0, 600, 1100, 2300], vec![0, 750, 1350, 2550]);
    let (q2, q3) = (vec![0, 1100], vec![0, 1350]);
    for (ty, depth) in timed_chains!(judge_steps) {
        let full = depth <= 2 || t == Tier::Thorough;
        let (a, b) = if full { (d2.clone(), d3.clone()) } else { (vec![0, 600, 2300], vec![0, 1350]) };
        let mut ty2 = ty;
        let q = Ty { name: format!("{} with a side that leaves", ty2.name), spec: ty2.spec.clone(), judge: ty2.judge };
        ty2.name += " all delays";
        v.push(chain(ty2, depth, a, b, false));
        v.push(chain(q, depth, q2.clone(), q3.clone(), true));
    }
    labelled(&mut v);
    for c in gen::cases() {
        v.push(Scenario::conc(format!("multiparty {}", c.name), move || mp::late(&c, &(0..c.roles.len()).collect::<Vec<_>>(), &[mp::Stop::Late, mp::Stop::Early], 2)));
    }
    v
}
fn main() {
    mcrt::driver::main(Check {
        property: "C12",
        rule: "two-party: every timed window shape (both, one or no bound, open and closed ends, inconsistent, unknown clock, unknown reset clock) as a send, a receive and a branch selection (by position, and by label with the macros), for every clock age on a grid around the bounds and every arrival time, early departure or silence of the peer; and every combination of delays on both sides of multi-step timed sessions: each step's result and the virtual instant of its completion equal the prediction of a reference model that knows only the declared constants; multiparty: in every generated timed protocol, every role acting too early or too late at any step is refused there and nobody reports success, under every interleaving",
        assumptions: &["virtual time advances only when every thread waits", "ages strictly between an excluded lower bound and the next whole unit, and coincident instants, are left unspecified"],
        scenarios,
    });
}
