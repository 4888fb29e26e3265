//! C13: a timed step resets exactly the clock it declares, and only on success (virtual time).
#[cfg(not(feature = "thorough"))]
#[path = "../gen/c14.rs"]
mod gen;
#[cfg(feature = "thorough")]
#[path = "../gen/c14_t.rs"]
mod gen;
use mcrt::driver::*;
use props::timed::*;
use props::{timed_singles, timed_chains};

fn scenarios(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    let peer = vec![0, 270, 770, 1270, 1770, 2270, 3270];
    let step = if t == Tier::Quick { 500 } else { 250 };
    let mut tys = timed_singles!(judge_clocks; 'a' ' ', 'a' 'a', 'a' 'b', 'a' 'c', 'b' 'a', 'a' 'u';
        [(-2,-1),(-1,2),(0,-1),(0,0),(0,2),(1,3)]; send);
    tys.extend(timed_singles!(judge_clocks; 'a' ' ', 'a' 'a', 'a' 'b', 'a' 'c', 'b' 'a', 'a' 'u';
        [(-2,-1),(-1,2),(0,-1),(0,0),(0,2),(1,3)]; recv));
    tys.extend(timed_singles!(judge_clocks; 'a' 'a', 'a' 'b', 'a' ' '; [(-2,-1),(-1,2),(0,2),(1,3)]; offer));
    // long windows and unusual clocks
    tys.extend(timed_singles!(judge_clocks; 'a' 'Z', 'Z' 'é', 'é' ' '; [(0,3600),(100,7200),(10,4294967300)]; send));
    tys.extend(timed_singles!(judge_clocks; 'a' 'Z', 'Z' 'é', 'é' ' '; [(0,3600),(100,7200),(10,4294967300)]; recv));
    for ty in tys {
        v.push(single(ty, step, peer.clone()));
    }
    let (d2, d3) = (vec![0, 600, 1100, 2300], vec![0, 750, 1350, 2550]);
    let (q2, q3) = (vec![0, 1100], vec![0, 1350]);
    for (ty, depth) in timed_chains!(judge_clocks) {
        let full = depth <= 2 || t == Tier::Thorough;
        let (a, b) = if full { (d2.clone(), d3.clone()) } else { (vec![0, 600, 2300], vec![0, 1350]) };
        let mut ty2 = ty;
        let q = Ty { name: format!("{} with a side that leaves", ty2.name), spec: ty2.spec.clone(), judge: ty2.judge };
        ty2.name += " all delays";
        v.push(chain(ty2, depth, a, b, false));
        v.push(chain(q, depth, q2.clone(), q3.clone(), true));
    }
    for c in gen::cases() {
        v.push(Scenario::conc(format!("multiparty {}", c.name), move || mp::clocks(&c, &(0..c.roles.len()).collect::<Vec<_>>(), 2)));
    }
    v
}
fn main() {
    mcrt::driver::main(Check {
        property: "C13",
        rule: "two-party: every reset declaration (none, the named clock, another clock, an unknown clock) on every window shape, as a send, a receive and a branch selection, with every clock age around the bounds and every behaviour of the peer; and every combination of delays of multi-step timed sessions: after every step of both sides all clocks of that side are read back, and differ from before only in the declared clock, which was restarted at the very instant of the step, exactly when the step succeeded; a new participant starts with no clock; multiparty: the same reading of all clocks after every successful send, receive and selection of every role of every generated timed protocol, punctual or with a role late or early at any step",
        assumptions: &["virtual time advances only when every thread waits", "ages strictly between an excluded lower bound and the next whole unit, and coincident instants, are left unspecified"],
        scenarios,
    });
}
