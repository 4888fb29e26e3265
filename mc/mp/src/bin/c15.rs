//! C15: one participant in two sessions; one thread playing all roles.
#[cfg(not(feature = "thorough"))]
#[path = "../gen/c15.rs"]
mod gen;
#[cfg(feature = "thorough")]
#[path = "../gen/c15_t.rs"]
mod gen;
#[cfg(not(feature = "thorough"))]
#[path = "../gen/c15_solo.rs"]
mod solo;
#[cfg(feature = "thorough")]
#[path = "../gen/c15_solo_t.rs"]
mod solo;
use mcrt::driver::*;
use std::sync::Arc;

fn scenarios(t: Tier) -> Vec<Scenario> {
    let deep = t == Tier::Thorough;
    let mut v = vec![];
    for c in gen::cases() {
        let c = Arc::new(c);
        let n = c.roles[0].len() + c.roles[1].len();
        let timed = c.name.starts_with("timed");
        let a = c.clone();
        v.push(Scenario::conc(format!("run/{}", c.name), move || mp::interleaved(&a, &[], &[], 2, 1)));
        if !timed {
            let a = c.clone();
            v.push(Scenario::conc(format!("slow/{}", c.name), move || mp::interleaved_slow(&a, &[], &[], 1, 1, &mp::people(&a))));
        }
        let kinds = if deep || n == 4 { &mp::STOPS[..] } else { &mp::STOPS[..1] };
        if deep || n < 6 && !(timed && n > 4) {
            let depth = if deep && n < 6 { 2 } else { 1 };
            v.push(Scenario::conc(format!("stop/{}", c.name), move || mp::interleaved(&c, &mp::people(&c), kinds, depth, mp::max_steps2(&c, depth))));
        }
    }
    // more roles: schedules close to the default one
    for c in gen::large() {
        let c = Arc::new(c);
        let k = if deep { 2 } else { 1 };
        let a = c.clone();
        v.push(Scenario::conc(format!("large/run/{}", c.name), move || mp::interleaved(&a, &[], &[], 1, 1)).delays(k));
        let n = c.roles[0].len() + c.roles[1].len();
        if !deep && (n > 6 || !c.name.ends_with("ring_alt")) {
            continue;
        }
        v.push(Scenario::conc(format!("large/stop/{}", c.name), move || mp::interleaved(&c, &mp::people(&c), &mp::STOPS[..1], 1, mp::max_steps2(&c, 1))).delays(k));
    }
    for c in solo::cases() {
        v.push(Scenario::conc(c.name.to_string(), move || mp::complete(&c, if deep { 4 } else { 3 })));
    }
    v
}
fn main() {
    mcrt::driver::main(Check { property: "C15", rule: "two sessions of 2..4 and 2..3 roles (to 4 in the thorough tier) that share one participant, at every position it can have in either (and up to 5 roles each, on schedules that depart at most once, in the thorough tier twice, from the default one); generated untimed and timed families; all-pairs, ring and fan traffic with the shared participant alternating between the sessions or serving one first, every merge of all pairs of two-message two-party protocols, labelled and left/right selections in one or both sessions by any role, loops one after the other or in step, closing one session before the other ends; nobody stops, or any participant at any step cancels, returns an error or panics; one participant taking very long before each action; every inequivalent schedule and every selection sequence (at most 2 per session); also one thread playing all 2..4 roles with messages sent eagerly or one by one; received values, branches, results and termination of both sessions compared with the two protocols", assumptions: mp::ASSUME, scenarios })
}
