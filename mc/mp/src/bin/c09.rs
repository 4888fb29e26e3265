//! C09: one role stops early.
#[cfg(not(feature = "thorough"))]
#[path = "../gen/c09.rs"]
mod gen;
#[cfg(feature = "thorough")]
#[path = "../gen/c09_t.rs"]
mod gen;
use mcrt::driver::*;

fn scenarios(t: Tier) -> Vec<Scenario> {
    let all = |c: &mp::Case| (0..c.roles.len()).collect::<Vec<_>>();
    let mut v: Vec<Scenario> = gen::cases().into_iter().map(|c| Scenario::conc(c.name, move || mp::interrupted(&c, &all(&c), &mp::STOPS, 2, None))).collect();
    v.extend(gen::cases().into_iter().filter(|c| !c.name.starts_with("timed")).map(|c| Scenario::conc(format!("slow/{}", c.name), move || mp::interrupted_slowly(&c, &all(&c), &mp::STOPS[..2], 2))));
    // many roles: schedules close to the default one
    v.extend(gen::large().into_iter().map(|c| Scenario::conc(format!("large/{}", c.name), move || mp::interrupted(&c, &all(&c), &mp::STOPS, 2, None)).delays(if t == Tier::Thorough { 2 } else { 1 })));
    // after many rounds
    let (rounds, k) = if t == Tier::Thorough { (60, 1) } else { (30, 0) };
    v.extend(gen::cases().into_iter().filter(|c| mp::has_loop(c) && !c.name.starts_with("timed")).map(|c| Scenario::conc(format!("long/{}", c.name), move || mp::many_rounds_interrupted(&c, rounds, &mp::STOPS)).delays(k)));
    v
}
fn main() {
    mcrt::driver::main(Check { property: "C09", rule: "messages, fans, rings, every role sending before it receives, choices and loops in every call style (2..4 roles, 5 in the thorough tier), every role as victim x every step x cancel / error / panic x all selection sequences (at most 2) x every inequivalent interleaving, and larger sessions on schedules that depart at most once (twice in the thorough tier) from the default one, also with the role taking very long before each action and the stop; stops after 30 (60) rounds of a loop; all roles terminate, results are faithful, every log is a prefix of the protocol, nothing already sent is lost", assumptions: mp::ASSUME, scenarios })
}
