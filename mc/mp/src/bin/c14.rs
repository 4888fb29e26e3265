//! C14: timed multiparty sessions.
#[cfg(not(feature = "thorough"))]
#[path = "../gen/c14.rs"]
mod gen;
#[cfg(feature = "thorough")]
#[path = "../gen/c14_t.rs"]
mod gen;
use mcrt::driver::*;

fn scenarios(t: Tier) -> Vec<Scenario> {
    let all = |c: &mp::Case| (0..c.roles.len()).collect::<Vec<_>>();
    let mut v = vec![];
    for c in gen::cases() {
        v.push(Scenario::conc(format!("{} punctual", c.name), move || mp::complete(&c, 3)));
    }
    for c in gen::cases() {
        v.push(Scenario::conc(format!("{} late", c.name), move || mp::late(&c, &all(&c), &[mp::Stop::Late], 2)));
    }
    for c in gen::cases() {
        v.push(Scenario::conc(format!("{} stopping", c.name), move || mp::interrupted(&c, &all(&c), &mp::STOPS, 2, None)));
    }
    // more rounds (the participants of these programs drift apart, as their clocks are not synchronised): schedules close to the default one
    let k = (t == Tier::Thorough) as usize;
    for c in gen::cases().into_iter().filter(mp::has_loop) {
        v.push(Scenario::conc(format!("long/{}", c.name), move || mp::many_rounds(&c, 4)).delays(k));
    }
    for c in gen::cases().into_iter().filter(mp::has_loop) {
        v.push(Scenario::conc(format!("long/{} stopping", c.name), move || mp::many_rounds_interrupted(&c, 4, &mp::STOPS)).delays(k));
    }
    v
}
fn main() {
    mcrt::driver::main(Check { property: "C14", rule: "generated timed sessions of 2..3 roles (4 in the thorough tier) with message, fan, ring, all-pairs, untimed-step, enum-choice, left/right-choice, loop and nested-choice protocols, windows with open, closed and one-sided bounds and resets on the selections, in virtual time: punctual runs under every interleaving and selection sequence (at most 3) are complete and correctly routed, up to 4 rounds on the default schedule (departing once); for every role and step, the role being late there makes it and everybody fail and terminate without changing what was delivered before; a role stopping (cancel, error, panic) at any step makes everybody terminate with faithful results", assumptions: mp::ASSUME, scenarios })
}
