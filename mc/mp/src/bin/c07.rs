//! C07: multiparty choice.
#[cfg(not(feature = "thorough"))]
#[path = "../gen/c07.rs"]
mod gen;
#[cfg(feature = "thorough")]
#[path = "../gen/c07_t.rs"]
mod gen;
use mcrt::driver::*;

fn scenarios(t: Tier) -> Vec<Scenario> {
    let mut v: Vec<Scenario> = gen::cases().into_iter().map(|c| Scenario::conc(c.name, move || mp::any_speed(&c, 3))).collect();
    // many rounds: schedules close to the default one
    let (rounds, k) = if t == Tier::Thorough { (80, 1) } else { (40, 0) };
    v.extend(gen::cases().into_iter().filter(mp::has_loop).map(|c| Scenario::conc(format!("long/{}", c.name), move || mp::many_rounds(&c, rounds)).delays(k)));
    v
}
fn main() {
    mcrt::driver::main(Check { property: "C07", rule: "for every chooser and 2..4 roles (5 in the thorough tier), labelled and left/right choices with different, equal, empty, nested, mixed and looping branches (also with every role sending to several before it receives) in every call style; all selection sequences (at most 3 selections per run) x every inequivalent interleaving, also with one role taking very long before each action; loops of 40 rounds (80) with every pattern of two selections, on the default schedule (departing once from it); every role's log must follow the selected branches", assumptions: mp::ASSUME, scenarios })
}
