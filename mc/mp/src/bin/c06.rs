//! C06: n-role sessions of every generation mode and macro family run to completion.
#[cfg(not(feature = "thorough"))]
#[path = "../gen/c06.rs"]
mod gen;
#[cfg(feature = "thorough")]
#[path = "../gen/c06_t.rs"]
mod gen;
use mcrt::driver::*;

fn scenarios(t: Tier) -> Vec<Scenario> {
    let mut v: Vec<Scenario> = gen::cases().into_iter().map(|c| Scenario::conc(c.name, move || mp::any_speed(&c, 3))).collect();
    // all ordered pairs of 12 roles: 264 steps, one departure less
    v.extend(gen::large().into_iter().map(|c| {
        let k = if t == Tier::Thorough { 2 } else { 1 };
        let k = if c.name.contains("all") { k - 1 } else { k };
        Scenario::conc(format!("large/{}", c.name), move || mp::complete(&c, 1)).delays(k)
    }));
    v
}
fn main() {
    mcrt::driver::main(Check { property: "C06", rule: "generated protocols (idle close, all ordered pairs in both orders, rings, fans, short sequences) (every role sending to several before it receives, too) for 2..8 roles x generation modes basic, recursive, cancel, rec_and_cancel, the one-by-one macro families (plain, bundle, cancel, checked close) and role names whose alphabetical order is not their position; every inequivalent interleaving, also with one role taking very long before each action; 12 roles on schedules that depart at most once (twice in the thorough tier) from the default one, one departure less when all 132 ordered pairs exchange; logs must equal the projections", assumptions: mp::ASSUME, scenarios })
}
