//! C05: three-role sessions built on the library's own functions, methods and pre-expanded macros.
#[cfg(not(feature = "thorough"))]
#[path = "../gen/c05.rs"]
mod gen;
#[cfg(feature = "thorough")]
#[path = "../gen/c05_t.rs"]
mod gen;
use mcrt::driver::*;

fn scenarios(_t: Tier) -> Vec<Scenario> {
    gen::cases().into_iter().map(|c| Scenario::conc(c.name, move || mp::any_speed(&c, 3))).collect()
}
fn main() {
    mcrt::driver::main(Check { property: "C05", rule: "generated three-role protocols (every message sequence up to 2 actions over the 6 ordered pairs (3 in the thorough tier), all-pairs, ring, bursts, fans, every role sending to several before it receives) x three call styles; every inequivalent interleaving of the real endpoint threads; every role's log must equal the projection of the global protocol and every join must succeed", assumptions: mp::ASSUME, scenarios })
}
