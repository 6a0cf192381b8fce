//! The simulated system: `oauth1-request`, `oauth1-request-derive` and `oauth-credentials` driven by
//! simulated callers, networks, clocks and entropy sources.

mod c01;
mod c02;
mod c03;
mod c04;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
#[cfg(feature = "examples")]
mod c15;
#[cfg(feature = "derived")]
mod c16;
#[cfg(feature = "derived")]
mod derived_gen;
mod c19;
mod faults;
mod gen;
mod harness;
mod marathon;
mod op;
mod world;

use simrt::Scenario;

fn main() {
    op::init_keys();
    c11::init();
    if std::env::args().any(|a| a == "fleet" || a == "replay") {
        c13::init();
    }
    simrt::main(&[
        Scenario { prop: "C01", name: "net", f: c01::net, quick: 100_000, thorough: 1_500_000, post: None },
        Scenario { prop: "C01", name: "dance", f: c01::dance, quick: 60_000, thorough: 800_000, post: None },
        Scenario { prop: "C01", name: "marathon", f: marathon::verified, quick: 1_000, thorough: 20_000, post: None },
        Scenario { prop: "C02", name: "tampering", f: c02::tampering, quick: 100_000, thorough: 1_500_000, post: None },
        Scenario { prop: "C03", name: "deployment", f: c03::deployment, quick: 30_000, thorough: 800_000, post: Some(c03::collisions) },
        Scenario { prop: "C03", name: "burst", f: c03::burst, quick: 30_000, thorough: 60_000, post: Some(c03::collisions) },
        Scenario { prop: "C03", name: "entropy_bits", f: c03::entropy_bits, quick: 5_000, thorough: 100_000, post: None },
        Scenario { prop: "C03", name: "entropy_failure", f: c03::entropy_failure, quick: 40_000, thorough: 400_000, post: None },
        Scenario { prop: "C03", name: "long_life", f: marathon::nonces, quick: 1_000, thorough: 20_000, post: None },
        Scenario { prop: "C04", name: "clocks", f: c04::clocks, quick: 120_000, thorough: 1_500_000, post: None },
        Scenario { prop: "C04", name: "long_clock", f: marathon::clock, quick: 1_000, thorough: 20_000, post: None },
        Scenario { prop: "C05", name: "fragments", f: faults::fragments, quick: 90_000, thorough: 1_500_000, post: None },
        Scenario { prop: "C06", name: "writers", f: faults::writers, quick: 90_000, thorough: 1_500_000, post: None },
        Scenario { prop: "C07", name: "callbacks", f: faults::callbacks, quick: 90_000, thorough: 1_500_000, post: None },
        Scenario { prop: "C08", name: "concurrent", f: c08::concurrent, quick: 100_000, thorough: 1_500_000, post: None },
        Scenario { prop: "C09", name: "histories", f: c09::histories, quick: 100_000, thorough: 1_500_000, post: None },
        Scenario { prop: "C09", name: "long_history", f: marathon::settings, quick: 1_000, thorough: 20_000, post: None },
        Scenario { prop: "C10", name: "lists", f: c10::lists, quick: 120_000, thorough: 1_500_000, post: None },
        Scenario { prop: "C10", name: "serializers", f: c10::serializers, quick: 80_000, thorough: 1_000_000, post: None },
        Scenario { prop: "C11", name: "secrets", f: c11::secrets, quick: 36_000, thorough: 1_000_000, post: None },
        Scenario { prop: "C12", name: "responses", f: c12::responses, quick: 150_000, thorough: 2_000_000, post: None },
        Scenario { prop: "C12", name: "storage", f: c12::storage, quick: 100_000, thorough: 1_000_000, post: None },
        Scenario { prop: "C13", name: "fleet", f: c13::fleet, quick: 20_000, thorough: 800_000, post: None },
        Scenario { prop: "C14", name: "custom", f: c14::custom, quick: 100_000, thorough: 1_500_000, post: None },
        Scenario { prop: "C14", name: "custom_builders", f: c14::builders, quick: 80_000, thorough: 1_000_000, post: None },
        #[cfg(feature = "examples")]
        Scenario { prop: "C15", name: "flow", f: c15::flow, quick: 60_000, thorough: 600_000, post: None },
        #[cfg(feature = "derived")]
        Scenario { prop: "C16", name: "derived", f: c16::derived, quick: 100_000, thorough: 1_500_000, post: None },
        Scenario { prop: "C19", name: "leftovers", f: c19::leftovers, quick: 16_000, thorough: 300_000, post: None },
    ]);
}
