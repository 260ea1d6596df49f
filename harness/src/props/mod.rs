//! The properties: workloads and monitors.
use crate::rt::{Ctx, R};
pub mod blocks;
pub mod construct;
pub mod crypto;
pub mod hostile;
pub mod layouts;
pub mod projects;
pub mod refuse;
pub mod sections;

pub struct Prop {
    pub id: &'static str,
    /// fixed cases, run first and always
    pub ncorner: u64,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Ctx) -> R,
    /// how cases are generated
    pub rule: &'static str,
}

pub const ALL: &[Prop] = &[
    Prop { id: "C01", ncorner: hostile::NDEEP, quick: 50_000, thorough: 1_500_000, run: hostile::total, rule: hostile::RULE01 },
    Prop { id: "C02", ncorner: crypto::NCORNER, quick: 80_000, thorough: 600_000, run: crypto::cipher, rule: crypto::RULE },
    Prop { id: "C03", ncorner: 1, quick: 500_000, thorough: 3_000_000, run: sections::project, rule: sections::RULE },
    Prop { id: "C04", ncorner: 8, quick: 120_000, thorough: 800_000, run: sections::file, rule: sections::RULE },
    Prop { id: "C05", ncorner: 1, quick: 120_000, thorough: 1_500_000, run: sections::library, rule: sections::RULE },
    Prop { id: "C06", ncorner: 8, quick: 120_000, thorough: 800_000, run: sections::resource, rule: sections::RULE },
    Prop { id: "C07", ncorner: 8, quick: 18_000, thorough: 200_000, run: sections::view, rule: sections::RULE },
    Prop { id: "C08", ncorner: 8, quick: 18_000, thorough: 300_000, run: sections::logic, rule: sections::RULE },
    Prop { id: "C09", ncorner: 48, quick: 250_000, thorough: 2_000_000, run: hostile::stable, rule: hostile::RULE09 },
    Prop { id: "C10", ncorner: 0, quick: 90_000, thorough: 2_000_000, run: refuse::refuse, rule: refuse::RULE10 },
    Prop { id: "C11", ncorner: 256, quick: 500_000, thorough: 3_000_000, run: blocks::colors, rule: blocks::RULE11 },
    Prop { id: "C12", ncorner: 0, quick: 900_000, thorough: 4_000_000, run: blocks::spec, rule: blocks::RULE12 },
    Prop { id: "C13", ncorner: 1 + crate::blk::NBIG, quick: 70_000, thorough: 1_500_000, run: blocks::list_to_tree, rule: blocks::RULE13 },
    Prop { id: "C14", ncorner: 1 + crate::blk::NBIG, quick: 50_000, thorough: 1_000_000, run: blocks::tree_to_list, rule: blocks::RULE14 },
    Prop { id: "C15", ncorner: 4, quick: 30_000, thorough: 300_000, run: layouts::trees, rule: layouts::RULE15 },
    Prop { id: "C16", ncorner: 256, quick: 150_000, thorough: 1_000_000, run: layouts::typed, rule: layouts::RULE16 },
    Prop { id: "C17", ncorner: crate::proj::NWIDE_SCREEN, quick: 25_000, thorough: 300_000, run: projects::screens, rule: projects::RULE17 },
    Prop { id: "C18", ncorner: crate::proj::NWIDE, quick: 5_000, thorough: 120_000, run: projects::whole, rule: projects::RULE18 },
    Prop { id: "C19", ncorner: 0, quick: 6_000, thorough: 100_000, run: projects::history, rule: projects::RULE19 },
    Prop { id: "C20", ncorner: 0, quick: 60_000, thorough: 150_000, run: projects::resource_files, rule: projects::RULE20 },
    Prop { id: "C21", ncorner: 0, quick: 200_000, thorough: 1_000_000, run: projects::registry, rule: projects::RULE21 },
    Prop { id: "C22", ncorner: 6, quick: 12_000, thorough: 60_000, run: crypto::loading, rule: crypto::RULE22 },
    Prop { id: "C23", ncorner: 32, quick: 900, thorough: 15_000, run: projects::concurrent, rule: projects::RULE23 },
    Prop { id: "C24", ncorner: refuse::NCORNER24, quick: 80_000, thorough: 1_000_000, run: refuse::locate, rule: refuse::RULE24 },
    Prop { id: "C25", ncorner: hostile::NWIDE25 + hostile::NSOAK, quick: 18_000, thorough: 300_000, run: hostile::memory, rule: hostile::RULE25 },
    Prop { id: "C26", ncorner: 10, quick: 110_000, thorough: 1_500_000, run: construct::construct, rule: construct::RULE26 },
];

pub fn probe(a: &[String]) -> i32 {
    hostile::probe(a)
}
