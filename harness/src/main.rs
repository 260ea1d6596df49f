#![allow(dead_code)]
//! Runtime monitors for swrs: `check <property>` runs the property's workload against the real crate
//! under the monitors and decides it; see /verif/DESIGN.md.
mod aes;
mod alloc;
mod blk;
mod conv;
mod dict;
mod mutate;
mod proj;
mod props;
mod rt;
mod run;
mod schema;
mod sect;
mod tape;
mod views;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|x| x.as_str()) {
        Some("check") if args.len() == 3 => run::check(&args[2]),
        Some("worker") if args.len() >= 6 => run::worker(&args[2..]),
        Some("replay") if args.len() == 3 => run::replay(&args[2]),
        Some("probe") if args.len() >= 3 => props::probe(&args[2..]),
        Some("ids") => props::construct::print_ids(),
        Some("list") => {
            for p in props::ALL {
                println!("{} corner={} quick={} thorough={}", p.id, p.ncorner, p.quick, p.thorough);
            }
            0
        }
        _ => {
            eprintln!("usage: swrs-monitor check <property> | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
