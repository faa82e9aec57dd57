//! A bounded exhaustive checker of the opentype library.
//!
//! The supervisor (`check`) runs one child per build of the library; a child (`child`) explores,
//! and whatever ends a child otherwise than by its own will is looked into by the supervisor.

mod alloc;
mod case;
mod checks;
mod ctx;
mod emit;
mod explore;
mod flags;
mod fonts;
mod histories;
mod lookup;
mod mem;
mod monitors;
mod real;
mod registry;
mod spec;
mod supervisor;
mod tape;
mod weave;
mod worker;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let args: Vec<&str> = args.iter().map(|a| a.as_str()).collect();
    let code = match args.get(1..).unwrap_or(&[]) {
        ["configs", prop, tier] => {
            println!("{}", supervisor::configs(prop, *tier == "thorough").join(" "));
            0
        }
        ["check", prop, tier, bins @ ..] => supervisor::check(prop, tier, bins),
        ["child", prop, tier, out, journal] => worker::child(prop, tier, out, journal),
        ["slice", tier, part, parts] => match (part.parse(), parts.parse()) {
            (Ok(part), Ok(parts)) => weave::slice(tier, part, parts),
            _ => 2,
        },
        ["again", prop, file] => worker::again(prop, file),
        ["replay", file] => supervisor::replay(file),
        ["golden"] => {
            registry::print();
            0
        }
        _ => {
            eprintln!("usage: mc check PROPERTY TIER CONFIG=BINARY.. | mc replay FILE");
            2
        }
    };
    std::process::exit(code);
}
