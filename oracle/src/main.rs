//! Scenario generator and checker. `oracle gen NAME` writes the linker's inputs and a `plan` into
//! the current directory; `oracle check NAME` inspects what the linker produced.
#![allow(unused)]
mod ld;
mod obj;
mod out;
mod rt;
mod scen;
mod world;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 2 && a[1] == "list" {
        for s in scen::all() {
            println!("{} {}", s.name, if s.thorough { "thorough" } else { "quick" });
        }
        return;
    }
    for s in scen::all() {
        if s.name == a[2] {
            let w = (s.build)();
            if a[1] == "gen" {
                w.write();
            } else {
                (s.check)(&w);
            }
            return;
        }
    }
    std::process::exit(2);
}
