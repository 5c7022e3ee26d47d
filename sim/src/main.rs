#![allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
#![allow(dead_code)]
mod alloc;
mod case;
mod doc;
mod driver;
mod exec;
mod gen;
mod levels;
mod ls;
mod net;
mod plug;
mod proj;
mod raw;
mod rng;
mod run;
mod spec;
mod stdio;
mod sys;
mod vfs;
mod world;

#[global_allocator]
static HEAP: alloc::Heap = alloc::Heap;

/// The program under test, compiled from /repo/src/main.rs.
#[allow(warnings)]
mod cli {
    include!(concat!(env!("OUT_DIR"), "/cli.rs"));
}

fn main() {
    let args = match run::padded_args() {
        Some(a) => a,
        None => run::reexec(&std::env::args().skip(1).collect::<Vec<_>>()),
    };
    run::init();
    net::init();
    driver::main(&args)
}
