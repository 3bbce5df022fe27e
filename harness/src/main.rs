// A check is built with the modules of one property only.
#![allow(dead_code)]
mod case;
mod driver;
mod fuel;
mod gen;
mod iters;
mod ledger;
mod obs;
mod programs;
mod props;
mod store;
mod walk;

#[cfg(not(miri))]
#[global_allocator]
static ALLOC: ledger::CountingAlloc = ledger::CountingAlloc;

fn main() {
    std::process::exit(driver::main());
}
