//! simcheck: searches, replays and shrinks simulated runs of cambrian.
mod interpose;
use cambrian_sim::{driver, hooks, run};

fn main() {
    run::install_panic_hook();
    hooks::installed::install();
    log::set_logger(&run::Sink).ok();
    log::set_max_level(log::LevelFilter::Trace);
    let args: Vec<String> = std::env::args().collect();
    std::process::exit(driver::main(&args[1..]));
}
