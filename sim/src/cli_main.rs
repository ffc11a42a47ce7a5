//! simcli: the command-line tool of /repo inside one simulated world (one process is one run).
mod interpose;

mod cli_entry {
    #![allow(dead_code, unused)]
    include!(concat!(env!("OUT_DIR"), "/cli.rs"));
    pub fn entry() -> std::process::ExitCode {
        std::process::Termination::report(main())
    }
}

fn main() -> std::process::ExitCode {
    cambrian_sim::host::host(cli_entry::entry)
}
