//! Fixed descriptions for the evidence files.
pub const REAL: &[&str] = &[
    "cambrian library (controller, algorithm, crossover, mutation, selection, spec/value codecs, process evaluation, sync and async launch, reports)",
    "futures (join/select/FuturesUnordered/channels; poll_fn fairness randomness comes from the simulator)",
    "async-broadcast, rand (StdRng), serde_json, serde_yaml, command-group, nix",
    "cambrian command-line entry point (C16)",
];
pub const STUB: &[&str] = &[
    "tokio runtime, timers, process and pipe layer (shim over the simulator)",
    "futures-timer, futures thread pool threads, ctrlc (shims)",
    "kernel process table, signals, waitpid, pipes, child programs (scripts)",
    "monotonic and wall clocks, entropy (getrandom), thread scheduling",
    "objective functions (scripted)",
    "file errors are injected in front of the real file system (scratch directory)",
];
pub const ASSUME: &[&str] = &[
    "a step between two simulated scheduling points is atomic; CPU time costs no simulated time",
    "simulated child processes behave like Linux processes for spawn, pipes, process groups, signals and wait",
    "the search is a sample: absence of violations is not a proof",
];

pub fn rule(prop: &str) -> String {
    let n = match prop {
        "C01" => "an offspring was evaluated",
        "C02" => "a report with at least two accepted evaluations",
        "C03" => "a budget and at least two evaluations",
        "C04" => "a target was reached or a request delivered with evaluations started",
        "C06" => "an evaluation failed",
        "C07" => "several processes, with kills, background processes or a request",
        "C12" => "recombination of several different or of identical parents observed",
        "C13" => "a mutation that changed something observed",
        "C11" | "C17" | "C16" => "always",
        _ => "at least two evaluations",
    };
    format!("every case is generated from (seed, property, index): parameter space, mode of use, concurrency, budget, latencies, results, faults, requests, clock and scheduler seed; one case is one exactly repeatable simulation (or a pair or chain of them). Non-trivial: {n}. Distinct: by trace hash.")
}
