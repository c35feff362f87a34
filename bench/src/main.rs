#![allow(dead_code)]
// the load generator's own modules, from the tree under test
#[path = "../../ws/mqtt_ring_bench/src/config.rs"]
mod config;
#[path = "../../ws/mqtt_ring_bench/src/connection.rs"]
mod connection;
#[path = "../../ws/mqtt_ring_bench/src/stats.rs"]
mod stats;
#[path = "../../ws/mqtt_ring_bench/src/worker_common.rs"]
mod worker_common;

mod conns;
mod nums;
mod runs;

#[global_allocator]
static A: kit::alloc::Counting = kit::alloc::Counting;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    match id.as_str() {
        "C35" => c35(),
        x => {
            eprintln!("unknown property {x}");
            std::process::exit(3)
        }
    }
}

fn c35() {
    let mut run = kit::Run::new(
        "C35",
        "non-trivial: a distinct set of samples, counter history, connection history or run of the program",
    );
    run.assume("connections: the socket is simulated (any split of sends and receives), the clock is the real one");
    run.assume("runs: the real program over loopback; the broker closes connections only as planned");
    nums::phase(&mut run);
    conns::phase(&mut run);
    runs::phase(&mut run);
    run.finish()
}
