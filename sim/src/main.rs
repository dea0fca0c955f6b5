//! Deterministic simulation of laz-rs: seeded search over schedules and faults.

mod alloc;
mod checks;
mod coder;
mod ctx;
mod disk;
mod files;
mod gen;
mod runner;
mod sess;
mod tape;

#[global_allocator]
static GLOBAL: alloc::SimAlloc = alloc::SimAlloc;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a.as_slice() {
        ["check", id, tier] => runner::check(id, tier == &"thorough"),
        ["worker", id, tier, seed, from, stride, count, secs] => runner::worker(
            id,
            tier == &"thorough",
            seed.parse().unwrap(),
            from.parse().unwrap(),
            stride.parse().unwrap(),
            count.parse().unwrap(),
            secs.parse().unwrap(),
        ),
        ["record", id, tier, seed, idx, path, before] => {
            let before: Vec<u64> = before.split(',').filter_map(|x| x.parse().ok()).collect();
            runner::record(id, tier == &"thorough", seed.parse().unwrap(), idx.parse().unwrap(), path, &before)
        }
        ["exec", path] => runner::exec(path, false),
        ["replay", path] => runner::exec(path, true),
        ["determinism", id, n] => runner::determinism(id, n.parse().unwrap()),
        ["list"] => {
            for k in checks::all() {
                println!("{}", k.id);
            }
            0
        }
        _ => {
            eprintln!("usage: lazsim check ID quick|thorough | replay FILE | determinism ID N | list");
            2
        }
    };
    std::process::exit(code);
}
