//! Driver: executes one case per input line in the real crate and prints its outcome. It judges nothing.
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering};

mod bloom;
mod body;
mod chunk;
mod enc;
mod file;
mod cols;
mod comp;
mod damage;
mod io;
mod large;
mod meta;
mod open;
mod schema;
mod native;
mod stats;
mod util;
mod valid;

#[global_allocator]
static ALLOC: util::Largest = util::Largest;

static TICK: AtomicU64 = AtomicU64::new(0);

fn main() {
    let kind = std::env::args().nth(1).unwrap_or_default();
    let f: fn(&Value) -> Value = match [enc::lookup, chunk::lookup, file::lookup, stats::lookup, open::lookup, comp::lookup, cols::lookup, meta::lookup, bloom::lookup, valid::lookup, body::lookup, damage::lookup, large::lookup, native::lookup].iter().find_map(|l| l(&kind)) {
        Some(f) => f,
        None => {
            eprintln!("unknown kind {kind}");
            std::process::exit(3)
        }
    };
    std::panic::set_hook(Box::new(|_| {}));
    // watchdog: a case that takes more than 20 s is reported as a hang
    std::thread::spawn(|| {
        let mut last = 0;
        let mut same = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let t = TICK.load(Ordering::SeqCst);
            if t == last {
                same += 1
            } else {
                same = 0;
                last = t
            }
            if same >= 20 && t % 2 == 1 {
                println!("{}", json!({"hang": true}));
                std::process::exit(4)
            }
        }
    });
    let child = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let stdin = std::io::stdin();
            let mut out = std::io::stdout();
            for line in stdin.lock().lines() {
                let line = line.unwrap();
                if line.is_empty() {
                    continue;
                }
                let mut de = serde_json::Deserializer::from_str(&line);
                de.disable_recursion_limit();
                let v = <Value as serde::Deserialize>::deserialize(&mut de).unwrap();
                TICK.fetch_add(1, Ordering::SeqCst);
                let r = util::catch(|| f(&v));
                TICK.fetch_add(1, Ordering::SeqCst);
                writeln!(out, "{}", r).unwrap();
                out.flush().unwrap();
            }
        })
        .unwrap();
    child.join().unwrap();
}
