mod drive;
mod eventsmc;
mod hl;
mod hlmc;
mod longopmc;
mod opdrive;
mod ops;
mod proj;
mod rng;
mod ropemc;
mod runsmc;
mod tablemc;
mod undomc;
mod views;

use std::io::{BufRead, Write};

/// Runs one check per line of `input`; writes a line per failing case and {"done": n} at the end.
fn cases(input: &str, output: &str, cmd: &str, f: impl Fn(&str) -> Option<(String, serde_json::Value)>) {
    let mut out = std::io::BufWriter::new(std::fs::File::create(output).unwrap());
    let (mut n, mut bad) = (0u64, 0);
    for raw in std::io::BufReader::new(std::fs::File::open(input).unwrap()).lines() {
        let raw = raw.unwrap();
        if raw.is_empty() {
            continue;
        }
        if let Some((tag, last)) = f(&raw) {
            bad += 1;
            if bad <= 20 {
                writeln!(out, "{}", serde_json::json!({"tag": tag, "last": last, "raw": raw, "cmd": [cmd]})).unwrap();
            }
        }
        n += 1;
    }
    writeln!(out, "{}", serde_json::json!({"done": n})).unwrap();
}

fn main() {
    if std::env::var("VH_PANIC").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    match a[1].as_str() {
        // vh drive <profile> <seed> <traces> <steps> <out>
        "drive" => drive::drive(&a[2], n(3), n(4) as usize, n(5) as usize, &a[6]),
        "opdrive" => opdrive::drive(n(2), n(3) as usize, n(4) as usize, &a[5]),
        "replay" => drive::replay(&a[2], &a[3]),
        "eventsmc" => eventsmc::run(&a[2], &a[3]),
        "longopmc" => longopmc::run(&a[2], &a[3]),
        "spansmc" => cases(&a[2], &a[3], "spansmc", hlmc::spans_case),
        "cascademc" => cases(&a[2], &a[3], "cascademc", hlmc::cascade_case),
        "tablemc" => cases(&a[2], &a[3], "tablemc", tablemc::case),
        "runsmc" => runsmc::run(&a[2], &a[3]),
        "inlinemc" => runsmc::run_inline(&a[2], &a[3]),
        "ropemc" => ropemc::run(&a[2], &a[3]),
        // vh undomc <cases> <out>
        "undomc" => undomc::run(&a[2], &a[3]),
        x => {
            eprintln!("unknown command {x}");
            std::process::exit(2);
        }
    }
}
