//! Runs the jobs of a file one by one, printing what each recorded:
//!   B <id>           job begins
//!   R <id> <json>    its trace (printed once per distinct trace)
//!   D <id> <id0>     its trace equals that of job <id0>
//! If the process dies the driver knows which job it was in.
use std::collections::HashMap;
use std::hash::{BuildHasher, Hasher, RandomState};
use std::io::{BufRead, BufReader, Write};

pub fn main_loop(run: impl Fn(&str) -> String) {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.to_string();
        if msg.contains("HARNESS") {
            eprintln!("HARNESS-ERROR {msg}");
            std::process::exit(97);
        }
    }));
    let args: Vec<String> = std::env::args().collect();
    let file = BufReader::new(std::fs::File::open(&args[1]).expect("HARNESS: no job file"));
    let skip: usize = args.get(2).map_or(0, |x| x.parse().unwrap());
    let mut seen: HashMap<(u64, u64, usize), String> = HashMap::new();
    let (h1, h2) = (RandomState::new(), RandomState::new());
    let out = std::io::stdout();
    for line in file.lines().skip(skip) {
        let line = line.unwrap();
        let (id, job) = line.split_once(' ').expect("HARNESS: job line");
        {
            let mut o = out.lock();
            writeln!(o, "B {id}").unwrap();
            o.flush().unwrap();
        }
        let json = run(job);
        let d = |h: &RandomState| {
            let mut x = h.build_hasher();
            x.write(json.as_bytes());
            x.finish()
        };
        let key = (d(&h1), d(&h2), json.len());
        let mut o = out.lock();
        if let Some(first) = seen.get(&key) {
            writeln!(o, "D {id} {first}").unwrap();
        } else {
            writeln!(o, "R {id} {json}").unwrap();
            seen.insert(key, id.to_string());
        }
        o.flush().unwrap();
    }
    println!("E");
}
