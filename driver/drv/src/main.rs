//! Driver: reads requests (JSON lines: {"id", "hugr"|"path"|"pytket", "pipes": {name: [step..]}}),
//! runs the real tket passes on each, and writes what came out as JSON lines.
//! All judging is done by the caller; this binary only runs the code of /repo.
mod steps;

use serde_json::{json, Value as J};
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("--sigs") {
        println!("{}", steps::sigs());
        return;
    }
    let inp = std::fs::read_to_string(&args[1]).expect("request file");
    let nthreads: usize = args.get(3).and_then(|s| s.parse().ok()).unwrap_or(8);
    let reqs: Vec<&str> = inp.lines().filter(|l| !l.trim().is_empty()).collect();
    let out = Mutex::new(std::io::BufWriter::new(
        std::fs::File::create(&args[2]).expect("output file"),
    ));
    let next = AtomicUsize::new(0);
    std::panic::set_hook(Box::new(|i| steps::note_panic(i)));
    std::thread::scope(|s| {
        for _ in 0..nthreads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= reqs.len() {
                        break;
                    }
                    let req: J = serde_json::from_str(reqs[i]).expect("request json");
                    let mut res = steps::run_request(&req);
                    res["id"] = req["id"].clone();
                    let line = serde_json::to_string(&res)
                        .unwrap_or_else(|e| json!({"id": req["id"], "load_err": e.to_string()}).to_string());
                    let mut o = out.lock().unwrap();
                    o.write_all(line.as_bytes()).unwrap();
                    o.write_all(b"\n").unwrap();
                })
                .unwrap();
        }
    });
    out.lock().unwrap().flush().unwrap();
}
