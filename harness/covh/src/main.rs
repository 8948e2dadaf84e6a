//! Replays specification behaviours into the public API of the crates under /repo.
//! Reads one JSON request per line on stdin and writes one JSON answer per line on stdout.
mod instr;
mod oxide;

use std::io::{BufRead, BufWriter, Write};
use std::sync::mpsc;

fn handle(kind: &str, req: serde_json::Value) -> serde_json::Value {
    let id = req.get("id").cloned().unwrap_or(serde_json::Value::Null);
    let k = kind.to_string();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || match k.as_str() {
        "instr" => instr::run(&req),
        "hist" => instr::run_history(&req),
        "opts" => instr::run_opts(&req),
        "oxide" => oxide::run(&req),
        "json" => oxide::run_json(&req),
        "percent" => oxide::run_percent(&req),
        _ => panic!("unknown subcommand"),
    }));
    let mut v = match r {
        Ok(v) => v,
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else {
                "panic".to_string()
            };
            serde_json::json!({ "panic": m })
        }
    };
    v.as_object_mut().unwrap().insert("id".into(), id);
    v
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let kind = std::env::args().nth(1).expect("subcommand");
    let threads: usize = std::env::args().nth(2).and_then(|v| v.parse().ok()).unwrap_or(8);
    let lines: Vec<String> = std::io::stdin().lock().lines().map(|l| l.unwrap()).filter(|l| !l.is_empty()).collect();
    let n = lines.len();
    let lines = std::sync::Arc::new(lines);
    let next = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let (tx, rx) = mpsc::channel::<(usize, String)>();
    let mut hs = vec![];
    for _ in 0..threads.max(1) {
        let (lines, next, tx, kind) = (lines.clone(), next.clone(), tx.clone(), kind.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= lines.len() {
                        break;
                    }
                    let req: serde_json::Value = serde_json::from_str(&lines[i]).expect("request JSON");
                    let out = handle(&kind, req).to_string();
                    tx.send((i, out)).unwrap();
                })
                .unwrap(),
        );
    }
    drop(tx);
    let mut out: Vec<Option<String>> = vec![None; n];
    for (i, s) in rx {
        out[i] = Some(s);
    }
    for h in hs {
        h.join().unwrap();
    }
    let mut w = BufWriter::new(std::io::stdout().lock());
    for s in out {
        writeln!(w, "{}", s.unwrap()).unwrap();
    }
}
