//! vh <component> --prop P --seed N --tier quick|thorough [--scripts FILE] --out FILE
//! Runs the scenarios of a component against the code under test in worker processes and writes one JSON line
//! per scenario. A worker that hangs or dies loses only the scenario it was running, which is recorded so.
mod common;
mod fri_d;
mod ivc_d;
mod kzg_d;
mod nova_d;
mod parser_d;
mod plonk_d;
mod transcript_d;
use common::*;
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::{mpsc, Arc, Mutex};
use std::time::Duration;

fn scenarios(component: &str, cfg: &Cfg) -> Vec<Scenario> {
    match component {
        "ivc" => ivc_d::scenarios(cfg),
        "kzg" => kzg_d::scenarios(cfg),
        "fri" => fri_d::scenarios(cfg),
        "nova" => nova_d::scenarios(cfg),
        "parser" => parser_d::scenarios(cfg),
        "plonk" => plonk_d::scenarios(cfg),
        "transcript" => transcript_d::scenarios(cfg),
        c => panic!("unknown component {c}"),
    }
}

fn run_one(id: usize, s: &Scenario) -> Value {
    let rec = Mutex::new(Rec::default());
    let r = guard(|| (s.run)(&mut rec.lock().unwrap()));
    let mut rec = rec.into_inner().unwrap_or_else(|e| e.into_inner());
    if let Err(m) = r {
        rec.ev("crash", json!({"why": "panic", "msg": m}));
    }
    let mut o = rec.head;
    o.insert("id".into(), json!(id));
    o.insert("fam".into(), json!(s.fam));
    o.insert("events".into(), Value::Array(rec.events));
    Value::Object(o)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let component = args[1].clone();
    if component == "plonk-prove" {
        return plonk_d::child(&args[2]);
    }
    let scripts = get("--scripts")
        .map(|p| {
            std::fs::read_to_string(p).unwrap().lines().filter(|l| !l.trim().is_empty())
                .map(|l| serde_json::from_str(l).unwrap()).collect()
        })
        .unwrap_or_default();
    let cfg = Cfg {
        seed: get("--seed").map_or(1, |s| s.parse().unwrap()),
        thorough: get("--tier").as_deref() == Some("thorough"),
        prop: get("--prop").unwrap_or("all".into()),
        scripts,
    };
    let list = scenarios(&component, &cfg);

    if args.iter().any(|a| a == "--worker") {
        // reads scenario numbers, writes results
        std::panic::set_hook(Box::new(|_| {}));
        let real = std::io::stdout();
        for line in std::io::stdin().lock().lines() {
            let id: usize = line.unwrap().trim().parse().unwrap();
            let v = run_one(id, &list[id - 1]);
            let mut o = real.lock();
            writeln!(o, "\n@@{}", v).unwrap();
            o.flush().unwrap();
        }
        return;
    }

    let only = get("--only").map(|s| s.parse::<usize>().unwrap());
    let timeout = Duration::from_secs(get("--timeout").map_or(60, |s| s.parse().unwrap()));
    let queue: Vec<usize> = (1..=list.len()).filter(|i| only.map_or(true, |o| o == *i)).collect();
    let queue = Arc::new(Mutex::new(queue.into_iter().rev().collect::<Vec<_>>()));
    let results = Arc::new(Mutex::new(Vec::<Value>::new()));
    let fams: Arc<Vec<String>> = Arc::new(list.iter().map(|s| s.fam.clone()).collect());
    let workers = std::thread::available_parallelism().map_or(4, |n| n.get());
    let handles: Vec<_> = (0..workers)
        .map(|_| {
            let (queue, results, fams, args) = (queue.clone(), results.clone(), fams.clone(), args.clone());
            std::thread::spawn(move || 'spawn: loop {
                if queue.lock().unwrap().is_empty() {
                    return;
                }
                // address space is bounded so that runaway allocation ends the worker, not the sandbox
                let mut child = Command::new("/bin/sh")
                    .arg("-c").arg("ulimit -v 6000000; ulimit -c 0; exec \"$@\"").arg("sh")
                    .arg(std::env::current_exe().unwrap()).args(&args[1..]).arg("--worker")
                    .stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
                let mut stdin = child.stdin.take().unwrap();
                let stdout = BufReader::new(child.stdout.take().unwrap());
                let (tx, rx) = mpsc::channel();
                std::thread::spawn(move || {
                    for l in stdout.lines().map_while(Result::ok) {
                        if let Some(j) = l.strip_prefix("@@") {
                            if tx.send(j.to_string()).is_err() {
                                return;
                            }
                        }
                    }
                });
                loop {
                    let Some(id) = queue.lock().unwrap().pop() else {
                        drop(stdin);
                        let _ = child.wait();
                        return;
                    };
                    let sent = writeln!(stdin, "{id}").and_then(|_| stdin.flush());
                    let got = if sent.is_ok() { rx.recv_timeout(timeout) } else { Err(mpsc::RecvTimeoutError::Disconnected) };
                    match got {
                        Ok(j) => results.lock().unwrap().push(serde_json::from_str(&j).unwrap()),
                        Err(e) => {
                            let why = if e == mpsc::RecvTimeoutError::Timeout { "hang" } else { "abort" };
                            let _ = child.kill();
                            let _ = child.wait();
                            results.lock().unwrap().push(json!({"id": id, "fam": fams[id - 1], "events": [{"op": "crash", "why": why, "msg": ""}]}));
                            continue 'spawn;
                        }
                    }
                }
            })
        })
        .collect();
    for h in handles {
        h.join().unwrap();
    }
    let mut all = std::mem::take(&mut *results.lock().unwrap());
    all.sort_by_key(|v| v["id"].as_u64());
    let mut f = std::io::BufWriter::new(std::fs::File::create(get("--out").unwrap()).unwrap());
    for v in &all {
        writeln!(f, "{}", v).unwrap();
    }
    f.flush().unwrap();
    println!("{}", all.len());
}
