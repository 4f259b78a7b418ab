//! Runs the real linestring library on cases and records what it did, one JSON object per line.
//!   vharness <property> --seed N --tier quick|thorough --shards K --out DIR [--cases FILE]
//!   vharness <property> --replay FILE --out DIR          (only the cases in FILE)
mod common;
mod boxes;
mod hull;
mod io;
mod misc;
mod segm;
mod simp;
mod sweep;
use common::*;
use rand::{rngs::StdRng, SeedableRng};
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

type GenFn = fn(&mut Gen);
type ExecFn = fn(&Value) -> Out;

fn property(id: &str) -> (GenFn, ExecFn) {
    match id {
        "P01" => (segm::gen01, segm::exec01),
        "P02" => (sweep::gen02, sweep::exec02),
        "P03" => (sweep::gen03, sweep::exec03),
        "P04" => (sweep::gen04, sweep::exec04),
        "P05" => (hull::gen05, hull::exec05),
        "P06" => (hull::gen06, hull::exec06),
        "P07" => (hull::gen07, hull::exec07),
        "P08" => (simp::gen08, simp::exec08),
        "P09" => (simp::gen09, simp::exec09),
        "P10" => (simp::gen10, simp::exec10),
        "P11" => (simp::gen11, simp::exec11),
        "P12" => (misc::gen12, misc::exec12),
        "P13" => (misc::gen13, misc::exec13),
        "P14" => (boxes::gen14, boxes::exec14),
        "P15" => (misc::gen15, misc::exec15),
        "P16" => (misc::gen16, misc::exec16),
        "P17" => (misc::gen17, misc::exec17),
        "P18" => (misc::gen18, misc::exec18),
        "P21" => (boxes::gen21, boxes::exec21),
        "P24" => (misc::gen24, misc::exec24),
        "P19" => (segm::gen19, segm::exec19),
        "P20" => (segm::gen20, segm::exec20),
        "P22" => (segm::gen22, segm::exec22),
        "P23" => (hull::gen23, hull::exec23),
        "P25" => (io::gen25, io::exec25),
        "P26" => (io::gen26, io::exec26),
        "P27" => (hull::gen27, hull::exec27),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
}

struct Watch {
    current: Option<(Value, Instant)>,
    out: Vec<BufWriter<File>>,
    n: usize,
}
impl Watch {
    fn write(&mut self, rec: &Value) {
        let k = self.n % self.out.len();
        self.n += 1;
        writeln!(self.out[k], "{}", rec).unwrap();
    }
    fn finish(&mut self) {
        for o in self.out.iter_mut() {
            o.flush().unwrap()
        }
    }
}
fn rss_mb() -> usize {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<usize>().ok()))
        .map_or(0, |p| p * 4096 / 1_000_000)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).map(|p| a[p + 1].clone());
    let id = a[1].clone();
    let (gen, exec) = property(&id);
    let dir = opt("--out").expect("--out");
    let shards: usize = opt("--shards").map_or(1, |x| x.parse().unwrap());
    let seed: u64 = opt("--seed").map_or(1, |x| x.parse().unwrap());
    let mut cases = Vec::<Value>::new();
    let read = |f: &str, cases: &mut Vec<Value>| {
        for l in BufReader::new(File::open(f).unwrap()).lines() {
            let l = l.unwrap();
            if !l.trim().is_empty() {
                cases.push(serde_json::from_str(&l).unwrap())
            }
        }
    };
    if let Some(f) = opt("--replay") {
        read(&f, &mut cases);
    } else {
        let mut g = Gen {
            rng: StdRng::seed_from_u64(seed ^ 0x9e3779b97f4a7c15),
            thorough: opt("--tier").as_deref() == Some("thorough"),
            cases: vec![],
        };
        if let Some(f) = opt("--cases") {
            read(&f, &mut cases);
        }
        g.cases = cases;
        gen(&mut g);
        cases = g.cases;
    }
    let out = (0..shards)
        .map(|k| BufWriter::new(File::create(format!("{dir}/trace-{k}.ndjson")).unwrap()))
        .collect();
    let w = Arc::new(Mutex::new(Watch {
        current: None,
        out,
        n: 0,
    }));
    std::panic::set_hook(Box::new(|_| {}));
    {
        // a call that does not return, or eats the memory, is an observation like any other
        let w = w.clone();
        let _ = std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(40));
            let big = rss_mb() > 6000;
            let mut g = w.lock().unwrap();
            if let Some((rec, since)) = g.current.clone() {
                if big || since.elapsed() > Duration::from_secs(20) {
                    let mut rec = rec;
                    rec["st"] = json!("hang");
                    g.write(&rec);
                    g.finish();
                    println!("HANG");
                    std::process::exit(0);
                }
            }
        });
    }
    let mark = a.iter().any(|x| x == "--mark");
    for case in cases {
        w.lock().unwrap().current = Some((case.clone(), Instant::now()));
        let r = catch_unwind(AssertUnwindSafe(|| exec(&case)));
        let mut rec = case;
        match r {
            Ok(Ok(Value::Object(m))) => {
                if mark {
                    rec["_o"] = json!(m.keys().collect::<Vec<_>>());
                }
                for (k, v) in m {
                    rec[k] = v;
                }
                rec["st"] = json!("ok");
            }
            Ok(Ok(v)) => panic!("exec must return an object, not {v}"),
            Ok(Err(e)) => {
                rec["st"] = json!("err");
                rec["msg"] = json!(e);
            }
            Err(e) => {
                rec["st"] = json!("panic");
                let msg = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                rec["msg"] = json!(msg);
            }
        }
        let mut g = w.lock().unwrap();
        g.current = None;
        g.write(&rec);
    }
    let mut g = w.lock().unwrap();
    g.finish();
    println!("CASES {}", g.n);
}
