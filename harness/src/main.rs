//! Worker of the checks. See /verif/check.py.

use std::io::Write;

use tvh::base::install_panic_hook;
use tvh::case::Case;
use tvh::extra::c21_digest;
use tvh::rec::Rec;
use tvh::run::*;

fn arg(args: &[String], name: &str) -> Option<String> {
    let i = args.iter().position(|a| a == name)?;
    args.get(i + 1).cloned()
}

fn main() {
    install_panic_hook();
    tvh::hist::APART.store(500, std::sync::atomic::Ordering::Relaxed);
    let args: Vec<String> = std::env::args().collect();
    let num = |n: &str, d: u64| arg(&args, n).and_then(|s| s.parse().ok()).unwrap_or(d);
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") => run(&args, num),
        Some("replay") => replay(&args),
        Some("alone") => !tvh::hist::alone(&read(&args[2])) as i32,
        Some("digest") => {
            let case = read(&args[2]);
            let (h, d) = c21_digest(&case, true);
            println!("{h:016x}");
            for t in &d.trace {
                println!("{t}");
            }
            for (i, h) in &d.hashes {
                println!("after operation {i}: {h:016x}");
            }
            if let Some(f) = &d.fail {
                println!("stopped: {:?} {}", f.cat, f.msg);
            }
            0
        }
        Some("gen") => {
            // Prints the i-th case of a worker (C21).
            gen(&args, num);
            0
        }
        _ => {
            eprintln!("usage: tvh run|replay|digest ...");
            2
        }
    };
    std::process::exit(code);
}

fn read(path: &str) -> Case {
    let t = std::fs::read_to_string(path).expect("reading the case");
    Case::parse(&t).expect("parsing the case")
}

fn worker<'a>(args: &[String], prop: &'a str, num: impl Fn(&str, u64) -> u64) -> Worker<'a> {
    Worker {
        prop,
        seed: num("--seed", 1),
        shard: num("--shard", 0),
        shards: num("--shards", 1),
        thorough: num("--thorough", 0) == 1,
        scale: num("--scale", 100),
        do_enum: num("--enum", 1) == 1,
        journal: arg(args, "--journal").map(|p| std::fs::File::create(p).expect("journal")),
        rec: Rec::default(),
        digests: arg(args, "--digests").map(|p| std::io::BufWriter::new(std::fs::File::create(p).expect("digests"))),
        fuzzed: 0,
    }
}

fn run(args: &[String], num: impl Fn(&str, u64) -> u64) -> i32 {
    let prop = arg(args, "--prop").expect("--prop");
    let mut w = worker(args, &prop, num);
    let found = w.run();
    if let Some(d) = &mut w.digests {
        d.flush().expect("digests");
    }
    if let Some(p) = arg(args, "--out") {
        let mut f = std::fs::File::create(&p).expect("out");
        let v = if found.is_some() { ", \"violation\": true" } else { "" };
        f.write_all(w.rec.json(v).as_bytes()).expect("out");
        let mut h = std::fs::File::create(format!("{p}.keys")).expect("out");
        let keys: Vec<u8> = w.rec.nontrivial.iter().flat_map(|k| k.to_le_bytes()).collect();
        h.write_all(&keys).expect("out");
    }
    if let Some(f) = found {
        if let Some(p) = arg(args, "--replay") {
            std::fs::write(&p, describe(&prop, &f)).expect("replay");
        }
        println!("FOUND {:?} {}", f.fail.cat, f.fail.msg.replace('\n', "\\n"));
        return 1;
    }
    0
}

fn replay(args: &[String]) -> i32 {
    let prop = arg(args, "--prop").expect("--prop");
    let case = read(&args[2]);
    #[cfg(feature = "conc")]
    tvh::conc::REPEAT.store(400, std::sync::atomic::Ordering::Relaxed);
    let (r, trace) = explain(&prop, &case);
    for t in trace {
        println!("{t}");
    }
    match r {
        Ok(()) => {
            println!("holds");
            0
        }
        Err(f) => {
            println!("FOUND {:?} at operation {}: {}", f.cat, f.step, f.msg);
            1
        }
    }
}

fn gen(args: &[String], num: impl Fn(&str, u64) -> u64) {
    let want = num("--index", 0);
    let path = arg(args, "--out").expect("--out");
    let mut w = worker(args, "C21", num);
    w.digests = None;
    let mut i = 0;
    w.each_case(&mut |c| {
        if i == want {
            std::fs::write(&path, c.text()).expect("out");
            return false;
        }
        i += 1;
        true
    });
}
