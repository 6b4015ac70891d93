mod alloc;
mod diff;
mod engine;
mod evgen;
mod gen;
mod model;
mod props;
mod reference;
mod rt;
mod sut;
mod text;

use engine::*;
use std::io::Write;
use std::sync::atomic::Ordering;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    let s = s.trim();
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex"))
        .collect()
}

fn find(id: &str) -> Box<dyn Prop> {
    match props::all().into_iter().find(|p| p.id() == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
}

fn known_of(file: &str, id: &str) -> Vec<String> {
    let mut v = vec![];
    for l in std::fs::read_to_string(file).unwrap_or_default().lines() {
        // finding: property=<id> match="<substring>" <what fails>
        if let Some(r) = l.strip_prefix("finding: ") {
            if r.starts_with(&format!("property={id} ")) {
                if let Some(m) = r.split("match=\"").nth(1).and_then(|m| m.split('"').next()) {
                    v.push(m.to_string());
                }
            }
        }
    }
    v
}

/// Watch for a case that never ends: more than 60 s without progress ends the
/// worker with exit code 77; the orchestrator then re-runs the case alone
/// under a CPU-time limit before calling it anything.
fn watchdog() {
    std::thread::spawn(|| {
        let mut last = TICK.load(Ordering::Relaxed);
        let mut stuck = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let t = TICK.load(Ordering::Relaxed);
            if t == last {
                stuck += 1;
                if stuck >= 90 {
                    std::process::exit(77);
                }
            } else {
                stuck = 0;
                last = t;
            }
        }
    });
}

fn main() {
    // Deep inputs recurse in debug-style builds; give every command the same
    // generous stack so that results do not depend on the environment.
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(real_main)
        .expect("thread");
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}

fn real_main() -> i32 {
    install_hook();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id());
            }
            0
        }
        // worker <prop> <tier> <seed> <w> <n> <out> <trace> <known> <scale>
        Some("worker") => {
            let p = find(&a[2]);
            let tier = if a[3] == "thorough" {
                Tier::Thorough
            } else {
                Tier::Quick
            };
            watchdog();
            let job = Job {
                prop: &*p,
                tier,
                seed: a[4].parse().expect("seed"),
                worker: a[5].parse().expect("worker"),
                workers: a[6].parse().expect("workers"),
                scale: a.get(10).map_or(1.0, |s| s.parse().expect("scale")),
                seeds: vec![],
                trace: Some(a[8].clone().into()),
                known: known_of(&a[9], p.id()),
            };
            let r = work(&job);
            let mut o = String::from("{\n");
            let mut kv = |k: &str, v: String| o.push_str(&format!("{}: {},\n", js(k), v));
            kv("evals", r.evals.to_string());
            kv("fresh", r.fresh.to_string());
            kv("mutated", r.mutated.to_string());
            kv("nontrivial", r.nontrivial.to_string());
            kv("corpus", r.corpus.to_string());
            kv("edges", r.edges.to_string());
            kv("rule", js(p.rule()));
            kv("enumerated", p.enumerated(tier).to_string());
            let list = |v: Vec<String>| format!("[{}]", v.join(","));
            kv(
                "classes",
                format!(
                    "{{{}}}",
                    r.classes
                        .iter()
                        .map(|(k, v)| format!("{}: {v}", js(k)))
                        .collect::<Vec<_>>()
                        .join(",")
                ),
            );
            kv("samples", list(r.samples.iter().map(|s| js(s)).collect()));
            kv(
                "assumptions",
                list(p.assumptions().iter().map(|s| js(s)).collect()),
            );
            kv(
                "violations",
                list(
                    r.violations
                        .iter()
                        .map(|(c, m)| {
                            format!(
                                "{{\"case\": \"{}\", \"message\": {}, \"describe\": {}}}",
                                hex(c),
                                js(m),
                                js(&p.describe(c))
                            )
                        })
                        .collect(),
                ),
            );
            o.push_str(&format!(
                "\"broken\": {}\n}}\n",
                r.broken.as_deref().map_or("null".into(), js)
            ));
            let mut hs: Vec<u64> = r.hashes.into_iter().collect();
            hs.sort_unstable();
            let mut hb = Vec::with_capacity(hs.len() * 8);
            for h in hs {
                hb.extend_from_slice(&h.to_le_bytes());
            }
            std::fs::write(format!("{}.hashes", a[7]), hb).expect("write");
            std::fs::write(&a[7], o).expect("write");
            0
        }
        // distinct <files...>
        Some("distinct") => {
            let mut v: Vec<u64> = vec![];
            for f in &a[2..] {
                let b = std::fs::read(f).expect("read");
                v.extend(b.chunks_exact(8).map(|c| {
                    let mut x = [0; 8];
                    x.copy_from_slice(c);
                    u64::from_le_bytes(x)
                }));
            }
            v.sort_unstable();
            v.dedup();
            println!("{}", v.len());
            0
        }
        // one <prop> <file with hex>: exit 0 held, 1 violated, 3 broken
        Some("one") => {
            let p = find(&a[2]);
            let case = unhex(&std::fs::read_to_string(&a[3]).expect("read"));
            let mut ctx = Ctx::default();
            let r = run_case(&*p, &case, &mut ctx);
            match r {
                RunResult::Held => {
                    println!("held\n{}\n{:?}", p.describe(&case), ctx.classes);
                    0
                }
                RunResult::Violated(m) => {
                    println!("violated: {m}");
                    println!("{}", p.describe(&case));
                    1
                }
                RunResult::Broken(m) => {
                    println!("broken: {m}");
                    println!("{}", p.describe(&case));
                    3
                }
            }
        }
        // describe <prop> <file with hex>
        Some("describe") => {
            let p = find(&a[2]);
            let case = unhex(&std::fs::read_to_string(&a[3]).expect("read"));
            println!("{}", p.describe(&case));
            0
        }
        _ => {
            let _ = writeln!(std::io::stderr(), "usage: harness list|worker|one|describe|distinct");
            2
        }
    }
}
