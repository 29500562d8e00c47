#![allow(dead_code)]
//! vh PROPERTY --seed S --mult M --out FILE [--case K] [--scratch DIR]
mod attrs;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c16;
mod c17;
mod enums;
mod c14;
mod c15;
mod c20;
mod c18;
mod c19;
mod c22;
mod c24;
mod c25;
mod c21;
mod c23;
mod c29;
mod gen;
mod place;
mod rng;
mod run;
mod sel;
mod y;
use run::Ctx;

pub struct Prop {
    pub quick: u64,
    pub f: fn(&mut Ctx),
    pub rule: &'static str,
}
fn prop(id: &str) -> Option<Prop> {
    Some(match id {
        "C01" => Prop { quick: 20000, f: c01::case, rule: c01::RULE },
        "C02" => Prop { quick: 12000, f: c02::case, rule: c02::RULE },
        "C03" => Prop { quick: 12000, f: c03::case, rule: c03::RULE },
        "C04" => Prop { quick: 15000, f: c04::case, rule: c04::RULE },
        "C05" => Prop { quick: 12000, f: c05::case, rule: c05::RULE },
        "C06" => Prop { quick: 20000, f: c06::case, rule: c06::RULE },
        "C07" => Prop { quick: 12000, f: c07::case, rule: c07::RULE },
        "C08" => Prop { quick: 20000, f: c08::case, rule: c08::RULE },
        "C09" => Prop { quick: 20000, f: c09::case, rule: c09::RULE },
        "C10" => Prop { quick: 20000, f: c10::case, rule: c10::RULE },
        "C11" => Prop { quick: 20000, f: c11::case, rule: c11::RULE },
        "C12" => Prop { quick: 20000, f: c12::case, rule: c12::RULE },
        "C13" => Prop { quick: 20000, f: c13::case, rule: c13::RULE },
        "C16" => Prop { quick: 20000, f: c16::case, rule: c16::RULE },
        "C17" => Prop { quick: 20000, f: c17::case, rule: c17::RULE },
        "C14" => Prop { quick: 20000, f: c14::case, rule: c14::RULE },
        "C15" => Prop { quick: 20000, f: c15::case, rule: c15::RULE },
        "C20" => Prop { quick: 20000, f: c20::case, rule: c20::RULE },
        "C18" => Prop { quick: 40000, f: c18::case, rule: c18::RULE },
        "C19" => Prop { quick: 40000, f: c19::case, rule: c19::RULE },
        "C22" => Prop { quick: 30000, f: c22::case, rule: c22::RULE },
        "C24" => Prop { quick: 8000, f: c24::case, rule: c24::RULE },
        "C25" => Prop { quick: 8000, f: c25::case, rule: c25::RULE },
        "C21" => Prop { quick: 12000, f: c21::case, rule: c21::RULE },
        "C23" => Prop { quick: 12000, f: c23::case, rule: c23::RULE },
        "C29" => Prop { quick: 12000, f: c29::case, rule: c29::RULE },
        _ => return None,
    })
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let id = a.get(1).cloned().unwrap_or_default();
    if let Some(what) = id.strip_prefix('@') {
        let f = std::path::Path::new(&a[2]);
        let r = match what {
            "mmap" => svdtools::mmap::mmap_cli::parse_device(f),
            "interrupts" => svdtools::interrupts::interrupts_cli::parse_device(f, false),
            _ => svdtools::interrupts::interrupts_cli::parse_device(f, true),
        };
        if let Err(e) = r {
            eprintln!("{e:#}");
            std::process::exit(1)
        }
        return;
    }
    let Some(p) = prop(&id) else {
        eprintln!("vh: unknown property {id}");
        std::process::exit(3)
    };
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let mult: f64 = get("--mult").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let verbose = a.iter().any(|x| x == "-v");
    if std::env::var("VH_PANIC").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let one = get("--case").and_then(|s| s.parse::<u64>().ok());
    let n = (p.quick as f64 * mult) as u64;
    let limit = get("--limit").and_then(|s| s.parse::<u64>().ok()).unwrap_or(600);
    let scratch = get("--scratch").unwrap_or_else(|| format!("/tmp/vh.{}", std::process::id()));
    let t0 = std::time::Instant::now();
    let nt: u64 = if one.is_some() { 1 } else { 8 };
    let hs: Vec<_> = (0..nt)
        .map(|t| {
            let (id, scratch, f) = (id.clone(), scratch.clone(), p.f);
            std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                let mut c = Ctx::new(&id, seed);
                c.scratch = format!("{scratch}/{t}");
                if let Some(k) = one {
                    c.k = k;
                    f(&mut c);
                    return c;
                }
                let mut k = t;
                while k < n && c.failures.len() < 6 && t0.elapsed().as_secs() < limit {
                    c.k = k;
                    // a case the oracle itself cannot judge counts as skipped, and is listed
                    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut c))).is_err() {
                        c.skipped += 1;
                        c.class(&format!("not judged: case {k}"));
                    }
                    k += nt;
                }
                c
            }).unwrap()
        })
        .collect();
    let mut c = Ctx::new(&id, seed);
    c.rule = p.rule.into();
    for h in hs {
        c.merge(h.join().expect("worker"));
    }
    let _ = std::fs::remove_dir_all(&scratch);
    let mut j = c.json();
    j["wall_s"] = serde_json::json!(t0.elapsed().as_secs_f64());
    let s = serde_json::to_string_pretty(&j).unwrap();
    match get("--out") {
        Some(o) => std::fs::write(o, &s).unwrap(),
        None => {
            if verbose || one.is_some() {
                println!("{s}");
            } else {
                println!("evals {} nontrivial {} skipped {} failures {} {:?} {:.1}s", c.evals, c.nontrivial.len(), c.skipped, c.failures.len(), c.classes, t0.elapsed().as_secs_f64());
                if let Some(f) = j["failures"].get(0) {
                    println!("case {} {}\n{}", f["case"], f["why"].as_str().unwrap(), f["patch"].as_str().unwrap_or(""));
                }
            }
        }
    }
}
