//! rpsim: deterministic simulation of ruruby-parse.
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod case;
mod cli;
mod corpus;
mod cov;
mod damage;
mod dbg;
mod driver;
mod gen;
mod job;
mod lits;
mod mem;
mod os;
mod rng;
mod sched;
mod scope;
mod sut;

use driver::*;
use std::path::PathBuf;

#[global_allocator]
static SEAM: mem::Seam = mem::Seam;

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("RPSIM_ROOT").unwrap_or_else(|_| "/verif".into()))
}
pub fn scratch() -> PathBuf {
    let d = root().join("target/run");
    let _ = std::fs::create_dir_all(&d);
    d
}

fn props() -> Vec<Box<dyn Prop>> {
    vec![Box::new(c01::C01), Box::new(c02::C02), Box::new(c03::C03), Box::new(c04::C04), Box::new(c05::C05), Box::new(c06::C06), Box::new(c07::C07), Box::new(c08::C08), Box::new(c09::C09), Box::new(c10::C10), Box::new(c11::C11)]
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::env::set_var("RUST_BACKTRACE", "0");
    let num = |k: &str, d: f64| -> f64 {
        a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).and_then(|v| v.parse().ok()).unwrap_or(d)
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let o = Options {
        seed: num("--seed", seed as f64) as u64,
        thorough: std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough") || a.iter().any(|x| x == "--thorough"),
        workers: num("--workers", std::thread::available_parallelism().map_or(4, |n| n.get()) as f64) as usize,
        scale: num("--scale", 1.0),
        wall: num("--wall", if std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough") { 3000.0 } else { 420.0 }) as u64,
        keep_going: a.iter().any(|x| x == "--keep-going"),
    };
    let ps = props();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = a.get(2).cloned().unwrap_or_default();
            match ps.iter().find(|p| p.id() == id) {
                Some(p) => std::process::exit(check(p.as_ref(), &o)),
                None => {
                    println!("error: no check for {}", id);
                    std::process::exit(2)
                }
            }
        }
        Some("replay") => {
            let t = std::fs::read_to_string(a.get(2).cloned().unwrap_or_default()).unwrap_or_default();
            let Some(c) = case::Case::parse(&t) else {
                println!("error: not a replay file");
                std::process::exit(2)
            };
            match ps.iter().find(|p| p.id() == c.prop) {
                Some(p) => std::process::exit(replay(p.as_ref(), &c)),
                None => std::process::exit(2),
            }
        }
        Some("show") => {
            let code = a.get(2).cloned().unwrap_or_default();
            sut::install_hook();
            sut::verbose_panics();
            let s0 = cov::steps();
            let r = sut::guard(|| sut::parse(sut::Entry::from(num("--entry", 0.0) as i64), &code, "a.rb", None, None));
            println!("steps {}", cov::steps() - s0);
            match r {
                Ok(r) => {
                    println!("{}", sut::show(&r));
                }
                Err(p) => println!("panic {:?}", p),
            }
        }
        Some("dump") => {
            // generated programs, for looking at what they reach
            for i in 0..num("--n", 1000.0) as u64 {
                let mut r = rng::Rng::derive(o.seed, &[i]);
                let fuel = *r.pick(&[6, 12, 30, 80]);
                let x = gen::Gen::wide_program(&mut r, fuel);
                print!("{}\0", gen::print(&x, &[]).text);
            }
        }
        Some("soak") => {
            sut::install_hook();
            sut::verbose_panics();
            let n = num("--n", 1000.0) as u64;
            let bad = |x: &gen::T| -> Option<String> {
                let p = gen::print(x, &[]);
                match sut::guard(|| sut::parse(sut::Entry::Program, &p.text, "a.rb", None, None)) {
                    Ok(Ok(_)) => None,
                    Ok(Err(e)) => Some(format!("{:?} {:?}", e.kind, e.loc)),
                    Err(p) => Some(format!("panic {:?}", p)),
                }
            };
            let mut seen = 0;
            for i in 0..n {
                let mut r = rng::Rng::derive(o.seed, &[i]);
                let fuel = *r.pick(&[6, 12, 30, 80]);
                let mut x = gen::Gen::program(&mut r, fuel);
                if bad(&x).is_none() {
                    continue;
                }
                seen += 1;
                if seen > num("--max", 10.0) as u64 {
                    continue;
                }
                let mut tries = 0;
                'l: loop {
                    for s in x.shrinks() {
                        tries += 1;
                        if tries > 20000 {
                            break 'l;
                        }
                        if bad(&s).is_some() && s.text().len() < x.text().len() {
                            x = s;
                            continue 'l;
                        }
                    }
                    break;
                }
                println!("---- {} {}\n{}\n{}", i, bad(&x).unwrap(), x.text(), gen::print(&x, &[]).text);
            }
            println!("{} of {} bad", seen, n);
        }
        _ => {
            println!("usage: rpsim check <ID> | replay <file> | show <code>");
            std::process::exit(2)
        }
    }
}
