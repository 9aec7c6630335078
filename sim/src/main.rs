#![feature(thread_local)]
#![allow(static_mut_refs, non_upper_case_globals)]
#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
mod audit;
mod check;
mod exec;
mod fs;
mod gen;
mod hooks;
mod rt;
mod scen;
mod search;
mod shrink;
mod stats;
mod tsan;
mod worker;

use scen::Scenario;

fn usage() -> ! {
    eprintln!("usage: candysim search PROP [key=value ..] | one PROP SEED [trace] | replay FILE [trace] | selftest PROP N");
    std::process::exit(2)
}
fn show(o: &worker::Outcome, trace: bool) {
    if trace {
        print!("{}", o.trace);
    }
    let st = ["?", "ok", "VIOLATION", "harness", "timeout"][o.status as usize];
    println!(
        "{st} class={} steps={} switches={} hash={:016x} crashes={:?} faults={} time={}us\n{}",
        o.class,
        o.steps,
        o.switches,
        o.hash,
        o.crashes,
        o.faults.len(),
        o.now / 1000,
        o.msg
    );
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        usage();
    }
    worker::init_shm();
    match a[1].as_str() {
        "search" => std::process::exit(search::search(&a[2], &a[3..])),
        "one" => {
            let sc = gen::scenario(&a[2], a[3].parse().unwrap(), false);
            let tr = a.len() > 4;
            if tr {
                print!("{}", sc.text());
            }
            let o = shrink::attempt(&sc, tr);
            show(&o, tr);
        }
        "replay" => {
            let t = std::fs::read_to_string(&a[2]).unwrap_or_else(|e| {
                eprintln!("{}: {e}", a[2]);
                std::process::exit(2)
            });
            let sc = Scenario::parse(&t).unwrap_or_else(|e| {
                eprintln!("{}: {e}", a[2]);
                std::process::exit(2)
            });
            let tr = a.len() > 3;
            let o = shrink::attempt(&sc, tr);
            show(&o, tr);
            std::process::exit(if shrink::fails(&o) {
                println!("VIOLATION property={} replay={}", sc.prop, a[2]);
                1
            } else if o.status == worker::S_OK {
                0
            } else {
                3
            });
        }
        "shrink" => {
            let sc = gen::scenario(&a[2], a[3].parse().unwrap(), false);
            let o = shrink::attempt(&sc, false);
            if !shrink::fails(&o) {
                show(&o, false);
                return;
            }
            let (s, n) = shrink::shrink(&sc, &o.class, std::time::Instant::now() + std::time::Duration::from_secs(60));
            let o = shrink::attempt(&s, true);
            std::fs::write("/tmp/shrunk.txt", s.text()).unwrap();
            print!("{}", s.text());
            show(&o, true);
            println!("{n} runs, /tmp/shrunk.txt");
        }
        "selftest" => {
            // the same seed must give the same execution, also in its explicit form
            let n: u64 = a[3].parse().unwrap();
            let (mut bad, mut expl) = (0, 0);
            for seed in 0..n {
                let sc = gen::scenario(&a[2], seed, false);
                let x = shrink::attempt(&sc, true);
                let y = shrink::attempt(&Scenario::parse(&sc.text()).unwrap(), true);
                if x.hash != y.hash || x.steps != y.steps {
                    println!("seed {seed}: {:016x} {} / {:016x} {}", x.hash, x.steps, y.hash, y.steps);
                    std::fs::write(format!("/tmp/x{seed}.trace"), &x.trace).unwrap();
                    std::fs::write("/tmp/y.trace", &y.trace).unwrap();
                    bad += 1;
                }
                if let Some(e) = shrink::explicit(&sc, &x) {
                    let z = shrink::attempt(&Scenario::parse(&e.text()).unwrap(), true);
                    expl += 1;
                    if z.hash != x.hash || z.steps != x.steps || z.class != x.class {
                        println!("seed {seed} explicit: {:016x} {} / {:016x} {}", x.hash, x.steps, z.hash, z.steps);
                        std::fs::write(format!("/tmp/x{seed}.trace"), &x.trace).unwrap();
                        std::fs::write(format!("/tmp/z{seed}.trace"), &z.trace).unwrap();
                        bad += 1;
                    }
                }
            }
            println!("{n} seeds run twice, {expl} replayed from their explicit form, {bad} differences");
            std::process::exit((bad > 0) as i32);
        }
        _ => usage(),
    }
}
