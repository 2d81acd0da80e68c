#[macro_use]
mod out;
mod cli_run;
#[macro_use]
mod clients;
mod direct;
mod gen_scn;
mod hooks;
mod oracle;
mod oracle_cli;
mod run;
#[cfg(feature = "mocks")]
mod mocks;
#[cfg(feature = "packagings")]
mod packagings;
mod runner;
mod spec;

use simcore::{libc_seam, rng, scenario, server, world};

const REAL: &[&str] = &[
    "progenitor-client (the support crate, from /repo's working tree)",
    "clients generated by progenitor-impl from /repo's working tree: positional, builder, builder with tags, both styles with hooks, command line",
    #[cfg(feature = "packagings")]
    "the same clients from the macro (progenitor-macro) and from stand-alone crates written by cargo-progenitor with the support code included",
    #[cfg(feature = "mocks")]
    "mock helpers generated by progenitor-impl from /repo's working tree",
    "reqwest, hyper, hyper-util connection pool, http, url, serde_json, serde_urlencoded, tokio current-thread runtime, mio",
];
const STUBS: &[&str] = &[
    "operating system: sockets, epoll, eventfd, clocks, random numbers (simulated behind the libc symbols)",
    "network and HTTP server (scripted, fault-injecting)",
    #[cfg(feature = "mocks")]
    "the mock library httpmock 0.7 (not available offline): matching by method, path expression, query parameters and JSON body, as documented",
    "generator dependencies that are not available offline (typify, dropshot traits and others; see stand-ins/)",
];

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let num = |k: &str, d: u64| opt(k).map(|v| v.parse().unwrap()).unwrap_or(d);
    simcore::on_bail(run::bail);
    let code = match a.first().map(|s| s.as_str()) {
        Some("worker") => {
            runner::worker(&a[1..]);
            0
        }
        Some("check") => {
            let root = opt("--root").unwrap_or("/verif".into());
            let prop = a[1].clone();
            let s = runner::Search {
                seed: num("--seed", 1),
                runs: num("--runs", 1000),
                workers: num("--workers", 8),
                wall: std::time::Duration::from_secs(num("--wall", 60)),
                tier: opt("--tier").unwrap_or("quick".into()),
                findings: format!("{root}/known-findings.txt"),
                replay_dir: opt("--replays").unwrap_or(format!("{root}/build/replays")),
                evidence: format!("{root}/evidence/{prop}.json"),
                prop,
            };
            runner::check(&s, REAL, STUBS)
        }
        // Developer's view: one line for each rule broken, without minimising.
        Some("scan") => {
            let s = runner::Search {
                seed: num("--seed", 1),
                runs: num("--runs", 1000),
                workers: 8,
                wall: std::time::Duration::from_secs(num("--wall", 120)),
                tier: "scan".into(),
                findings: opt("--findings").unwrap_or("/verif/known-findings.txt".into()),
                replay_dir: "/tmp".into(),
                evidence: String::new(),
                prop: a[1].clone(),
            };
            let t = std::time::Instant::now();
            let f = runner::search(&s, &runner::known(&s.findings));
            let mut m: std::collections::BTreeMap<(String, String), (u64, u64, String)> = Default::default();
            let mut sorted = f.viols.clone();
            sorted.sort_by_key(|x| x.0);
            for (i, v) in sorted {
                let e = m.entry((v.rule.clone(), v.sig.clone().into())).or_insert((0, i, v.msg.chars().take(700).collect()));
                e.0 += 1;
            }
            println!("{} runs {} in {:.1}s harness {} {:?} known {:?}", a[1], f.reports, t.elapsed().as_secs_f64(), f.harness.len(), f.harness.first(), f.known);
            for ((r, sig), (n, i, msg)) in m {
                println!("  {r} [{sig}] x{n}, first run {i}: {msg}");
            }
            0
        }
        Some("replay") => runner::replay(&a[1]),
        Some("selftest") => runner::selftest(&a[1], num("--seed", 1), num("--runs", 200)),
        Some("gen") => {
            let sc = gen_scn::scenario(runner::spec(), &a[1], num("--seed", 1), a[2].parse().unwrap());
            println!("{}", serde_json::to_string_pretty(&sc).unwrap());
            0
        }
        // One run of the search, with its trace.
        Some("show") => {
            let sc = gen_scn::scenario(runner::spec(), &a[1], num("--seed", 1), a[2].parse().unwrap());
            let r = runner::judge(&sc, true);
            for l in &r.lines {
                print!("{l}");
            }
            println!("{:#?} {:?}", r.viols, r.harness);
            0
        }
        Some("run") => {
            let sc: scenario::Scenario = serde_json::from_str(&std::fs::read_to_string(&a[1]).unwrap()).unwrap();
            run::execute(&sc, true, |st, w| {
                for l in &w.lines {
                    print!("{l}");
                }
                println!("{:#?}", st.outs);
                println!("hash {:x} shape {:x}", w.trace.0, w.shape.0);
                let mut j = oracle::Judge::new(st, w, runner::spec());
                j.run();
                println!("{:#?}", j.v);
            });
            0
        }
        _ => {
            eprintln!("usage: sim check|replay|selftest|gen|show|run …");
            2
        }
    };
    std::process::exit(code);
}
