#![feature(rustc_private)]
#![allow(dead_code)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod checks;
mod form;
mod interp;
mod lower;
mod mem;
mod models;
mod run;
mod spec;
mod term;

use rustc_driver::{Callbacks, Compilation};
use rustc_middle::ty::TyCtxt;

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        checks::main(tcx);
        Compilation::Continue
    }
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER: argv = [kemcheck, rustc, args...]
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        eprintln!("kemcheck is run by cargo as a rustc wrapper");
        std::process::exit(2);
    }
    let is_harness = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "kemharness");
    let rest: Vec<String> = args[1..].to_vec();
    if !is_harness {
        let st = std::process::Command::new(&rest[0]).args(&rest[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(2));
    }
    let prop = std::env::var("KEMCHECK_PROP").unwrap_or_default();
    if prop.contains('+') {
        // several properties of one build: each in its own process, then the build itself
        several(&args, &prop);
        std::env::set_var("KEMCHECK_PROP", "none");
    }
    rustc_driver::install_ice_hook("kemcheck", |_| ());
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&rest, &mut Cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 2 });
}

/// one analysis process per property, its compiler output in a scratch directory
fn several(args: &[String], props: &str) {
    let out = std::env::var("KEMCHECK_OUT").unwrap_or_default();
    let jobs: usize = std::env::var("KEMCHECK_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let budget: u64 = std::env::var("KEMCHECK_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let t0 = std::time::Instant::now();
    let todo = std::sync::Mutex::new(props.split('+').rev().map(String::from).collect::<Vec<_>>());
    std::thread::scope(|sc| {
        for _ in 0..jobs {
            sc.spawn(|| loop {
                let Some(p) = todo.lock().unwrap().pop() else { return };
                let dir = format!("{out}.{p}.dir");
                let _ = std::fs::create_dir_all(&dir);
                let mut a = args[1..].to_vec();
                for i in 1..a.len() {
                    if a[i - 1] == "--out-dir" {
                        a[i] = dir.clone();
                    }
                }
                let log = std::fs::File::create(format!("{out}.{p}.log")).expect("log file");
                let child = std::process::Command::new(&args[0])
                    .args(&a)
                    .env("KEMCHECK_PROP", &p)
                    .env("KEMCHECK_OUT", format!("{out}.{p}"))
                    .stdout(std::process::Stdio::null())
                    .stderr(log)
                    .spawn();
                if let Ok(mut c) = child {
                    while let Ok(None) = c.try_wait() {
                        if t0.elapsed().as_secs() >= budget {
                            let _ = c.kill();
                            let _ = c.wait();
                            let _ = std::fs::write(format!("{out}.{p}.late"), "");
                            break;
                        }
                        std::thread::sleep(std::time::Duration::from_millis(100));
                    }
                }
                let _ = std::fs::remove_dir_all(&dir);
            });
        }
    });
}
