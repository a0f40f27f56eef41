#![recursion_limit = "1024"]
#![allow(clippy::all, dead_code)]
mod common;
mod mock;
mod props;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    if id == "--sdl-batch" {
        // configurations that may bring a process down, in one of their own
        common::install_panic_hook();
        std::process::exit(props::c25::probe(&args[2]));
    }
    if id == "--c28" {
        std::process::exit(props::c28::child(&args[2..]));
    }
    if id == "--c21" {
        common::install_panic_hook();
        std::process::exit(props::c21::child(&args[2]));
    }
    let mut only = None;
    let mut root = std::path::PathBuf::from("/verif");
    let mut i = 2;
    while i < args.len() {
        match args[i].as_str() {
            "--section" => { only = args.get(i + 1).cloned(); i += 1; }
            "--root" => { root = args[i + 1].clone().into(); i += 1; }
            _ => {}
        }
        i += 1;
    }
    let ctx = common::Ctx::new(&id, root, only);
    common::install_panic_hook();
    ctx.watchdog(std::time::Duration::from_secs(if ctx.thorough { 3600 } else { 240 }));
    let c = ctx.clone();
    // a deep stack: generated documents may nest
    let code = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            if !props::run(&c) {
                eprintln!("unknown property {}", c.id);
                return 2;
            }
            c.finish()
        })
        .unwrap()
        .join();
    match code {
        Ok(c) => std::process::exit(c),
        Err(_) => {
            println!("INCONCLUSIVE property={} the harness itself failed: {}", id, common::last_panic());
            std::process::exit(2)
        }
    }
}
