#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
mod driver;
mod dump;
mod exec;
mod gen;
mod oracle;
mod props;
mod shrink;
pub use simrt::{lang, plan, rng, rt, shm, vfs};

fn main() {
    // One heap: where the simulator's own memory lies must not depend on real thread timing.
    unsafe { libc::mallopt(-8, 1) };
    // Nothing of the library may depend on these; where it does, it has to show.
    for (k, v) in [("HOME", "/x"), ("PWD", "/x/y/z"), ("OLDPWD", "/"), ("TMPDIR", "/w/c d"), ("USER", "q"), ("LANG", "de_DE.ISO-8859-1")] {
        std::env::set_var(k, v);
    }
    let a: Vec<String> = std::env::args().skip(1).collect();
    let arg = |i: usize| a.get(i).map(String::as_str).unwrap_or("");
    let code = match arg(0) {
        "check" => driver::check(arg(1)),
        "replay" => driver::replay(arg(1)),
        "digest" => driver::digest(arg(1), arg(2).parse().unwrap_or(50)),
        "twice" => driver::twice(arg(1), arg(2).parse().unwrap_or(500)),
        "show" => driver::show(arg(1), arg(2).parse().unwrap_or(0)),
        "rerun" => driver::rerun(arg(1)),
        _ => {
            eprintln!("usage: oversim check PROPERTY | replay FILE | digest PROPERTY RUNS | show PROPERTY INDEX");
            2
        }
    };
    std::process::exit(code);
}
