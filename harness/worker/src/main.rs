//! worker [fresh|taint]: one answer line per request line; with valgrind, the answer is preceded by
//! the number of errors the operation caused.

use std::io::{BufRead, Write};
use worker::{answer, vg, Mode};

fn main() {
    let mode = match std::env::args().nth(1).as_deref() {
        Some("fresh") => Mode::Fresh,
        Some("taint") => Mode::Taint,
        _ => Mode::Plain,
    };
    if mode != Mode::Plain && !vg::running() {
        eprintln!("not running under valgrind");
        std::process::exit(3);
    }
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.expect("input");
        let before = vg::errors();
        let a = std::panic::catch_unwind(|| answer(&line, mode)).unwrap_or_else(|_| "panic".into());
        if mode == Mode::Plain {
            writeln!(out, "{a}").expect("output");
        } else {
            writeln!(out, "{} {a}", vg::errors() - before).expect("output");
        }
        out.flush().expect("output");
    }
}
