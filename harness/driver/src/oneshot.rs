//! One operation in a fresh process: the value an operation has when nothing came before it.

use crate::ffi::Lib;
use crate::gen::hex;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::process::{Command, Stdio};

#[derive(Serialize, Deserialize)]
pub enum One {
    Keypair(Vec<u8>),
    Enc(Vec<u8>, Vec<u8>),
    Dec(Vec<u8>, Vec<u8>),
    Aes(Vec<u8>, usize),
}

pub fn serve() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).expect("stdin");
    let (path, one): (String, One) = serde_json::from_str(&s).expect("request");
    let lib = Lib::open(&path).expect("shim");
    let out = match one {
        One::Keypair(b) => lib.keypair(&b).map(|k| [k.pk, k.sk].concat()),
        One::Enc(pk, b) => lib.enc(&pk, &b).map(|(c, k)| [c, k.to_vec()].concat()),
        One::Dec(ct, sk) => lib.dec(&ct, &sk).map(|k| k.to_vec()),
        One::Aes(seed, n) => {
            let mut a = lib.aes();
            a.init(&seed.try_into().expect("48 bytes"));
            let mut b = vec![0; n];
            a.random(&mut b);
            Ok(b)
        }
    };
    match out {
        Ok(b) => print!("{}", hex(&b)),
        Err(_) => print!("error"),
    }
}

/// Does `one`, executed first thing in a fresh process, give `got`?
pub fn agrees(lib: &Lib, one: &One, got: &[u8]) -> bool {
    agrees_with(lib, one, |b| b == got)
}
pub fn agrees_with(lib: &Lib, one: &One, f: impl Fn(&[u8]) -> bool) -> bool {
    let mut c = Command::new(std::env::current_exe().expect("own path"))
        .arg("oneshot")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .spawn()
        .expect("fresh process");
    let req = serde_json::to_string(&(&lib.path, one)).unwrap();
    c.stdin.take().unwrap().write_all(req.as_bytes()).expect("request");
    let out = c.wait_with_output().expect("fresh process");
    assert!(out.status.success(), "fresh process failed");
    let t = String::from_utf8_lossy(&out.stdout);
    let b: Option<Vec<u8>> = (0..t.len() / 2).map(|i| u8::from_str_radix(&t[2 * i..2 * i + 2], 16).ok()).collect();
    t.len() % 2 == 0 && b.is_some_and(|b| f(&b))
}
