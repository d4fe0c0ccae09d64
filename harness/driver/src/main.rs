mod engine;
mod ffi;
mod gen;
mod oneshot;
mod props;
mod remote;

use engine::*;
use ffi::Lib;
use props::*;
use refmodel::ALL;
use std::path::PathBuf;
use std::process::exit;

fn usage() -> ! {
    eprintln!("usage: driver check <property> | driver replay <file>   (see check.sh)");
    exit(2)
}

fn open(path: PathBuf) -> Lib {
    Lib::open(path.to_str().unwrap()).unwrap_or_else(|e| {
        eprintln!("{e}");
        exit(2)
    })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 2 && args[1] == "oneshot" {
        return oneshot::serve();
    }
    if args.len() != 3 {
        usage();
    }
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64;
    let (id, replay_of) = match args[1].as_str() {
        "check" => (args[2].clone(), None),
        "replay" => {
            let t = std::fs::read_to_string(&args[2]).unwrap_or_else(|e| {
                eprintln!("{}: {e}", args[2]);
                exit(2)
            });
            let v: serde_json::Value = serde_json::from_str(&t).unwrap_or_else(|e| {
                eprintln!("{}: {e}", args[2]);
                exit(2)
            });
            (v["property"].as_str().unwrap_or("").to_string(), Some((v, args[2].clone())))
        }
        _ => usage(),
    };
    let out = verif.join("target/out");
    let libs: Vec<[Lib; 2]> = ALL
        .iter()
        .map(|p| ["plain", "checked"].map(|f| open(out.join(format!("{}-{f}.so", p.name)))))
        .collect();
    for (p, ls) in ALL.iter().zip(&libs) {
        for l in ls {
            let i = &l.info;
            if id != "C15" && (i.pk, i.sk, i.ct, i.ss) != (p.pk, p.sk, p.ct, 32) {
                // every other property presupposes the sizes C15 is about
                eprintln!("{}: unexpected sizes {i:?}", p.name);
                exit(2);
            }
        }
        assert!(!ls[0].info.checked && ls[1].info.checked);
    }
    let env = Env {
        libs,
        tier,
        seed,
        evidence: verif.join(format!("evidence/{id}.json")),
        replays: verif.join("replays"),
        verif: verif.clone(),
    };
    fn go<P: Prop>(p: P, env: &Env, r: Option<(serde_json::Value, String)>) -> Result<Outcome, String> {
        match r {
            None => run(&p, env),
            Some((v, path)) => replay(&p, env, &v, &path),
        }
    }
    let r = replay_of;
    let res = match id.as_str() {
        "C01" => go(kem::C01, &env, r),
        "C02" => go(kem::C02, &env, r),
        "C03" => go(kem::C03, &env, r),
        "C04" => go(kem::C04, &env, r),
        "C05" => go(reject::C05, &env, r),
        "C06" => go(reject::C06, &env, r),
        "C07" => go(kem::C07, &env, r),
        "C08" => go(space::C08, &env, r),
        "C09" => go(kem::C09, &env, r),
        "C10" => go(hist::C10, &env, r),
        "C11" => go(drbg::C11, &env, r),
        "C12" => go(drbg::C12, &env, r),
        "C13" => go(hist::C13, &env, r),
        "C14" => {
            let traced = ALL
                .iter()
                .map(|p| ct::LEVELS.map(|l| open(out.join(format!("{}-{l}.so", p.name)))))
                .collect();
            go(ct::C14::new(traced), &env, r)
        }
        "C15" => go(proc::C15, &env, r),
        "C16" => go(proc::C16::new(&out), &env, r),
        "C17" => go(space::C17, &env, r),
        "C18" => go(plat::C18, &env, r),
        "C19" => go(inj::C19, &env, r),
        "C21" => go(drbg::C21, &env, r),
        "C20" => go(plat::C20, &env, r),
        "C22" => go(res::C22, &env, r),
        "C23" => go(sys::C23, &env, r),
        _ => usage(),
    };
    match res {
        Ok(Outcome::Held) => exit(0),
        Ok(Outcome::Violated) => exit(1),
        Err(e) => {
            eprintln!("error: {e}");
            exit(2)
        }
    }
}
