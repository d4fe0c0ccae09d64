//! C15 (feature combinations) and C16 (known-answer tool): checks that run other programs.

use crate::engine::*;
use crate::ffi::{Feed, Lib, Res};
use crate::gen::*;
use proptest::prelude::*;
use refmodel::{Drbg, Params, ALL};
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;

// ---- C15 --------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C15Case {
    /// bit i: feature of variant i selected
    mask: u8,
}
pub struct C15;
impl Prop for C15 {
    type Case = C15Case;
    const ID: &'static str = "C15";
    const RULE: &'static str = "all 16 subsets of the four variant features, each built with cargo (exhaustive). Subsets of two or more must fail to build; the others are loaded: name and sizes are compared with the NTRU round-3 table, and the three operations are run on differently pre-filled buffers with random and patterned inputs, so that every byte of the announced sizes must be written. Every subset is non-trivial.";
    fn strategy(&self, _p: &Params, v: usize) -> BoxedStrategy<C15Case> {
        Just(C15Case { mask: v as u8 }).boxed()
    }
    fn cases(&self, _t: Tier, _v: usize) -> usize {
        0
    }
    fn pinned(&self, _t: Tier, p: &Params) -> Vec<C15Case> {
        // the sixteen subsets, spread over the four work items
        let v = ALL.iter().position(|x| x == p).unwrap() as u8;
        (0..16).filter(|m| m % 4 == v).map(|mask| C15Case { mask }).collect()
    }
    fn threads(&self) -> usize {
        4
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["a failed build of two or more features fails because of the exclusion (single-feature builds of the same tree succeed in the same run)".into()]
    }
    fn run(&self, env: &Env, _p: &Params, _v: usize, c: &C15Case) -> Result<Obs, String> {
        let feats: Vec<&str> = (0..4).filter(|i| c.mask >> i & 1 == 1).map(|i| ALL[i].name).collect();
        let dir = env.verif.join(format!("target/c15/{}", c.mask));
        let lib = dir.join("plain/libshim.so");
        let _ = std::fs::remove_file(&lib);
        let out = Command::new("cargo")
            .args(["build", "--offline", "--locked", "--quiet", "--profile", "plain", "--manifest-path"])
            .arg(env.verif.join("harness/shim/Cargo.toml"))
            .arg("--target-dir")
            .arg(&dir)
            .args(["--features", &feats.join(",")])
            .env_remove("RUSTFLAGS")
            .stdin(Stdio::null())
            .output()
            .map_err(|e| format!("cargo: {e}"))
            .expect("cargo runs");
        let built = out.status.success() && lib.exists();
        if feats.len() > 1 {
            return if built {
                Err(format!("features {feats:?} build together"))
            } else {
                Ok(Obs::ok(vec!["several features: build refused"]))
            };
        }
        if !built {
            let e = String::from_utf8_lossy(&out.stderr);
            return Err(format!("features {feats:?} do not build: {}", e.lines().take(6).collect::<Vec<_>>().join(" / ")));
        }
        let p = feats.first().map(|n| ALL.iter().find(|p| p.name == *n).unwrap()).unwrap_or(&ALL[0]);
        let lib = Lib::open(lib.to_str().unwrap()).expect("shim loads");
        if !lib.matches(p) {
            return Err(format!("features {feats:?}: reports {:?}, expected {p:?}", lib.info));
        }
        let n = if env.tier == Tier::Quick { 60 } else { 1000 };
        let mut r = Sm(env.seed);
        for i in 0..n {
            let kb = r.bytes(p.sample_bytes() + 32);
            let mb = r.bytes(p.sample_bytes());
            let mut outs = vec![];
            for d in [0x00u8, 0xff] {
                let (mut pk, mut sk) = (vec![d; p.pk], vec![d; p.sk]);
                let (mut ct, mut k1, mut k2) = (vec![d; p.ct], vec![d; 32], vec![d; 32]);
                for x in [
                    lib.keypair_into(&mut Feed::new(&kb), &mut pk, &mut sk),
                    lib.enc_into(&mut Feed::new(&mb), &pk, &mut ct, &mut k1),
                    lib.dec_into(&ct, &sk, &mut k2),
                ] {
                    if x != Res::Ok {
                        return Err(format!("features {feats:?}, round {i}: {x:?}"));
                    }
                }
                outs.push((pk, sk, ct, k1, k2));
            }
            let (a, b) = (&outs[0], &outs[1]);
            diff("public key depends on the previous buffer contents", &a.0, &b.0)?;
            diff("secret key depends on the previous buffer contents", &a.1, &b.1)?;
            diff("ciphertext depends on the previous buffer contents", &a.2, &b.2)?;
            diff("shared key (sender) depends on the previous buffer contents", &a.3, &b.3)?;
            diff("shared key (receiver) depends on the previous buffer contents", &a.4, &b.4)?;
        }
        Ok(Obs {
            nontrivial: true,
            labels: vec![if feats.is_empty() { "no feature: default variant" } else { "one feature" }],
            evals: 1 + n,
            inner: vec![],
        })
    }
}

// ---- C16 --------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum How {
    /// one hex digit (at a position) changed by 1..15
    Digit(Pos, u8),
    /// value of the same field of another record
    Swap(u8),
    /// all zero
    Zero,
    /// last byte missing
    Short,
    /// one byte too many
    Long,
    /// not hexadecimal
    NotHex(Pos),
    /// empty value
    Empty,
    /// line removed
    Gone,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C16Case {
    Generate,
    Alter { record: u8, field: u8, how: How },
    /// cut after this many bytes of the last record / of the file
    Cut { last: bool, at: Pos },
    /// cut before that line of that record
    CutBefore { record: u8, line: u8 },
    /// whole record removed (so that 99 remain)
    Remove { record: u8 },
}
const FIELDS: [&str; 5] = ["seed", "pk", "sk", "ct", "ss"];

pub struct C16 {
    bins: PathBuf,
    scratch: PathBuf,
    expected: [OnceLock<(String, Vec<[String; 5]>)>; 4],
}
impl C16 {
    pub fn new(bins: &Path) -> C16 {
        let scratch = std::env::temp_dir().join(format!("kat-{}", std::process::id()));
        std::fs::create_dir_all(&scratch).expect("scratch directory");
        C16 { bins: bins.into(), scratch, expected: Default::default() }
    }
    /// (request file, the fields of the 100 records) from the model
    fn model(&self, v: usize) -> &(String, Vec<[String; 5]>) {
        self.expected[v].get_or_init(|| {
            let p = &ALL[v];
            let mut d = Drbg::new();
            d.init(&std::array::from_fn(|i| i as u8));
            let up = |b: &[u8]| hex(b).to_uppercase();
            let mut req = String::new();
            let mut recs = vec![];
            for i in 0..100 {
                let mut seed = [0; 48];
                d.random(&mut seed);
                let mut e = Drbg::new();
                e.init(&seed);
                let mut s = vec![0; p.sample_bytes()];
                let mut prf = [0; 32];
                e.random(&mut s);
                e.random(&mut prf);
                let (pk, sk) = p.keypair(&s, &prf).expect("reference keys");
                e.random(&mut s);
                let (ct, ss) = p.enc(&pk, &s);
                req += &format!("count = {i}\nseed = {}\npk = \nsk = \nct = \nss = \n\n", up(&seed));
                recs.push([up(&seed), up(&pk), up(&sk), up(&ct), up(&ss)]);
            }
            (req, recs)
        })
    }
    fn rsp(p: &Params, recs: &[[String; 5]]) -> String {
        let mut s = format!("# {}\n\n", p.name);
        for (i, r) in recs.iter().enumerate() {
            s += &format!("count = {i}\n");
            for (n, x) in FIELDS.iter().zip(r) {
                s += &format!("{n} = {x}\n");
            }
            s.push('\n');
        }
        s
    }
    fn tool(&self, p: &Params, args: &[&Path]) -> bool {
        let st = Command::new(self.bins.join(format!("katkem-{}", p.name)))
            .args(args)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status()
            .expect("known-answer tool runs");
        st.success()
    }
}
impl Drop for C16 {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.scratch);
    }
}

impl Prop for C16 {
    type Case = C16Case;
    const ID: &'static str = "C16";
    const RULE: &'static str = "pinned: generate both files and compare them with the model's 100 records, verify the generated file; every field of every record altered once, the file cut before every record and before every line of the last. Random: alter one field of any record (digit, other record's value, zero, short, long, not hex, empty, removed), cut the file at any byte before the last record is complete, remove a record; the tool must exit with failure. Non-trivial: the file really differs from the good one in a checked field.";
    fn level(&self) -> &'static str {
        "exploration"
    }
    fn strategy(&self, _p: &Params, _v: usize) -> BoxedStrategy<C16Case> {
        let how = prop_oneof![
            6 => (pos(), 1u8..16).prop_map(|(a, b)| How::Digit(a, b)),
            2 => (0u8..100).prop_map(How::Swap),
            1 => Just(How::Zero),
            1 => Just(How::Short),
            1 => Just(How::Long),
            1 => pos().prop_map(How::NotHex),
            1 => Just(How::Empty),
            1 => Just(How::Gone),
        ];
        prop_oneof![
            6 => (0u8..100, 0u8..5, how).prop_map(|(record, field, how)| C16Case::Alter { record, field, how }),
            2 => (any::<bool>(), pos()).prop_map(|(last, at)| C16Case::Cut { last, at }),
            1 => (0u8..100).prop_map(|record| C16Case::Remove { record }),
        ]
        .boxed()
    }
    fn cases(&self, t: Tier, _v: usize) -> usize {
        match t {
            Tier::Quick => 200,
            Tier::Thorough => 3_000,
        }
    }
    fn shard(&self) -> usize {
        8
    }
    fn pinned(&self, _t: Tier, _p: &Params) -> Vec<C16Case> {
        let mut v = vec![C16Case::Generate];
        for record in [0u8, 57, 99] {
            for field in 0..5 {
                v.push(C16Case::Alter { record, field, how: How::Digit(Pos::End(0), 1) });
                v.push(C16Case::Alter { record, field, how: How::Digit(Pos::Start(0), 8) });
            }
        }
        // every field of every record once
        for record in 0..100 {
            for field in 0..5 {
                let k = record as usize * 5 + field as usize;
                let at = Pos::At((k * 40503 % 65536) as u16);
                let how = How::Digit(at, 1 << (k % 4));
                v.push(C16Case::Alter { record, field, how });
            }
            v.push(C16Case::CutBefore { record, line: 0 });
        }
        for line in 1..6 {
            v.push(C16Case::CutBefore { record: 99, line });
        }
        v
    }
    fn run(&self, _env: &Env, p: &Params, v: usize, c: &C16Case) -> Result<Obs, String> {
        let (req, good) = self.model(v);
        let tag = format!("{}-{:x}", v, hash_of(format!("{c:?}{:?}", std::thread::current().id())));
        let file = self.scratch.join(format!("{tag}.rsp"));
        let good_rsp = C16::rsp(p, good);
        let mut recs = good.clone();
        let text = match c {
            C16Case::Generate => {
                let rf = self.scratch.join(format!("{tag}.req"));
                if !self.tool(p, &[&rf, &file]) {
                    return Err("the known-answer tool fails to generate".into());
                }
                let (a, b) = (std::fs::read_to_string(&rf).unwrap_or_default(), std::fs::read_to_string(&file).unwrap_or_default());
                let ok = self.tool(p, &[&file]);
                let _ = (std::fs::remove_file(&rf), std::fs::remove_file(&file));
                for (what, got, want) in [("request", &a, req), ("response", &b, &good_rsp)] {
                    if got != want {
                        let l = got.lines().zip(want.lines()).position(|(x, y)| x != y);
                        return Err(format!("{what} file differs from the reference at line {l:?} (0-based)"));
                    }
                }
                if !ok {
                    return Err("the known-answer tool rejects its own response file".into());
                }
                return Ok(Obs::ok(vec!["generation and verification"]));
            }
            C16Case::Alter { record, field, how } => {
                let (i, f) = (*record as usize % 100, *field as usize % 5);
                let old = recs[i][f].clone();
                let mut x = old.clone().into_bytes();
                match how {
                    How::Digit(q, d) => {
                        let k = q.of(x.len());
                        let n = (x[k] as char).to_digit(16).unwrap() ^ (*d as u32 & 15).max(1);
                        x[k] = format!("{n:X}").as_bytes()[0];
                    }
                    How::Swap(o) => x = good[*o as usize % 100][f].clone().into_bytes(),
                    How::Zero => x.fill(b'0'),
                    How::Short => x.truncate(x.len() - 2),
                    How::Long => x.extend(b"00"),
                    How::NotHex(q) => {
                        let k = q.of(x.len());
                        x[k] = b'X';
                    }
                    How::Empty => x.clear(),
                    How::Gone => {}
                }
                let new = String::from_utf8(x).unwrap();
                if let How::Gone = how {
                    let t = C16::rsp(p, &recs);
                    t.replacen(&format!("{} = {}\n", FIELDS[f], old), "", 1)
                } else {
                    if new == old {
                        return Ok(Obs::trivial("unaltered"));
                    }
                    recs[i][f] = new;
                    C16::rsp(p, &recs)
                }
            }
            C16Case::Cut { last, at } => {
                // up to, but not including, the last digit of the last shared key
                let end = good_rsp.trim_end().len();
                let start = if *last { good_rsp.rfind("count").unwrap() } else { 0 };
                good_rsp[..start + at.of(end - start)].to_string()
            }
            C16Case::CutBefore { record, line } => {
                let n = 2 + 7 * (*record as usize % 100) + *line as usize % 6;
                good_rsp.split_inclusive('\n').take(n).collect()
            }
            C16Case::Remove { record } => {
                recs.remove(*record as usize % 100);
                C16::rsp(p, &recs)
            }
        };
        std::fs::write(&file, text).expect("scratch file");
        let ok = self.tool(p, &[&file]);
        let _ = std::fs::remove_file(&file);
        if ok {
            return Err("the known-answer tool accepts an altered response file".into());
        }
        Ok(Obs::ok(vec![match c {
            C16Case::Alter { .. } => "altered field rejected",
            C16Case::Cut { .. } | C16Case::CutBefore { .. } => "truncated file rejected",
            _ => "missing record rejected",
        }]))
    }
}
