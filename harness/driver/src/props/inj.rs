//! C19: different samples give different results, equal samples equal results.

use crate::engine::*;
use crate::gen::*;
use proptest::prelude::*;
use refmodel::Params;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Edit {
    Xor(u8),
    /// next byte of the same residue modulo 3
    Three,
    /// exchange with the byte this far behind
    Swap(u8),
}
/// part of the RNG bytes (first half, second half, rejection secret), position, change
pub type Change = (u8, Pos, Edit);

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C19Case {
    key: Key,
    /// encapsulation to that key; None: the key generation itself
    msg: Option<Msg>,
    /// every entry is a set of changes applied together
    variants: Vec<Vec<Change>>,
    checked: bool,
}
pub struct C19;

fn apply(p: &Params, b: &mut [u8], c: &Change) {
    let n = b.len();
    let range = match c.0 % 3 {
        0 => 0..p.n - 1,
        1 => p.n - 1..p.sample_bytes(),
        _ if n > p.sample_bytes() => p.sample_bytes()..n,
        _ => 0..n,
    };
    let i = range.start + c.1.of(range.len());
    match c.2 {
        Edit::Xor(m) => b[i] ^= m,
        Edit::Three => b[i] = if b[i] < 253 { b[i] + 3 } else { b[i] - 3 },
        Edit::Swap(d) => b.swap(i, (i + 1 + d as usize) % n),
    }
}

impl Prop for C19 {
    type Case = C19Case;
    const ID: &'static str = "C19";
    const RULE: &'static str = "a case is the RNG bytes of a key generation or of an encapsulation to a generated key, and 1-6 sets of small changes to them (bit flips, byte changes that keep the residue modulo 3, exchanged bytes; in f/r, in g/m and in the rejection secret). Each changed run must agree with the unchanged one exactly when the specification's sampling gives the same polynomials (and the rejection secret is the same). Non-trivial: keys with non-zero f and g, and at least one effective change.";
    fn strategy(&self, p: &Params, _v: usize) -> BoxedStrategy<C19Case> {
        let edit = prop_oneof![
            3 => (0u32..8).prop_map(|b| Edit::Xor(1 << b)),
            1 => (1u8..=255).prop_map(Edit::Xor),
            2 => Just(Edit::Three),
            1 => (0u8..9).prop_map(Edit::Swap),
        ];
        let change = (0u8..3, pos(), edit);
        let sets = move |n: usize| proptest::collection::vec(proptest::collection::vec(change.clone(), 1..4), 1..n);
        prop_oneof![
            1 => (key(p), sets(4), any::<bool>())
                .prop_map(|(key, variants, checked)| C19Case { key, msg: None, variants, checked }),
            4 => (plain_key(p), msg(p), sets(7), any::<bool>())
                .prop_map(|(key, m, variants, checked)| C19Case { key, msg: Some(m), variants, checked }),
        ]
        .boxed()
    }
    fn cases(&self, t: Tier, _v: usize) -> usize {
        match t {
            Tier::Quick => 6_000,
            Tier::Thorough => 80_000,
        }
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the sampling functions of the reference model (not its arithmetic); SHA3-256 does not collide on the explored inputs".into()]
    }
    fn run(&self, env: &Env, p: &Params, v: usize, c: &C19Case) -> Result<Obs, String> {
        let lib = env.lib(v, c.checked);
        let k0 = c.key.bytes(p);
        if !c.key.usable(p) {
            return Ok(Obs::trivial("zero secret"));
        }
        let kp = lib.keypair(&k0)?;
        let b0 = match &c.msg {
            Some(m) => m.bytes(p),
            None => k0.clone(),
        };
        let mut o = Obs::ok(vec![]);
        o.evals = 0;
        let base = match c.msg {
            Some(_) => Some(lib.enc(&kp.pk, &b0)?),
            None => None,
        };
        for set in &c.variants {
            let mut b1 = b0.clone();
            set.iter().for_each(|x| apply(p, &mut b1, x));
            if b1 == b0 {
                continue;
            }
            o.evals += 1;
            let n = p.sample_bytes();
            if let Some((ct0, ss0)) = &base {
                let same = p.sample_rm(&b0) == p.sample_rm(&b1);
                let (ct, ss) = lib.enc(&kp.pk, &b1)?;
                if (ct == *ct0) != same {
                    return Err(format!("ciphertexts {} although r, m {}", eq(!same), eq(same)));
                }
                if (ss == *ss0) != same {
                    return Err(format!("shared keys {} although r, m {}", eq(!same), eq(same)));
                }
                o.labels.push(if same { "encapsulation, same sample" } else { "encapsulation, other sample" });
            } else {
                let (s0, s1) = (p.sample_fg(&b0[..n]), p.sample_fg(&b1[..n]));
                if s1.0.iter().all(|x| *x == 0) || s1.1.iter().all(|x| *x == 0) {
                    continue;
                }
                let fg = s0 == s1;
                let same = fg && b0[n..] == b1[n..];
                let k1 = lib.keypair(&b1)?;
                if (k1.sk == kp.sk) != same {
                    return Err(format!("secret keys {} although f, g and rejection secret {}", eq(!same), eq(same)));
                }
                // rotations and negation of f and g together keep h, nothing else of these changes does
                if fg && k1.pk != kp.pk {
                    return Err("public keys differ although f, g agree".into());
                }
                o.labels.push(match (same, fg) {
                    (true, _) => "keys, same sample",
                    (_, true) => "keys, other rejection secret",
                    _ => "keys, other sample",
                });
            }
        }
        if o.evals == 0 {
            return Ok(Obs::trivial("no effective change"));
        }
        Ok(o)
    }
}

fn eq(same: bool) -> &'static str {
    if same {
        "agree"
    } else {
        "differ"
    }
}
