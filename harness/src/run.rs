//! Runs the real patcher and compares with an expectation.
use serde_json::{json, Value};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use svd_rs::*;
use yaml_rust::Yaml;

use crate::rng::Rng;
use crate::y;

pub enum Out {
    Ok(Device),
    Err(String),
    Panic(String),
}
#[derive(Debug, Clone)]
pub enum Exp {
    Ok(Device),
    /// the patch must not succeed
    Fail(&'static str),
    /// nothing is claimed about this input
    Skip,
}

pub struct Ctx {
    pub seed: u64,
    pub prop: String,
    pub evals: u64,
    pub skipped: u64,
    pub k: u64,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<Value>,
    pub failures: Vec<Value>,
    pub known: Vec<Value>,
    pub rule: String,
    pub what: String,
    pub scratch: String,
    pub classes: std::collections::BTreeMap<String, u64>,
}

pub fn enc(d: &Device) -> String {
    svd_encoder::encode(d).expect("encode")
}
pub fn parse(x: &str) -> Result<Device, String> {
    let mut c = svd_parser::Config::default();
    c.validate_level = ValidateLevel::Disabled;
    let mut d = svd_parser::parse_with_config(x, &c).map_err(|e| format!("{e:#}"))?;
    // how a bit range is written does not matter, only which bits it covers
    for p in &mut d.peripherals {
        canon(p.registers.as_mut().map(|v| v.as_mut_slice()).unwrap_or_default());
    }
    Ok(d)
}
fn canon(k: &mut [RegisterCluster]) {
    for x in k {
        match x {
            RegisterCluster::Register(r) => {
                for f in r.fields.iter_mut().flatten() {
                    f.bit_range = BitRange::from_offset_width(f.bit_range.offset, f.bit_range.width);
                }
            }
            RegisterCluster::Cluster(c) => canon(&mut c.children),
        }
    }
}
/// what survives one encoding: the form in which devices are compared
pub fn norm(d: &Device) -> Result<Device, String> {
    parse(&enc(d))
}
pub fn hash(s: &str) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}
pub fn msg(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("?".into())
}
pub fn patch_cfg(xml: &str, p: &Yaml, cfg: &svdtools::patch::Config) -> Out {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let ec = svdtools::patch::EncoderConfig::default();
        svdtools::patch::process_reader(xml.as_bytes(), p, &ec, cfg).map(|mut r| {
            let mut s = String::new();
            std::io::Read::read_to_string(&mut r, &mut s).unwrap();
            s
        })
    }));
    match r {
        Err(p) => Out::Panic(msg(p)),
        Ok(Err(e)) => Out::Err(format!("{e:#}")),
        Ok(Ok(s)) => match parse(&s) {
            Ok(d) => Out::Ok(d),
            Err(e) => Out::Err(format!("output does not parse: {e}")),
        },
    }
}
pub fn patch(xml: &str, p: &Yaml) -> Out {
    patch_cfg(xml, p, &svdtools::patch::Config::default())
}
pub fn diff(a: &str, b: &str) -> String {
    let (x, y): (Vec<&str>, Vec<&str>) = (a.lines().collect(), b.lines().collect());
    let mut i = 0;
    while i < x.len() && i < y.len() && x[i] == y[i] {
        i += 1;
    }
    let mut j = 0;
    while j < x.len() - i && j < y.len() - i && x[x.len() - 1 - j] == y[y.len() - 1 - j] {
        j += 1;
    }
    let cut = |v: &[&str]| v.iter().take(30).map(|s| s.trim_end().to_string()).collect::<Vec<_>>().join("\n");
    format!("line {}:\n--- expected\n{}\n--- got\n{}", i + 1, cut(&x[i..x.len() - j]), cut(&y[i..y.len() - j]))
}
impl Ctx {
    pub fn new(prop: &str, seed: u64) -> Ctx {
        Ctx { seed, prop: prop.into(), evals: 0, skipped: 0, k: 0, nontrivial: HashSet::new(), samples: vec![], failures: vec![], known: vec![], rule: String::new(), what: String::new(), scratch: String::new(), classes: Default::default() }
    }
    pub fn merge(&mut self, o: Ctx) {
        self.evals += o.evals;
        self.skipped += o.skipped;
        self.nontrivial.extend(o.nontrivial);
        if self.samples.len() < 4 {
            self.samples.extend(o.samples.into_iter().take(1));
        }
        self.failures.extend(o.failures);
        for k in o.known {
            if !self.known.iter().any(|x| x["key"] == k["key"]) {
                self.known.push(k)
            }
        }
        for (k, v) in o.classes {
            *self.classes.entry(k).or_default() += v;
        }
    }
    pub fn rng(&self, salt: &str) -> Rng {
        Rng::new(self.seed, &format!("{}/{}", self.prop, salt), self.k)
    }
    pub fn class(&mut self, c: &str) {
        *self.classes.entry(c.to_string()).or_default() += 1;
    }
    pub fn fail(&mut self, why: &str, case: Value) {
        let mut c = case;
        c["why"] = json!(why);
        c["case"] = json!(self.k);
        c["seed"] = json!(self.seed);
        self.failures.push(c);
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 4 && (self.samples.len() as u64) * 97 <= self.evals {
            self.samples.push(v);
        }
    }
    pub fn count(&mut self, key: &str, nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            self.nontrivial.insert(hash(key));
        }
    }
    /// d0 must already be normalised
    pub fn check(&mut self, d0: &Device, p: &Yaml, exp: Exp) {
        self.check_cfg(d0, p, exp, &svdtools::patch::Config::default())
    }
    pub fn check_cfg(&mut self, d0: &Device, p: &Yaml, exp: Exp, cfg: &svdtools::patch::Config) {
        let xml = enc(d0);
        let py = y::dump(p);
        let (cls, nt) = match &exp {
            Exp::Skip => {
                self.skipped += 1;
                return;
            }
            Exp::Fail(w) => (format!("must fail: {w}"), true),
            Exp::Ok(e) if e == d0 => ("no change".into(), false),
            Exp::Ok(_) => ("change".to_string(), true),
        };
        self.class(&cls);
        self.count(&format!("{xml}{py}"), nt);
        let out = patch_cfg(&xml, p, cfg);
        let case = || json!({"svd": xml, "patch": py});
        let got = match &out {
            Out::Ok(_) => "patched".into(),
            Out::Err(e) => format!("error: {e}"),
            Out::Panic(e) => format!("panic: {e}"),
        };
        if nt {
            let s = json!({"patch": py, "expected": cls, "outcome": got.chars().take(200).collect::<String>()});
            self.sample(s);
        }
        match (exp, out) {
            (Exp::Fail(w), Out::Ok(_)) => self.fail(&format!("the patch must fail ({w}) but succeeded"), case()),
            (Exp::Fail(_), _) => {}
            (Exp::Ok(e), Out::Ok(d)) => {
                let e = match norm(&e) {
                    Ok(e) => e,
                    Err(x) => {
                        self.skipped += 1;
                        eprintln!("expectation does not encode: {x}");
                        return;
                    }
                };
                if e != d {
                    let w = format!("wrong result, {}", diff(&enc(&e), &enc(&d)));
                    self.fail(&w, case())
                }
            }
            (Exp::Ok(_), _) => self.fail(&format!("the patch must succeed; {}", got), case()),
            (Exp::Skip, _) => {}
        }
    }
    pub fn json(&self) -> Value {
        let mut f = self.failures.clone();
        f.sort_by_key(|v| v["svd"].as_str().map(|s| s.len()).unwrap_or(0));
        f.truncate(5);
        json!({
            "property": self.prop, "seed": self.seed, "evaluations": self.evals, "skipped": self.skipped,
            "distinct_nontrivial": self.nontrivial.len(), "rule": self.rule, "samples": self.samples, "classes": self.classes,
            "n_failures": self.failures.len(), "failures": f, "known": self.known, "what": self.what,
        })
    }
}
