//! Includes: trees of patch files on disk.
use crate::rng::Rng;
use crate::run::*;
use crate::y;
use serde_json::json;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use yaml_rust::{yaml::Hash, Yaml, YamlLoader};
pub const RULE: &str = "random trees of 1-7 patch files in nested directories (acyclic, shared and repeated includes, device and peripheral level, string and list form, relative paths, files without content, missing and malformed files) with overlapping keys of every kind; non-trivial: something is included or loading must fail";
pub struct Tree {
    pub dir: PathBuf,
    pub files: Vec<(String, String)>,
}
const DIRS: &[&str] = &["", "", "a/", "a/b/", "c/"];
fn scalar(r: &mut Rng) -> Yaml {
    match r.n(5) {
        0 => y::i(r.n(3) as i64),
        1 => Yaml::Boolean(r.p(50)),
        _ => y::s(&r.s(&["A", "B", "C", "A,B"])),
    }
}
fn list(r: &mut Rng) -> Yaml {
    let n = r.n(4);
    Yaml::Array((0..n).map(|_| if r.p(10) { y::h1("k", scalar(r)) } else if r.p(15) { y::i(r.n(3) as i64) } else { y::s(&r.s(&["A", "B", "C"])) }).collect())
}
fn content(r: &mut Rng, depth: usize) -> Hash {
    let mut m = Hash::new();
    for _ in 0..r.n(5) {
        // what kind of value a key holds is mostly fixed, so that values meet values
        let (k, v) = match r.n(9) {
            0 | 1 => (r.s(&["_delete", "_strip", "_array"]), if r.p(50) { list(r) } else { y::s(&r.s(&["A", "B", "C"])) }),
            2 | 3 => (r.s(&["name", "size", "description"]), scalar(r)),
            4 => (r.s(&["_delete", "name", "_modify", "TIM1"]), if r.p(50) { scalar(r) } else { list(r) }),
            _ if depth > 0 => (r.s(&["_modify", "_add", "TIM1", "TIM2", "CR"]), Yaml::Hash(content(r, depth - 1))),
            _ => ("access".into(), scalar(r)),
        };
        m.insert(y::s(&k), v);
    }
    m
}
fn rel(r: &mut Rng, from: &str, to: &str) -> String {
    let up = DIRS.iter().find(|d| from.starts_with(**d) && !from[d.len()..].contains('/')).unwrap().matches('/').count();
    let s = "../".repeat(up) + to;
    if r.p(20) { format!("./{s}") } else { s }
}
/// file 0 is the root; files are split into device level (t) and peripheral level (p)
pub fn tree(r: &mut Rng, dir: PathBuf) -> Tree {
    let n = r.r(1, 7);
    let names: Vec<(String, bool)> = (0..n).map(|i| { let top = i == 0 || r.p(60); (format!("{}{}{i}.yaml", r.s(DIRS), if top { "t" } else { "p" }), top) }).collect();
    let mut files = vec![];
    for i in 0..n {
        let (nm, top) = &names[i];
        if i > 0 && r.p(4) {
            match r.n(5) {
                0 => (),
                1 => files.push((nm.clone(), "".to_string())),
                2 => files.push((nm.clone(), "# nothing here\n".to_string())),
                3 => files.push((nm.clone(), "- a\n- b\n".to_string())),
                _ => files.push((nm.clone(), "a: [b\n".to_string())),
            }
            continue;
        }
        let mut h = content(r, 2);
        let mut inc = |r: &mut Rng, h: &mut Hash, level: bool, p: usize| {
            let mut v: Vec<String> = vec![];
            for (nm2, t2) in &names[i + 1..] {
                if *t2 == level && r.p(p) {
                    v.push(rel(r, nm, nm2));
                    if r.p(8) {
                        v.push(rel(r, nm, nm2));
                    }
                }
            }
            r.shuffle(&mut v);
            if r.p(1) {
                v.push("none.yaml".into());
            }
            if !v.is_empty() {
                let x = if v.len() == 1 && r.p(60) { y::s(&v[0]) } else { y::sa(&v) };
                h.insert(y::s("_include"), x);
            } else if r.p(3) {
                h.insert(y::s("_include"), if r.p(80) { Yaml::Array(vec![]) } else { y::i(3) });
            }
        };
        inc(r, &mut h, *top, 50);
        for k in ["TIM1", "TIM2", "TIM3"] {
            if r.p(35) {
                let mut x = match h.remove(&y::s(k)) {
                    Some(Yaml::Hash(x)) => x,
                    None => content(r, 1),
                    Some(o) => {
                        h.insert(y::s(k), o);
                        continue;
                    }
                };
                inc(r, &mut x, false, 40);
                h.insert(y::s(k), Yaml::Hash(x));
            }
        }
        let mut v: Vec<(Yaml, Yaml)> = h.into_iter().collect();
        r.shuffle(&mut v);
        let mut h = Hash::new();
        h.extend(v);
        let text = if h.is_empty() { "{}\n".into() } else { y::dump(&Yaml::Hash(h)) };
        files.push((nm.clone(), text));
    }
    Tree { dir, files }
}
impl Tree {
    pub fn write(&self) {
        let _ = std::fs::remove_dir_all(&self.dir);
        for d in DIRS {
            std::fs::create_dir_all(self.dir.join(d)).unwrap();
        }
        for (n, t) in &self.files {
            std::fs::write(self.dir.join(n), t).unwrap();
        }
    }
    pub fn root(&self) -> PathBuf {
        self.dir.join(&self.files[0].0)
    }
    /// a way of naming the root file on the command line: absolute, from the working directory, through a detour
    pub fn given(&self, r: &mut Rng) -> PathBuf {
        let f = &self.files[0].0;
        match r.n(5) {
            0 | 1 => self.root(),
            2 => self.dir.join("./c/../").join(f),
            n => {
                let up = std::env::current_dir().unwrap().components().count() - 1;
                let mut p = PathBuf::from(if n == 3 { "." } else { "" });
                p.extend(std::iter::repeat("..").take(up));
                p.join(self.root().strip_prefix("/").unwrap())
            }
        }
    }
    pub fn json(&self) -> serde_json::Value {
        json!({"files": self.files.iter().map(|(n, t)| json!({"name": n, "text": t})).collect::<Vec<_>>(), "svd": "", "patch": self.files.iter().map(|(n, t)| format!("== {n}\n{t}")).collect::<Vec<_>>().join("\n")})
    }
}
impl Drop for Tree {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
#[derive(Debug)]
pub enum Bad {
    Fail,
    Skip,
}
/// `rel` seen from the directory of `from`, without `.` and `..`
pub fn resolve(from: &Path, rel: &str) -> PathBuf {
    let mut p = from.parent().unwrap().to_path_buf();
    for c in rel.split('/') {
        match c {
            "." | "" => (),
            ".." => {
                p.pop();
            }
            _ => p.push(c),
        }
    }
    p
}
fn strings(v: Option<&Yaml>) -> Result<Vec<String>, Bad> {
    match v {
        None => Ok(vec![]),
        Some(Yaml::String(s)) => Ok(vec![s.clone()]),
        Some(Yaml::Array(a)) => a.iter().map(|x| x.as_str().map(|s| s.to_string()).ok_or(Bad::Fail)).collect(),
        _ => Err(Bad::Fail),
    }
}
fn read(p: &Path) -> Result<Option<Hash>, Bad> {
    let t = std::fs::read_to_string(p).map_err(|_| Bad::Fail)?;
    match YamlLoader::load_from_str(&t).map_err(|_| Bad::Fail)?.into_iter().next() {
        None => Ok(None),
        Some(Yaml::Hash(h)) => Ok(Some(h)),
        _ => Err(Bad::Fail),
    }
}
fn merge(p: &mut Hash, c: &Hash) -> Result<(), Bad> {
    for (k, v) in c {
        if k.as_str() == Some("_include") {
            continue;
        }
        let Some(old) = p.get(k).cloned() else {
            p.insert(k.clone(), v.clone());
            continue;
        };
        let new = match (old, v) {
            (a, b) if a == *b => a,
            (Yaml::Hash(mut a), Yaml::Hash(b)) => {
                merge(&mut a, b)?;
                Yaml::Hash(a)
            }
            (Yaml::Array(mut a), Yaml::Array(b)) => {
                a.extend(b.clone());
                Yaml::Array(a)
            }
            (Yaml::Array(mut a), Yaml::String(_)) => {
                if !a.contains(v) {
                    a.push(v.clone());
                }
                Yaml::Array(a)
            }
            (a @ Yaml::String(_), Yaml::Array(b)) => {
                let mut x = vec![a.clone()];
                x.extend(b.iter().filter(|e| **e != a).cloned());
                Yaml::Array(x)
            }
            (Yaml::Hash(_), _) | (_, Yaml::Hash(_)) | (Yaml::Array(_), _) | (_, Yaml::Array(_)) => return Err(Bad::Skip),
            (a, _) => a,
        };
        *p.get_mut(k).unwrap() = new;
    }
    Ok(())
}
/// expands the includes of `h`, which stands in the file `at`; every file read goes to `all`
fn expand(h: &mut Hash, at: &Path, all: &mut Vec<PathBuf>) -> Result<(), Bad> {
    let mut mine = vec![];
    for (k, v) in h.iter_mut() {
        if k.as_str().is_some_and(|s| !s.starts_with('_')) {
            if let Yaml::Hash(x) = v {
                if x.contains_key(&y::s("_include")) {
                    expand(x, at, &mut mine)?;
                }
            }
        }
    }
    for s in strings(h.get(&y::s("_include")))? {
        let p = resolve(at, &s);
        if mine.contains(&p) {
            if !p.exists() {
                return Err(Bad::Fail);
            }
            continue;
        }
        mine.push(p.clone());
        if let Some(mut c) = read(&p)? {
            expand(&mut c, &p, &mut mine)?;
            merge(h, &c)?;
        }
    }
    h.remove(&y::s("_include"));
    all.extend(mine);
    Ok(())
}
pub fn expected(root: &Path) -> Result<(Hash, BTreeSet<PathBuf>), Bad> {
    let mut all = vec![];
    let mut h = read(root)?.ok_or(Bad::Fail)?;
    expand(&mut h, root, &mut all)?;
    Ok((h, all.into_iter().collect()))
}
/// keys in a fixed order and without the `_path` notes
fn canon(v: &Yaml) -> Yaml {
    match v {
        Yaml::Hash(h) => {
            let mut x: Vec<(Yaml, Yaml)> = h.iter().filter(|(k, _)| k.as_str() != Some("_path")).map(|(k, v)| (k.clone(), canon(v))).collect();
            x.sort_by_key(|k| format!("{:?}", k.0));
            let mut h = Hash::new();
            h.extend(x);
            Yaml::Hash(h)
        }
        Yaml::Array(a) => Yaml::Array(a.iter().map(canon).collect()),
        _ => v.clone(),
    }
}
pub fn dir(c: &Ctx) -> PathBuf {
    std::fs::create_dir_all(&c.scratch).unwrap();
    Path::new(&c.scratch).canonicalize().unwrap().join(format!("{}-{}", c.prop, c.k))
}
pub fn case(c: &mut Ctx) {
    let mut r = c.rng("");
    let t = tree(&mut r, dir(c));
    t.write();
    let given = t.given(&mut r);
    let exp = match expected(&t.root()) {
        Err(Bad::Skip) => {
            c.skipped += 1;
            return;
        }
        e => e,
    };
    let js = t.json();
    let (cls, nt) = match &exp {
        Ok((_, s)) if s.is_empty() => ("nothing included", false),
        Ok(_) => ("merged", true),
        Err(_) => ("must fail: an include cannot be read", true),
    };
    c.class(cls);
    c.count(js["patch"].as_str().unwrap(), nt);
    let got = catch_unwind(AssertUnwindSafe(|| svdtools::patch::load_patch(&given)));
    if nt {
        c.sample(json!({"patch": js["patch"], "expected": cls}));
    }
    match (exp, got) {
        (Err(_), Ok(Ok(_))) => c.fail("loading the patch must fail but succeeded", js),
        (Err(_), _) => (),
        (Ok((h, _)), Ok(Ok(g))) => {
            let (a, b) = (canon(&Yaml::Hash(h)), canon(&g));
            if a != b {
                let w = format!("wrong merge, {}", diff(&y::dump(&a), &y::dump(&b)));
                c.fail(&w, js)
            }
        }
        (Ok(_), Ok(Err(e))) => c.fail(&format!("loading the patch must succeed; error {e:#}"), js),
        (Ok(_), Err(p)) => c.fail(&format!("loading the patch must succeed; panic {}", msg(p)), js),
    }
}
