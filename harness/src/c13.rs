//! Strip, prefix, suffix.
use crate::c08;
use crate::gen::{self, Cfg};
use crate::place::*;
use crate::rng::Rng;
use crate::run::*;
use crate::y;
use svd_rs::*;
use yaml_rust::Yaml;
pub const RULE: &str = "random devices; random combinations of `_strip`, `_strip_end` (single texts and lists), `_prefix`, `_suffix` with literal texts for registers and clusters of a block or for the fields of a register; non-trivial: some name changes";
#[derive(Default)]
struct Ed {
    strip: Vec<String>,
    end: Vec<String>,
    pre: Option<String>,
    suf: Option<String>,
}
impl Ed {
    fn rnd(r: &mut Rng, names: &[String]) -> Ed {
        let mut e = Ed::default();
        let piece = |r: &mut Rng, end: bool| {
            if names.is_empty() || r.p(10) {
                return r.s(&["X_", "E", "R", "1", "EN"]);
            }
            let n = r.pick(names).clone();
            let k = r.r(1, n.len().min(4));
            if end { n[n.len() - k..].to_string() } else { n[..k].to_string() }
        };
        if r.p(50) {
            for _ in 0..r.r(1, 2) {
                e.strip.push(piece(r, false))
            }
        }
        if r.p(50) {
            for _ in 0..r.r(1, 2) {
                e.end.push(piece(r, true))
            }
        }
        e.pre = r.opt(35, |r| r.s(&["PRE_", "Z", "C", ""]));
        e.suf = r.opt(35, |r| r.s(&["_SUF", "0", "R", ""]));
        e
    }
    fn ok(&self) -> bool {
        self.strip.iter().chain(&self.end).all(|s| !s.contains(['*', '?', '[', ']', '{', '}', '\\', '%', ',']))
    }
    fn yaml(&self, r: &mut Rng) -> Yaml {
        let mut v = vec![];
        let l = |r: &mut Rng, x: &Vec<String>| if x.len() == 1 && r.p(60) { y::s(&x[0]) } else { y::sa(x) };
        if !self.strip.is_empty() {
            v.push(("_strip", l(r, &self.strip)))
        }
        if !self.end.is_empty() {
            v.push(("_strip_end", l(r, &self.end)))
        }
        if let Some(s) = &self.pre {
            v.push(("_prefix", y::s(s)))
        }
        if let Some(s) = &self.suf {
            v.push(("_suffix", y::s(s)))
        }
        r.shuffle(&mut v);
        y::h(v)
    }
    /// also: only stripped
    fn name(&self, n: &str, affix: bool) -> String {
        let mut n = n;
        for s in &self.strip {
            n = n.strip_prefix(s.as_str()).unwrap_or(n)
        }
        for s in &self.end {
            n = n.strip_suffix(s.as_str()).unwrap_or(n)
        }
        if !affix {
            return n.to_string();
        }
        format!("{}{n}{}", self.pre.clone().unwrap_or_default(), self.suf.clone().unwrap_or_default())
    }
}
pub fn case(c: &mut Ctx) {
    let mut r = c.rng("");
    let r = &mut r;
    if r.p(40) {
        let Some((d0, p, i)) = c08::setup(r, &Cfg { arrays: 15, ..c08::fcfg() }) else { return };
        let mut e = d0.clone();
        let ed = Ed::rnd(r, &c08::fnames(&d0, &p, i));
        if !ed.ok() {
            return;
        }
        let mut bad = false;
        for f in c08::fields(&mut e, &p, i).iter_mut().flatten() {
            f.name = ed.name(&f.name, true);
            bad |= f.name.is_empty() || f.is_array() && !f.name.contains("%s");
        }
        let sec = ed.yaml(r);
        let py = wrap_reg(r, &d0, &p, i, sec);
        return c.check(&d0, &py, if bad { Exp::Skip } else { Exp::Ok(e) });
    }
    let d0 = norm(&gen::device(r, &Cfg { pers: (1, 3), kids: (1, 6), clusters: 35, ..Cfg::default() })).unwrap();
    let Some(p) = block(r, &d0) else { return };
    let mut e = d0.clone();
    let mut names: Vec<String> = vec![];
    for x in kids(&d0, &p).into_iter().flatten() {
        match x {
            RegisterCluster::Register(x) => {
                names.push(x.name.clone());
                names.extend(x.display_name.clone());
                names.extend(x.alternate_register.clone());
            }
            RegisterCluster::Cluster(x) => {
                names.push(x.name.clone());
                names.extend(x.header_struct_name.clone());
                names.extend(x.alternate_cluster.clone());
            }
        }
    }
    let ed = Ed::rnd(r, &names);
    if !ed.ok() {
        return;
    }
    let mut bad = false;
    let mut o = |s: &mut Option<String>, a: bool| {
        if let Some(s) = s {
            *s = ed.name(s, a);
            bad |= s.is_empty();
        }
    };
    let mut bad2 = false;
    for x in kids_mut(&mut e, &p).into_iter().flatten() {
        match x {
            RegisterCluster::Register(x) => {
                x.name = ed.name(&x.name, true);
                o(&mut x.display_name, true);
                o(&mut x.alternate_register, true);
                bad2 |= x.name.is_empty() || x.is_array() && !x.name.contains("%s");
            }
            RegisterCluster::Cluster(x) => {
                x.name = ed.name(&x.name, false);
                o(&mut x.header_struct_name, false);
                o(&mut x.alternate_cluster, false);
                bad2 |= x.name.is_empty() || x.is_array() && !x.name.contains("%s");
            }
        }
    }
    let sec = ed.yaml(r);
    let py = wrap(r, &d0, &p, sec);
    c.check(&d0, &py, if bad || bad2 { Exp::Skip } else { Exp::Ok(e) })
}
