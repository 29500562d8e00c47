//! Expanding register arrays and cluster arrays.
use crate::attrs::boolean;
use crate::c02::{kid_names, rc_name};
use crate::gen::{self, Cfg};
use crate::place::*;
use crate::rng::Rng;
use crate::run::*;
use crate::sel::selected;
use crate::y;
use svd_rs::*;
use yaml_rust::Yaml;
pub const RULE: &str = "random devices rich in register and cluster arrays, `_expand_array` and `_expand_cluster` (string, list and hash form with delimiters, zero index, no prefix) with random selectors and `?~`; non-trivial: something changes or the patch must fail";
fn index(d: &DimElement, k: u32) -> String {
    match &d.dim_index {
        Some(v) => v[k as usize].clone(),
        None => k.to_string(),
    }
}
fn sub_idx(s: &str, i: &str) -> String {
    s.replace("[%s]", i).replace("%s", i)
}
pub fn case(c: &mut Ctx) {
    let mut r = c.rng("");
    let r = &mut r;
    let cfg = Cfg { pers: (1, 2), kids: (1, 5), arrays: 35, clusters: 45, fields: (0, 2), depth: 2, ..Cfg::default() };
    let d0 = norm(&gen::device(r, &cfg)).unwrap();
    if r.p(40) {
        array(c, r, d0)
    } else {
        cluster(c, r, d0)
    }
}
fn array(c: &mut Ctx, r: &mut Rng, d0: Device) {
    let Some(p) = block(r, &d0) else { return };
    let mut e = d0.clone();
    let names = kids(&d0, &p).map(|k| kid_names(k)).unwrap_or_default();
    let arrs: Vec<String> = kids(&d0, &p).into_iter().flatten().filter(|x| matches!(x, RegisterCluster::Register(Register::Array(..)))).map(|x| rc_name(x).to_string()).collect();
    let spec = if r.p(70) && !arrs.is_empty() { gen::spec(r, &arrs) } else { gen::spec(r, &names) };
    let exp = (|| {
        let Some(v) = kids_mut(&mut e, &p) else { return Exp::Fail("there are no registers") };
        let mut out = vec![];
        let mut any = false;
        for x in v.drain(..) {
            match x {
                RegisterCluster::Register(Register::Array(x, d)) if selected(&x.name, &spec) => {
                    any = true;
                    for k in 0..d.dim {
                        let i = index(&d, k);
                        let mut y = x.clone();
                        y.name = sub_idx(&x.name, &i);
                        y.description = x.description.as_ref().map(|s| s.replace("[%s]", &i).replace("%s", &i));
                        y.display_name = x.display_name.as_ref().map(|s| sub_idx(s, &i));
                        y.address_offset = x.address_offset + k * d.dim_increment;
                        out.push(RegisterCluster::Register(y.single()));
                    }
                }
                x => out.push(x),
            }
        }
        *v = out;
        if any { Exp::Ok(e.clone()) } else { Exp::Fail("no register array is selected") }
    })();
    let py = wrap(r, &d0, &p, y::h1("_expand_array", y::h1(&spec, y::h(vec![]))));
    c.check(&d0, &py, exp)
}
/// the text put before the names of the children of element k
fn prefix(name: &str, d: &DimElement, k: u32, o: &Opts) -> Result<String, &'static str> {
    let (a, b) = (o.pre.clone().unwrap_or("_".into()), o.post.clone().unwrap_or("_".into()));
    if d.dim > 1 || o.zero == Some(true) {
        if o.no == Some(true) {
            return Err("several elements cannot be told apart without a prefix");
        }
        if name.contains("[%s]") && d.dim_index.is_some() {
            return Err("[%s] cannot be combined with an index list");
        }
        Ok(format!("{}{b}", sub_idx(name, &format!("{a}{}", index(d, k)))))
    } else if o.no == Some(true) {
        Ok(String::new())
    } else {
        Ok(format!("{}{b}", sub_idx(name, "")))
    }
}
#[derive(Default, Clone)]
struct Opts {
    pre: Option<String>,
    post: Option<String>,
    zero: Option<bool>,
    no: Option<bool>,
}
fn cluster(c: &mut Ctx, r: &mut Rng, d0: Device) {
    // only peripherals have this section
    let names: Vec<String> = d0.peripherals.iter().map(|p| p.name.clone()).collect();
    let per = r.n(names.len());
    if d0.peripherals[per].derived_from.is_some() || names.iter().filter(|n| selected(n, &lit(&names[per]))).count() != 1 {
        return;
    }
    let p = Place { per, cls: vec![] };
    let mut e = d0.clone();
    let cl: Vec<String> = kids(&d0, &p).into_iter().flatten().filter(|x| matches!(x, RegisterCluster::Cluster(_))).map(|x| rc_name(x).to_string()).collect();
    let form = r.n(5);
    let n = if form == 0 { 1 } else { r.r(1, 2) };
    let mut es: Vec<(String, bool, Opts)> = vec![];
    for _ in 0..n {
        let o = if form >= 2 {
            Opts { pre: r.opt(30, |r| r.s(&["", "x", "__"])), post: r.opt(30, |r| r.s(&["", "y"])), zero: r.opt(30, |r| r.p(70)), no: r.opt(20, |r| r.p(60)) }
        } else {
            Opts::default()
        };
        let s = gen::spec(r, &cl);
        let ign = r.p(20);
        if es.iter().any(|x| x.0 == s) {
            continue;
        }
        es.push((s, ign, o));
    }
    let mut exp = None;
    for (s, ign, o) in &es {
        let Some(v) = kids_mut(&mut e, &p) else {
            if *ign {
                continue;
            }
            exp = Some(Exp::Fail("there are no clusters"));
            break;
        };
        let hit: Vec<usize> = (0..v.len()).filter(|i| matches!(&v[*i], RegisterCluster::Cluster(Cluster::Array(x, _)) if selected(&x.name, s))).collect();
        if hit.is_empty() {
            if *ign {
                continue;
            }
            exp = Some(Exp::Fail("no cluster array is selected"));
            break;
        }
        let mut new = vec![];
        for i in &hit {
            let RegisterCluster::Cluster(Cluster::Array(x, d)) = &v[*i] else { unreachable!() };
            if x.children.is_empty() {
                exp = Some(Exp::Skip);
            }
            if d.dim == 0 {
                exp = Some(Exp::Skip);
            }
            for k in 0..d.dim {
                match prefix(&x.name, d, k, o) {
                    Err(w) => exp = Some(Exp::Fail(w)),
                    Ok(pre) => {
                        let at = x.address_offset + k * d.dim_increment;
                        // registers first, then clusters
                        for pass in 0..2 {
                            for q in &x.children {
                                let mut q = q.clone();
                                match &mut q {
                                    RegisterCluster::Register(q) if pass == 0 => {
                                        q.name = format!("{pre}{}", q.name);
                                        q.address_offset += at;
                                    }
                                    RegisterCluster::Cluster(q) if pass == 1 => {
                                        q.name = format!("{pre}{}", q.name);
                                        q.address_offset += at;
                                    }
                                    _ => continue,
                                }
                                new.push(q);
                            }
                        }
                    }
                }
            }
        }
        if exp.is_some() {
            break;
        }
        for i in hit.iter().rev() {
            v.remove(*i);
        }
        v.extend(new);
    }
    let key = |x: &(String, bool, Opts)| if x.1 { format!("?~{}", x.0) } else { x.0.clone() };
    let sec = match form {
        0 => y::s(&key(&es[0])),
        1 => Yaml::Array(es.iter().map(|x| y::s(&key(x))).collect()),
        _ => y::hv(
            es.iter()
                .map(|x| {
                    let mut h = vec![];
                    if let Some(s) = &x.2.pre {
                        h.push(("_preindex", y::s(s)))
                    }
                    if let Some(s) = &x.2.post {
                        h.push(("_postindex", y::s(s)))
                    }
                    if let Some(b) = x.2.zero {
                        h.push(("_zeroindex", boolean(r, b)))
                    }
                    if let Some(b) = x.2.no {
                        h.push(("_noprefix", boolean(r, b)))
                    }
                    (key(x), if h.is_empty() && r.p(60) { Yaml::Null } else { y::h(h) })
                })
                .collect(),
        ),
    };
    let py = wrap(r, &d0, &p, y::h1("_expand_cluster", sec));
    c.check(&d0, &py, exp.unwrap_or(Exp::Ok(e)))
}
