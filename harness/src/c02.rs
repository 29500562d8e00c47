//! Deletion.
use crate::gen::{self, spec, Cfg};
use crate::rng::Rng;
use crate::run::*;
use crate::sel::*;
use crate::y;
use svd_rs::*;
use yaml_rust::Yaml;
pub const RULE: &str = "random devices (1-4 peripherals, nested clusters, arrays, duplicate names now and then) and random `_delete` sections at device, peripheral, cluster and register level; non-trivial: something is deleted or the patch must fail";

pub fn rc_name(c: &RegisterCluster) -> &str {
    match c {
        RegisterCluster::Register(r) => &r.name,
        RegisterCluster::Cluster(c) => &c.name,
    }
}
pub fn kid_names(k: &[RegisterCluster]) -> Vec<String> {
    k.iter().map(|c| rc_name(c).to_string()).collect()
}
fn list(r: &mut Rng, have: &[String], opt: usize) -> Vec<String> {
    (0..r.r(1, 2)).map(|_| if r.p(opt) { format!("?~{}", spec(r, have)) } else { spec(r, have) }).collect()
}
fn ylist(r: &mut Rng, v: &[String]) -> Yaml {
    if v.len() == 1 && r.p(60) { y::s(&v[0]) } else { y::sa(v) }
}
/// Err(()): the patch must fail
fn del_kids(r: &mut Rng, k: &mut Vec<RegisterCluster>, ints: Option<&mut Vec<Interrupt>>) -> (Yaml, bool) {
    if r.p(40) {
        let l = list(r, &kid_names(k), 0);
        for s in &l {
            k.retain(|c| !selected(rc_name(c), s));
        }
        return (ylist(r, &l), true);
    }
    let mut h = vec![];
    let mut ok = true;
    if r.p(60) {
        let names: Vec<String> = k.iter().map(|c| rc_name(c).to_string()).collect();
        let l = list(r, &names, 0);
        for s in &l {
            k.retain(|c| !(matches!(c, RegisterCluster::Register(_)) && selected(rc_name(c), s)));
        }
        h.push(("_registers", ylist(r, &l)));
    }
    if r.p(60) {
        let cl: Vec<String> = k.iter().filter(|c| matches!(c, RegisterCluster::Cluster(_))).map(|c| rc_name(c).to_string()).collect();
        let names = if cl.is_empty() || r.p(10) { kid_names(k) } else { cl };
        let l = list(r, &names, 40);
        for s in &l {
            let (s, o) = opt(s);
            let n = k.len();
            k.retain(|c| !(matches!(c, RegisterCluster::Cluster(_)) && selected(rc_name(c), s)));
            ok &= o || k.len() < n;
        }
        h.push(("_clusters", ylist(r, &l)));
    }
    if let Some(ints) = ints {
        if r.p(60) {
            let l = list(r, &ints.iter().map(|i| i.name.clone()).collect::<Vec<_>>(), 0);
            for s in &l {
                ints.retain(|i| !selected(&i.name, s));
            }
            h.push(("_interrupts", ylist(r, &l)));
        }
    }
    (y::h(h), ok)
}
pub fn case(c: &mut Ctx) {
    let mut r = c.rng("");
    let cfg = Cfg { dup: r.p(25), ..Cfg::default() };
    let d0 = norm(&gen::device(&mut r, &cfg)).unwrap();
    let mut e = d0.clone();
    let pn: Vec<String> = d0.peripherals.iter().map(|p| p.name.clone()).collect();
    match r.n(4) {
        0 => {
            let l = list(&mut r, &pn, 0);
            for s in &l {
                e.peripherals.retain(|p| !selected(&p.name, s));
            }
            let p = y::h1("_delete", ylist(&mut r, &l));
            c.check(&d0, &p, Exp::Ok(e));
        }
        1 => {
            let k = r.n(pn.len());
            if pn[k].contains('%') || pn.iter().filter(|n| **n == pn[k]).count() > 1 {
                return;
            }
            let per = &mut e.peripherals[k];
            if per.derived_from.is_some() {
                // only interrupts
                let names: Vec<_> = per.interrupt.iter().map(|i| i.name.clone()).collect();
                let l = list(&mut r, &names, 0);
                for s in &l {
                    per.interrupt.retain(|i| !selected(&i.name, s));
                }
                let y1 = ylist(&mut r, &l);
                let p = y::h1(&pn[k], y::h1("_delete", y::h(vec![("_interrupts", y1), ("_registers", y::s("*"))])));
                return c.check(&d0, &p, Exp::Ok(e));
            }
            let mut ints = std::mem::take(&mut per.interrupt);
            let mut ok = true;
            let y = match per.registers.as_mut() {
                Some(kids) => {
                    let (y, o) = del_kids(&mut r, kids, Some(&mut ints));
                    ok = o;
                    y
                }
                None => {
                    let l = list(&mut r, &ints.iter().map(|i| i.name.clone()).collect::<Vec<_>>(), 0);
                    for s in &l {
                        ints.retain(|i| !selected(&i.name, s));
                    }
                    y::h1("_interrupts", ylist(&mut r, &l))
                }
            };
            per.interrupt = ints;
            let p = y::h1(&pn[k], y::h1("_delete", y));
            c.check(&d0, &p, if ok { Exp::Ok(e) } else { Exp::Fail("_clusters selects nothing") });
        }
        2 => {
            // inside a cluster
            let k = r.n(pn.len());
            let per = &mut e.peripherals[k];
            if pn[k].contains('%') || per.derived_from.is_some() || pn.iter().filter(|n| **n == pn[k]).count() > 1 {
                return;
            }
            let Some(kids) = per.registers.as_mut() else { return };
            let ns = kid_names(kids);
            let Some(i) = kids.iter().position(|x| matches!(x, RegisterCluster::Cluster(_))) else { return };
            if ns[i].contains('[') || ns.iter().filter(|n| **n == ns[i]).count() > 1 {
                return;
            }
            let RegisterCluster::Cluster(cl) = &mut kids[i] else { return };
            let (y, ok) = del_kids(&mut r, &mut cl.children, None);
            let sec = y::h1("_delete", y);
            let p = if r.p(50) { y::h1(&ns[i], sec) } else { y::h1("_clusters", y::h1(&ns[i], sec)) };
            let p = y::h1(&pn[k], p);
            c.check(&d0, &p, if ok { Exp::Ok(e) } else { Exp::Fail("_clusters selects nothing") });
        }
        _ => {
            // fields of the selected registers
            let k = r.n(pn.len());
            let per = &mut e.peripherals[k];
            if pn[k].contains('%') || per.derived_from.is_some() || pn.iter().filter(|n| **n == pn[k]).count() > 1 {
                return;
            }
            let Some(kids) = per.registers.as_mut() else { return };
            let rn: Vec<String> = kids.iter().filter(|x| matches!(x, RegisterCluster::Register(_))).map(|x| rc_name(x).to_string()).collect();
            if rn.is_empty() {
                return;
            }
            let rs = spec(&mut r, &rn);
            if !rn.iter().any(|n| selected(n, &rs)) {
                return;
            }
            let fnames: Vec<String> = kids.iter().filter_map(|x| if let RegisterCluster::Register(r) = x { r.fields.as_ref() } else { None }).flatten().map(|f| f.name.clone()).collect();
            let l = list(&mut r, &fnames, 0);
            for x in kids.iter_mut() {
                if let RegisterCluster::Register(rg) = x {
                    if selected(&rg.name, &rs) && rg.derived_from.is_none() {
                        if let Some(fs) = rg.fields.as_mut() {
                            fs.retain(|f| !l.iter().any(|s| selected(&f.name, s)));
                        }
                    }
                }
            }
            let p = y::h1(&pn[k], y::h1(&rs, y::h1("_delete", ylist(&mut r, &l))));
            c.check(&d0, &p, Exp::Ok(e));
        }
    }
}
