//! Picking a container and addressing it in a patch.
use crate::attrs::Path;
use crate::c02::{kid_names, rc_name};
use crate::rng::Rng;
use crate::sel::selected;
use crate::y;
use svd_rs::*;
use yaml_rust::Yaml;

#[derive(Clone, Debug)]
pub struct Place {
    pub per: usize,
    pub cls: Vec<usize>,
}
/// a selector for exactly this name
pub fn lit(n: &str) -> String {
    n.replace(['[', ']'], "?")
}
fn unique(names: &[String], i: usize) -> bool {
    let s = lit(&names[i]);
    names.iter().filter(|n| selected(n, &s)).count() == 1
}
/// a block (peripheral or cluster) that a patch can address alone
pub fn block(r: &mut Rng, d: &Device) -> Option<Place> {
    if d.peripherals.is_empty() {
        return None;
    }
    let per = r.n(d.peripherals.len());
    let names: Vec<String> = d.peripherals.iter().map(|p| p.name.clone()).collect();
    if d.peripherals[per].derived_from.is_some() || !unique(&names, per) {
        return None;
    }
    let mut p = Place { per, cls: vec![] };
    let mut kids = d.peripherals[per].registers.as_ref();
    while r.p(45) {
        let Some(k) = kids else { break };
        let cl: Vec<usize> = (0..k.len()).filter(|i| matches!(k[*i], RegisterCluster::Cluster(_)) && unique(&kid_names(k), *i)).collect();
        if cl.is_empty() {
            break;
        }
        let i = *r.pick(&cl);
        p.cls.push(i);
        let RegisterCluster::Cluster(c) = &k[i] else { unreachable!() };
        kids = Some(&c.children);
    }
    Some(p)
}
pub fn kids<'a>(d: &'a Device, p: &Place) -> Option<&'a Vec<RegisterCluster>> {
    let mut k = d.peripherals[p.per].registers.as_ref();
    for i in &p.cls {
        let RegisterCluster::Cluster(c) = &k.unwrap()[*i] else { unreachable!() };
        k = Some(&c.children);
    }
    k
}
/// only for blocks that have a child list
pub fn kids_mut<'a>(d: &'a mut Device, p: &Place) -> Option<&'a mut Vec<RegisterCluster>> {
    let mut k = d.peripherals[p.per].registers.as_mut();
    for i in &p.cls {
        let RegisterCluster::Cluster(c) = &mut k.unwrap()[*i] else { unreachable!() };
        k = Some(&mut c.children);
    }
    k
}
/// the child list, created if the peripheral has none
pub fn kids_new<'a>(d: &'a mut Device, p: &Place) -> &'a mut Vec<RegisterCluster> {
    if p.cls.is_empty() {
        return d.peripherals[p.per].registers.get_or_insert_with(Vec::new);
    }
    kids_mut(d, p).unwrap()
}
pub fn path(d: &Device, p: &Place) -> Path {
    let mut x = Path { per: d.peripherals[p.per].name.clone(), cls: vec![], reg: None };
    let mut k = d.peripherals[p.per].registers.as_ref();
    for i in &p.cls {
        let RegisterCluster::Cluster(c) = &k.unwrap()[*i] else { unreachable!() };
        x.cls.push(c.name.clone());
        k = Some(&c.children);
    }
    x
}
/// PER: {CL: {CL: section}}
pub fn wrap(r: &mut Rng, d: &Device, p: &Place, sec: Yaml) -> Yaml {
    let x = path(d, p);
    let mut s = sec;
    for c in x.cls.iter().rev() {
        s = y::h1(&lit(c), s);
        if r.p(40) {
            s = y::h1("_clusters", s);
        }
    }
    y::h1(&lit(&x.per), s)
}
pub fn regs(k: &[RegisterCluster]) -> Vec<usize> {
    (0..k.len()).filter(|i| matches!(k[*i], RegisterCluster::Register(_))).collect()
}
pub fn clusters(k: &[RegisterCluster]) -> Vec<usize> {
    (0..k.len()).filter(|i| matches!(k[*i], RegisterCluster::Cluster(_))).collect()
}
pub fn reg<'a>(k: &'a mut [RegisterCluster], i: usize) -> &'a mut Register {
    match &mut k[i] {
        RegisterCluster::Register(r) => r,
        _ => unreachable!(),
    }
}
pub fn cl<'a>(k: &'a mut [RegisterCluster], i: usize) -> &'a mut Cluster {
    match &mut k[i] {
        RegisterCluster::Cluster(r) => r,
        _ => unreachable!(),
    }
}
pub fn off(c: &RegisterCluster) -> u32 {
    match c {
        RegisterCluster::Register(r) => r.address_offset,
        RegisterCluster::Cluster(c) => c.address_offset,
    }
}
/// a register that a patch can address alone, not derived
pub fn register(r: &mut Rng, d: &Device) -> Option<(Place, usize)> {
    let p = block(r, d)?;
    let k = kids(d, &p)?;
    let rs: Vec<usize> = regs(k);
    if rs.is_empty() {
        return None;
    }
    let i = *r.pick(&rs);
    let names: Vec<String> = rs.iter().map(|i| rc_name(&k[*i]).to_string()).collect();
    let s = lit(rc_name(&k[i]));
    if names.iter().filter(|n| selected(n, &s)).count() != 1 {
        return None;
    }
    let RegisterCluster::Register(x) = &k[i] else { unreachable!() };
    if x.derived_from.is_some() {
        return None;
    }
    Some((p, i))
}
pub fn wrap_reg(r: &mut Rng, d: &Device, p: &Place, i: usize, sec: Yaml) -> Yaml {
    let n = lit(rc_name(&kids(d, p).unwrap()[i]));
    let s = y::h1(&n, sec);
    wrap(r, d, p, s)
}
pub fn rpath(d: &Device, p: &Place, i: usize) -> Path {
    let mut x = path(d, p);
    x.reg = Some(rc_name(&kids(d, p).unwrap()[i]).to_string());
    x
}
