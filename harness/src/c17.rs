//! Clearing.
use crate::c08;
use crate::gen::{self, Cfg};
use crate::place::*;
use crate::rng::Rng;
use crate::run::*;
use crate::sel::selected;
use crate::y;
use svd_rs::*;
use yaml_rust::Yaml;
pub const RULE: &str = "random devices with derived peripherals, registers and fields; `_clear` (fields) and `_clear_fields` (registers, peripherals) with random selectors, single or lists; non-trivial: something is removed";
fn fields(x: &mut RegisterInfo, sel: &str) {
    for f in x.fields.iter_mut().flatten() {
        if f.derived_from.is_none() && selected(&f.name, sel) {
            f.enumerated_values = vec![];
            f.write_constraint = None;
        }
    }
}
fn regs(k: &mut [RegisterCluster], sel: &str) {
    for x in k {
        match x {
            RegisterCluster::Register(x) => {
                if x.derived_from.is_none() && selected(&x.name, sel) {
                    fields(x, "*")
                }
            }
            RegisterCluster::Cluster(x) => regs(&mut x.children, sel),
        }
    }
}
fn all_names(k: &[RegisterCluster], v: &mut Vec<String>) {
    for x in k {
        match x {
            RegisterCluster::Register(x) => v.push(x.name.clone()),
            RegisterCluster::Cluster(x) => all_names(&x.children, v),
        }
    }
}
fn derive_some(r: &mut Rng, k: &mut [RegisterCluster]) {
    for x in k {
        match x {
            RegisterCluster::Register(x) => {
                for f in x.fields.iter_mut().flatten() {
                    if r.p(15) {
                        f.derived_from = Some("OTHER".into())
                    }
                }
            }
            RegisterCluster::Cluster(x) => derive_some(r, &mut x.children),
        }
    }
}
fn list(r: &mut Rng, v: &[String]) -> Yaml {
    if v.len() == 1 && r.p(60) { y::s(&v[0]) } else { y::sa(v) }
}
pub fn case(c: &mut Ctx) {
    let mut r = c.rng("");
    let r = &mut r;
    let mut d = gen::device(r, &Cfg { pers: (1, 3), kids: (1, 4), derived: 20, fields: (0, 4), evs: 60, ..Cfg::default() });
    for p in &mut d.peripherals {
        derive_some(r, p.registers.as_mut().map(|v| v.as_mut_slice()).unwrap_or_default());
    }
    let d0 = norm(&d).unwrap();
    let mut e = d0.clone();
    match r.n(3) {
        0 => {
            let Some((p, i)) = register(r, &d0) else { return };
            let names = c08::fnames(&d0, &p, i);
            let sels: Vec<String> = (0..r.r(1, 2)).map(|_| gen::spec(r, &names)).collect();
            for s in &sels {
                fields(reg(kids_mut(&mut e, &p).unwrap(), i), s)
            }
            let l = list(r, &sels);
            let py = wrap_reg(r, &d0, &p, i, y::h1("_clear", l));
            c.check(&d0, &py, Exp::Ok(e))
        }
        1 => {
            let Some(p) = block(r, &d0) else { return };
            let mut names = vec![];
            all_names(kids(&d0, &p).map(|v| v.as_slice()).unwrap_or_default(), &mut names);
            let sels: Vec<String> = (0..r.r(1, 2)).map(|_| gen::spec(r, &names)).collect();
            for s in &sels {
                regs(kids_mut(&mut e, &p).map(|v| v.as_mut_slice()).unwrap_or_default(), s)
            }
            let l = list(r, &sels);
            let py = wrap(r, &d0, &p, y::h1("_clear_fields", l));
            c.check(&d0, &py, Exp::Ok(e))
        }
        _ => {
            let names: Vec<String> = d0.peripherals.iter().map(|p| p.name.clone()).collect();
            let sels: Vec<String> = (0..r.r(1, 2)).map(|_| gen::spec(r, &names)).collect();
            for s in &sels {
                for p in &mut e.peripherals {
                    if p.derived_from.is_none() && selected(&p.name, s) {
                        regs(p.registers.as_mut().map(|v| v.as_mut_slice()).unwrap_or_default(), "*")
                    }
                }
            }
            let l = list(r, &sels);
            c.check(&d0, &y::h1("_clear_fields", l), Exp::Ok(e))
        }
    }
}
