//! Addition.
use crate::attrs::*;
use crate::c02::rc_name;
use crate::gen::{self, Cfg};
use crate::place::*;
use crate::run::*;
use crate::y;
use svd_rs::*;
pub const RULE: &str = "random devices and random `_add` entries (one or two new elements, fresh and already used names, single and array, complete and incomplete descriptions) for peripherals, registers, clusters, fields and interrupts in peripherals and nested clusters; non-trivial: an element is added or the patch must fail";

fn after(v: &[u64], x: u64) -> usize {
    let m = v.iter().filter(|a| **a <= x).max();
    match m {
        None => 0,
        Some(m) => v.iter().rposition(|a| a == m).unwrap() + 1,
    }
}
/// array names carry a placeholder
pub fn dims(r: &mut crate::rng::Rng, n: &str, inc: u32) -> DimA {
    let mut d = DimA::rnd(r, if n.contains("%s") { 100 } else { 0 }, inc);
    if d.some() && r.p(6) {
        d.inc = None
    }
    d
}
pub fn case(c: &mut Ctx) {
    let mut r = c.rng("");
    let r = &mut r;
    let cfg = Cfg { dup: false, ..Cfg::default() };
    let d0 = norm(&gen::device(r, &cfg)).unwrap();
    let mut e = d0.clone();
    let what = r.n(5);
    if what == 0 {
        let mut v = vec![];
        let mut bad = None;
        for _ in 0..r.r(1, 2) {
            let n = if r.p(80) { r.s(&["NEW1", "NEW2", "NEW%s"]) } else { r.s(gen::PERS) };
            if v.iter().any(|(k, _)| *k == n) {
                continue;
            }
            let mut a = PerA::new(r);
            a.dim = dims(r, &n, 0x400);
            if r.p(15) && !d0.peripherals.is_empty() {
                a.derived = Some(r.pick(&d0.peripherals).name.clone());
            }
            v.push((n.clone(), a.yaml(r)));
            if e.peripherals.iter().any(|p| p.name == n) {
                bad = bad.or(Some("the name is taken"));
            } else {
                match a.build(&n) {
                    None => bad = bad.or(Some("the description is incomplete")),
                    Some(p) => {
                        let at = after(&e.peripherals.iter().map(|p| p.base_address).collect::<Vec<_>>(), p.base_address);
                        e.peripherals.insert(at, p);
                    }
                }
            }
        }
        let p = y::h1("_add", y::hv(v));
        return c.check(&d0, &p, bad.map(Exp::Fail).unwrap_or(Exp::Ok(e)));
    }
    if what == 4 {
        // interrupts, also of derived peripherals
        let i = r.n(e.peripherals.len());
        let pn = e.peripherals[i].name.clone();
        let mut v = vec![];
        let mut bad = None;
        for _ in 0..r.r(1, 2) {
            let n = if r.p(80) { r.s(&["NEWI1", "NEWI2"]) } else { r.s(gen::INTS) };
            if v.iter().any(|(k, _)| *k == n) {
                continue;
            }
            let a = IntA::new(r);
            v.push((n.clone(), a.yaml(r)));
            let ints = &mut e.peripherals[i].interrupt;
            if ints.iter().any(|p| p.name == n) {
                bad = bad.or(Some("the name is taken"));
            } else {
                match a.build(&n) {
                    None => bad = bad.or(Some("the description is incomplete")),
                    Some(p) => ints.push(p),
                }
            }
        }
        let p = y::h1(&lit(&pn), y::h1("_add", y::h1("_interrupts", y::hv(v))));
        return c.check(&d0, &p, bad.map(Exp::Fail).unwrap_or(Exp::Ok(e)));
    }
    if what == 3 {
        let Some((pl, i)) = register(r, &d0) else { return };
        let path = rpath(&d0, &pl, i);
        let mut v = vec![];
        let mut bad = None;
        for _ in 0..r.r(1, 2) {
            let n = if r.p(75) { r.s(&["NF1", "NF2", "NF%s"]) } else { r.s(gen::FLDS) };
            if v.iter().any(|(k, _)| *k == n) {
                continue;
            }
            let mut a = FieldA::new(r);
            a.dim = dims(r, &n, 4);
            v.push((n.clone(), a.yaml(r)));
            let fs = reg(kids_mut(&mut e, &pl).unwrap(), i).fields.get_or_insert_with(Vec::new);
            if fs.iter().any(|f| f.name == n) {
                bad = bad.or(Some("the name is taken"));
            } else {
                match a.build(&n, Some(&path)) {
                    None => bad = bad.or(Some("the description is incomplete")),
                    Some(f) => fs.push(f),
                }
            }
        }
        let sec = y::h1("_add", y::hv(v));
        let p = wrap_reg(r, &d0, &pl, i, sec);
        return c.check(&d0, &p, bad.map(Exp::Fail).unwrap_or(Exp::Ok(e)));
    }
    let Some(pl) = block(r, &d0) else { return };
    let path = path(&d0, &pl);
    let k = kids_new(&mut e, &pl);
    let mut v = vec![];
    let mut bad = None;
    for _ in 0..r.r(1, 2) {
        let n = if what == 1 {
            if r.p(75) { r.s(&["NR1", "NR2", "NR%s"]) } else { r.s(gen::REGS) }
        } else if r.p(75) { r.s(&["NC1", "NC2", "NC%s"]) } else { r.s(gen::CLS) };
        if v.iter().any(|(k, _)| *k == n) {
            continue;
        }
        let (yy, x) = if what == 1 {
            let mut a = RegA::new(r, true);
            a.dim = dims(r, &n, 4);
            if r.p(10) {
                a.derived = Some(r.s(gen::REGS));
            }
            (a.yaml(r), a.build(&n, Some(&path)).map(RegisterCluster::Register))
        } else {
            let mut a = ClA::new(r);
            a.dim = dims(r, &n, 0x40);
            (a.yaml(r), a.build(&n, &path).map(RegisterCluster::Cluster))
        };
        v.push((n.clone(), yy));
        let taken = k.iter().any(|x| matches!(x, RegisterCluster::Register(_)) == (what == 1) && rc_name(x) == n);
        match (taken, x) {
            (true, _) => bad = bad.or(Some("the name is taken")),
            (_, None) => bad = bad.or(Some("the description is incomplete")),
            (_, Some(x)) => {
                let at = after(&k.iter().map(|x| off(x) as u64).collect::<Vec<_>>(), off(&x) as u64);
                k.insert(at, x);
            }
        }
    }
    let h = y::hv(v);
    let sec = y::h1("_add", if what == 1 { if r.p(50) { h } else { y::h1("_registers", h) } } else { y::h1("_clusters", h) });
    let p = wrap(r, &d0, &pl, sec);
    c.check(&d0, &p, bad.map(Exp::Fail).unwrap_or(Exp::Ok(e)))
}
