//! Copy.
use crate::attrs::*;
use crate::c02::rc_name;
use crate::gen::{self, Cfg};
use crate::place::*;
use crate::run::*;
use crate::y;
use svd_rs::*;
pub const RULE: &str = "random devices and random `_copy` entries for peripherals (same file, other file) and registers (with changes), to new and to existing targets, from existing and missing sources; non-trivial: something changes or the patch must fail";
pub fn case(c: &mut Ctx) {
    let mut r = c.rng("");
    let r = &mut r;
    let cfg = Cfg { derived: 25, pers: (1, 5), ..Cfg::default() };
    let d0 = norm(&gen::device(r, &cfg)).unwrap();
    let mut e = d0.clone();
    if r.p(50) {
        let file = r.p(40);
        let mut src_dev = if file {
            let mut d;
            let mut n = 0;
            loop {
                // read back with full validation by the patcher
                let k = Cfg { derived: 25, depth: 1, arrays: 10, dup: false, kids: (1, 4), fields: (1, 3), ..Cfg::default() };
                d = gen::device(r, &k);
                for p in &mut d.peripherals {
                    if p.registers.as_ref().map(|v| v.is_empty()).unwrap_or(false) {
                        p.registers = None
                    }
                }
                n += 1;
                if n > 10 {
                    return;
                }
                if let Ok(x) = svd_parser::parse(&enc(&d)) {
                    d = x;
                    break;
                }
            }
            d
        } else {
            d0.clone()
        };
        let names: Vec<String> = src_dev.peripherals.iter().map(|p| p.name.clone()).collect();
        let src = if r.p(8) { "NOPE".to_string() } else { r.pick(&names).clone() };
        let tgt = if r.p(45) || d0.peripherals.is_empty() { r.s(&["NEW1", "NEW2"]) } else { r.pick(&d0.peripherals).name.clone() };
        let mut top = vec![];
        let from = if file {
            let dir = format!("{}/c07", c.scratch);
            std::fs::create_dir_all(&dir).unwrap();
            std::fs::write(format!("{dir}/other.svd"), enc(&src_dev)).unwrap();
            top.push(("_path".to_string(), y::s(&format!("{dir}/top.yaml"))));
            format!("other.svd:{src}")
        } else {
            src.clone()
        };
        top.push(("_copy".to_string(), y::h1(&tgt, y::h1("from", y::s(&from)))));
        let p = y::hv(top);
        let Some(x) = src_dev.peripherals.iter_mut().find(|p| p.name == src) else {
            return c.check(&d0, &p, Exp::Fail("the source does not exist"));
        };
        let mut x = x.clone();
        if !file {
            x.interrupt = vec![];
        }
        x.name = tgt.clone();
        x.derived_from = None;
        let arr = x.is_array();
        match e.peripherals.iter_mut().find(|p| p.name == tgt) {
            Some(t) => {
                if arr != t.is_array() {
                    return;
                }
                x.base_address = t.base_address;
                x.interrupt = t.interrupt.clone();
                *t = x;
            }
            None => {
                if arr {
                    return;
                }
                e.peripherals.push(x)
            }
        }
        return c.check(&d0, &p, Exp::Ok(e));
    }
    let Some(pl) = block(r, &d0) else { return };
    let path = path(&d0, &pl);
    let Some(k) = kids_mut(&mut e, &pl) else { return };
    let names: Vec<String> = regs(k).into_iter().map(|i| rc_name(&k[i]).to_string()).collect();
    let src = if r.p(8) || names.is_empty() { "NOPE".to_string() } else { r.pick(&names).clone() };
    let tgt = if r.p(50) || names.is_empty() { r.s(&["NR1", "NR%s"]) } else { r.pick(&names).clone() };
    let mut a = if r.p(60) { RegA::modi(r) } else { RegA::default() };
    a.access_empty = false;
    let mut v = a.pairs(r);
    v.push(("_from", y::s(&src)));
    r.shuffle(&mut v);
    let h = y::h1(&tgt, y::h(v));
    let sec = y::h1("_copy", if r.p(60) { h } else { y::h1("_registers", h) });
    let p = wrap(r, &d0, &pl, sec);
    let Some(s) = names.iter().position(|n| *n == src) else {
        return c.check(&d0, &p, Exp::Fail("the source does not exist"));
    };
    let ri = regs(k);
    let mut x = reg(k, ri[s]).clone();
    if x.is_array() != tgt.contains('%') {
        return;
    }
    x.display_name = None;
    if x.derived_from.is_some() && a.props != RegisterProperties::default() {
        return;
    }
    a.name = Some(tgt.clone());
    a.apply_info(&mut x, &path).unwrap();
    match names.iter().position(|n| *n == tgt) {
        Some(t) => {
            let t = reg(k, ri[t]);
            x.address_offset = t.address_offset;
            *t = x;
        }
        None => k.push(RegisterCluster::Register(x)),
    }
    c.check(&d0, &p, Exp::Ok(e))
}
