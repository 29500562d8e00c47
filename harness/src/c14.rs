//! Enumerated values.
use crate::c08;
use crate::enums::*;
use crate::gen::{self, Cfg};
use crate::place::*;
use crate::rng::Rng;
use crate::run::*;
use crate::y;
use svd_rs::*;
use svdtools::patch::EnumAutoDerive;
pub const RULE: &str = "random devices; 1-2 field descriptions with random value tables (shuffled, with default, malformed), names, `_replace_enum`, usage tags, covering one or several fields with and without prior values, under the three derive settings; non-trivial: something changes or the patch must fail";
pub fn case(c: &mut Ctx) {
    let mut r = c.rng("");
    run(c, &mut r, 30, 8)
}
pub fn run(c: &mut Ctx, r: &mut Rng, tags: usize, trouble: usize) {
    let Some((mut d, p, i)) = c08::setup(r, &Cfg { arrays: 8, evs: 30, ..c08::fcfg() }) else { return };
    // mostly one width, so that several fields can share values
    if r.p(70) {
        let w = r.r(1, 3) as u32;
        for f in c08::fields(&mut d, &p, i).iter_mut().flatten() {
            f.bit_range.width = w;
            let top = 1u64 << w;
            f.enumerated_values.iter_mut().for_each(|e| e.values.retain(|v| v.value.unwrap_or(0) < top));
            if matches!(f.write_constraint, Some(WriteConstraint::Range(_))) {
                f.write_constraint = None
            }
            if r.p(40) {
                f.access = None
            }
        }
    }
    let d0 = norm(&d).unwrap();
    let mut e = d0.clone();
    let acc = match &kids(&d0, &p).unwrap()[i] {
        RegisterCluster::Register(x) => x.properties.access,
        _ => unreachable!(),
    };
    let mode = *r.pick(&[EnumAutoDerive::Enum, EnumAutoDerive::Enum, EnumAutoDerive::Field, EnumAutoDerive::None]);
    let mut cfg = svdtools::patch::Config::default();
    cfg.enum_derive = mode;
    let names = c08::fnames(&d0, &p, i);
    let v = c08::fields(&mut e, &p, i).get_or_insert_with(Vec::new);
    let mut es = vec![];
    let mut exp = None;
    for _ in 0..r.r(1, 2) {
        let sel = if r.p(40) && !names.is_empty() { lit(r.pick(&names)) } else { gen::spec(r, &names) };
        let ign = r.p(20);
        let w = v.iter().filter(|f| crate::sel::selected(&f.name, &sel)).map(|f| f.bit_range.width).min().unwrap_or(2);
        let desc = Desc::rnd(r, w, tags, trouble);
        if es.iter().any(|x: &(String, _)| x.0.trim_start_matches("?~") == sel) || sel.starts_with('_') {
            continue;
        }
        es.push((if ign { format!("?~{sel}") } else { sel.clone() }, desc.yaml(r)));
        if exp.is_some() {
            continue;
        }
        // fields that are derived are judged by what they derive from: not fixed here
        if v.iter().any(|f| f.derived_from.is_some()) {
            return;
        }
        match desc.apply(v, acc, &sel, ign, mode) {
            Ok(()) => {}
            Err(No::Fail(w)) => exp = Some(Exp::Fail(w)),
            Err(No::Skip) => return,
        }
    }
    if e == d0 {
        e = d0.clone();
    }
    let py = wrap_reg(r, &d0, &p, i, y::hv(es));
    c.check_cfg(&d0, &py, exp.unwrap_or(Exp::Ok(e)), &cfg)
}
