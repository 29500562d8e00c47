//! Write constraints.
use crate::attrs::*;
use crate::c08;
use crate::gen::{self, Cfg};
use crate::place::*;
use crate::rng::Rng;
use crate::run::*;
use crate::sel::selected;
use crate::y;
use svd_rs::*;
use yaml_rust::Yaml;
pub const RULE: &str = "random devices; ranges as field descriptions, write constraints given through `_modify` and `_add` of fields and `_modify` of registers, in every form and in malformed forms, with random selectors; non-trivial: something changes or the patch must fail";
fn range(r: &mut Rng, width: u32) -> (u64, u64) {
    let top = (1u64 << width.min(8)) - 1;
    let a = r.n(top as usize) as u64;
    (a, r.r(a as usize + 1, top as usize) as u64)
}
/// (yaml, what it denotes); None: it must be refused
fn form(r: &mut Rng, width: u32) -> (Yaml, Option<Option<WriteConstraint>>) {
    match r.n(12) {
        0 | 1 => (y::s("none"), Some(None)),
        2 | 3 => (y::s("enum"), Some(Some(WriteConstraint::UseEnumeratedValues(true)))),
        4 => (r.pick(&[y::s("range"), y::s(""), y::s("None"), Yaml::Integer(3), Yaml::Boolean(true), Yaml::Hash(Default::default())]).clone(), None),
        5 => {
            let n = r.s(&["0", "1", "3", "4"]).parse::<usize>().unwrap();
            (Yaml::Array((0..n as i64).map(Yaml::Integer).collect()), None)
        }
        6 => (Yaml::Array(vec![num(r, 0), r.pick(&[y::s("x"), y::s(""), Yaml::Null, Yaml::Array(vec![])]).clone()]), None),
        _ => {
            let (a, b) = range(r, width);
            (Yaml::Array(vec![num(r, a), num(r, b)]), Some(Some(WriteConstraint::Range(WriteConstraintRange { min: a, max: b }))))
        }
    }
}
pub fn case(c: &mut Ctx) {
    let mut r = c.rng("");
    let r = &mut r;
    let Some((d0, p, i)) = c08::setup(r, &Cfg { arrays: 10, derived: 12, ..c08::fcfg() }) else { return };
    let mut e = d0.clone();
    let names = c08::fnames(&d0, &p, i);
    let sel = gen::spec(r, &names);
    let ign = r.p(25);
    let key = if ign { format!("?~{sel}") } else { sel.clone() };
    match r.n(10) {
        0..=3 => {
            // a description of fields; the narrowest selected field bounds the range
            let v = c08::fields(&mut e, &p, i).get_or_insert_with(Vec::new);
            let hit: Vec<usize> = (0..v.len()).filter(|j| selected(&v[*j].name, &sel)).collect();
            let w = hit.iter().map(|j| v[*j].bit_range.width).min().unwrap_or(3);
            let (a, b) = range(r, w);
            let bad = r.p(10);
            let y2 = if bad { r.pick(&[y::s("x"), y::s("1.5"), Yaml::Null]).clone() } else { num(r, b) };
            for j in &hit {
                v[*j].write_constraint = Some(WriteConstraint::Range(WriteConstraintRange { min: a, max: b }));
            }
            let odd = r.p(12);
            let exp = if odd {
                if hit.is_empty() && ign { Exp::Skip } else { Exp::Fail("a list of other than two numbers") }
            } else if hit.is_empty() {
                if ign { Exp::Ok(d0.clone()) } else { Exp::Fail("no field is selected") }
            } else if bad {
                Exp::Fail("a bound is not a number")
            } else {
                Exp::Ok(e)
            };
            let yy = Yaml::Array(if odd {
                let n = *r.pick(&[0u64, 1, 3, 4]);
                (0..n).map(|k| num(r, a + k)).collect()
            } else {
                vec![num(r, a), y2]
            });
            let py = wrap_reg(r, &d0, &p, i, y::h1(&key, yy));
            c.check(&d0, &py, exp)
        }
        4..=7 => {
            let v = c08::fields(&mut e, &p, i).get_or_insert_with(Vec::new);
            let hit: Vec<usize> = (0..v.len()).filter(|j| selected(&v[*j].name, &sel)).collect();
            let w = hit.iter().map(|j| v[*j].bit_range.width).min().unwrap_or(3);
            let (yy, f) = form(r, w);
            for j in &hit {
                if let Some(x) = &f {
                    v[*j].write_constraint = x.clone()
                }
            }
            let k = r.s(&["_write_constraint", "writeConstraint"]);
            let exp = match (&f, hit.is_empty()) {
                (_, true) if !ign => Exp::Fail("no field is selected"),
                (None, true) => Exp::Skip,
                (None, false) => Exp::Fail("not a write constraint"),
                _ => Exp::Ok(e),
            };
            let py = wrap_reg(r, &d0, &p, i, y::h1("_modify", y::h1(&key, y::h1(&k, yy))));
            c.check(&d0, &py, exp)
        }
        8 => {
            let w = r.r(1, 5) as u32;
            let (yy, f) = form(r, w);
            let k = r.s(&["_write_constraint", "writeConstraint"]);
            let o = r.n(20) as u32;
            let x = FieldInfo::builder().name("NEWF".into()).bit_range(BitRange::from_offset_width(o, w)).write_constraint(f.clone().flatten()).build(gen::LVL).unwrap();
            c08::fields(&mut e, &p, i).get_or_insert_with(Vec::new).push(x.single());
            let exp = if f.is_none() { Exp::Fail("not a write constraint") } else { Exp::Ok(e) };
            let h = y::h(vec![("bitOffset", num(r, o as u64)), ("bitWidth", num(r, w as u64)), (&k, yy)]);
            let py = wrap_reg(r, &d0, &p, i, y::h1("_add", y::h1("NEWF", h)));
            c.check(&d0, &py, exp)
        }
        _ => {
            let (yy, f) = form(r, 8);
            if let Some(None) = f {
                return; // for registers `none` keeps what is there
            }
            let k = r.s(&["_write_constraint", "writeConstraint"]);
            let n = lit(crate::c02::rc_name(&kids(&d0, &p).unwrap()[i]));
            for x in kids_mut(&mut e, &p).unwrap() {
                if let RegisterCluster::Register(x) = x {
                    if selected(&x.name, &n) {
                        x.write_constraint = f.clone().flatten()
                    }
                }
            }
            let exp = if f.is_none() { Exp::Fail("not a write constraint") } else { Exp::Ok(e) };
            let py = wrap(r, &d0, &p, y::h1("_modify", y::h1(&n, y::h1(&k, yy))));
            c.check(&d0, &py, exp)
        }
    }
}
