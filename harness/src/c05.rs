//! Derivation.
use crate::attrs::*;
use crate::c02::rc_name;
use crate::c03::dims;
use crate::gen::{self, spec, Cfg};
use crate::place::*;
use crate::run::*;
use crate::sel::*;
use crate::y;
use svd_rs::*;
pub const RULE: &str = "random devices and random `_derive` entries for peripherals, registers and fields (existing and new targets, plain and qualified sources, extra attributes, optional selectors, chains of dependants); non-trivial: something changes or the patch must fail";

pub fn case(c: &mut Ctx) {
    let mut r = c.rng("");
    let r = &mut r;
    let cfg = Cfg { derived: 35, ..Cfg::default() };
    let d0 = norm(&gen::device(r, &cfg)).unwrap();
    let mut e = d0.clone();
    match r.n(3) {
        0 => {
            let names: Vec<String> = e.peripherals.iter().map(|p| p.name.clone()).collect();
            let src = match r.n(10) {
                0 => "NOPE".to_string(),
                1 => "OTHER.DEV".to_string(),
                _ => r.pick(&names).clone(),
            };
            let tgt = if r.p(25) { r.s(&["NEW1", "NEW%s"]) } else { r.pick(&names).clone() };
            if tgt == src || e.peripherals.iter().any(|p| p.name == src && p.derived_from.as_ref() == Some(&tgt)) {
                return;
            }
            let mut a = PerA::default();
            let hash = r.p(60);
            if hash {
                a = PerA::modi(r);
                a.ab = None;
                a.ints = None;
                a.regs = None;
                a.base = a.base.or(r.opt(60, |_| 0x4001_2000));
            }
            a.derived = Some(src.clone());
            let yy = if hash {
                let mut b = a.clone();
                b.derived = None;
                let mut v = b.pairs(r);
                v.push(("_from", y::s(&src)));
                y::h(v)
            } else {
                y::s(&src)
            };
            let p = y::h1("_derive", y::h1(&tgt, yy));
            if !src.contains('.') && !names.contains(&src) {
                return c.check(&d0, &p, Exp::Fail("the source does not exist"));
            }
            let mut at = e.peripherals.len();
            match names.iter().position(|n| *n == tgt) {
                Some(i) => {
                    a.apply_info(&mut e.peripherals[i]).unwrap();
                    at = i;
                }
                None => match (PerA { derived: None, ..a.clone() }).build(&tgt).map(|mut p| { p.derived_from = Some(src.clone()); p }) {
                    None => return c.check(&d0, &p, Exp::Fail("no base address")),
                    Some(_) if tgt.contains('%') => return,
                    Some(x) => e.peripherals.push(x),
                },
            }
            for (i, p) in e.peripherals.iter_mut().enumerate() {
                if p.derived_from.as_ref() == Some(&tgt) {
                    p.derived_from = Some(src.clone());
                    at = at.min(i);
                }
            }
            if let Some(s) = names.iter().position(|n| *n == src) {
                if s > at {
                    let x = e.peripherals.remove(s);
                    e.peripherals.insert(at, x);
                }
            }
            c.check(&d0, &p, Exp::Ok(e))
        }
        1 => {
            let Some(pl) = block(r, &d0) else { return };
            let path = path(&d0, &pl);
            let k = kids_new(&mut e, &pl);
            let names: Vec<String> = k.iter().filter(|x| matches!(x, RegisterCluster::Register(_))).map(|x| rc_name(x).to_string()).collect();
            let (src, full) = match r.n(10) {
                0 => ("NOPE".to_string(), "NOPE".to_string()),
                1 => ("P.C.R".to_string(), "P.C.R".to_string()),
                2 | 3 => {
                    let mut s = Path { cls: path.cls.clone(), ..path.clone() };
                    match s.cls.pop() {
                        None => ("PX.R".into(), "PX.R".into()),
                        Some(_) => ("CX.R".into(), format!("{}.CX.R", s.block())),
                    }
                }
                _ if names.is_empty() => return,
                _ => {
                    let n = r.pick(&names).clone();
                    (n.clone(), n)
                }
            };
            let s = if r.p(20) || names.is_empty() { r.s(&["NR1", "NR%s", "N*"]) } else { spec(r, &names) };
            let (s, o) = if r.p(15) { (format!("?~{s}"), true) } else { (s, false) };
            let (b, _) = opt(&s);
            let hit: Vec<String> = names.iter().filter(|n| selected(n, b)).cloned().collect();
            if hit.contains(&src) || k.iter().any(|x| matches!(x, RegisterCluster::Register(x) if x.name == src && x.derived_from.as_ref().map(|d| hit.contains(d)).unwrap_or(false))) {
                return;
            }
            let mut a = RegA::default();
            let hash = r.p(60);
            if hash {
                a = if hit.is_empty() { RegA::new(r, true) } else { RegA::modi(r) };
                a.access_empty = false;
                a.dim = DimA::default();
                if hit.is_empty() {
                    a.dim = dims(r, b, 4);
                } else if hit.iter().all(|n| n.contains('%')) {
                    a.dim = DimA::full(r, 50, 8);
                }
                if hit.is_empty() {
                    a.fields = None;
                }
            } else if hit.is_empty() && b.contains('%') {
                return;
            }
            a.derived = Some(full.clone());
            let yy = if hash {
                let mut b = a.clone();
                b.derived = None;
                let mut v = b.pairs(r);
                v.push(("_from", y::s(&src)));
                y::h(v)
            } else {
                y::s(&src)
            };
            let h = y::h1(&s, yy);
            let sec = y::h1("_derive", if r.p(60) { h } else { y::h1("_registers", h) });
            let p = wrap(r, &d0, &pl, sec);
            if !src.contains('.') && !names.contains(&src) {
                return c.check(&d0, &p, Exp::Fail("the source does not exist"));
            }
            let mut bad = None;
            if hit.is_empty() {
                if !o {
                    if b.contains(['*', '?', '[', '{', ',']) {
                        bad = Some("not a name for a new register")
                    } else {
                        match a.build(b, Some(&path)) {
                            Some(x) => k.push(RegisterCluster::Register(x)),
                            None => bad = Some("incomplete new register"),
                        }
                    }
                }
            } else {
                for x in k.iter_mut() {
                    if let RegisterCluster::Register(x) = x {
                        if hit.contains(&x.name) {
                            if let Err(w) = a.apply(x, &path) {
                                bad = Some(w)
                            }
                        }
                    }
                }
                for x in k.iter_mut() {
                    if let RegisterCluster::Register(x) = x {
                        if x.derived_from.as_ref().map(|d| hit.contains(d)).unwrap_or(false) {
                            x.derived_from = Some(full.clone())
                        }
                    }
                }
            }
            if d0.peripherals[pl.per].registers.is_none() && e.peripherals[pl.per].registers.as_ref().unwrap().is_empty() {
                e.peripherals[pl.per].registers = None;
            }
            c.check(&d0, &p, bad.map(Exp::Fail).unwrap_or(Exp::Ok(e)))
        }
        _ => {
            let Some((pl, i)) = register(r, &d0) else { return };
            let path = rpath(&d0, &pl, i);
            let x = reg(kids_mut(&mut e, &pl).unwrap(), i);
            let names: Vec<String> = x.fields.iter().flatten().map(|f| f.name.clone()).collect();
            let (src, full) = match r.n(5) {
                0 => ("RX.FX".to_string(), format!("{}.RX.FX", path.block())),
                1 if path.cls.is_empty() => ("P.R.F".to_string(), "P.R.F".to_string()),
                1 => {
                    let mut s = path.clone();
                    s.cls.pop();
                    ("CX.RX.FX".to_string(), format!("{}.CX.RX.FX", s.block()))
                }
                2 => ("P.C.R.F".to_string(), "P.C.R.F".to_string()),
                _ if names.is_empty() => return,
                _ => {
                    let n = r.pick(&names).clone();
                    (n.clone(), n)
                }
            };
            let s = if r.p(20) || names.is_empty() { r.s(&["NF1", "NF%s", "N*"]) } else { spec(r, &names) };
            let (s, o) = if r.p(15) { (format!("?~{s}"), true) } else { (s, false) };
            let (b, _) = opt(&s);
            let hit: Vec<String> = names.iter().filter(|n| selected(n, b)).cloned().collect();
            if hit.contains(&src) {
                return;
            }
            let mut a = FieldA::default();
            let hash = r.p(65) || hit.is_empty();
            if hash {
                a = if hit.is_empty() { FieldA::new(r) } else { FieldA::modi(r) };
                a.access_empty = false;
                a.wc_none = false;
                a.dim = DimA::default();
                if hit.is_empty() {
                    a.dim = dims(r, b, 4);
                } else if hit.iter().all(|n| n.contains('%')) {
                    a.dim = DimA::full(r, 50, 8);
                }
            }
            a.derived = Some(full);
            let yy = if hash {
                let mut b = a.clone();
                b.derived = None;
                let mut v = b.pairs(r);
                v.push(("_from", y::s(&src)));
                y::h(v)
            } else {
                y::s(&src)
            };
            let sec = y::h1("_derive", y::h1(&s, yy));
            let p = wrap_reg(r, &d0, &pl, i, sec);
            let mut bad = None;
            if hit.is_empty() {
                if !o {
                    if b.contains(['*', '?', '[', '{', ',']) {
                        bad = Some("not a name for a new field")
                    } else {
                        match a.build(b, Some(&path)) {
                            Some(f) => x.fields.get_or_insert_with(Vec::new).push(f),
                            None => bad = Some("incomplete new field"),
                        }
                    }
                }
            } else {
                for f in x.fields.iter_mut().flatten() {
                    if hit.contains(&f.name) {
                        if let Err(w) = a.apply(f, &path) {
                            bad = Some(w)
                        }
                    }
                }
            }
            c.check(&d0, &p, bad.map(Exp::Fail).unwrap_or(Exp::Ok(e)))
        }
    }
}
