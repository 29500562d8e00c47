//! Sections of derived elements.
use crate::c02::rc_name;
use crate::gen::{self, Cfg};
use crate::place::*;
use crate::rng::Rng;
use crate::run::*;
use crate::y;
use svd_rs::*;
use yaml_rust::Yaml;
pub const RULE: &str = "random devices with many derived peripherals and registers; sections with every kind of operation addressed to derived elements, next to sections of their siblings; non-trivial: something changes or the patch must fail";

fn reg_ops(r: &mut Rng) -> Vec<(&'static str, Yaml)> {
    let d = || y::h1("description", y::s("NEW"));
    let mut v = vec![];
    for k in 0..9 {
        if r.p(30) {
            v.push(match k {
                0 => ("_prefix", y::s("Z")),
                1 => ("_suffix", y::s("Z")),
                2 => ("_delete", y::s("*")),
                3 => ("_clear", y::s("*")),
                4 => ("_modify", y::h1("*", d())),
                5 => ("_add", y::h1("FNEW", y::h(vec![("bitOffset", y::i(3)), ("bitWidth", y::i(1))]))),
                6 => ("_merge", y::h1("M", y::s("*"))),
                7 => ("EN*", y::h1("V", y::a(vec![y::i(0), y::s("d")]))),
                _ => ("_strip", y::s("E")),
            });
        }
    }
    v
}
fn ints(r: &mut Rng, per: &mut PeripheralInfo, v: &mut Vec<(&'static str, Yaml)>, other: &[(&'static str, Yaml)]) -> bool {
    let get = |k: &str| other.iter().find(|x| x.0 == k).map(|x| x.1.clone());
    let mut ok = true;
    let with = |k: &str, sub: Yaml| {
        let mut h = match get(k) {
            Some(Yaml::Hash(h)) => h,
            _ => Default::default(),
        };
        h.insert(y::s("_interrupts"), sub);
        Yaml::Hash(h)
    };
    if r.p(40) {
        let s = r.s(&["TIM1*", "DMA?", "ADC", "*", "GPIO,ADC"]);
        per.interrupt.retain(|i| !crate::sel::selected(&i.name, &s));
        v.push(("_delete", with("_delete", y::s(&s))));
    }
    if r.p(40) {
        let s = r.s(&["TIM1*", "DMA?", "ADC", "*"]);
        for i in per.interrupt.iter_mut().filter(|i| crate::sel::selected(&i.name, &s)) {
            i.value = 77;
        }
        v.push(("_modify", with("_modify", y::h1(&s, y::h1("value", y::i(77))))));
    }
    if r.p(40) {
        let s = r.s(&["NEWI", "ADC"]);
        if per.interrupt.iter().any(|i| i.name == s) {
            ok = false
        } else {
            per.interrupt.push(Interrupt::builder().name(s.clone()).description(Some("d".into())).value(5).build(gen::LVL).unwrap());
        }
        v.push(("_add", with("_add", y::h1(&s, y::h(vec![("description", y::s("d")), ("value", y::i(5))])))));
    }
    ok
}
fn per_ops(r: &mut Rng) -> Vec<(&'static str, Yaml)> {
    let d = || y::h1("description", y::s("NEW"));
    let mut v = vec![];
    for k in 0..11 {
        if r.p(30) {
            v.push(match k {
                0 => ("_prefix", y::s("Z")),
                1 => ("_suffix", y::s("Z")),
                2 => ("_delete", y::h(vec![("_registers", y::s("*"))])),
                3 => ("_clear_fields", y::s("*")),
                4 => ("_modify", y::h1("*", d())),
                5 => ("_add", y::h1("RNEW", y::h1("addressOffset", y::i(3)))),
                6 => ("*", y::h(reg_ops(r))),
                7 => ("_expand_array", y::h1("*", y::h(vec![]))),
                8 => ("_strip", y::s("C")),
                9 => ("_array", y::h1("CCR?", y::h(vec![]))),
                _ => ("ZZ", y::h(vec![])),
            });
        }
    }
    v
}
pub fn case(c: &mut Ctx) {
    let mut r = c.rng("");
    let r = &mut r;
    let mut d = gen::device(r, &Cfg { pers: (2, 4), kids: (1, 5), derived: 50, ..Cfg::default() });
    for p in &mut d.peripherals {
        if p.derived_from.is_some() && p.interrupt.is_empty() {
            p.interrupt = gen::interrupts(r, 2);
        }
    }
    let d0 = norm(&d).unwrap();
    let mut e = d0.clone();
    if r.p(50) {
        // a section that reaches derived and other peripherals alike
        let i = r.n(d0.peripherals.len());
        let all = r.p(40);
        let names: Vec<String> = d0.peripherals.iter().map(|p| p.name.clone()).collect();
        let sel = if all { "*".into() } else { names[i].clone() };
        if sel.contains('%') {
            return;
        }
        if all || d0.peripherals[i].derived_from.is_none() {
            // only an operation whose effect on the others is plain
            for (k, p) in e.peripherals.iter_mut().enumerate() {
                if (all || k == i) && p.derived_from.is_none() {
                    for x in p.registers.iter_mut().flatten() {
                        if let RegisterCluster::Register(x) = x {
                            x.name.push('Q');
                            x.display_name = x.display_name.as_ref().map(|s| format!("{s}Q"));
                            x.alternate_register = x.alternate_register.as_ref().map(|s| format!("{s}Q"));
                        }
                    }
                }
            }
            c.class("peripherals of both kinds");
            return c.check(&d0, &y::h1(&sel, y::h1("_suffix", y::s("Q"))), Exp::Ok(e));
        }
        let mut ops = per_ops(r);
        let mut v = vec![];
        let ok = ints(r, &mut e.peripherals[i], &mut v, &ops);
        ops.retain(|o| !v.iter().any(|x| x.0 == o.0));
        ops.extend(v);
        c.class("derived peripheral");
        c.check(&d0, &y::h1(&sel, y::h(ops)), if ok { Exp::Ok(e) } else { Exp::Fail("the interrupt exists") })
    } else {
        let Some(p) = block(r, &d0) else { return };
        let Some(k) = kids_mut(&mut e, &p) else { return };
        let rs = regs(k);
        let Some(ds) = rs.iter().find(|i| reg(k, **i).derived_from.is_some()) else { return };
        let s = lit(rc_name(&k[*ds]));
        let hits: Vec<usize> = rs.iter().copied().filter(|i| crate::sel::selected(rc_name(&k[*i]), &s)).collect();
        let all = r.p(40) || hits.iter().any(|i| reg(k, *i).derived_from.is_none());
        let sec = if all {
            for i in rs {
                let x = reg(k, i);
                if x.derived_from.is_none() {
                    for f in x.fields.iter_mut().flatten() {
                        f.name.push('Q')
                    }
                }
            }
            c.class("registers of both kinds");
            y::h1("*", y::h1("_suffix", y::s("Q")))
        } else {
            c.class("derived register");
            y::h1(&s, y::h(reg_ops(r)))
        };
        let py = wrap(r, &d0, &p, sec);
        c.check(&d0, &py, Exp::Ok(e))
    }
}
