//! Mandatory and optional selectors.
use crate::c02::{kid_names, rc_name};
use crate::c08;
use crate::gen::{self, spec, Cfg};
use crate::place::*;
use crate::rng::Rng;
use crate::run::*;
use crate::sel::selected;
use crate::y;
use svd_rs::*;
use yaml_rust::Yaml;
pub const RULE: &str = "random devices; for every operation that takes a mandatory selector one to three selectors, with and without `?~`, selecting some, all or none; the other operation of the section still has to apply; non-trivial: something changes or the patch must fail";

/// one selector, as written and bare, and whether it is optional
fn pick(r: &mut Rng, have: &[String], plain: bool) -> (String, String, bool) {
    let s = if r.p(45) { r.s(&["ZZ", "ZZ*", "Q?", "X[0-9]", "QQ,ZZ", "{ZZ,QQ}"]) } else { spec(r, have) };
    let s = if plain { s.replace(['{', '}', ','], "") } else { s };
    let o = r.p(50);
    (if o { format!("?~{s}") } else { s.clone() }, s, o)
}
fn prefix_regs(k: &mut [RegisterCluster]) {
    for x in k {
        if let RegisterCluster::Register(x) = x {
            x.name = format!("Z{}", x.name);
            x.display_name = x.display_name.as_ref().map(|s| format!("Z{s}"));
            x.alternate_register = x.alternate_register.as_ref().map(|s| format!("Z{s}"));
        }
    }
}
fn prefix_fields(x: &mut Register) {
    for f in x.fields.iter_mut().flatten() {
        f.name = format!("Z{}", f.name)
    }
}
fn pre() -> Yaml {
    y::h1("_prefix", y::s("Z"))
}
enum R {
    Done,
    Miss,
}
/// what a child section with the given operation does
fn child(k: &mut [RegisterCluster], s: &str, only_clusters: bool, fr: &dyn Fn(&mut Register), fc: &dyn Fn(&mut Cluster)) -> R {
    let rs: Vec<usize> = if only_clusters { vec![] } else { regs(k).into_iter().filter(|i| selected(rc_name(&k[*i]), s)).collect() };
    let cs: Vec<usize> = clusters(k).into_iter().filter(|i| selected(rc_name(&k[*i]), s)).collect();
    if !rs.is_empty() {
        for i in rs {
            fr(reg(k, i))
        }
        R::Done
    } else if !cs.is_empty() {
        for i in cs {
            fc(cl(k, i))
        }
        R::Done
    } else {
        R::Miss
    }
}
pub fn case(c: &mut Ctx) {
    let mut r = c.rng("");
    let r = &mut r;
    let d0 = norm(&gen::device(r, &Cfg { pers: (1, 4), kids: (0, 6), fields: (0, 5), clusters: 35, derived: 15, evs: 0, ..Cfg::default() })).unwrap();
    let mut e = d0.clone();
    let n = r.r(1, 3);
    let mut fail = false;
    let mut secs: Vec<(String, Yaml)> = vec![];
    let mut add = |s: String, y: Yaml, secs: &mut Vec<(String, Yaml)>| {
        if !secs.iter().any(|x| x.0 == s) {
            secs.push((s, y));
            true
        } else {
            false
        }
    };
    match r.n(12) {
        0 => {
            // peripheral sections
            for _ in 0..n {
                let names: Vec<String> = e.peripherals.iter().map(|p| p.name.clone()).collect();
                let (w, s, o) = pick(r, &names, false);
                if !add(w, pre(), &mut secs) {
                    continue;
                }
                let mut any = false;
                for p in &mut e.peripherals {
                    if selected(&p.name, &s) {
                        any = true;
                        if p.derived_from.is_none() {
                            prefix_regs(p.registers.as_mut().map(|v| v.as_mut_slice()).unwrap_or_default())
                        }
                    }
                }
                fail |= !any && !o;
            }
            c.class("peripheral sections");
            c.check(&d0, &y::hv(secs), if fail { Exp::Fail("selects no peripheral") } else { Exp::Ok(e) })
        }
        k @ 1..=5 => {
            // register or cluster sections, modifications
            let Some(p) = block(r, &d0) else { return };
            let mut none = vec![];
            for _ in 0..n {
                let ks: &mut Vec<RegisterCluster> = match kids_mut(&mut e, &p) {
                    Some(x) => x,
                    None => &mut none,
                };
                let names = kid_names(ks);
                let (w, s, o) = pick(r, &names, false);
                let (only_c, only_r, modify) = (k == 2 || k == 4, k == 5, k >= 3);
                let sec = if modify { y::h1("description", y::s("NEW")) } else { pre() };
                if !add(w, sec, &mut secs) {
                    continue;
                }
                let res = if modify {
                    if only_r && !regs(ks).iter().any(|i| selected(rc_name(&ks[*i]), &s)) {
                        R::Miss
                    } else {
                        child(ks, &s, only_c, &|x| x.description = Some("NEW".into()), &|x| x.description = Some("NEW".into()))
                    }
                } else {
                    child(ks, &s, only_c, &|x| if x.derived_from.is_none() { prefix_fields(x) }, &|x| prefix_regs(&mut x.children))
                };
                fail |= matches!(res, R::Miss) && !o;
            }
            let (kind, sec) = match k {
                1 => ("register or cluster sections", y::hv(secs)),
                2 => ("_clusters sections", y::h1("_clusters", y::hv(secs))),
                3 => ("_modify", y::h1("_modify", y::hv(secs))),
                4 => ("_modify _clusters", y::h1("_modify", y::h1("_clusters", y::hv(secs)))),
                _ => ("_modify _registers", y::h1("_modify", y::h1("_registers", y::hv(secs)))),
            };
            c.class(kind);
            let py = wrap(r, &d0, &p, sec);
            c.check(&d0, &py, if fail { Exp::Fail("selects nothing") } else { Exp::Ok(e) })
        }
        k @ 6..=9 => {
            // fields
            let Some((p, i)) = register(r, &d0) else { return };
            let x = reg(kids_mut(&mut e, &p).unwrap(), i);
            let regacc = x.properties.access;
            let names = c08::fnames(&d0, &p, i);
            for _ in 0..n {
                let (w, s, o) = pick(r, &names, false);
                let sec = match k {
                    6 => y::h1("description", y::s("NEW")),
                    7 => y::h1("A", y::a(vec![y::i(0), y::s("x")])),
                    8 => y::a(vec![y::i(1), y::i(2)]),
                    _ => y::h(vec![]),
                };
                let hit: Vec<usize> = x.fields.iter().flatten().enumerate().filter(|f| selected(&f.1.name, &s)).map(|f| f.0).collect();
                if k == 9 && hit.len() == 1 || k == 7 && !hit.is_empty() && (hit.len() > 1 || !secs.is_empty() && n > 1) {
                    continue;
                }
                if !add(w, sec, &mut secs) {
                    continue;
                }
                fail |= hit.is_empty() && !o || k == 9 && hit.len() > 1;
                for h in hit {
                    let f = &mut x.fields.as_mut().unwrap()[h];
                    match k {
                        6 => f.description = Some("NEW".into()),
                        7 => {
                            if !f.enumerated_values.is_empty() {
                                fail = true;
                                continue;
                            }
                            use Access::*;
                            let _ = (ReadOnly, regacc);
                            let v = EnumeratedValue::builder().name("A".into()).description(Some("x".into())).value(Some(0)).build(gen::LVL).unwrap();
                            let mut ev = EnumeratedValues::builder().values(vec![v]).build(gen::LVL).unwrap();
                            ev.name = Some(f.name.replace("%s", ""));
                            f.enumerated_values = vec![ev];
                        }
                        8 => f.write_constraint = Some(WriteConstraint::Range(WriteConstraintRange { min: 1, max: 2 })),
                        _ => {}
                    }
                }
            }
            let (kind, sec) = match k {
                6 => ("field _modify", y::h1("_modify", y::hv(secs))),
                7 => ("enumerated values", y::hv(secs)),
                8 => ("ranges", y::hv(secs)),
                _ => ("_split", y::h1("_split", y::hv(secs))),
            };
            c.class(kind);
            let py = wrap_reg(r, &d0, &p, i, sec);
            c.check(&d0, &py, if fail { Exp::Fail("selects no field") } else { Exp::Ok(e) })
        }
        _ => {
            // operations that gather elements: only selectors without a hit
            let Some(p) = block(r, &d0) else { return };
            let pats = ["ZZ?", "ZZ*", "Q[0-9]"];
            let o = r.p(50);
            let w = |s: &str| if o { format!("?~{s}") } else { s.to_string() };
            let pat = r.s(&pats);
            let (kind, sec) = match r.n(5) {
                0 => ("_array", y::h1("_array", y::h1(&w(&pat), y::h(vec![])))),
                1 => ("_delete _clusters", y::h1("_delete", y::h1("_clusters", y::s(&w(&pat))))),
                2 => ("_expand_cluster", y::h1("_expand_cluster", if r.p(50) { y::s(&w(&pat)) } else { y::h1(&w(&pat), y::h(vec![])) })),
                3 => {
                    let Some((q, i)) = register(r, &d0) else { return };
                    let sec = y::h1("_array", y::h1(&w(&pat), y::h(vec![])));
                    let py = wrap_reg(r, &d0, &q, i, sec);
                    c.class("field _array");
                    return c.check(&d0, &py, if o { Exp::Ok(e) } else { Exp::Fail("selects no field") });
                }
                _ => ("_cluster member", y::h1("_cluster", y::h1("NEWCL%s", y::h1(&w(&pat), y::h(vec![]))))),
            };
            if kind == "_expand_cluster" && !p.cls.is_empty() || kind == "_delete _clusters" && kids(&d0, &p).is_none() {
                return;
            }
            if kind == "_cluster member" && o {
                // optional members only leave one member out; without any member there is no cluster
                return;
            }
            c.class(kind);
            let py = wrap(r, &d0, &p, sec);
            c.check(&d0, &py, if o { Exp::Ok(e) } else { Exp::Fail("selects nothing") })
        }
    }
}
