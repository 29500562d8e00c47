//! Modification.
use crate::attrs::*;
use crate::c02::{kid_names, rc_name};
use crate::gen::{self, spec, Cfg};
use crate::place::*;
use crate::run::*;
use crate::sel::*;
use crate::y;
use svd_rs::*;
use yaml_rust::Yaml;
pub const RULE: &str = "random devices and random `_modify` entries (selectors of every form, every documented attribute, every number form) for the device, cpu, peripherals, registers, clusters, fields and interrupts, in peripherals and nested clusters; non-trivial: something changes or the patch must fail";

fn cpu(r: &mut crate::rng::Rng, d: &mut Device) -> (Yaml, bool) {
    let mut v: Vec<(&str, Yaml)> = vec![];
    let full = d.cpu.is_none() && r.p(80);
    let mut c = d.cpu.clone().unwrap_or(Cpu::builder().name("X".into()).revision("X".into()).endian(Endian::Little).mpu_present(false).fpu_present(false).nvic_priority_bits(3).has_vendor_systick(false).build(gen::LVL).unwrap());
    let mut miss = false;
    macro_rules! at {
        ($k:expr, $req:expr, $p:expr, $val:expr, $y:expr, $f:expr) => {
            if r.p(if full && $req { 100 } else { $p }) {
                let val = $val;
                v.push(($k, $y(val.clone())));
                $f(&mut c, val);
            } else if $req && d.cpu.is_none() {
                miss = true;
            }
        };
    }
    at!("name", true, 30, "CM7".to_string(), |s: String| y::s(&s), |c: &mut Cpu, s| c.name = s);
    at!("revision", true, 30, "r1p2".to_string(), |s: String| y::s(&s), |c: &mut Cpu, s| c.revision = s);
    at!("endian", true, 30, *r.pick(&[("big", Endian::Big), ("little", Endian::Little)]), |s: (&str, Endian)| y::s(s.0), |c: &mut Cpu, s: (&str, Endian)| c.endian = s.1);
    let (b1, b2, b3, n) = (r.p(50), r.p(50), r.p(50), r.n(8));
    let (y1, y2, y3, yn) = (boolean(r, b1), boolean(r, b2), boolean(r, b3), num(r, n as u64));
    at!("mpuPresent", true, 40, b1, |_| y1.clone(), |c: &mut Cpu, b| c.mpu_present = b);
    at!("fpuPresent", true, 40, b2, |_| y2.clone(), |c: &mut Cpu, b| c.fpu_present = b);
    at!("vendorSystickConfig", true, 40, b3, |_| y3.clone(), |c: &mut Cpu, b| c.has_vendor_systick = b);
    at!("nvicPrioBits", true, 40, n as u32, |_| yn.clone(), |c: &mut Cpu, n| c.nvic_priority_bits = n);
    type Get = fn(&mut Cpu) -> &mut Option<bool>;
    let fs: [(&str, Get); 7] = [("fpuDP", |c| &mut c.fpu_double_precision), ("dspPresent", |c| &mut c.dsp_present), ("icachePresent", |c| &mut c.icache_present), ("dcachePresent", |c| &mut c.dcache_present), ("itcmPresent", |c| &mut c.itcm_present), ("dtcmPresent", |c| &mut c.dtcm_present), ("vtorPresent", |c| &mut c.vtor_present)];
    for (k, f) in fs {
        if r.p(20) {
            let b = r.p(50);
            v.push((k, boolean(r, b)));
            *f(&mut c) = Some(b);
        }
    }
    if r.p(20) {
        v.push(("deviceNumInterrupts", num(r, 80)));
        c.device_num_interrupts = Some(80);
    }
    if r.p(20) {
        v.push(("sauNumRegions", num(r, 5)));
        c.sau_num_regions = Some(5);
    }
    d.cpu = Some(c);
    (y::h(v), !miss)
}
fn device_level(r: &mut crate::rng::Rng, d: &mut Device) -> (Vec<(String, Yaml)>, bool) {
    let mut v: Vec<(String, Yaml)> = vec![];
    let mut ok = true;
    type Get = fn(&mut Device, &str);
    let fs: [(&str, Get); 9] = [
        ("vendor", |d, s| d.vendor = Some(s.into())), ("vendorID", |d, s| d.vendor_id = Some(s.into())), ("name", |d, s| d.name = s.into()),
        ("series", |d, s| d.series = Some(s.into())), ("version", |d, s| d.version = s.into()), ("description", |d, s| d.description = s.into()),
        ("licenseText", |d, s| d.license_text = Some(s.into())), ("headerSystemFilename", |d, s| d.header_system_filename = Some(s.into())), ("headerDefinitionsPrefix", |d, s| d.header_definitions_prefix = Some(s.into())),
    ];
    for (k, f) in fs {
        if r.p(15) {
            let t = r.s(&["ABC", "Q1", "xyz"]);
            v.push((k.into(), y::s(&t)));
            f(d, &t);
        }
    }
    if r.p(15) {
        v.push(("addressUnitBits".into(), num(r, 16)));
        d.address_unit_bits = 16;
    }
    if r.p(15) {
        v.push(("width".into(), num(r, 64)));
        d.width = 64;
    }
    let a = props(r, 20);
    let mut pv = vec![];
    props_yaml(r, &a, &mut pv);
    v.extend(pv.into_iter().map(|(k, y)| (k.to_string(), y)));
    props_apply(&mut d.default_register_properties, &a);
    if r.p(40) {
        let (yy, o) = cpu(r, d);
        v.push(("cpu".into(), yy));
        ok &= o;
    }
    (v, ok)
}
fn uniq(v: &[String]) -> bool {
    v.iter().enumerate().all(|(i, s)| !v[..i].contains(s))
}
fn maybe(r: &mut crate::rng::Rng, s: String, p: usize) -> (String, bool) {
    if r.p(p) { (format!("?~{s}"), true) } else { (s, false) }
}
pub fn case(c: &mut Ctx) {
    let mut r = c.rng("");
    let r = &mut r;
    let cfg = Cfg::default();
    let d0 = norm(&gen::device(r, &cfg)).unwrap();
    let mut e = d0.clone();
    let what = r.n(6);
    let mut bad: Option<&'static str> = None;
    match what {
        0 => {
            let (mut v, ok) = device_level(r, &mut e);
            r.shuffle(&mut v);
            let p = y::h1("_modify", y::hv(v));
            c.check(&d0, &p, if ok { Exp::Ok(e) } else { Exp::Fail("incomplete cpu") })
        }
        1 => {
            let names: Vec<String> = e.peripherals.iter().map(|p| p.name.clone()).collect();
            let s = spec(r, &names);
            let mut a = PerA::modi(r);
            let hit: Vec<usize> = (0..names.len()).filter(|i| selected(&names[*i], &s)).collect();
            if hit.len() == 1 {
                let p = &e.peripherals[hit[0]];
                if r.p(35) {
                    a.name = Some(if p.name.contains('%') { "RENAMED%s".into() } else { "RENAMED".into() });
                }
                if let Peripheral::Array(_, d) = p {
                    a.dim = DimA::partial(r, 40, d.dim);
                }
            }
            if !hit.is_empty() && hit.iter().all(|i| names[*i].contains('%')) && a.name.is_none() && !a.dim.some() {
                a.dim = DimA::full(r, 30, 0x400);
            }
            // turning single peripherals into arrays needs a placeholder
            if hit.len() == 1 && !names[hit[0]].contains('%') && r.p(20) {
                a.name = Some("RENAMED%s".into());
                a.dim = DimA::rnd(r, 100, 0x400);
                if r.p(10) {
                    a.dim.dim = None
                }
            }
            for i in &hit {
                if let Err(w) = a.apply(&mut e.peripherals[*i]) {
                    bad = bad.or(Some(w))
                }
            }
            if let Some(n) = &a.name {
                for p in &mut e.peripherals {
                    if let Some(d) = &p.derived_from {
                        if hit.iter().any(|i| names[*i] == *d) {
                            p.derived_from = Some(n.clone())
                        }
                    }
                }
            }
            let h = y::h1(&s, a.yaml(r));
            let p = y::h1("_modify", if r.p(50) { h } else { y::h1("_peripherals", h) });
            c.check(&d0, &p, bad.map(Exp::Fail).unwrap_or(Exp::Ok(e)))
        }
        2 => {
            let i = r.n(e.peripherals.len());
            let pn = e.peripherals[i].name.clone();
            let ints = &mut e.peripherals[i].interrupt;
            let names: Vec<String> = ints.iter().map(|i| i.name.clone()).collect();
            let s = spec(r, &names);
            let mut a = IntA::modi(r);
            if names.iter().filter(|n| selected(n, &s)).count() != 1 {
                a.name = None
            }
            for x in ints.iter_mut() {
                if selected(&x.name, &s) {
                    a.apply(x)
                }
            }
            let p = y::h1(&lit(&pn), y::h1("_modify", y::h1("_interrupts", y::h1(&s, a.yaml(r)))));
            c.check(&d0, &p, Exp::Ok(e))
        }
        3 => {
            let Some((pl, i)) = register(r, &d0) else { return };
            let path = rpath(&d0, &pl, i);
            let x = reg(kids_mut(&mut e, &pl).unwrap(), i);
            let names: Vec<String> = x.fields.iter().flatten().map(|f| f.name.clone()).collect();
            let (s, o) = { let s = spec(r, &names); maybe(r, s, 15) };
            let (b, _) = opt(&s);
            let hit: Vec<usize> = (0..names.len()).filter(|i| selected(&names[*i], b)).collect();
            let mut a = FieldA::modi(r);
            if hit.len() == 1 {
                let f = &x.fields.as_ref().unwrap()[hit[0]];
                if r.p(20) {
                    a.name = Some(if f.name.contains('%') { "RN%s".into() } else { "RN".into() })
                }
                if let Field::Array(_, d) = f {
                    a.dim = DimA::partial(r, 40, d.dim)
                } else if r.p(15) {
                    a.name = Some("RN%s".into());
                    a.dim = DimA::rnd(r, 100, 4);
                    if r.p(10) {
                        a.dim.inc = None
                    }
                }
            }
            for k in &hit {
                if let Err(w) = a.apply(&mut x.fields.as_mut().unwrap()[*k], &path) {
                    bad = bad.or(Some(w))
                }
            }
            if hit.is_empty() && !o {
                bad = Some("nothing selected")
            }
            let sec = y::h1("_modify", y::h1(&s, a.yaml(r)));
            let p = wrap_reg(r, &d0, &pl, i, sec);
            c.check(&d0, &p, bad.map(Exp::Fail).unwrap_or(Exp::Ok(e)))
        }
        4 => {
            let Some(pl) = block(r, &d0) else { return };
            let path = path(&d0, &pl);
            let Some(k) = kids_mut(&mut e, &pl) else { return };
            let names = kid_names(k);
            let rs = regs(k);
            let have: Vec<String> = if r.p(90) { rs.iter().map(|i| names[*i].clone()).collect() } else { names.clone() };
            let (s, o) = { let s = spec(r, &have); maybe(r, s, 15) };
            let (b, _) = opt(&s);
            let hit: Vec<usize> = rs.into_iter().filter(|i| selected(&names[*i], b)).collect();
            let form = r.n(2);
            if hit.is_empty() && form == 0 && names.iter().any(|n| selected(n, b)) {
                return; // goes to the clusters: see C21 and below
            }
            let mut a = RegA::modi(r);
            if hit.len() == 1 {
                let f = reg(k, hit[0]);
                if r.p(20) {
                    a.name = Some(if f.name.contains('%') { "RN%s".into() } else { "RN".into() })
                }
                if let Register::Array(_, d) = f {
                    a.dim = DimA::partial(r, 40, d.dim)
                } else if r.p(15) {
                    a.name = Some("RN%s".into());
                    a.dim = DimA::rnd(r, 100, 4);
                    if r.p(10) {
                        a.dim.inc = None
                    }
                }
            }
            for i in &hit {
                if let Err(w) = a.apply(reg(k, *i), &path) {
                    bad = bad.or(Some(w))
                }
            }
            if hit.is_empty() && !o {
                bad = Some("nothing selected")
            }
            let h = y::h1(&s, a.yaml(r));
            let sec = y::h1("_modify", if form == 0 { h } else { y::h1("_registers", h) });
            let p = wrap(r, &d0, &pl, sec);
            c.check(&d0, &p, bad.map(Exp::Fail).unwrap_or(Exp::Ok(e)))
        }
        _ => {
            let Some(pl) = block(r, &d0) else { return };
            let path = path(&d0, &pl);
            let Some(k) = kids_mut(&mut e, &pl) else { return };
            let names = kid_names(k);
            let cs = clusters(k);
            if cs.is_empty() && r.p(80) {
                return;
            }
            let have: Vec<String> = if r.p(90) { cs.iter().map(|i| names[*i].clone()).collect() } else { names.clone() };
            let (s, o) = { let s = spec(r, &have); maybe(r, s, 15) };
            let (b, _) = opt(&s);
            let hit: Vec<usize> = cs.iter().cloned().filter(|i| selected(&names[*i], b)).collect();
            let plain = (0..names.len()).all(|i| cs.contains(&i) || !selected(&names[i], b)) && r.p(40);
            let mut a = ClA::modi(r);
            if hit.len() == 1 {
                let f = cl(k, hit[0]);
                if r.p(20) {
                    a.name = Some(if f.name.contains('%') { "RN%s".into() } else { "RN".into() })
                }
                if let Cluster::Array(_, d) = f {
                    a.dim = DimA::partial(r, 40, d.dim)
                } else if r.p(15) {
                    a.name = Some("RN%s".into());
                    a.dim = DimA::rnd(r, 100, 0x40);
                    if r.p(10) {
                        a.dim.inc = None
                    }
                }
            }
            for i in &hit {
                if let Err(w) = a.apply(cl(k, *i), &path) {
                    bad = bad.or(Some(w))
                }
            }
            if hit.is_empty() && !o {
                bad = Some("nothing selected")
            }
            let h = y::h1(&s, a.yaml(r));
            let sec = y::h1("_modify", if plain { h } else { y::h1("_clusters", h) });
            let p = wrap(r, &d0, &pl, sec);
            c.check(&d0, &p, bad.map(Exp::Fail).unwrap_or(Exp::Ok(e)))
        }
    }
    let _ = (rc_name, uniq);
}
