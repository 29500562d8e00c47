//! Scalars.
use crate::gen::{self, Cfg};
use crate::place::*;
use crate::rng::Rng;
use crate::run::*;
use crate::sel::selected;
use crate::y;
use svd_rs::*;
use yaml_rust::Yaml;
pub const RULE: &str = "random devices, one attribute that takes a number or a boolean (device, register properties, peripheral, register, cluster, field, interrupt, cpu, dimension, enumerated value, write constraint), given as a random scalar: every documented form at random and extreme values, near misses of every form, and other kinds of YAML value; non-trivial: something changes or the patch must fail";
/// the documented value of a number; Err: nothing is claimed about this text
fn number(v: &Yaml) -> Result<Option<i128>, ()> {
    let t = match v {
        Yaml::Integer(i) => return Ok(Some(*i as i128)),
        Yaml::String(t) => t.replace('_', ""),
        _ => return Ok(None),
    };
    let digits = |d: &str, radix: u32| -> Result<Option<i128>, ()> {
        if d.starts_with('-') || d.starts_with('+') {
            return Err(());
        }
        if d.is_empty() {
            return Ok(None);
        }
        let mut n: i128 = 0;
        for c in d.chars() {
            let Some(k) = c.to_digit(radix) else { return Ok(None) };
            n = n * radix as i128 + k as i128;
            if n > i64::MAX as i128 {
                return Ok(None);
            }
        }
        Ok(Some(n))
    };
    if t.starts_with("0x") || t.starts_with("0X") {
        digits(&t[2..], 16)
    } else if let Some(d) = t.strip_prefix("0b") {
        digits(&d.replace('x', "0"), 2)
    } else if let Some(d) = t.strip_prefix('#') {
        digits(&d.replace(['x', 'X'], "0"), 2)
    } else if let Some(d) = t.strip_prefix('-') {
        Ok(digits(d, 10)?.map(|n| -n))
    } else if let Some(d) = t.strip_prefix('+') {
        digits(d, 10)
    } else {
        digits(&t, 10)
    }
}
fn boolean(v: &Yaml) -> Option<bool> {
    match v {
        Yaml::Boolean(b) => Some(*b),
        Yaml::Integer(0) => Some(false),
        Yaml::Integer(1) => Some(true),
        Yaml::String(s) if s == "true" || s == "True" => Some(true),
        Yaml::String(s) if s == "false" || s == "False" => Some(false),
        _ => None,
    }
}
fn val(r: &mut Rng, top: u64) -> i128 {
    let big = [0, 1, 2, 31, 32, u32::MAX as i128, u32::MAX as i128 + 1, u32::MAX as i128 + 9, i64::MAX as i128, i64::MAX as i128 + 1, u64::MAX as i128, u64::MAX as i128 + 1, -1, -2, i32::MIN as i128];
    match r.n(8) {
        0 | 1 => *r.pick(&big),
        2 => r.u64() as i128,
        3 => (r.u64() >> 33) as i128,
        _ => r.n(top.min(1 << 40) as usize) as i128,
    }
}
fn under(r: &mut Rng, s: String) -> String {
    if !r.p(25) {
        return s;
    }
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..r.r(1, 2) {
        let i = r.n(v.len() + 1);
        v.insert(i, '_');
    }
    v.into_iter().collect()
}
pub fn scalar(r: &mut Rng, top: u64) -> Yaml {
    let n = val(r, top);
    let sg = if n < 0 { "-" } else { "" };
    let a = n.unsigned_abs();
    let s = match r.n(12) {
        0..=2 => return Yaml::Integer(n.clamp(i64::MIN as i128, i64::MAX as i128) as i64),
        3 => format!("{n}"),
        4 => format!("{sg}0x{a:x}"),
        5 => format!("{sg}0X{a:X}"),
        6 => format!("{sg}0b{a:b}"),
        7 => format!("{sg}#{a:b}"),
        8 => {
            let mut s = format!("{a:b}");
            for _ in 0..r.r(1, 3) {
                let i = r.n(s.len());
                s.replace_range(i..i + 1, if r.p(80) { "x" } else { "X" });
            }
            r.s(&["0b", "#"]) + &s
        }
        9 => r.s(&["", "0x", "0b", "#", "_", "0X", "-", "x1", "0x1g", "0b12", "#2", "0B1", "0o7", "1.5", "1e3", "yes", "true", "False", " 1", "1 ", "12a", "0x 1", "١", "$1F", "1Fh", "1k"]),
        10 => return r.pick(&[Yaml::Null, Yaml::Boolean(true), Yaml::Boolean(false), Yaml::Real("1.5".into()), Yaml::Array(vec![Yaml::Integer(1)]), y::h1("a", Yaml::Integer(1)), Yaml::Real("4.0".into())]).clone(),
        _ => format!("00{n}"),
    };
    Yaml::String(under(r, s))
}
fn flag(r: &mut Rng) -> Yaml {
    match r.n(8) {
        0 | 1 => Yaml::Boolean(r.p(50)),
        2 | 3 => Yaml::Integer(r.n(2) as i64),
        4 | 5 => y::s(&r.s(&["true", "True", "false", "False"])),
        6 => Yaml::Integer(*r.pick(&[2, -1, 256, i64::MAX])),
        _ => r.pick(&[Yaml::Null, y::s("TRUE"), y::s("yes"), y::s("no"), y::s("1"), y::s("0"), y::s(""), y::s("on"), Yaml::Real("1.0".into()), Yaml::Array(vec![])]).clone(),
    }
}
const BAD: &str = "the value is not a number that fits";
pub fn case(c: &mut Ctx) {
    let mut r = c.rng("");
    let r = &mut r;
    let d0 = norm(&gen::device(r, &Cfg { pers: (1, 2), derived: 0, kids: (1, 4), fields: (1, 4), ..Cfg::default() })).unwrap();
    let mut e = d0.clone();
    // booleans
    if r.p(20) {
        type Get = fn(&mut Cpu, bool);
        let fs: [(&str, Get); 10] = [
            ("fpuDP", |c, b| c.fpu_double_precision = Some(b)), ("dspPresent", |c, b| c.dsp_present = Some(b)), ("icachePresent", |c, b| c.icache_present = Some(b)), ("dcachePresent", |c, b| c.dcache_present = Some(b)),
            ("itcmPresent", |c, b| c.itcm_present = Some(b)), ("dtcmPresent", |c, b| c.dtcm_present = Some(b)), ("vtorPresent", |c, b| c.vtor_present = Some(b)), ("mpuPresent", |c, b| c.mpu_present = b), ("fpuPresent", |c, b| c.fpu_present = b),
            ("vendorSystickConfig", |c, b| c.has_vendor_systick = b),
        ];
        let Some(cpu) = e.cpu.as_mut() else { return };
        let (k, f) = fs[r.n(fs.len())];
        let v = flag(r);
        let exp = match boolean(&v) {
            Some(b) => {
                f(cpu, b);
                Exp::Ok(e)
            }
            None => Exp::Fail("the value is not a boolean"),
        };
        c.check(&d0, &y::h1("_modify", y::h1("cpu", y::h1(k, v))), exp);
        return;
    }
    let mut top = 1 << 16;
    let kind = r.n(16);
    if kind == 8 || kind == 9 || kind == 13 {
        top = 8
    }
    let v = scalar(r, top);
    let Ok(n) = number(&v) else { return };
    let u32v = n.and_then(|n| u32::try_from(n).ok());
    let u64v = n.and_then(|n| u64::try_from(n).ok());
    let two = |x: Yaml, exp: Exp, c: &mut Ctx| c.check(&d0, &x, exp);
    let fin = |fits: bool, e: Device| if fits { Exp::Ok(e) } else { Exp::Fail(BAD) };
    match kind {
        0 | 1 => {
            let k = r.s(&["addressUnitBits", "width"]);
            match (u32v, k.as_str()) {
                (Some(x), "width") => e.width = x,
                (Some(x), _) => e.address_unit_bits = x,
                _ => (),
            }
            two(y::h1("_modify", y::h1(&k, v)), fin(u32v.is_some(), e), c)
        }
        2..=5 => {
            // register properties: device, peripheral, register, cluster
            let k = r.s(&["size", "resetValue", "resetMask"]);
            let fits = if k == "size" { u32v.is_some() } else { u64v.is_some() };
            let mut odd = false; // the result would be refused as inconsistent
            let mut set = |p: &mut RegisterProperties| {
                match k.as_str() {
                    "size" => p.size = u32v,
                    "resetValue" => p.reset_value = u64v,
                    _ => p.reset_mask = u64v,
                };
                let s = p.size.unwrap_or(32);
                odd |= ![8, 16, 32, 64].contains(&s) || s < 64 && (p.reset_value.unwrap_or(0) >> s != 0 || p.reset_mask.unwrap_or(0) >> s != 0)
            };
            let py = match kind {
                2 => {
                    set(&mut e.default_register_properties);
                    y::h1("_modify", y::h1(&k, v))
                }
                3 => {
                    let i = r.n(e.peripherals.len());
                    set(&mut e.peripherals[i].default_register_properties);
                    y::h1("_modify", y::h1(&lit(&d0.peripherals[i].name), y::h1(&k, v)))
                }
                _ => {
                    let Some(p) = block(r, &d0) else { return };
                    let Some(ks) = kids_mut(&mut e, &p) else { return };
                    if ks.is_empty() {
                        return;
                    }
                    let i = r.n(ks.len());
                    let nm = match &ks[i] {
                        RegisterCluster::Register(x) => x.name.clone(),
                        RegisterCluster::Cluster(x) => x.name.clone(),
                    };
                    let mut hit = 0;
                    for x in ks.iter_mut() {
                        match x {
                            RegisterCluster::Register(x) if selected(&x.name, &lit(&nm)) => {
                                set(&mut x.properties);
                                hit += 1
                            }
                            RegisterCluster::Cluster(x) if selected(&x.name, &lit(&nm)) => {
                                set(&mut x.default_register_properties);
                                hit += 1
                            }
                            _ => (),
                        }
                    }
                    if hit != 1 {
                        return;
                    }
                    wrap(r, &d0, &p, y::h1("_modify", y::h1(&lit(&nm), y::h1(&k, v))))
                }
            };
            if kind == 2 {
                odd = false
            }
            two(py, if odd && fits { Exp::Skip } else { fin(fits, e) }, c)
        }
        6 => {
            let i = r.n(e.peripherals.len());
            e.peripherals[i].base_address = u64v.unwrap_or(0);
            two(y::h1("_modify", y::h1(&lit(&d0.peripherals[i].name), y::h1("baseAddress", v))), fin(u64v.is_some(), e), c)
        }
        7 => {
            let Some(p) = block(r, &d0) else { return };
            let Some(ks) = kids_mut(&mut e, &p) else { return };
            let k2 = ks.clone();
            if ks.is_empty() {
                return;
            }
            let i = r.n(ks.len());
            let nm = match &mut ks[i] {
                RegisterCluster::Register(x) => {
                    x.address_offset = u32v.unwrap_or(0);
                    x.name.clone()
                }
                RegisterCluster::Cluster(x) => {
                    x.address_offset = u32v.unwrap_or(0);
                    x.name.clone()
                }
            };
            if k2.iter().filter(|x| crate::c02::rc_name(x) == nm).count() > 1 {
                return;
            }
            let py = wrap(r, &d0, &p, y::h1("_modify", y::h1(&lit(&nm), y::h1("addressOffset", v))));
            two(py, fin(u32v.is_some(), e), c)
        }
        8 | 9 => {
            // a new field
            let Some((p, i)) = register(r, &d0) else { return };
            let off = kind == 8;
            let Some(x) = u32v else {
                let sec = y::h1("_add", y::h1("NEWF9", y::h(vec![("bitOffset", if off { v.clone() } else { Yaml::Integer(0) }), ("bitWidth", if off { Yaml::Integer(1) } else { v })])));
                let py = wrap_reg(r, &d0, &p, i, sec);
                two(py, Exp::Fail(BAD), c);
                return;
            };
            if x > 100 || !off && x == 0 {
                return;
            }
            let (o, w) = if off { (x, 1) } else { (0, x) };
            let f = FieldInfo::builder().name("NEWF9".into()).bit_range(BitRange::from_offset_width(o, w)).build(gen::LVL).unwrap().single();
            reg(kids_mut(&mut e, &p).unwrap(), i).fields.get_or_insert_with(Vec::new).push(f);
            let sec = if off && r.p(30) {
                y::h(vec![("msb", v.clone()), ("lsb", v)])
            } else {
                y::h(vec![("bitOffset", if off { v.clone() } else { Yaml::Integer(0) }), ("bitWidth", if off { Yaml::Integer(1) } else { v })])
            };
            let py = wrap_reg(r, &d0, &p, i, y::h1("_add", y::h1("NEWF9", sec)));
            two(py, Exp::Ok(e), c)
        }
        10 => {
            let i = r.n(e.peripherals.len());
            e.peripherals[i].interrupt.push(Interrupt::builder().name("NEWI9".into()).value(u32v.unwrap_or(0)).build(gen::LVL).unwrap());
            let sec = y::h1("_add", y::h1("_interrupts", y::h1("NEWI9", y::h1("value", v))));
            two(y::h1(&lit(&d0.peripherals[i].name), sec), fin(u32v.is_some(), e), c)
        }
        11 => {
            let Some(cpu) = e.cpu.as_mut() else { return };
            let k = r.s(&["nvicPrioBits", "deviceNumInterrupts", "sauNumRegions"]);
            match k.as_str() {
                "nvicPrioBits" => cpu.nvic_priority_bits = u32v.unwrap_or(0),
                "deviceNumInterrupts" => cpu.device_num_interrupts = u32v,
                _ => cpu.sau_num_regions = u32v,
            }
            two(y::h1("_modify", y::h1("cpu", y::h1(&k, v))), fin(u32v.is_some(), e), c)
        }
        12 => {
            // address block and dimension of a peripheral
            let i = r.n(e.peripherals.len());
            let k = r.s(&["offset", "size"]);
            let (o, s) = if k == "offset" { (u32v, Some(64)) } else { (Some(16), u32v) };
            let ab = AddressBlock::builder().offset(o.unwrap_or(0)).size(s.unwrap_or(0)).usage(AddressBlockUsage::Registers).build(gen::LVL).unwrap();
            e.peripherals[i].address_block = Some(vec![ab]);
            let mut h = vec![("usage", y::s("registers"))];
            h.push(("offset", if k == "offset" { v.clone() } else { Yaml::Integer(16) }));
            h.push(("size", if k == "size" { v } else { Yaml::Integer(64) }));
            let sec = y::h1("addressBlocks", Yaml::Array(vec![y::h(h)]));
            two(y::h1("_modify", y::h1(&lit(&d0.peripherals[i].name), sec)), fin(u32v.is_some(), e), c)
        }
        13 => {
            // value of an enumerated value
            let Some((p, i)) = register(r, &d0) else { return };
            let fs = reg(kids_mut(&mut e, &p).unwrap(), i).fields.get_or_insert_with(Vec::new);
            fs.push(FieldInfo::builder().name("NEWF9".into()).bit_range(BitRange::from_offset_width(0, 3)).access(Some(Access::ReadWrite)).build(gen::LVL).unwrap().single());
            let def = n == Some(-1);
            let exp = match n {
                Some(x) if (0..8).contains(&x) || def => {
                    let ev = EnumeratedValue::builder().name("AA".into()).description(Some("bb".into()));
                    let ev = if def { ev.is_default(Some(true)) } else { ev.value(Some(x as u64)) };
                    let mut evs = EnumeratedValues::builder().values(vec![ev.build(gen::LVL).unwrap()]).build(gen::LVL).unwrap();
                    evs.name = Some("NEWF9".into());
                    fs.last_mut().unwrap().enumerated_values = vec![evs];
                    Exp::Ok(e)
                }
                Some(_) if u64v.is_some() => Exp::Skip,
                _ => Exp::Fail("not a number, or a negative one"),
            };
            let sec = y::h(vec![
                ("_add", y::h1("NEWF9", y::h(vec![("bitOffset", Yaml::Integer(0)), ("bitWidth", Yaml::Integer(3)), ("access", y::s("read-write"))]))),
                ("NEWF9", y::h1("AA", Yaml::Array(vec![v, y::s("bb")]))),
            ]);
            let py = wrap_reg(r, &d0, &p, i, sec);
            two(py, exp, c)
        }
        14 => {
            // bounds of a write constraint
            let Some((p, i)) = register(r, &d0) else { return };
            let fs = reg(kids_mut(&mut e, &p).unwrap(), i).fields.get_or_insert_with(Vec::new);
            fs.push(FieldInfo::builder().name("NEWF9".into()).bit_range(BitRange::from_offset_width(0, 32)).build(gen::LVL).unwrap().single());
            let exp = match u32v {
                Some(x) if x > 0 => {
                    fs.last_mut().unwrap().write_constraint = Some(WriteConstraint::Range(WriteConstraintRange { min: 0, max: x as u64 }));
                    Exp::Ok(e)
                }
                Some(_) => Exp::Skip,
                None if u64v.is_some() => Exp::Skip,
                None => Exp::Fail("not a number, or a negative one"),
            };
            let add = y::h(vec![("bitOffset", Yaml::Integer(0)), ("bitWidth", Yaml::Integer(32))]);
            let rng = Yaml::Array(vec![Yaml::Integer(0), v]);
            let sec = if r.p(50) {
                y::h(vec![("_add", y::h1("NEWF9", add)), ("NEWF9", rng)])
            } else {
                y::h(vec![("_add", y::h1("NEWF9", add)), ("_modify", y::h1("NEWF9", y::h1(&r.s(&["_write_constraint", "writeConstraint"]), rng)))])
            };
            // `_modify` comes before `_add`: only the description form can be combined with it
            if matches!(&sec, Yaml::Hash(h) if h.contains_key(&y::s("_modify"))) {
                return;
            }
            let py = wrap_reg(r, &d0, &p, i, sec);
            two(py, exp, c)
        }
        _ => {
            // dimension
            let Some(p) = block(r, &d0) else { return };
            let k = r.s(&["dim", "dimIncrement"]);
            if k == "dim" && u32v.is_some_and(|x| x == 0 || x > 1000) {
                return;
            }
            let (dm, di) = if k == "dim" { (u32v, Some(4)) } else { (Some(2), u32v) };
            let ks = kids_new(&mut e, &p);
            let x = RegisterInfo::builder().name("NEWR9[%s]".into()).address_offset(0xFFFF_0000).build(gen::LVL).unwrap();
            if ks.iter().any(|k| off(k) > 0xFFFF_0000) {
                return;
            }
            let at = ks.iter().map(off).max().map(|m| 1 + ks.iter().rposition(|k| off(k) == m).unwrap()).unwrap_or(0);
            ks.insert(at, RegisterCluster::Register(x.array(DimElement::builder().dim(dm.unwrap_or(1)).dim_increment(di.unwrap_or(1)).build(gen::LVL).unwrap())));
            let mut h = vec![("addressOffset", y::s("0xFFFF_0000"))];
            h.push(("dim", if k == "dim" { v.clone() } else { Yaml::Integer(2) }));
            h.push(("dimIncrement", if k == "dimIncrement" { v } else { Yaml::Integer(4) }));
            let py = wrap(r, &d0, &p, y::h1("_add", y::h1("NEWR9[%s]", y::h(h))));
            two(py, fin(u32v.is_some(), e), c)
        }
    }
}
