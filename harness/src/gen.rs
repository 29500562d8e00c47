//! Random devices.  Every optional attribute is present now and then, so that "nothing else
//! changes" is a statement about real content.
use crate::rng::Rng;
use svd_rs::*;
pub const LVL: ValidateLevel = ValidateLevel::Disabled;

#[derive(Clone)]
pub struct Cfg {
    pub pers: (usize, usize),
    pub kids: (usize, usize),
    pub fields: (usize, usize),
    pub depth: usize,
    pub arrays: usize,   // percent
    pub clusters: usize, // percent
    pub derived: usize,  // percent, derived peripherals / registers
    pub evs: usize,
    pub dup: bool, // allow equal names in one container
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { pers: (1, 4), kids: (0, 6), fields: (0, 5), depth: 2, arrays: 15, clusters: 20, derived: 12, evs: 30, dup: false }
    }
}
pub const PERS: &[&str] = &["TIM1", "TIM2", "TIM15", "GPIOA", "GPIOB", "GPIOC", "USART1", "DAC", "dac"];
pub const REGS: &[&str] = &["CR1", "CR2", "CR10", "CR", "SR", "DR", "AFRL", "AFRH", "CCR1", "CCR2", "CNT", "cr1", "EN_A", "EN_B"];
pub const CLS: &[&str] = &["CH", "CH1", "CH2", "PORT", "CR7", "GRP"];
pub const FLDS: &[&str] = &["EN", "EN1", "EN2", "EN10", "MODE0", "MODE1", "IE", "IF", "A", "B", "en"];
pub const INTS: &[&str] = &["TIM1_UP", "TIM1_CC", "DMA1", "DMA2", "GPIO", "ADC"];

pub fn access(r: &mut Rng) -> Access {
    *r.pick(&[Access::ReadOnly, Access::ReadWrite, Access::ReadWriteOnce, Access::WriteOnce, Access::WriteOnly])
}
fn mwv(r: &mut Rng) -> ModifiedWriteValues {
    use ModifiedWriteValues::*;
    *r.pick(&[OneToClear, OneToSet, OneToToggle, ZeroToClear, ZeroToSet, ZeroToToggle, Clear, Set, Modify])
}
fn ra(r: &mut Rng) -> ReadAction {
    *r.pick(&[ReadAction::Clear, ReadAction::Set, ReadAction::Modify, ReadAction::ModifyExternal])
}
fn wc(r: &mut Rng, width: u32) -> WriteConstraint {
    match r.n(3) {
        0 => WriteConstraint::WriteAsRead(true),
        1 => WriteConstraint::UseEnumeratedValues(true),
        _ => {
            let top = (1usize << width.min(6)) - 1;
            let min = r.n(top.min(3));
            WriteConstraint::Range(WriteConstraintRange { min: min as u64, max: r.r(min + (top > min) as usize, top) as u64 })
        }
    }
}
pub fn text(r: &mut Rng) -> String {
    let w = ["Control", "status", "data 1", "of channel 0", "enable", "x"];
    format!("{} {}", r.s(&w), r.s(&w))
}
pub fn names(r: &mut Rng, pool: &[&str], n: usize, dup: bool) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut tries = 0;
    while v.len() < n && tries < 100 {
        tries += 1;
        let x = r.s(pool);
        if dup && r.p(30) || !v.contains(&x) {
            v.push(x);
        }
    }
    v
}
pub fn rprops(r: &mut Rng, p: usize) -> RegisterProperties {
    let mut x = RegisterProperties::new();
    x = x.size(r.opt(p, |r| *r.pick(&[8, 16, 32, 64])));
    x = x.access(r.opt(p, access));
    x = x.reset_value(r.opt(p, |r| r.n(200) as u64));
    x = x.reset_mask(r.opt(p, |r| r.n(256) as u64));
    x
}
pub fn evs(r: &mut Rng, width: u32) -> EnumeratedValues {
    let n = r.r(1, 3.min(1 << width.min(3)));
    let mut v = vec![];
    for k in 0..n {
        v.push(EnumeratedValue::builder().name(format!("V{k}")).description(Some(text(r))).value(Some(k as u64)).build(LVL).unwrap());
    }
    EnumeratedValues::builder().values(v).build(LVL).unwrap()
}
pub fn field(r: &mut Rng, name: &str, off: u32, width: u32, c: &Cfg) -> Field {
    let mut b = FieldInfo::builder()
        .name(name.into())
        .description(r.opt(60, text))
        .bit_range(BitRange::from_offset_width(off, width))
        .access(r.opt(40, access))
        .modified_write_values(r.opt(15, mwv))
        .write_constraint(r.opt(20, |r| wc(r, width)))
        .read_action(r.opt(10, ra));
    if r.p(c.evs) {
        let mut e = vec![evs(r, width)];
        if r.p(40) {
            let mut f = evs(r, width);
            e[0].usage = Some(Usage::Read);
            f.usage = Some(Usage::Write);
            e.push(f);
        } else if r.p(40) {
            e[0].usage = Some(*r.pick(&[Usage::Read, Usage::Write, Usage::ReadWrite]));
        }
        if r.p(30) {
            e[0].name = Some(format!("{name}_E"));
        }
        b = b.enumerated_values(e);
    }
    let mut f = b.build(LVL).unwrap();
    if r.p(c.derived / 2) {
        f.derived_from = Some(r.s(FLDS));
    }
    if r.p(c.arrays) {
        let d = r.r(2, 3) as u32;
        let mut f = f;
        f.name = format!("{name}%s");
        f.array(dim(r, d, width))
    } else {
        f.single()
    }
}
pub fn dim(r: &mut Rng, d: u32, inc: u32) -> DimElement {
    let idx = match r.n(3) {
        0 => None,
        1 => Some((0..d).map(|x| (x + 1).to_string()).collect()),
        _ => Some((0..d).map(|x| ["A", "B", "C", "D"][x as usize % 4].to_string()).collect()),
    };
    DimElement::builder().dim(d).dim_increment(inc).dim_index(idx).build(LVL).unwrap()
}
pub fn fields(r: &mut Rng, c: &Cfg) -> Vec<Field> {
    let n = r.r(c.fields.0, c.fields.1);
    let mut off = 0;
    let mut v: Vec<Field> = names(r, FLDS, n, c.dup)
        .iter()
        .map(|n| {
            let w = r.r(1, 3) as u32;
            off += r.n(2) as u32;
            let f = field(r, n, off, w, c);
            off += w * 3;
            f
        })
        .collect();
    if r.p(30) {
        r.shuffle(&mut v);
    }
    v
}
pub fn register(r: &mut Rng, name: &str, off: u32, c: &Cfg) -> Register {
    let fs = if r.p(85) { Some(fields(r, c)) } else { None };
    let mut x = RegisterInfo::builder()
        .name(name.into())
        .display_name(r.opt(40, |_| name.into()))
        .description(r.opt(60, text))
        .alternate_group(r.opt(10, |_| "AG".into()))
        .alternate_register(r.opt(15, |r| r.s(REGS)))
        .address_offset(off)
        .properties(rprops(r, 30))
        .modified_write_values(r.opt(10, mwv))
        .write_constraint(r.opt(10, |r| wc(r, 5)))
        .read_action(r.opt(10, ra))
        .fields(fs)
        .build(LVL)
        .unwrap();
    if r.p(c.derived / 2) {
        x.derived_from = Some(r.s(REGS));
        if r.p(50) {
            x.fields = None;
        }
    }
    if r.p(c.arrays) {
        x.name = if r.p(60) { format!("{name}%s") } else { format!("{name}[%s]") };
        let d = r.r(2, 3) as u32;
        x.array(dim(r, d, 4))
    } else {
        x.single()
    }
}
pub fn kids(r: &mut Rng, c: &Cfg, depth: usize) -> Vec<RegisterCluster> {
    let n = r.r(c.kids.0, c.kids.1);
    let mut rn = names(r, REGS, n, c.dup);
    let mut cn = names(r, CLS, n.min(CLS.len()), c.dup);
    let mut v = vec![];
    let mut off = 0u32;
    for _ in 0..n {
        if depth > 0 && r.p(c.clusters) && !cn.is_empty() {
            let name = cn.pop().unwrap();
            v.push(RegisterCluster::Cluster(cluster(r, &name, off, c, depth - 1)));
        } else if let Some(name) = rn.pop() {
            v.push(RegisterCluster::Register(register(r, &name, off, c)));
        }
        if r.p(85) {
            off += 4 * r.r(1, 4) as u32;
        }
    }
    if r.p(25) {
        r.shuffle(&mut v);
    }
    v
}
pub fn cluster(r: &mut Rng, name: &str, off: u32, c: &Cfg, depth: usize) -> Cluster {
    let mut k = c.clone();
    k.kids = (1, 3);
    let ch = kids(r, &k, depth);
    let mut x = ClusterInfo::builder()
        .name(name.into())
        .description(r.opt(50, text))
        .header_struct_name(r.opt(20, |_| name.into()))
        .alternate_cluster(r.opt(10, |r| r.s(CLS)))
        .address_offset(off)
        .default_register_properties(rprops(r, 15))
        .children(ch)
        .build(LVL)
        .unwrap();
    if r.p(c.arrays * 2) {
        x.name = if r.p(50) { format!("{name}%s") } else { format!("{name}[%s]") };
        let d = r.r(1, 3) as u32;
        x.array(dim(r, d, 0x40))
    } else {
        x.single()
    }
}
pub fn interrupts(r: &mut Rng, n: usize) -> Vec<Interrupt> {
    names(r, INTS, n, false)
        .iter()
        .map(|n| Interrupt::builder().name(n.clone()).description(r.opt(60, text)).value(r.n(12) as u32).build(LVL).unwrap())
        .collect()
}
pub fn peripheral(r: &mut Rng, name: &str, base: u64, c: &Cfg) -> Peripheral {
    let regs = if r.p(92) { Some(kids(r, c, c.depth)) } else { None };
    let ni = r.n(4);
    let x = PeripheralInfo::builder()
        .name(name.into())
        .display_name(r.opt(20, |_| name.into()))
        .version(r.opt(20, |_| "1.0".into()))
        .description(r.opt(60, text))
        .alternate_peripheral(r.opt(10, |r| r.s(PERS)))
        .group_name(r.opt(40, |r| r.s(&["TIM", "GPIO", "USART"])))
        .prepend_to_name(r.opt(8, |_| "P_".into()))
        .append_to_name(r.opt(8, |_| "_S".into()))
        .header_struct_name(r.opt(8, |_| "HS".into()))
        .base_address(base)
        .default_register_properties(rprops(r, 15))
        .address_block(r.opt(60, |r| {
            (0..r.r(1, 2)).map(|k| AddressBlock::builder().offset(k as u32 * 0x400).size(0x400).usage(AddressBlockUsage::Registers).build(LVL).unwrap()).collect()
        }))
        .interrupt(Some(interrupts(r, ni)))
        .registers(regs)
        .build(LVL)
        .unwrap();
    if r.p(c.arrays / 3) {
        let mut x = x;
        x.name = format!("{name}%s");
        let d = r.r(2, 3) as u32;
        x.array(dim(r, d, 0x400))
    } else {
        x.single()
    }
}
pub fn device(r: &mut Rng, c: &Cfg) -> Device {
    let n = r.r(c.pers.0, c.pers.1);
    let ns = names(r, PERS, n, c.dup);
    let mut pers: Vec<Peripheral> = vec![];
    let mut base = 0x4000_0000u64;
    for n in &ns {
        let mut p = peripheral(r, n, base, c);
        if r.p(85) {
            base += 0x1000;
        }
        if !pers.is_empty() && r.p(c.derived) {
            let k = r.n(pers.len());
            p.derived_from = Some(pers[k].name.clone());
            if r.p(60) {
                p.registers = None;
            }
        }
        pers.push(p);
    }
    if r.p(25) {
        r.shuffle(&mut pers);
    }
    let mut b = Device::builder()
        .name("DEV".into())
        .vendor(r.opt(40, |_| "ACME".into()))
        .vendor_id(r.opt(30, |_| "AC".into()))
        .series(r.opt(30, |_| "S1".into()))
        .version("1.2".into())
        .description("test device".into())
        .license_text(r.opt(10, |_| "free".into()))
        .header_system_filename(r.opt(10, |_| "hsf".into()))
        .header_definitions_prefix(r.opt(10, |_| "HDP".into()))
        .address_unit_bits(8)
        .width(32)
        .default_register_properties(rprops(r, 40))
        .peripherals(pers);
    if r.p(60) {
        b = b.cpu(Some(Cpu::builder().name("CM4".into()).revision("r0p1".into()).endian(Endian::Little).mpu_present(r.p(50)).fpu_present(r.p(50)).nvic_priority_bits(4).has_vendor_systick(false)
            .fpu_double_precision(r.opt(20, |r| r.p(50))).build(LVL).unwrap()));
    }
    b.build(LVL).unwrap()
}

/// a selector for (mostly) one of `have`
pub fn spec(r: &mut Rng, have: &[String]) -> String {
    let one = |r: &mut Rng| -> String {
        if have.is_empty() || r.p(6) {
            return r.s(&["ZZ", "ZZ*", "Q?", "X[0-9]"]);
        }
        let n = r.pick(have).clone();
        // brackets of array names are literal text in a name but not in a pattern
        let n: String = n.chars().map(|c| if c == '[' || c == ']' { '?' } else { c }).collect();
        let ch: Vec<char> = n.chars().collect();
        match r.n(9) {
            0 | 1 => n,
            2 => "*".into(),
            3 => { let k = r.n(ch.len() + 1); ch[..k].iter().collect::<String>() + "*" }
            4 => { let k = r.n(ch.len() + 1); "*".to_string() + &ch[k..].iter().collect::<String>() }
            5 => { let k = r.n(ch.len()); let mut c = ch.clone(); c[k] = '?'; c.into_iter().collect() }
            6 => { let k = r.n(ch.len()); let mut o = String::new();
                   for (i, c) in ch.iter().enumerate() { if i == k {
                       let x = *c;
                       o += &match r.n(4) { 0 => format!("[{x}12]"), 1 => format!("[!{x}]"), 2 => if x.is_ascii_digit() { "[0-9]".into() } else { "[A-Z]".into() }, _ => format!("[1-3{x}]") };
                   } else { o.push(*c) } } o }
            7 => { let k = r.n(ch.len() + 1); let (a, b): (String, String) = (ch[..k].iter().collect(), ch[k..].iter().collect()); format!("{a}*{b}") }
            _ => n,
        }
    };
    match r.n(10) {
        0 | 1 => { let (a, b) = (one(r), one(r)); format!("{a},{b}") }
        2 => { let (a, b) = (one(r), one(r)); format!("{{{a},{b}}}") }
        3 if !have.is_empty() => {
            let n = r.pick(have).clone();
            if n.contains('[') || n.len() < 2 { n.replace(['[', ']'], "?") } else { format!("{}{{{},9}}", &n[..n.len() - 1], &n[n.len() - 1..]) }
        }
        _ => one(r),
    }
}
