//! Attribute descriptions as a user writes them: random, printable as YAML in every documented
//! number form, and with an independent definition of what they do to an element.
use crate::gen::{self, LVL};
use crate::rng::Rng;
use crate::y;
use svd_rs::*;
use yaml_rust::Yaml;

/// the documented ways to write a number
pub fn num(r: &mut Rng, v: u64) -> Yaml {
    let und = |s: String, r: &mut Rng| if s.len() > 3 && r.p(15) { format!("{}_{}", &s[..3], &s[3..]) } else { s };
    match r.n(8) {
        0 | 1 | 2 | 3 => Yaml::Integer(v as i64),
        4 => Yaml::String(und(format!("0x{v:x}"), r)),
        5 => Yaml::String(format!("0X{v:X}")),
        6 => match r.n(3) {
            0 => Yaml::String(und(format!("0b{v:b}"), r)),
            _ => Yaml::String(format!("#{v:b}")),
        },
        _ => Yaml::String(v.to_string()),
    }
}
pub fn boolean(r: &mut Rng, b: bool) -> Yaml {
    match r.n(4) {
        0 => Yaml::Integer(b as i64),
        1 => Yaml::String(if b { "True" } else { "False" }.into()),
        2 => Yaml::String(if b { "true" } else { "false" }.into()),
        _ => Yaml::Boolean(b),
    }
}
/// where an element stands, for the documented text substitutions
#[derive(Clone, Default, Debug)]
pub struct Path {
    pub per: String,
    pub cls: Vec<String>,
    pub reg: Option<String>,
}
impl Path {
    pub fn block(&self) -> String {
        let mut s = self.per.clone();
        for c in &self.cls {
            s = s + "." + c;
        }
        s
    }
    pub fn text(&self, s: &str) -> String {
        let mut s = s.replace("`peripheral`", &self.per).replace("`block_path`", &self.block());
        if let Some(r) = &self.reg {
            s = s.replace("`register`", r).replace("`register_path`", &format!("{}.{r}", self.block()));
        }
        s
    }
}
fn ptext(r: &mut Rng, reg: bool) -> String {
    let t = gen::text(r);
    match r.n(if reg { 12 } else { 9 }) {
        0 => format!("{t} of `peripheral`"),
        1 => format!("`block_path` {t}"),
        9 => format!("{t} in `register`"),
        10 => format!("`register_path` {t}"),
        _ => t,
    }
}
pub fn acc_str(a: Access) -> &'static str {
    match a {
        Access::ReadOnly => "read-only",
        Access::ReadWrite => "read-write",
        Access::ReadWriteOnce => "read-writeOnce",
        Access::WriteOnce => "writeOnce",
        Access::WriteOnly => "write-only",
    }
}
pub fn mwv_str(m: ModifiedWriteValues) -> &'static str {
    use ModifiedWriteValues::*;
    match m {
        OneToClear => "oneToClear",
        OneToSet => "oneToSet",
        OneToToggle => "oneToToggle",
        ZeroToClear => "zeroToClear",
        ZeroToSet => "zeroToSet",
        ZeroToToggle => "zeroToToggle",
        Clear => "clear",
        Set => "set",
        Modify => "modify",
    }
}
pub fn ra_str(a: ReadAction) -> &'static str {
    match a {
        ReadAction::Clear => "clear",
        ReadAction::Set => "set",
        ReadAction::Modify => "modify",
        ReadAction::ModifyExternal => "modifyExternal",
    }
}
#[derive(Clone, Default, Debug)]
pub struct DimA {
    pub dim: Option<u32>,
    pub inc: Option<u32>,
    pub index: Option<Vec<String>>,
    pub name: Option<String>,
}
impl DimA {
    pub fn some(&self) -> bool {
        self.dim.is_some() || self.inc.is_some() || self.index.is_some() || self.name.is_some()
    }
    /// always complete or absent
    pub fn rnd(r: &mut Rng, p: usize, inc: u32) -> DimA {
        if !r.p(p) {
            return DimA::default();
        }
        let d = r.r(1, 3) as u32;
        DimA { dim: Some(d), inc: Some(inc), index: r.opt(60, |r| Self::idx(r, d)), name: r.opt(15, |_| "DN".into()) }
    }
    fn idx(r: &mut Rng, d: u32) -> Vec<String> {
        match r.n(3) {
            0 => (0..d).map(|x| (x + 1).to_string()).collect(),
            1 => ["A", "B", "C"].iter().take(d as usize).map(|s| s.to_string()).collect(),
            _ => ["X", "q7", "C"].iter().take(d as usize).map(|s| s.to_string()).collect(),
        }
    }
    /// a complete dimension that can also replace an existing one
    pub fn full(r: &mut Rng, p: usize, inc: u32) -> DimA {
        let mut d = DimA::rnd(r, p, inc);
        if let Some(n) = d.dim {
            d.index = Some(Self::idx(r, n));
        }
        d
    }
    /// update of an existing dimension
    pub fn partial(r: &mut Rng, p: usize, cur: u32) -> DimA {
        if !r.p(p) {
            return DimA::default();
        }
        DimA { dim: None, inc: r.opt(60, |r| 4 * r.r(1, 5) as u32), index: r.opt(40, |r| Self::idx(r, cur)), name: r.opt(20, |_| "DN".into()) }
    }
    pub fn yaml(&self, r: &mut Rng, v: &mut Vec<(&'static str, Yaml)>) {
        if let Some(d) = self.dim {
            v.push(("dim", num(r, d as u64)))
        }
        if let Some(d) = self.inc {
            v.push(("dimIncrement", num(r, d as u64)))
        }
        if let Some(i) = &self.index {
            let n: Vec<Option<u32>> = i.iter().map(|s| s.parse().ok()).collect();
            let consecutive = n.len() > 1 && n.iter().all(|x| x.is_some()) && n.windows(2).all(|w| w[1] == w[0].map(|x| x + 1));
            let letters = i.len() > 1 && i.iter().all(|s| s.len() == 1 && s.as_bytes()[0].is_ascii_uppercase()) && i.windows(2).all(|w| w[1].as_bytes()[0] == w[0].as_bytes()[0] + 1);
            v.push(("dimIndex", if (consecutive || letters) && r.p(50) {
                y::s(&format!("{}-{}", i[0], i[i.len() - 1]))
            } else if r.p(50) {
                y::sa(i)
            } else {
                y::s(&i.join(","))
            }))
        }
        if let Some(n) = &self.name {
            v.push(("dimName", y::s(n)))
        }
    }
    pub fn new(&self) -> Option<DimElement> {
        let mut d = DimElement::builder().dim(self.dim?).dim_increment(self.inc?).build(ValidateLevel::Disabled).unwrap();
        d.dim_index = self.index.clone();
        d.dim_name = self.name.clone();
        Some(d)
    }
    /// Err: the patch must fail
    pub fn apply<T: Clone>(&self, m: &mut MaybeArray<T>) -> Result<(), &'static str> {
        if !self.some() {
            return Ok(());
        }
        match m {
            MaybeArray::Array(_, d) => {
                if let Some(x) = self.dim {
                    d.dim = x
                }
                if let Some(x) = self.inc {
                    d.dim_increment = x
                }
                if self.index.is_some() {
                    d.dim_index = self.index.clone()
                }
                if self.name.is_some() {
                    d.dim_name = self.name.clone()
                }
            }
            MaybeArray::Single(i) => {
                let d = self.new().ok_or("incomplete dimension")?;
                *m = MaybeArray::Array(i.clone(), d);
            }
        }
        Ok(())
    }
}
fn set(x: &mut Option<String>, a: &Option<String>) {
    if let Some(s) = a {
        *x = if s.is_empty() { None } else { Some(s.clone()) }
    }
}
pub fn wc_yaml(r: &mut Rng, w: &WriteConstraint) -> Yaml {
    match w {
        WriteConstraint::UseEnumeratedValues(_) => y::s("enum"),
        WriteConstraint::Range(x) => Yaml::Array(vec![num(r, x.min), num(r, x.max)]),
        _ => unreachable!(),
    }
}
fn wc(r: &mut Rng) -> WriteConstraint {
    if r.p(40) {
        WriteConstraint::UseEnumeratedValues(true)
    } else {
        let a = r.n(2) as u64;
        WriteConstraint::Range(WriteConstraintRange { min: a, max: a + (a == 0 || r.p(50)) as u64 * (1 - a) })
    }
}
pub fn props(r: &mut Rng, p: usize) -> RegisterProperties {
    gen::rprops(r, p)
}
pub fn props_yaml(r: &mut Rng, x: &RegisterProperties, v: &mut Vec<(&'static str, Yaml)>) {
    if let Some(s) = x.size {
        v.push(("size", num(r, s as u64)))
    }
    if let Some(s) = x.access {
        v.push(("access", y::s(acc_str(s))))
    }
    if let Some(s) = x.reset_value {
        v.push(("resetValue", num(r, s)))
    }
    if let Some(s) = x.reset_mask {
        v.push(("resetMask", num(r, s)))
    }
}
pub fn props_apply(x: &mut RegisterProperties, a: &RegisterProperties) {
    if a.size.is_some() {
        x.size = a.size
    }
    if a.access.is_some() {
        x.access = a.access
    }
    if a.reset_value.is_some() {
        x.reset_value = a.reset_value
    }
    if a.reset_mask.is_some() {
        x.reset_mask = a.reset_mask
    }
}
fn finish(r: &mut Rng, mut v: Vec<(&'static str, Yaml)>) -> Yaml {
    r.shuffle(&mut v);
    y::h(v)
}

#[derive(Clone, Default, Debug)]
pub struct FieldA {
    pub name: Option<String>,
    pub desc: Option<String>,
    pub access: Option<Access>,
    pub access_empty: bool,
    pub mwv: Option<ModifiedWriteValues>,
    pub ra: Option<ReadAction>,
    pub wc: Option<WriteConstraint>,
    pub wc_none: bool,
    pub off: Option<u32>,
    pub width: Option<u32>,
    pub derived: Option<String>,
    pub dim: DimA,
}
impl FieldA {
    /// for a new field
    pub fn new(r: &mut Rng) -> FieldA {
        FieldA {
            name: None,
            desc: r.opt(60, |r| ptext(r, true)),
            access: r.opt(40, gen::access),
            mwv: r.opt(20, |r| *r.pick(&[ModifiedWriteValues::OneToClear, ModifiedWriteValues::ZeroToSet, ModifiedWriteValues::Modify])),
            ra: r.opt(20, |r| *r.pick(&[ReadAction::Clear, ReadAction::Set, ReadAction::ModifyExternal])),
            wc: r.opt(25, wc),
            off: if r.p(95) { Some(r.n(28) as u32) } else { None },
            width: Some(r.r(1, 4) as u32),
            dim: DimA::rnd(r, 15, 4),
            ..Default::default()
        }
    }
    /// for a change of existing fields
    pub fn modi(r: &mut Rng) -> FieldA {
        let mut a = FieldA { name: None, desc: r.opt(40, |r| if r.p(10) { String::new() } else { ptext(r, true) }), access: r.opt(30, gen::access),
            mwv: r.opt(20, |r| *r.pick(&[ModifiedWriteValues::OneToSet, ModifiedWriteValues::ZeroToToggle])),
            ra: r.opt(20, |r| *r.pick(&[ReadAction::Clear, ReadAction::Modify])),
            wc: r.opt(20, wc), off: r.opt(30, |r| r.n(28) as u32), width: None, ..Default::default() };
        if a.access.is_none() && r.p(25) {
            a.access_empty = true
        }
        if a.wc.is_none() && r.p(20) {
            a.wc_none = true
        }
        if r.p(25) {
            a.width = Some(r.r(4, 8) as u32) // values and constraints of generated fields fit
        }
        a
    }
    pub fn yaml(&self, r: &mut Rng) -> Yaml {
        let v = self.pairs(r);
        finish(r, v)
    }
    pub fn pairs(&self, r: &mut Rng) -> Vec<(&'static str, Yaml)> {
        let mut v: Vec<(&'static str, Yaml)> = vec![];
        if let Some(s) = &self.name {
            v.push(("name", y::s(s)))
        }
        if let Some(s) = &self.desc {
            v.push(("description", y::s(s)))
        }
        if let Some(s) = self.access {
            v.push(("access", y::s(acc_str(s))))
        }
        if self.access_empty {
            v.push(("access", y::s("")))
        }
        if let Some(s) = self.mwv {
            v.push(("modifiedWriteValues", y::s(mwv_str(s))))
        }
        if let Some(s) = self.ra {
            v.push(("readAction", y::s(ra_str(s))))
        }
        let k = if r.p(50) { "writeConstraint" } else { "_write_constraint" };
        if let Some(w) = &self.wc {
            v.push((k, wc_yaml(r, w)))
        }
        if self.wc_none {
            v.push((k, y::s("none")))
        }
        if let Some(s) = &self.derived {
            v.push(("derivedFrom", y::s(s)))
        }
        match (self.off, self.width) {
            (Some(o), Some(w)) => match r.n(4) {
                0 => {
                    v.push(("msb", num(r, (o + w - 1) as u64)));
                    v.push(("lsb", num(r, o as u64)));
                }
                1 => v.push(("bitRange", y::s(&format!("[{}:{o}]", o + w - 1)))),
                _ => {
                    v.push(("bitOffset", num(r, o as u64)));
                    v.push(("bitWidth", num(r, w as u64)));
                }
            },
            (Some(o), None) => v.push(("bitOffset", num(r, o as u64))),
            (None, Some(w)) => v.push(("bitWidth", num(r, w as u64))),
            _ => {}
        }
        self.dim.yaml(r, &mut v);
        v
    }
    pub fn build(&self, name: &str, p: Option<&Path>) -> Option<Field> {
        let t = |s: &String| p.map(|p| p.text(s)).unwrap_or(s.clone());
        let f = FieldInfo::builder()
            .name(name.into())
            .description(self.desc.as_ref().map(t))
            .bit_range(BitRange::from_offset_width(self.off?, self.width?))
            .access(self.access)
            .modified_write_values(self.mwv)
            .read_action(self.ra)
            .write_constraint(self.wc.clone())
            .derived_from(self.derived.clone())
            .build(LVL)
            .ok()?;
        Some(if self.dim.some() { f.array(self.dim.new()?) } else { f.single() })
    }
    pub fn apply(&self, f: &mut Field, p: &Path) -> Result<(), &'static str> {
        self.dim.apply(f)?;
        if let Some(n) = &self.name {
            f.name = n.clone()
        }
        set(&mut f.description, &self.desc.as_ref().map(|s| p.text(s)));
        if let Some(o) = self.off {
            f.bit_range.offset = o
        }
        if let Some(o) = self.width {
            f.bit_range.width = o
        }
        if self.access.is_some() {
            f.access = self.access
        }
        if self.access_empty {
            f.access = None
        }
        if let Some(d) = &self.derived {
            f.derived_from = Some(d.clone());
            f.modified_write_values = None;
            f.write_constraint = None;
            f.enumerated_values = vec![];
            return Ok(());
        }
        if self.mwv.is_some() {
            f.modified_write_values = self.mwv
        }
        if self.ra.is_some() {
            f.read_action = self.ra
        }
        if self.wc.is_some() {
            f.write_constraint = self.wc.clone()
        }
        if self.wc_none {
            f.write_constraint = None
        }
        Ok(())
    }
}
#[derive(Clone, Default, Debug)]
pub struct RegA {
    pub name: Option<String>,
    pub dname: Option<String>,
    pub desc: Option<String>,
    pub ag: Option<String>,
    pub ar: Option<String>,
    pub off: Option<u32>,
    pub props: RegisterProperties,
    pub access_empty: bool,
    pub wc: Option<WriteConstraint>,
    pub derived: Option<String>,
    pub fields: Option<Vec<(String, FieldA)>>,
    pub dim: DimA,
}
fn plain(mut a: FieldA) -> FieldA {
    a.dim = DimA::default();
    // inside a nested description no substitution takes place
    a.desc = a.desc.map(|s| s.replace('`', ""));
    a
}
fn nested(r: &mut Rng, n: usize) -> Vec<(String, FieldA)> {
    gen::names(r, gen::FLDS, n, false)
        .into_iter()
        .map(|mut n| {
            let mut f = plain(FieldA::new(r));
            f.off = f.off.or(Some(0));
            if r.p(12) {
                n += "%s";
                f.dim = DimA::rnd(r, 100, 4);
            }
            (n, f)
        })
        .collect()
}
impl RegA {
    pub fn new(r: &mut Rng, p: bool) -> RegA {
        let n = r.r(1, 3);
        RegA {
            name: None,
            dname: r.opt(30, |r| r.s(gen::REGS)),
            desc: r.opt(60, |r| if p { ptext(r, false) } else { gen::text(r) }),
            ag: r.opt(10, |_| "AGX".into()),
            ar: r.opt(15, |r| r.s(gen::REGS)),
            off: if r.p(95) { Some(4 * r.n(20) as u32) } else { None },
            props: props(r, 30),
            wc: r.opt(15, wc),
            fields: r.opt(40, |r| nested(r, n)),
            dim: DimA::rnd(r, 15, 4),
            ..Default::default()
        }
    }
    pub fn modi(r: &mut Rng) -> RegA {
        let n = r.r(1, 2);
        let mut a = RegA {
            name: None,
            dname: r.opt(20, |r| if r.p(15) { String::new() } else { r.s(gen::REGS) }),
            desc: r.opt(40, |r| if r.p(10) { String::new() } else { ptext(r, false) }),
            ag: r.opt(10, |r| if r.p(20) { String::new() } else { "AGX".into() }),
            ar: r.opt(15, |r| if r.p(20) { String::new() } else { r.s(gen::REGS) }),
            off: r.opt(25, |r| 4 * r.n(20) as u32),
            props: props(r, 20),
            wc: r.opt(12, wc),
            fields: r.opt(10, |r| nested(r, n)),
            ..Default::default()
        };
        if a.props.access.is_none() && r.p(20) {
            a.access_empty = true
        }
        a
    }
    pub fn yaml(&self, r: &mut Rng) -> Yaml {
        let v = self.pairs(r);
        finish(r, v)
    }
    pub fn pairs(&self, r: &mut Rng) -> Vec<(&'static str, Yaml)> {
        let mut v: Vec<(&'static str, Yaml)> = vec![];
        for (k, x) in [("name", &self.name), ("displayName", &self.dname), ("description", &self.desc), ("alternateGroup", &self.ag), ("alternateRegister", &self.ar), ("derivedFrom", &self.derived)] {
            if let Some(s) = x {
                v.push((k, y::s(s)))
            }
        }
        props_yaml(r, &self.props, &mut v);
        if self.access_empty {
            v.push(("access", y::s("")))
        }
        if let Some(o) = self.off {
            v.push(("addressOffset", num(r, o as u64)))
        }
        if let Some(w) = &self.wc {
            v.push((if r.p(50) { "writeConstraint" } else { "_write_constraint" }, wc_yaml(r, w)))
        }
        if let Some(f) = &self.fields {
            let h = f.iter().map(|(n, a)| (n.clone(), a.yaml(r))).collect();
            v.push(("fields", y::hv(h)))
        }
        self.dim.yaml(r, &mut v);
        v
    }
    fn flds(&self) -> Option<Option<Vec<Field>>> {
        match &self.fields {
            None => Some(None),
            Some(f) => {
                let v: Option<Vec<Field>> = f.iter().map(|(n, a)| a.build(n, None)).collect();
                Some(Some(v?))
            }
        }
    }
    pub fn build(&self, name: &str, p: Option<&Path>) -> Option<Register> {
        let t = |s: &String| p.map(|p| p.text(s)).unwrap_or(s.clone());
        let x = RegisterInfo::builder()
            .name(name.into())
            .display_name(self.dname.clone())
            .description(self.desc.as_ref().map(t))
            .alternate_group(self.ag.clone())
            .alternate_register(self.ar.clone())
            .address_offset(self.off?)
            .properties(self.props)
            .write_constraint(self.wc.clone())
            .derived_from(self.derived.clone())
            .fields(self.flds()?)
            .build(LVL)
            .ok()?;
        Some(if self.dim.some() { x.array(self.dim.new()?) } else { x.single() })
    }
    pub fn apply(&self, x: &mut Register, p: &Path) -> Result<(), &'static str> {
        self.dim.apply(x)?;
        self.apply_info(x, p)
    }
    pub fn apply_info(&self, x: &mut RegisterInfo, p: &Path) -> Result<(), &'static str> {
        if let Some(n) = &self.name {
            x.name = n.clone()
        }
        set(&mut x.display_name, &self.dname);
        set(&mut x.description, &self.desc.as_ref().map(|s| p.text(s)));
        set(&mut x.alternate_group, &self.ag);
        set(&mut x.alternate_register, &self.ar);
        if let Some(o) = self.off {
            x.address_offset = o
        }
        if let Some(d) = &self.derived {
            x.derived_from = Some(d.clone());
            x.fields = None;
            x.properties = RegisterProperties::default();
            x.datatype = None;
            x.modified_write_values = None;
            x.write_constraint = None;
            return Ok(());
        }
        props_apply(&mut x.properties, &self.props);
        if self.access_empty {
            x.properties.access = None
        }
        if self.wc.is_some() {
            x.write_constraint = self.wc.clone()
        }
        if let Some(f) = self.flds().ok_or("incomplete field")? {
            x.fields = if f.is_empty() { None } else { Some(f) }
        }
        Ok(())
    }
}
type Regs = Vec<(String, RegA)>;
fn regs(r: &mut Rng) -> Regs {
    let n = r.r(1, 3);
    gen::names(r, gen::REGS, n, false)
        .into_iter()
        .map(|mut n| {
            let mut a = RegA::new(r, false);
            a.dim = DimA::default();
            a.off = a.off.or(Some(4));
            if r.p(12) {
                n += "%s";
                a.dim = DimA::rnd(r, 100, 4);
            }
            (n, a)
        })
        .collect()
}
fn build_regs(v: &Regs) -> Option<Vec<RegisterCluster>> {
    v.iter().map(|(n, a)| a.build(n, None).map(RegisterCluster::Register)).collect()
}
#[derive(Clone, Default, Debug)]
pub struct ClA {
    pub name: Option<String>,
    pub desc: Option<String>,
    pub off: Option<u32>,
    pub props: RegisterProperties,
    pub regs: Option<Regs>,
    pub derived: Option<String>,
    pub dim: DimA,
}
impl ClA {
    pub fn new(r: &mut Rng) -> ClA {
        ClA {
            desc: r.opt(60, |r| ptext(r, false)),
            off: if r.p(95) { Some(4 * r.n(20) as u32) } else { None },
            props: props(r, 15),
            regs: r.opt(96, regs),
            dim: DimA::rnd(r, 25, 0x40),
            ..Default::default()
        }
    }
    pub fn modi(r: &mut Rng) -> ClA {
        ClA { desc: r.opt(50, |r| if r.p(10) { String::new() } else { ptext(r, false) }), off: r.opt(40, |r| 4 * r.n(20) as u32), props: props(r, 20), regs: r.opt(10, regs), ..Default::default() }
    }
    pub fn yaml(&self, r: &mut Rng) -> Yaml {
        let mut v: Vec<(&'static str, Yaml)> = vec![];
        for (k, x) in [("name", &self.name), ("description", &self.desc), ("derivedFrom", &self.derived)] {
            if let Some(s) = x {
                v.push((k, y::s(s)))
            }
        }
        props_yaml(r, &self.props, &mut v);
        if let Some(o) = self.off {
            v.push(("addressOffset", num(r, o as u64)))
        }
        if let Some(f) = &self.regs {
            let h = f.iter().map(|(n, a)| (n.clone(), a.yaml(r))).collect();
            v.push(("registers", y::hv(h)))
        }
        self.dim.yaml(r, &mut v);
        finish(r, v)
    }
    pub fn build(&self, name: &str, p: &Path) -> Option<Cluster> {
        let x = ClusterInfo::builder()
            .name(name.into())
            .description(self.desc.as_ref().map(|s| p.text(s)))
            .address_offset(self.off?)
            .default_register_properties(self.props)
            .derived_from(self.derived.clone())
            .children(build_regs(self.regs.as_ref()?)?)
            .build(LVL)
            .ok()?;
        Some(if self.dim.some() { x.array(self.dim.new()?) } else { x.single() })
    }
    pub fn apply(&self, x: &mut Cluster, p: &Path) -> Result<(), &'static str> {
        self.dim.apply(x)?;
        if let Some(n) = &self.name {
            x.name = n.clone()
        }
        set(&mut x.description, &self.desc.as_ref().map(|s| p.text(s)));
        if let Some(o) = self.off {
            x.address_offset = o
        }
        props_apply(&mut x.default_register_properties, &self.props);
        if let Some(f) = &self.regs {
            x.children = build_regs(f).ok_or("incomplete register")?
        }
        Ok(())
    }
}
#[derive(Clone, Default, Debug)]
pub struct IntA {
    pub name: Option<String>,
    pub desc: Option<String>,
    pub value: Option<u32>,
}
impl IntA {
    pub fn new(r: &mut Rng) -> IntA {
        IntA { name: None, desc: r.opt(60, gen::text), value: if r.p(93) { Some(r.n(40) as u32) } else { None } }
    }
    pub fn modi(r: &mut Rng) -> IntA {
        IntA { name: r.opt(15, |_| "NEWI".into()), desc: r.opt(50, gen::text), value: r.opt(50, |r| r.n(40) as u32) }
    }
    pub fn yaml(&self, r: &mut Rng) -> Yaml {
        let mut v: Vec<(&'static str, Yaml)> = vec![];
        if let Some(s) = &self.name {
            v.push(("name", y::s(s)))
        }
        if let Some(s) = &self.desc {
            v.push(("description", y::s(s)))
        }
        if let Some(o) = self.value {
            v.push(("value", num(r, o as u64)))
        }
        finish(r, v)
    }
    pub fn build(&self, name: &str) -> Option<Interrupt> {
        Interrupt::builder().name(name.into()).description(self.desc.clone()).value(self.value?).build(LVL).ok()
    }
    pub fn apply(&self, x: &mut Interrupt) {
        if let Some(n) = &self.name {
            x.name = n.clone()
        }
        if self.desc.is_some() {
            x.description = self.desc.clone()
        }
        if let Some(v) = self.value {
            x.value = v
        }
    }
}
#[derive(Clone, Default, Debug)]
pub struct PerA {
    pub name: Option<String>,
    pub dname: Option<String>,
    pub version: Option<String>,
    pub desc: Option<String>,
    pub group: Option<String>,
    pub base: Option<u64>,
    pub props: RegisterProperties,
    pub ab: Option<Vec<(u32, u32, &'static str)>>,
    pub ints: Option<Vec<(String, IntA)>>,
    pub regs: Option<Regs>,
    pub derived: Option<String>,
    pub dim: DimA,
}
fn ab(x: &(u32, u32, &'static str)) -> AddressBlock {
    AddressBlock::builder().offset(x.0).size(x.1).usage(AddressBlockUsage::parse_str(x.2).unwrap()).build(LVL).unwrap()
}
impl PerA {
    pub fn new(r: &mut Rng) -> PerA {
        let n = r.r(1, 2);
        let ni = r.n(3);
        PerA {
            dname: r.opt(20, |r| r.s(gen::PERS)),
            version: r.opt(20, |_| "2.1".into()),
            desc: r.opt(60, gen::text),
            group: r.opt(40, |r| r.s(&["TIM", "GRPX"])),
            base: if r.p(95) { Some(0x4000_0000 + 0x800 * r.n(10) as u64) } else { None },
            props: props(r, 20),
            ab: r.opt(50, |r| (0..n).map(|k| (0x100 * k as u32, 0x100 * r.r(1, 3) as u32, *r.pick(&["registers", "buffer", "reserved"]))).collect()),
            ints: r.opt(50, |r| gen::names(r, gen::INTS, ni, false).into_iter().map(|n| (n, { let mut i = IntA::new(r); i.value = i.value.or(Some(3)); i })).collect()),
            regs: r.opt(60, regs),
            dim: DimA::rnd(r, 8, 0x400),
            ..Default::default()
        }
    }
    pub fn modi(r: &mut Rng) -> PerA {
        let n = r.r(1, 2);
        PerA {
            dname: r.opt(15, |r| if r.p(15) { String::new() } else { r.s(gen::PERS) }),
            version: r.opt(15, |r| if r.p(15) { String::new() } else { "2.2".into() }),
            desc: r.opt(40, |r| if r.p(10) { String::new() } else { gen::text(r) }),
            group: r.opt(20, |r| if r.p(15) { String::new() } else { "GRPX".into() }),
            base: r.opt(30, |r| 0x4000_0000 + 0x800 * r.n(10) as u64),
            props: props(r, 20),
            ab: r.opt(25, |r| (0..n).map(|k| (0x100 * k as u32, 0x100 * r.r(1, 3) as u32, *r.pick(&["registers", "buffer", "reserved"]))).collect()),
            ints: r.opt(30, |r| gen::names(r, gen::INTS, 2, false).into_iter().map(|n| (n, IntA::modi(r))).collect()),
            regs: r.opt(8, regs),
            ..Default::default()
        }
    }
    pub fn yaml(&self, r: &mut Rng) -> Yaml {
        let v = self.pairs(r);
        finish(r, v)
    }
    pub fn pairs(&self, r: &mut Rng) -> Vec<(&'static str, Yaml)> {
        let mut v: Vec<(&'static str, Yaml)> = vec![];
        for (k, x) in [("name", &self.name), ("displayName", &self.dname), ("version", &self.version), ("description", &self.desc), ("groupName", &self.group), ("derivedFrom", &self.derived)] {
            if let Some(s) = x {
                v.push((k, y::s(s)))
            }
        }
        props_yaml(r, &self.props, &mut v);
        if let Some(o) = self.base {
            v.push(("baseAddress", num(r, o)))
        }
        if let Some(b) = &self.ab {
            let mut one = |x: &(u32, u32, &'static str)| y::h(vec![("offset", num(r, x.0 as u64)), ("size", num(r, x.1 as u64)), ("usage", y::s(x.2))]);
            if b.len() == 1 {
                v.push(("addressBlock", one(&b[0])))
            } else {
                v.push(("addressBlocks", y::a(b.iter().map(&mut one).collect())))
            }
        }
        if let Some(i) = &self.ints {
            let h = i.iter().map(|(n, a)| (n.clone(), a.yaml(r))).collect();
            v.push(("interrupts", y::hv(h)))
        }
        if let Some(f) = &self.regs {
            let h = f.iter().map(|(n, a)| (n.clone(), a.yaml(r))).collect();
            v.push(("registers", y::hv(h)))
        }
        self.dim.yaml(r, &mut v);
        v
    }
    pub fn build(&self, name: &str) -> Option<Peripheral> {
        let d = self.derived.is_some();
        let ints: Option<Vec<Interrupt>> = match &self.ints {
            None => Some(vec![]),
            Some(v) => v.iter().map(|(n, a)| a.build(n)).collect(),
        };
        let x = PeripheralInfo::builder()
            .name(name.into())
            .display_name(self.dname.clone())
            .version(self.version.clone())
            .description(self.desc.clone())
            .group_name(self.group.clone())
            .base_address(self.base?)
            .default_register_properties(if d { Default::default() } else { self.props })
            .address_block(if d { None } else { self.ab.as_ref().map(|v| v.iter().map(ab).collect()) })
            .interrupt(Some(ints?))
            .derived_from(self.derived.clone())
            .registers(if d {
                None
            } else {
                match &self.regs {
                    Some(v) => Some(build_regs(v)?),
                    None => None,
                }
            })
            .build(LVL)
            .ok()?;
        Some(if self.dim.some() { x.array(self.dim.new()?) } else { x.single() })
    }
    pub fn apply(&self, x: &mut Peripheral) -> Result<(), &'static str> {
        self.dim.apply(x)?;
        self.apply_info(x)
    }
    pub fn apply_info(&self, x: &mut PeripheralInfo) -> Result<(), &'static str> {
        if let Some(n) = &self.name {
            x.name = n.clone()
        }
        set(&mut x.display_name, &self.dname);
        set(&mut x.version, &self.version);
        set(&mut x.description, &self.desc);
        set(&mut x.group_name, &self.group);
        if let Some(b) = self.base {
            x.base_address = b
        }
        if let Some(v) = &self.ints {
            for (n, a) in v {
                if let Some(i) = x.interrupt.iter_mut().find(|i| i.name == *n) {
                    a.apply(i)
                }
            }
        }
        if let Some(d) = &self.derived {
            x.derived_from = Some(d.clone());
            x.registers = None;
            x.address_block = None;
            x.default_register_properties = Default::default();
            return Ok(());
        }
        props_apply(&mut x.default_register_properties, &self.props);
        if let Some(v) = &self.ab {
            x.address_block = Some(v.iter().map(ab).collect())
        }
        if let Some(v) = &self.regs {
            x.registers = Some(build_regs(v).ok_or("incomplete register")?)
        }
        Ok(())
    }
}
