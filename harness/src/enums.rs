//! What a description of enumerated values does (reference), shared by C14 and C15.
use crate::attrs::num;
use crate::rng::Rng;
use crate::sel::selected;
use crate::y;
use svd_rs::*;
use svdtools::patch::EnumAutoDerive;
use yaml_rust::Yaml;

#[derive(Clone, Debug, Default)]
pub struct Vals {
    pub v: Vec<(String, i64, String)>,
    pub name: Option<String>,
    pub replace: bool,
    /// must be refused, with the offending entry
    pub bad: Option<(Option<(String, Yaml)>, &'static str)>,
}
const VN: &[&str] = &["Off", "On", "Div2", "Div4", "Default", "_", "ab", "A1"];
impl Vals {
    pub fn rnd(r: &mut Rng, width: u32, trouble: usize) -> Vals {
        let top = 1usize << width.min(3);
        let mut vals: Vec<i64> = (0..top as i64).collect();
        r.shuffle(&mut vals);
        vals.truncate(r.r(1, top.min(4)));
        if r.p(20) {
            vals[0] = -1
        }
        let mut names: Vec<&str> = VN.iter().filter(|s| **s != "_").cloned().collect();
        r.shuffle(&mut names);
        let mut x = Vals::default();
        for (v, n) in vals.iter().zip(names) {
            x.v.push((n.to_string(), *v, r.s(&["text", "is off", "Divide by 2", "x"])));
        }
        x.name = r.opt(20, |r| r.s(&["EVN", "MODE_E"]));
        x.replace = r.p(25);
        if r.p(trouble) {
            match r.n(4) {
                0 => {
                    let d = x.v[0].1;
                    x.v.push(("Again".into(), d, "t".into()));
                    x.bad = Some((None, "a value is given twice"));
                }
                1 => x.bad = Some((Some(("2nd".into(), Yaml::Array(vec![Yaml::Integer(99), y::s("t")]))), "a name begins with a digit")),
                2 => {
                    let v = Yaml::Array((0..r.n(2)).map(|_| Yaml::Integer(98)).collect());
                    x.bad = Some((Some(("Short".into(), v)), "a value or description is missing"))
                }
                _ => {
                    let v = r.pick(&[Yaml::Array(vec![y::s("x"), y::s("t")]), Yaml::Array(vec![Yaml::Integer(97), Yaml::Integer(1)]), y::s("t")]).clone();
                    x.bad = Some((Some(("Odd".into(), v)), "not a value and a description"))
                }
            }
        }
        x
    }
    pub fn yaml(&self, r: &mut Rng) -> Yaml {
        let mut h: Vec<(String, Yaml)> = self
            .v
            .iter()
            .map(|(n, v, d)| {
                let mut a = vec![if *v < 0 { Yaml::Integer(*v) } else { num(r, *v as u64) }, y::s(d)];
                if r.p(5) {
                    a.push(y::s("more"))
                }
                (n.clone(), Yaml::Array(a))
            })
            .collect();
        if let Some((Some(b), _)) = &self.bad {
            h.push(b.clone())
        }
        if let Some(n) = &self.name {
            h.push(("_name".into(), y::s(n)))
        }
        r.shuffle(&mut h);
        let h = y::hv(h);
        if self.replace { y::h1("_replace_enum", h) } else { h }
    }
    fn sorted(&self) -> Vec<EnumeratedValue> {
        let mut v = self.v.clone();
        v.sort_by_key(|x| (x.1 < 0, x.1));
        v.iter()
            .map(|(n, k, d)| {
                let b = EnumeratedValue::builder().name(n.clone()).description(Some(d.clone()));
                if *k < 0 { b.is_default(Some(true)) } else { b.value(Some(*k as u64)) }.build(ValidateLevel::Disabled).unwrap()
            })
            .collect()
    }
}
pub fn can(access: Access) -> (bool, bool) {
    match access {
        Access::ReadOnly => (true, false),
        Access::WriteOnly | Access::WriteOnce => (false, true),
        _ => (true, true),
    }
}
/// the usage of a description on a field; None: refused
pub fn usage(access: Access, u: Option<Usage>) -> Option<Usage> {
    match (can(access), u) {
        ((true, true), u) => Some(u.unwrap_or(Usage::ReadWrite)),
        ((true, false), None | Some(Usage::Read)) => Some(Usage::Read),
        ((false, true), None | Some(Usage::Write)) => Some(Usage::Write),
        _ => None,
    }
}
/// as it is recorded
pub fn recorded(access: Access, u: Usage) -> Option<Usage> {
    if usage(access, None) == Some(u) { None } else { Some(u) }
}
pub enum No {
    Fail(&'static str),
    Skip,
}
fn put(f: &mut FieldInfo, mut val: EnumeratedValues, u: Usage, replace: bool, access: Access) -> Result<(), No> {
    let full = No::Fail("the field already has such values");
    let e = &mut f.enumerated_values;
    if u == Usage::ReadWrite {
        if !e.is_empty() && !replace {
            return Err(full);
        }
        *e = vec![val];
        return Ok(());
    }
    let other = if u == Usage::Read { Usage::Write } else { Usage::Read };
    match e.len() {
        0 => e.push(val),
        1 => match e[0].usage {
            None if can(access) == (true, true) => {
                e[0].usage = Some(other);
                val.usage = Some(u);
                e.push(val);
            }
            Some(x) if x == other => e.push(val),
            _ if replace => e[0] = val,
            _ => return Err(full),
        },
        2 => {
            if !replace {
                return Err(full);
            }
            let hit: Vec<usize> = (0..2).filter(|i| e[*i].usage == Some(u)).collect();
            if hit.len() != 1 {
                return Err(No::Skip);
            }
            e[hit[0]] = val;
        }
        _ => return Err(No::Skip),
    }
    Ok(())
}
pub fn describe(fs: &mut Vec<Field>, reg: Option<Access>, sel: &str, ign: bool, x: &Vals, u: Option<Usage>, mode: EnumAutoDerive) -> Result<(), No> {
    let hit: Vec<usize> = (0..fs.len()).filter(|i| selected(&fs[*i].name, sel)).collect();
    if hit.is_empty() {
        return if ign { Ok(()) } else { Err(No::Fail("no field is selected")) };
    }
    if hit.iter().any(|i| fs[*i].bit_range.width != fs[hit[0]].bit_range.width) {
        return Err(No::Fail("the fields differ in width"));
    }
    let lo = *hit.iter().min_by_key(|i| fs[**i].bit_range.offset).unwrap();
    if hit.iter().any(|i| *i != lo && fs[*i].bit_range.offset == fs[lo].bit_range.offset) {
        return Err(No::Skip);
    }
    if let Some((_, why)) = &x.bad {
        return Err(No::Fail(why));
    }
    let first = fs[lo].name.clone();
    let suffix = match u {
        Some(Usage::Read) => "R",
        Some(Usage::Write) => "W",
        _ => "",
    };
    let name = x.name.clone().unwrap_or(first.replace("%s", "") + suffix);
    for i in &hit {
        let acc = fs[*i].access.or(reg).unwrap_or(Access::ReadWrite);
        let us = usage(acc, u).ok_or(No::Fail("the usage does not fit the access"))?;
        let mk = |nm: Option<String>| EnumeratedValues::builder().name(nm).usage(recorded(acc, us)).values(x.sorted()).build(ValidateLevel::Disabled).unwrap();
        if *i == lo {
            put(&mut fs[*i], mk(Some(name.clone())), us, x.replace, acc)?;
        } else {
            match mode {
                EnumAutoDerive::None => put(&mut fs[*i], mk(None), us, x.replace, acc)?,
                EnumAutoDerive::Field => {
                    let f = &mut fs[*i];
                    f.derived_from = Some(first.clone());
                    f.enumerated_values = vec![];
                    f.write_constraint = None;
                    f.modified_write_values = None;
                }
                EnumAutoDerive::Enum => {
                    let d = EnumeratedValues::builder().derived_from(Some(name.clone())).build(ValidateLevel::Disabled).unwrap();
                    put(&mut fs[*i], d, us, true, acc)?
                }
            }
        }
    }
    let f = fs.remove(lo);
    fs.insert(hit[0], f);
    Ok(())
}
pub const READ: &[(&str, Option<ReadAction>)] = &[
    ("_read", None),
    ("_RM", Some(ReadAction::Modify)),
    ("_RS", Some(ReadAction::Set)),
    ("_RC", Some(ReadAction::Clear)),
    ("_RME", Some(ReadAction::ModifyExternal)),
];
pub const WRITE: &[(&str, Option<ModifiedWriteValues>)] = &[
    ("_write", None),
    ("_WM", Some(ModifiedWriteValues::Modify)),
    ("_WS", Some(ModifiedWriteValues::Set)),
    ("_WC", Some(ModifiedWriteValues::Clear)),
    ("_W1S", Some(ModifiedWriteValues::OneToSet)),
    ("_W0C", Some(ModifiedWriteValues::ZeroToClear)),
    ("_W1C", Some(ModifiedWriteValues::OneToClear)),
    ("_W0S", Some(ModifiedWriteValues::ZeroToSet)),
    ("_W1T", Some(ModifiedWriteValues::OneToToggle)),
    ("_W0T", Some(ModifiedWriteValues::ZeroToToggle)),
];
/// a description: read-write values, or values and actions under usage tags
#[derive(Clone, Debug)]
pub enum Desc {
    Both(Vals),
    Tags(Option<(usize, Option<Vals>)>, Option<(usize, Option<Vals>)>),
}
impl Desc {
    pub fn rnd(r: &mut Rng, width: u32, tags: usize, trouble: usize) -> Desc {
        if !r.p(tags) {
            return Desc::Both(Vals::rnd(r, width, trouble));
        }
        let k = r.n(3);
        let mut one = |r: &mut Rng, n: usize| (r.n(n), r.opt(70, |r| Vals::rnd(r, width, trouble)));
        let a = (k != 1).then(|| one(r, READ.len()));
        let b = (k != 0).then(|| one(r, WRITE.len()));
        Desc::Tags(a, b)
    }
    pub fn yaml(&self, r: &mut Rng) -> Yaml {
        match self {
            Desc::Both(v) => v.yaml(r),
            Desc::Tags(a, b) => {
                let mut h = vec![];
                for (t, v) in a.iter().map(|x| (READ[x.0].0, &x.1)).chain(b.iter().map(|x| (WRITE[x.0].0, &x.1))) {
                    h.push((t, v.as_ref().map(|v| v.yaml(r)).unwrap_or(y::h(vec![]))))
                }
                r.shuffle(&mut h);
                y::h(h)
            }
        }
    }
    pub fn apply(&self, fs: &mut Vec<Field>, reg: Option<Access>, sel: &str, ign: bool, mode: EnumAutoDerive) -> Result<(), No> {
        match self {
            Desc::Both(v) => describe(fs, reg, sel, ign, v, None, mode),
            Desc::Tags(a, b) => {
                if let Some((t, v)) = a {
                    if let Some(v) = v {
                        describe(fs, reg, sel, ign, v, Some(Usage::Read), mode)?
                    }
                    if let Some(act) = READ[*t].1 {
                        fs.iter_mut().filter(|f| selected(&f.name, sel)).for_each(|f| f.read_action = Some(act))
                    }
                }
                if let Some((t, v)) = b {
                    if let Some(v) = v {
                        describe(fs, reg, sel, ign, v, Some(Usage::Write), mode)?
                    }
                    if let Some(m) = WRITE[*t].1 {
                        // `modify` is what holds without an entry
                        let m = if m == ModifiedWriteValues::Modify { None } else { Some(m) };
                        fs.iter_mut().filter(|f| selected(&f.name, sel)).for_each(|f| f.modified_write_values = m)
                    }
                }
                Ok(())
            }
        }
    }
}
