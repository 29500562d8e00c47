//! Merging of fields.
use crate::gen::{self, Cfg};
use crate::place::*;
use crate::rng::Rng;
use crate::run::*;
use crate::sel::selected;
use crate::y;
use svd_rs::*;
use yaml_rust::Yaml;
pub const RULE: &str = "random devices, one register, 1-2 `_merge` entries in the hash, list or string form with random selectors (single fields only); non-trivial: something changes or the patch must fail";
/// a device and a register in it that a patch can address and that has fields
pub fn setup(r: &mut Rng, cfg: &Cfg) -> Option<(Device, Place, usize)> {
    let d0 = norm(&gen::device(r, cfg)).unwrap();
    for _ in 0..4 {
        if let Some((p, i)) = register(r, &d0) {
            return Some((d0, p, i));
        }
    }
    None
}
pub fn fcfg() -> Cfg {
    Cfg { pers: (1, 2), kids: (1, 3), fields: (2, 7), arrays: 6, derived: 5, depth: 1, ..Cfg::default() }
}
pub fn fields<'a>(d: &'a mut Device, p: &Place, i: usize) -> &'a mut Option<Vec<Field>> {
    &mut reg(kids_mut(d, p).unwrap(), i).fields
}
pub fn fnames(d: &Device, p: &Place, i: usize) -> Vec<String> {
    match &kids(d, p).unwrap()[i] {
        RegisterCluster::Register(x) => x.fields().map(|f| f.name.clone()).collect(),
        _ => unreachable!(),
    }
}
fn lcp(v: &[String]) -> String {
    let mut s = v[0].clone();
    for x in v {
        while !x.starts_with(&s) {
            s.pop();
        }
    }
    s
}
pub fn case(c: &mut Ctx) {
    let mut r = c.rng("");
    let r = &mut r;
    let Some((d0, p, i)) = setup(r, &fcfg()) else { return };
    let mut e = d0.clone();
    let form = r.n(4);
    let n = if form < 3 { r.r(1, 2) } else { 1 };
    let mut entries: Vec<(String, Yaml)> = vec![];
    let mut exp = Exp::Ok(d0.clone());
    for k in 0..n {
        let fs = fields(&mut e, &p, i);
        let names: Vec<String> = fs.iter().flatten().map(|f| f.name.clone()).collect();
        let mut sels: Vec<String> = vec![gen::spec(r, &names)];
        let mut key = sels[0].clone();
        let mut y = Yaml::Null;
        if form == 0 || form == 1 {
            key = r.s(&["MRG", "NEWF", "EN1", "Z0"]) + &k.to_string();
            if form == 1 {
                for _ in 0..r.n(3) {
                    sels.push(gen::spec(r, &names));
                }
                y = y::sa(&sels);
            } else {
                y = y::s(&sels[0]);
            }
            if r.p(4) {
                y = r.pick(&[Yaml::Null, Yaml::Integer(3), Yaml::Hash(Default::default())]).clone();
                exp = Exp::Fail("a merge entry must be a selector or a list of selectors");
            }
        }
        if entries.iter().any(|x| x.0 == key) {
            break;
        }
        entries.push((key.clone(), y));
        if !matches!(exp, Exp::Ok(_)) {
            continue;
        }
        let v = fs.get_or_insert_with(Vec::new);
        let hit: Vec<usize> = (0..v.len()).filter(|j| sels.iter().any(|s| selected(&v[*j].name, s))).collect();
        if hit.is_empty() {
            exp = Exp::Fail("no field is selected");
            continue;
        }
        if hit.iter().any(|j| v[*j].is_array()) {
            return;
        }
        let hn: Vec<String> = hit.iter().map(|j| v[*j].name.clone()).collect();
        let name = if form < 2 { key } else { lcp(&hn) };
        if name.is_empty() {
            return;
        }
        let f = FieldInfo::builder()
            .name(name)
            .description(v[hit[0]].description.clone())
            .bit_range(BitRange::from_offset_width(hit.iter().map(|j| v[*j].bit_range.offset).min().unwrap(), hit.iter().map(|j| v[*j].bit_range.width).sum()))
            .build(gen::LVL)
            .unwrap()
            .single();
        v[hit[0]] = f;
        for j in hit[1..].iter().rev() {
            v.remove(*j);
        }
    }
    let sec = match form {
        0 | 1 => y::hv(entries),
        2 => Yaml::Array(entries.iter().map(|x| y::s(&x.0)).collect()),
        _ => y::s(&entries[0].0),
    };
    let py = wrap_reg(r, &d0, &p, i, y::h1("_merge", sec));
    let exp = if matches!(exp, Exp::Ok(_)) { Exp::Ok(e) } else { exp };
    c.check(&d0, &py, exp)
}
