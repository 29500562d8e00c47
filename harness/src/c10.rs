//! Collecting registers or fields into arrays.
use crate::attrs::num;
use crate::c08;
use crate::gen::{self, Cfg};
use crate::place::*;
use crate::rng::Rng;
use crate::run::*;
use crate::sel::selected;
use crate::y;
use svd_rs::*;
use yaml_rust::Yaml;
pub const RULE: &str = "random devices with an added family of similarly named registers (or fields) at regular, slightly irregular or permuted addresses among unrelated elements; `_array` with `?`, `*`, class and comma selectors, with and without name, description, `_start_from_zero`, `?~`; non-trivial: something changes or the patch must fail";
pub struct Fam {
    pub pre: String,
    pub suf: String,
    pub idx: Vec<String>,
}
pub fn fam(r: &mut Rng) -> Fam {
    let sets: [&[&str]; 7] = [&["0", "1", "2"], &["1", "2"], &["1", "2", "3", "4"], &["A", "B", "C"], &["7", "3", "5"], &["B", "A"], &["9", "10", "11"]];
    let k = r.n(7);
    let mut idx: Vec<String> = sets[k].iter().map(|s| s.to_string()).collect();
    if r.p(15) {
        idx.truncate(1)
    }
    if r.p(10) {
        let n = idx.len();
        let j = r.n(n);
        idx[j] = "Q".into();
    }
    Fam { pre: r.s(&["FAM", "F_", "TMR", "X"]), suf: r.s(&["", "", "_X", "R"]), idx }
}
impl Fam {
    pub fn mixed(&self, r: &mut Rng) -> String {
        let (a, b) = (format!("{}?{}", self.pre, self.suf), format!("G{}?{}", self.pre, self.suf));
        if r.p(50) { format!("{a},{b}") } else { format!("{b},{a}") }
    }
    pub fn name(&self, k: usize) -> String {
        format!("{}{}{}", self.pre, self.idx[k], self.suf)
    }
    /// a selector with one index token
    pub fn spec(&self, r: &mut Rng) -> String {
        let mut t = r.s(&["?", "*", "[0-9]", "[A-C]", "[12]", "[1-3]", "?"]);
        if self.idx.iter().any(|i| i.len() > 1) {
            t = r.s(&["*", "*", "[1][01]", "[1]?", "??"])
        }
        let a = format!("{}{}{}", self.pre, t, self.suf);
        match r.n(12) {
            0 => format!("{a},{}[3-9]{}", self.pre, self.suf),
            1 => format!("{}[0-1]{},{}[2-9A]{}", self.pre, self.suf, self.pre, self.suf),
            _ => a,
        }
    }
}
/// (text before, text after) the index token of a one-token selector
pub fn affix(spec: &str) -> (&str, &str) {
    let s = spec.split(',').next().unwrap();
    let a = s.find(['?', '*', '[']).unwrap();
    let b = s.rfind(['?', '*', ']']).unwrap();
    (&s[..a], &s[b + 1..])
}
/// one text with %s in the index place that gives all of them; Err: there is none
pub fn common(d: &[Option<String>], idx: &[String]) -> Result<Option<String>, ()> {
    if let Some(a) = &d[0] {
        for (i, _) in a.match_indices(&idx[0]) {
            let t = format!("{}%s{}", &a[..i], &a[i + idx[0].len()..]);
            if d.iter().zip(idx).skip(1).all(|(x, k)| x.as_deref() == Some(&t.replacen("%s", k, 1))) {
                return Ok(Some(t));
            }
        }
    }
    if d.iter().all(|x| *x == d[0]) {
        return Ok(d[0].clone());
    }
    Err(())
}
/// the bits a register's fields occupy
pub fn mask(x: &RegisterInfo) -> u64 {
    x.fields().fold(0, |m, f| m | (0..f.bit_range.width).fold(0, |m, b| m | 1u64 << (f.bit_range.offset + b)))
}
pub fn has_arrays(x: &RegisterInfo) -> bool {
    x.fields().any(|f| f.is_array())
}
pub fn texts(r: &mut Rng, f: &Fam, what: &str) -> Vec<Option<String>> {
    let k = r.n(8);
    (0..f.idx.len())
        .map(|i| match k {
            0 => None,
            1 | 2 => Some(format!("{what} {} here", f.idx[i])),
            3 => Some(format!("{what} {0}1 and 1{0}", f.idx[i])),
            4 => Some(f.name(i)),
            5 if r.p(30) => Some(gen::text(r)),
            5 => None,
            _ => Some(format!("{what} all")),
        })
        .collect()
}
/// inserts a family of registers into a child list at random places
pub fn plant(r: &mut Rng, kids: &mut Vec<RegisterCluster>, f: &Fam, base: u32, inc: u32) {
    let fc = Cfg { fields: (0, 3), arrays: 3, evs: 20, ..Cfg::default() };
    let proto = gen::register(r, "P", 0, &Cfg { arrays: 0, ..fc.clone() });
    let irregular = if r.p(12) { r.n(f.idx.len()) } else { 99 };
    let odd = if r.p(10) { r.n(f.idx.len()) } else { 99 };
    let arr = if r.p(5) { r.n(f.idx.len()) } else { 99 };
    let (ds, ns) = (texts(r, f, "Reg"), texts(r, f, "REG"));
    let reverse = r.p(15);
    let mut at: Vec<usize> = vec![];
    for i in 0..f.idx.len() {
        let mut x = match &proto {
            Register::Single(x) => x.clone(),
            Register::Array(x, _) => x.clone(),
        };
        if i == odd {
            x = match gen::register(r, "P", 0, &Cfg { arrays: 0, ..fc.clone() }) {
                Register::Single(x) => x,
                Register::Array(x, _) => x,
            };
        }
        if let Some(v) = x.fields.as_mut() {
            if r.p(40) {
                for g in v.iter_mut() {
                    g.description = r.opt(50, gen::text);
                }
            }
        }
        x.name = f.name(i);
        x.description = ds[i].clone();
        x.display_name = ns[i].clone();
        let j = if reverse { f.idx.len() - 1 - i } else { i };
        x.address_offset = base + inc * j as u32 + if i == irregular { r.r(1, 4) as u32 } else { 0 };
        if x.derived_from.is_some() && r.p(70) {
            x.derived_from = None;
        }
        let x = if i == arr {
            x.name = format!("{}%s", x.name);
            x.array(gen::dim(r, 2, 4))
        } else {
            x.single()
        };
        let p = if r.p(75) { at.last().map(|p| p + 1).unwrap_or_else(|| r.n(kids.len() + 1)) } else { r.n(kids.len() + 1) };
        kids.insert(p, RegisterCluster::Register(x));
        at.push(p);
    }
}
pub fn case(c: &mut Ctx) {
    let mut r = c.rng("");
    let r = &mut r;
    if r.p(40) {
        return fields(c, r);
    }
    let mut d = gen::device(r, &Cfg { pers: (1, 2), kids: (0, 4), ..Cfg::default() });
    let Some(p) = block(r, &d) else { return };
    let f = fam(r);
    let (base, inc) = (r.n(6) as u32 * 4, *r.pick(&[4u32, 4, 8, 2, 1, 0x10]));
    if kids(&d, &p).is_some() && r.p(97) || p.cls.is_empty() && r.p(50) {
        plant(r, kids_new(&mut d, &p), &f, base, inc);
    }
    let mut spec = if r.p(5) { "NOPE?".to_string() } else { f.spec(r) };
    if r.p(10) && f.idx.iter().all(|i| i.len() == 1) {
        // alternatives with different texts around the index
        spec = f.mixed(r);
        let g = format!("G{}", f.pre);
        for x in kids_mut(&mut d, &p).into_iter().flatten() {
            if let RegisterCluster::Register(x) = x {
                if x.name.starts_with(&f.pre) && r.p(40) {
                    x.name = format!("{g}{}", &x.name[f.pre.len()..]);
                }
            }
        }
    }
    let d0 = norm(&d).unwrap();
    let mut e = d0.clone();
    let ign = r.p(20);
    let zero = r.p(25);
    let name = r.opt(35, |r| r.s(&["ARR%s", "ARR[%s]", "A%s_Z"]));
    let desc = r.opt(45, |r| r.s(&["_original", "Array %s", "Text"]));
    let dname = r.opt(45, |r| r.s(&["_original", "AR%s", "DN"]));
    let dinc = r.opt(30, |r| 4 * r.r(1, 4) as u32);
    let exp = (|| {
        let Some(v) = kids_mut(&mut e, &p) else { return if ign { Exp::Ok(d0.clone()) } else { Exp::Fail("there are no registers") } };
        let hit: Vec<usize> = (0..v.len()).filter(|i| matches!(&v[*i], RegisterCluster::Register(Register::Single(x)) if selected(&x.name, &spec))).collect();
        if hit.is_empty() {
            return if ign { Exp::Ok(d0.clone()) } else { Exp::Fail("no register is selected") };
        }
        let mut m: Vec<RegisterInfo> = hit
            .iter()
            .map(|i| match &v[*i] {
                RegisterCluster::Register(Register::Single(x)) => x.clone(),
                _ => unreachable!(),
            })
            .collect();
        m.sort_by_key(|x| x.address_offset);
        let (pre, suf) = affix(&spec);
        let own: Option<Vec<String>> = m.iter().map(|x| Some(x.name.strip_prefix(pre)?.strip_suffix(suf)?.to_string())).collect();
        let Some(own) = own else {
            return if zero || name.is_some() { Exp::Skip } else { Exp::Fail("no array name gives back the original names") };
        };
        let idx: Vec<String> = if zero { (0..m.len()).map(|k| k.to_string()).collect() } else { own };
        if idx.iter().any(|s| s.is_empty()) {
            return Exp::Skip;
        }
        let step = if m.len() > 1 {
            m[1].address_offset - m[0].address_offset
        } else {
            match dinc.or(m[0].properties.size.map(|s| s / 8)) {
                Some(x) => x,
                None => return Exp::Fail("no increment is known"),
            }
        };
        if step == 0 {
            return Exp::Fail("the increment is zero");
        }
        if m.windows(2).any(|w| w[1].address_offset - w[0].address_offset != step) {
            return Exp::Fail("the registers are not equidistant");
        }
        if m.iter().any(|x| mask(x) != mask(&m[0])) {
            return Exp::Fail("the occupied bits differ");
        }
        if m.iter().any(|x| has_arrays(x)) {
            return Exp::Skip;
        }
        let mut x = m[0].clone();
        x.name = name.clone().unwrap_or(format!("{pre}%s{suf}"));
        let ds: Vec<Option<String>> = m.iter().map(|x| x.description.clone()).collect();
        let ns: Vec<Option<String>> = m.iter().map(|x| x.display_name.clone()).collect();
        match desc.as_deref() {
            Some("_original") => {}
            Some(s) => x.description = Some(s.into()),
            None => match common(&ds, &idx) {
                Ok(s) => x.description = s,
                Err(()) => return Exp::Fail("no common description"),
            },
        }
        match dname.as_deref() {
            Some("_original") => {}
            Some(s) => x.display_name = Some(s.into()),
            None => match common(&ns, &idx) {
                Ok(s) => x.display_name = s,
                Err(()) => return Exp::Fail("no common display name"),
            },
        }
        let dim = DimElement::builder().dim(m.len() as u32).dim_increment(step).dim_index(Some(idx)).build(gen::LVL).unwrap();
        v[hit[0]] = RegisterCluster::Register(x.array(dim));
        for i in hit[1..].iter().rev() {
            v.remove(*i);
        }
        Exp::Ok(e.clone())
    })();
    let mut h = vec![];
    if let Some(s) = &name {
        h.push(("name", y::s(s)))
    }
    if let Some(s) = &desc {
        h.push(("description", y::s(s)))
    }
    if let Some(s) = &dname {
        h.push(("displayName", y::s(s)))
    }
    if let Some(s) = dinc {
        h.push(("dimIncrement", num(r, s as u64)))
    }
    if zero {
        h.push(("_start_from_zero", Yaml::Boolean(true)))
    }
    let key = if ign { format!("?~{spec}") } else { spec };
    let py = wrap(r, &d0, &p, y::h1("_array", y::h1(&key, y::h(h))));
    c.check(&d0, &py, exp)
}
fn fields(c: &mut Ctx, r: &mut Rng) {
    let cfg = Cfg { fields: (0, 3), ..c08::fcfg() };
    let Some((mut d, p, i)) = c08::setup(r, &cfg) else { return };
    let f = fam(r);
    let w = r.r(1, 2) as u32;
    let (base, inc) = (r.n(10) as u32, w + r.n(3) as u32);
    let irregular = if r.p(12) { r.n(f.idx.len()) } else { 99 };
    let ds = texts(r, &f, "Bit");
    let rev = r.p(15);
    let v = c08::fields(&mut d, &p, i).get_or_insert_with(Vec::new);
    let some = r.p(96);
    for k in 0..if some { f.idx.len() } else { 0 } {
        let j = if rev { f.idx.len() - 1 - k } else { k };
        let off = base + inc * j as u32 + if k == irregular { 1 } else { 0 };
        let mut x = gen::field(r, &f.name(k), off, w, &Cfg { arrays: 4, ..Cfg::default() });
        x.description = ds[k].clone();
        let at = r.n(v.len() + 1);
        v.insert(at, x);
    }
    if !some && r.p(50) {
        *c08::fields(&mut d, &p, i) = None;
    }
    let mut spec = if r.p(5) { "NOPE?".to_string() } else { f.spec(r) };
    if r.p(10) && f.idx.iter().all(|i| i.len() == 1) {
        spec = f.mixed(r);
        for x in c08::fields(&mut d, &p, i).iter_mut().flatten() {
            if x.name.starts_with(&f.pre) && r.p(40) {
                x.name = format!("G{}{}", f.pre, &x.name[f.pre.len()..]);
            }
        }
    }
    let d0 = norm(&d).unwrap();
    let mut e = d0.clone();
    let ign = r.p(20);
    let zero = r.p(25);
    let name = r.opt(35, |r| r.s(&["ARR%s", "A%s_Z"]));
    let desc = r.opt(45, |r| r.s(&["_original", "Array %s", "Text"]));
    let exp = (|| {
        let v = c08::fields(&mut e, &p, i).get_or_insert_with(Vec::new);
        let hit: Vec<usize> = (0..v.len()).filter(|i| v[*i].is_single() && selected(&v[*i].name, &spec)).collect();
        if hit.is_empty() {
            return if ign { Exp::Ok(d0.clone()) } else { Exp::Fail("no field is selected") };
        }
        let mut m: Vec<FieldInfo> = hit
            .iter()
            .map(|i| match &v[*i] {
                Field::Single(x) => x.clone(),
                _ => unreachable!(),
            })
            .collect();
        m.sort_by_key(|x| x.bit_range.offset);
        let (pre, suf) = affix(&spec);
        let own: Option<Vec<String>> = m.iter().map(|x| Some(x.name.strip_prefix(pre)?.strip_suffix(suf)?.to_string())).collect();
        let Some(own) = own else {
            return if zero || name.is_some() { Exp::Skip } else { Exp::Fail("no array name gives back the original names") };
        };
        let idx: Vec<String> = if zero { (0..m.len()).map(|k| k.to_string()).collect() } else { own };
        if idx.iter().any(|s| s.is_empty()) {
            return Exp::Skip;
        }
        let step = if m.len() > 1 { m[1].bit_range.offset - m[0].bit_range.offset } else { 0 };
        if m.windows(2).any(|w| w[1].bit_range.offset - w[0].bit_range.offset != step) {
            return Exp::Fail("the fields are not equidistant");
        }
        let mut x = m[0].clone();
        x.name = name.clone().unwrap_or(format!("{pre}%s{suf}"));
        let ds: Vec<Option<String>> = m.iter().map(|x| x.description.clone()).collect();
        match desc.as_deref() {
            Some("_original") => {}
            Some(s) => x.description = Some(s.into()),
            None => match common(&ds, &idx) {
                Ok(s) => x.description = s,
                Err(()) => return Exp::Fail("no common description"),
            },
        }
        let dim = DimElement::builder().dim(m.len() as u32).dim_increment(step).dim_index(Some(idx)).build(gen::LVL).unwrap();
        v[hit[0]] = x.array(dim);
        for i in hit[1..].iter().rev() {
            v.remove(*i);
        }
        Exp::Ok(e.clone())
    })();
    let mut h = vec![];
    if let Some(s) = &name {
        h.push(("name", y::s(s)))
    }
    if let Some(s) = &desc {
        h.push(("description", y::s(s)))
    }
    if zero {
        h.push(("_start_from_zero", Yaml::Boolean(true)))
    }
    let key = if ign { format!("?~{spec}") } else { spec };
    let py = wrap_reg(r, &d0, &p, i, y::h1("_array", y::h1(&key, y::h(h))));
    c.check(&d0, &py, exp)
}
