//! Collecting registers into clusters.
use crate::attrs::num;
use crate::c10::{affix, has_arrays, mask};
use crate::gen::{self, Cfg};
use crate::place::*;
use crate::rng::Rng;
use crate::run::*;
use crate::sel::{selected, sub};
use crate::y;
use svd_rs::*;
use yaml_rust::Yaml;
pub const RULE: &str = "random devices with 1-3 added families of registers in regular, slightly irregular or permuted layouts; `_cluster` (array and single form) with 1-3 member patterns, names, descriptions, dimIncrement, `?~`; non-trivial: something changes or the patch must fail";
fn reg_fam(r: &mut Rng, pre: &str, idx: &[String], suf: &str, base: u32, inc: u32) -> Vec<Register> {
    let fc = Cfg { fields: (0, 2), arrays: 2, evs: 10, ..Cfg::default() };
    let proto = gen::register(r, "P", 0, &Cfg { arrays: 14, ..fc.clone() });
    let irregular = if r.p(12) { r.n(idx.len()) } else { 99 };
    let odd = if r.p(6) { r.n(idx.len()) } else { 99 };
    let flip = if r.p(4) { r.n(idx.len()) } else { 99 };
    (0..idx.len())
        .map(|i| {
            let q = if i == odd { gen::register(r, "P", 0, &fc) } else { proto.clone() };
            let (mut x, mut d) = match q {
                Register::Single(x) => (x, None),
                Register::Array(x, d) => (x, Some(d)),
            };
            if i == flip {
                d = if d.is_some() { None } else { Some(gen::dim(r, 2, 4)) }
            }
            x.name = format!("{pre}{}{suf}", idx[i]);
            x.description = r.opt(60, gen::text);
            x.address_offset = base + inc * i as u32 + if i == irregular { *r.pick(&[1, 2, inc]) } else { 0 };
            if r.p(70) {
                x.derived_from = None;
            }
            match d {
                None => x.single(),
                Some(d) => {
                    x.name = format!("{pre}{}{suf}_%s", idx[i]);
                    x.array(d)
                }
            }
        })
        .collect()
}
pub fn case(c: &mut Ctx) {
    let mut r = c.rng("");
    let r = &mut r;
    let mut d = gen::device(r, &Cfg { pers: (1, 2), kids: (0, 3), ..Cfg::default() });
    let Some(p) = block(r, &d) else { return };
    if kids(&d, &p).is_none() && !p.cls.is_empty() {
        return;
    }
    let array = r.p(70);
    let nf = r.r(1, 3);
    let mut idx: Vec<String> = r.pick(&[vec!["1", "2"], vec!["0", "1", "2"], vec!["A", "B", "C"], vec!["4", "2", "3"], vec!["7"]]).iter().map(|s| s.to_string()).collect();
    if r.p(10) {
        idx.truncate(1)
    }
    let pres = ["CTRL", "DATA", "ST_"];
    let inc = *r.pick(&[0x10u32, 0x20, 8, 4]);
    let base = 4 * r.n(8) as u32;
    let mut specs: Vec<String> = vec![];
    let gap = r.p(20);
    for k in 0..nf {
        let suf = r.s(&["", "", "X"]);
        let mut ix = idx.clone();
        if r.p(7) {
            ix.pop();
        }
        if r.p(5) && !ix.is_empty() {
            let n = ix.len();
            ix[n - 1] = "9".into();
        }
        let off = base + 4 * k as u32 + if gap && r.p(40) { inc } else { 0 };
        let iinc = if r.p(8) { inc + 4 } else { inc };
        let v = reg_fam(r, pres[k], &ix, &suf, off, iinc);
        let kk = kids_new(&mut d, &p);
        for x in v {
            let at = r.n(kk.len() + 1);
            kk.insert(at, RegisterCluster::Register(x));
        }
        let t = r.s(&["?", "[x", "*"]);
        let t = if t.len() > 1 && t.starts_with('[') { r.s(&["[0-9]", "[A-C]", "?"]) } else { t };
        let suf2 = if t == "*" || r.p(2) { suf.clone() } else { suf.clone() };
        specs.push(if array {
            match r.n(10) {
                0 => format!("{}{t}{suf2}_%s", pres[k]),
                1 => format!("{0}[1-2]{1},{0}[3-9]{1}", pres[k], suf2),
                _ => format!("{}{t}{suf2}", pres[k]),
            }
        } else if ix.is_empty() {
            "NOPE".into()
        } else if r.p(85) {
            format!("{}{}{}", pres[k], ix[r.n(ix.len())], suf)
        } else {
            format!("{}?{}", pres[k], suf)
        });
    }
    if r.p(8) {
        specs.push(if r.p(50) { "NOPE?".into() } else { specs[0].clone() + "," });
        specs.last_mut().unwrap().push_str("");
    }
    r.shuffle(&mut specs);
    let d0 = norm(&d).unwrap();
    let mut e = d0.clone();
    let cname = if array { r.s(&["CC%s", "CC[%s]", "%sCC"]) } else { "CC".to_string() };
    let desc = r.opt(50, |r| gen::text(r));
    let dinc = r.opt(if idx.len() == 1 { 80 } else { 15 }, |r| *r.pick(&[inc, 0x40]));
    let mut entries: Vec<(String, Yaml)> = vec![];
    if let Some(s) = &desc {
        entries.push(("description".into(), y::s(s)))
    }
    if let Some(s) = dinc {
        entries.push(("dimIncrement".into(), num(r, s as u64)))
    }
    let mems: Vec<(String, bool, Option<String>, Option<String>)> =
        specs.iter().map(|s| (s.clone(), r.p(15), r.opt(35, |r| r.s(&["N1", "N2", "N3"])), r.opt(25, |r| gen::text(r)))).collect();
    for m in &mems {
        let mut h = vec![];
        if let Some(s) = &m.2 {
            h.push(("name", y::s(s)))
        }
        if let Some(s) = &m.3 {
            h.push(("description", y::s(s)))
        }
        entries.push((if m.1 { format!("?~{}", m.0) } else { m.0.clone() }, y::h(h)));
    }
    let exp = (|| {
        let Some(v) = kids_mut(&mut e, &p) else { return Exp::Fail("there are no registers") };
        let mut taken: Vec<usize> = vec![];
        let mut groups: Vec<(usize, Vec<(usize, Register)>)> = vec![];
        for (k, m) in mems.iter().enumerate() {
            let hit: Vec<usize> = (0..v.len()).filter(|i| !taken.contains(i) && matches!(&v[*i], RegisterCluster::Register(x) if selected(&x.name, &m.0))).collect();
            if hit.is_empty() {
                if m.1 {
                    continue;
                }
                return Exp::Fail("a member pattern selects nothing");
            }
            taken.extend(&hit);
            let mut g: Vec<(usize, Register)> = hit
                .iter()
                .map(|i| match &v[*i] {
                    RegisterCluster::Register(x) => (*i, x.clone()),
                    _ => unreachable!(),
                })
                .collect();
            g.sort_by_key(|x| x.1.address_offset);
            groups.push((k, g));
        }
        if groups.is_empty() {
            return Exp::Fail("nothing is selected");
        }
        let mut index: Option<Vec<String>> = None;
        let mut step = dinc.unwrap_or(0);
        for (n, (k, g)) in groups.iter().enumerate() {
            if !array {
                if g.len() > 1 {
                    return Exp::Fail("several registers for one member");
                }
                continue;
            }
            let mut ix = vec![];
            for (_, x) in g {
                let s = sub(&x.name, &mems[*k].0).unwrap();
                if !s.contains(['?', '*', '[']) {
                    return Exp::Skip;
                }
                let (a, b) = affix(s);
                if a.len() + b.len() > x.name.len() {
                    return Exp::Skip;
                }
                ix.push(x.name[a.len()..x.name.len() - b.len()].to_string());
            }
            if ix.iter().any(|s| s.is_empty()) {
                return Exp::Skip;
            }
            match &index {
                None => index = Some(ix),
                Some(i) if i.len() != ix.len() => return Exp::Fail("the numbers of members differ"),
                Some(i) if *i != ix => return Exp::Fail("the indices of members differ"),
                _ => {}
            }
            if g.windows(2).any(|w| match (&w[0].1, &w[1].1) {
                (Register::Array(_, a), Register::Array(_, b)) => a != b,
                (a, b) => a.is_array() != b.is_array(),
            }) {
                return Exp::Fail("members are arrays of different dimension");
            }
            if g.len() > 1 && n == 0 {
                step = g[1].1.address_offset - g[0].1.address_offset;
            }
            if g.windows(2).any(|w| w[1].1.address_offset - w[0].1.address_offset != step) {
                return Exp::Fail("the distances differ");
            }
            if g.iter().any(|x| mask(&x.1) != mask(&g[0].1)) {
                return Exp::Fail("the occupied bits differ");
            }
            if g.iter().any(|x| has_arrays(&x.1)) {
                return Exp::Skip;
            }
        }
        let base = groups.iter().map(|g| g.1[0].1.address_offset).min().unwrap();
        let mut ch = vec![];
        for (k, g) in &groups {
            let mut x = g[0].1.clone();
            let m = &mems[*k];
            let s = &m.0;
            if array && s.split(',').any(|t| !t.contains(['?', '*', '['])) {
                return Exp::Skip;
            }
            if array {
                let (a, b) = affix(s);
                if s.contains(',') && (s.split(',').any(|t| affix(t) != (a, b))) {
                    return Exp::Skip;
                }
                x.name = format!("{a}{b}");
                if let Some(t) = &m.3 {
                    x.description = Some(t.clone())
                }
            } else if m.3.is_some() {
                // a description of a member of a single cluster is not promised to be used
                return Exp::Skip;
            }
            if let Some(t) = &m.2 {
                x.name = t.clone()
            }
            if x.is_array() != x.name.contains("%s") {
                return Exp::Skip;
            }
            x.address_offset -= base;
            if array && x.address_offset >= step {
                return Exp::Fail("a member reaches beyond the increment");
            }
            ch.push(RegisterCluster::Register(x));
        }
        let x = ClusterInfo::builder()
            .name(cname.clone())
            .description(Some(desc.clone().unwrap_or(format!("Cluster {cname}, containing {}", groups.iter().map(|g| mems[g.0].0.clone()).collect::<Vec<_>>().join(", ")))))
            .address_offset(base)
            .children(ch)
            .build(gen::LVL)
            .unwrap();
        let x = if array {
            let i = index.unwrap();
            x.array(DimElement::builder().dim(i.len() as u32).dim_increment(step).dim_index(Some(i)).build(gen::LVL).unwrap())
        } else {
            x.single()
        };
        taken.sort();
        v[taken[0]] = RegisterCluster::Cluster(x);
        for i in taken[1..].iter().rev() {
            v.remove(*i);
        }
        Exp::Ok(e.clone())
    })();
    let mut seen = std::collections::HashSet::new();
    if !entries.iter().all(|x| seen.insert(x.0.clone())) {
        return;
    }
    let py = wrap(r, &d0, &p, y::h1("_cluster", y::h1(&cname, y::hv(entries))));
    c.check(&d0, &py, exp)
}
