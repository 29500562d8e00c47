//! Splitting of fields.
use crate::c08::*;
use crate::gen;
use crate::place::*;
use crate::run::*;
use crate::sel::selected;
use crate::y;
use svd_rs::*;
use yaml_rust::Yaml;
pub const RULE: &str = "random devices, one register, `_split` in the hash, list or string form with random selectors, names and descriptions (single fields only; the place of the new fields is not fixed by the property and is not compared); non-trivial: something changes or the patch must fail";
pub fn case(c: &mut Ctx) {
    let mut r = c.rng("");
    let r = &mut r;
    let Some((d0, p, i)) = setup(r, &fcfg()) else { return };
    let mut e = d0.clone();
    let form = r.n(4);
    let names = fnames(&d0, &p, i);
    let sel = if r.p(60) && !names.is_empty() { lit(r.pick(&names)) } else { gen::spec(r, &names) };
    let ign = r.p(25);
    let name = if form < 2 { r.opt(60, |r| r.s(&["S%s", "%s_bit", "A%sB%s", "PRE%s"])) } else { None };
    let desc = if form < 2 { r.opt(60, |r| r.s(&["Bit %s", "%s of `n`", "plain", "%s and %s"])) } else { None };
    let v = fields(&mut e, &p, i).get_or_insert_with(Vec::new);
    let hit: Vec<usize> = (0..v.len()).filter(|j| selected(&v[*j].name, &sel)).collect();
    let exp = match &hit[..] {
        [] if ign => Exp::Ok(d0.clone()),
        [] => Exp::Fail("no field is selected"),
        [j] => {
            let f = v.remove(*j);
            if f.is_array() {
                return;
            }
            let n = name.clone().unwrap_or(f.name.clone() + "%s");
            let d = desc.clone().or(f.description.clone());
            for k in 0..f.bit_range.width {
                let s = k.to_string();
                v.push(
                    FieldInfo::builder()
                        .name(n.replace("%s", &s))
                        .description(d.as_ref().map(|d| d.replace("%s", &s)))
                        .bit_range(BitRange::from_offset_width(f.bit_range.offset + k, 1))
                        .build(gen::LVL)
                        .unwrap()
                        .single(),
                );
            }
            Exp::Ok(e)
        }
        _ => Exp::Fail("several fields are selected"),
    };
    let key = if ign { format!("?~{sel}") } else { sel };
    let sec = match form {
        0 | 1 => {
            let mut h = vec![];
            if let Some(n) = &name {
                h.push(("name", y::s(n)))
            }
            if let Some(n) = &desc {
                h.push(("description", y::s(n)))
            }
            y::h1(&key, y::h(h))
        }
        2 => Yaml::Array(vec![y::s(&key)]),
        _ => y::s(&key),
    };
    let py = wrap_reg(r, &d0, &p, i, y::h1("_split", sec));
    c.check(&d0, &py, exp)
}
