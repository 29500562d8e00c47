//! The memory map.
use crate::c24::output;
use crate::gen::{self, Cfg};
use crate::run::*;
use serde_json::json;
use svd_rs::*;
pub const RULE: &str = "random devices (arrays of peripherals, clusters, registers and fields, nested clusters, derived peripherals also over several steps, high addresses, unordered contents), mapped by the command's own function; non-trivial: there are registers";
fn idx(d: &DimElement, k: u32) -> String {
    match &d.dim_index {
        Some(v) => v[k as usize].clone(),
        None => k.to_string(),
    }
}
fn sub(s: &str, i: &str) -> String {
    s.replace("[%s]", i).replace("%s", i)
}
fn text(s: &Option<String>) -> String {
    s.as_deref().unwrap_or("").split_whitespace().collect::<Vec<_>>().join(" ")
}
fn acc(a: Option<Access>) -> &'static str {
    match a {
        None => "",
        Some(Access::ReadOnly) => " (ro)",
        Some(Access::ReadWrite) => " (rw)",
        Some(Access::ReadWriteOnce) => " (rwonce)",
        Some(Access::WriteOnce) => " (wonce)",
        Some(Access::WriteOnly) => " (wo)",
    }
}
fn der(d: &Option<String>) -> String {
    d.as_ref().map(|d| format!(" (={d})")).unwrap_or_default()
}
/// the elements an array stands for (one for a single element): index, position
fn each<T>(m: &MaybeArray<T>) -> Vec<(Option<String>, u64)> {
    match m {
        MaybeArray::Single(_) => vec![(None, 0)],
        MaybeArray::Array(_, d) => (0..d.dim).map(|k| (Some(idx(d, k)), k as u64 * d.dim_increment as u64)).collect(),
    }
}
fn put(s: &str, i: &Option<String>) -> String {
    match i {
        Some(i) => sub(s, i),
        None => s.to_string(),
    }
}
fn block(base: u64, k: &[RegisterCluster], suffix: &str, out: &mut Vec<String>) {
    for x in k {
        match x {
            RegisterCluster::Register(x) => {
                for (i, o) in each(x) {
                    let a = base + x.address_offset as u64 + o;
                    let name = if i.is_none() { x.name.clone() + suffix } else { put(&x.name, &i) };
                    out.push(format!("0x{a:X} B  REGISTER {name}{}{}: {}", der(&x.derived_from), acc(x.properties.access), put(&text(&x.description), &i)));
                    for f in x.fields.iter().flatten() {
                        for (i, o) in each(f) {
                            out.push(format!("0x{a:X} C   FIELD {:02}w{:02} {}{}{}: {}", f.bit_range.offset as u64 + o, f.bit_range.width, put(&f.name, &i), der(&f.derived_from), acc(f.access), put(&text(&f.description), &i)));
                        }
                    }
                }
            }
            RegisterCluster::Cluster(x) => {
                for (i, o) in each(x) {
                    let a = base + x.address_offset as u64 + o;
                    out.push(format!("0x{a:X} B  CLUSTER {}{}: {}", put(&x.name, &i), der(&x.derived_from), put(&text(&x.description), &i)));
                    block(a, &x.children, i.as_deref().unwrap_or(""), out);
                }
            }
        }
    }
}
pub fn case(c: &mut Ctx) {
    let mut r = c.rng("");
    let r = &mut r;
    let mut d = gen::device(r, &Cfg { pers: (1, 5), kids: (0, 4), fields: (0, 3), derived: 0, arrays: 18, evs: 0, ..Cfg::default() });
    let high = r.p(20);
    let n = d.peripherals.len();
    // derivations: always from an earlier one in a random order, so that there is no circle
    let mut order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut order);
    for k in 1..n {
        if r.p(35) {
            let f = order[r.n(k)];
            let p = order[k];
            d.peripherals[p].derived_from = Some(d.peripherals[f].name.clone());
            d.peripherals[p].registers = None;
        }
    }
    if high {
        for p in &mut d.peripherals {
            p.base_address += 0xF_0000_0000 + r.n(1 << 20) as u64 * 0x1_0000_0001;
        }
    }
    let xml = enc(&d);
    let Ok(d) = svd_parser::parse(&xml) else {
        c.skipped += 1;
        return;
    };
    let mut want = vec![];
    for p in &d.peripherals {
        let mut src = p;
        while let Some(f) = &src.derived_from {
            src = d.peripherals.iter().find(|q| q.name == *f).unwrap();
        }
        for (i, o) in each(p) {
            let (name, a) = (put(&p.name, &i), p.base_address + o);
            want.push(format!("0x{a:X} A PERIPHERAL {name}"));
            for i in &p.interrupt {
                want.push(format!("INTERRUPT {:03}: {} ({name}): {}", i.value, i.name, text(&i.description)));
            }
            block(a, src.registers.as_deref().unwrap_or_default(), "", &mut want);
        }
    }
    want.sort();
    let nt = want.iter().any(|l| l.contains(" REGISTER "));
    c.class(if nt { "mapped" } else { "no registers" });
    c.count(&xml, nt);
    let js = json!({"svd": xml, "patch": "svdtools mmap"});
    match output(c, &xml, "@mmap") {
        Ok(o) => {
            if nt {
                c.sample(json!({"output": o.chars().take(300).collect::<String>()}));
            }
            if o.trim_end_matches('\n').lines().collect::<Vec<_>>() != want {
                c.fail(&format!("wrong map, {}", diff(&want.join("\n"), o.trim_end_matches('\n'))), js)
            }
        }
        Err(e) => c.fail(&format!("the map failed: {e}"), js),
    }
}
