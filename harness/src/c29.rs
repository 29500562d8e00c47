//! Several operations in one patch against the same operations in patches of their own.
use crate::gen::{self, Cfg};
use crate::rng::Rng;
use crate::run::*;
use crate::y;
use serde_json::json;
use yaml_rust::Yaml;
pub const RULE: &str = "random devices and patches with several operations per section, written in random order; the same operations are applied in patches of their own in the fixed order, and the outcomes compared; non-trivial: at least three operations, and the device changes or the patch fails";

type Sec = Vec<(String, Yaml)>;
fn opt(r: &mut Rng, s: String) -> String {
    if r.p(85) { format!("?~{s}") } else { s }
}
fn desc(r: &mut Rng) -> Yaml {
    y::h1("description", y::s(&gen::text(r)))
}
fn fld(r: &mut Rng) -> String {
    match r.n(4) {
        0 => "EN*".into(),
        1 => "[A-B]".into(),
        _ => r.s(gen::FLDS),
    }
}
fn reg(r: &mut Rng) -> String {
    match r.n(5) {
        0 => "CCR?".into(),
        1 => "ZCR*".into(),
        2 => "*".into(),
        _ => reg1(r),
    }
}
thread_local!(static HAVE: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(vec![]) });
/// a register of the device, mostly
fn reg1(r: &mut Rng) -> String {
    HAVE.with_borrow(|h| if h.is_empty() || r.p(10) { r.s(gen::REGS) } else { r.pick(h).clone() })
}
fn clu(r: &mut Rng) -> String {
    match r.n(4) {
        0 => "CH*".into(),
        _ => r.s(&["CH", "CH1", "PORT", "GRP"]),
    }
}
fn per(r: &mut Rng, have: &[String]) -> String {
    if have.is_empty() || r.p(10) { r.s(gen::PERS) } else { r.pick(have).clone() }
}
fn some(r: &mut Rng, lo: usize, hi: usize, mut f: impl FnMut(&mut Rng) -> (String, Yaml)) -> Yaml {
    let n = r.r(lo, hi);
    y::hv((0..n).map(|_| f(r)).collect())
}
fn reg_sec(r: &mut Rng, p: usize) -> Sec {
    let mut v: Sec = vec![];
    let mut add = |k: &str, y: Yaml| v.push((k.to_string(), y));
    for k in 0..14 {
        if !r.p(p) {
            continue;
        }
        match k {
            0 => add("_delete", y::a(vec![y::s(&fld(r))])),
            1 => add("_strip", y::a(vec![y::s(&r.s(&["Z", "E", "MO"])), y::s("N")])),
            2 => add("_strip_end", y::s(&r.s(&["Y", "1", "0"]))),
            3 => add("_prefix", y::s("Z")),
            4 => add("_suffix", y::s(&r.s(&["Y", "1"]))),
            5 => add("_clear", y::s(&fld(r))),
            6 => add("_modify", some(r, 1, 2, |r| { let (k, d) = (fld(r), desc(r)); (opt(r, k), d) })),
            7 => add("_add", some(r, 1, 1, |r| (r.s(&["NF", "A", "ZA"]), y::h(vec![("bitOffset", y::i(31)), ("bitWidth", y::i(1))])))),
            8 => add("_derive", some(r, 1, 1, |r| (r.s(&["?~EN1", "?~B", "NF"]), y::s(&r.s(gen::FLDS))))),
            9 => add("_merge", if r.p(50) { y::h1("MODE", y::s("MODE[0-1]")) } else { y::s("?N*") }),
            10 => add("_split", if r.p(50) { y::s("?~A") } else { y::h1("?~B", y::h1("name", y::s("B_%s"))) }),
            11 | 12 => {
                let (k, e) = (fld(r), y::h(vec![("VA", y::a(vec![y::i(0), y::s("zero")])), ("VB", y::a(vec![y::i(1), y::s("one")]))]));
                add(&opt(r, k), e)
            }
            _ => add("_array", y::h1("?~MODE*", y::h(vec![]))),
        }
    }
    v
}
fn block_sec(r: &mut Rng, p: usize, is_per: bool, depth: usize) -> Sec {
    let mut v: Sec = vec![];
    for k in 0..18 {
        if !r.p(p) {
            continue;
        }
        let it = match k {
            0 => ("_delete", match r.n(3) {
                0 => y::s(&reg(r)),
                1 => y::a(vec![y::s(&r.s(gen::REGS)), y::s(&clu(r))]),
                _ => {
                    let mut h = vec![("_registers", y::s(&reg(r))), ("_clusters", y::s(&{ let c = clu(r); format!("?~{c}") }))];
                    if is_per {
                        h.push(("_interrupts", y::s("DMA*")))
                    }
                    r.shuffle(&mut h);
                    y::h(h)
                }
            }),
            1 => ("_copy", some(r, 1, 2, |r| (r.s(&["NC", "CR2", "ZNC"]), y::h(vec![("_from", y::s(&reg1(r))), ("addressOffset", y::i(0x80))])))),
            2 => ("_strip", y::s(&r.s(&["Z", "C"]))),
            3 => ("_strip_end", y::a(vec![y::s("Y"), y::s("R")])),
            4 => ("_prefix", y::s("Z")),
            5 => ("_suffix", y::s(&r.s(&["Y", "1"]))),
            6 | 7 => ("_modify", some(r, 1, 3, |r| match r.n(4) {
                0 => ("_registers".into(), some(r, 1, 2, |r| { let (k, d) = (reg(r), desc(r)); (opt(r, k), d) })),
                1 => ("_clusters".into(), some(r, 1, 1, |r| { let (k, d) = (clu(r), desc(r)); (opt(r, k), d) })),
                2 if is_per => ("_interrupts".into(), some(r, 1, 1, |r| (r.s(&["DMA*", "ADC", "*"]), y::h1("value", y::i(3))))),
                _ => { let (k, d) = (reg(r), desc(r)); (opt(r, k), d) }
            })),
            8 => ("_clear_fields", y::s(&reg(r))),
            9 => ("_add", some(r, 1, 2, |r| {
                let o = y::h1("addressOffset", y::i(r.n(0x40) as i64));
                match r.n(4) {
                    0 => ("_registers".into(), y::hv(vec![(r.s(&["NR", "DR", "ZNR"]), o)])),
                    1 if is_per => ("_interrupts".into(), y::h1("NI", y::h(vec![("value", y::i(9)), ("description", y::s("n"))]))),
                    _ => (r.s(&["NR", "SR", "ZSR", "NRY"]), o),
                }
            })),
            10 => ("_derive", some(r, 1, 1, |r| (r.s(&["?~DR", "NR", "ND", "?~SR"]), y::h(vec![("_from", y::s(&reg1(r))), ("addressOffset", y::i(0x90))])))),
            11 | 12 => {
                let (k, s) = (reg(r), reg_sec(r, 20));
                let k = if k == "*" { "CCR1".into() } else { k };
                v.push((opt(r, k), y::hv(s)));
                continue;
            }
            13 if r.p(40) => ("_expand_array", y::h1(&r.s(&["CR*", "*", "*"]), y::h(vec![]))),
            14 => ("_array", y::h1(&r.s(&["?~CCR*", "?~ZCCR*", "?~CR*", "?~AFR[LH]"]), y::h(vec![]))),
            15 if r.p(25) => ("_cluster", y::h1("NCL", y::h1(&r.s(&["?~CCR*", "?~ZCR1", "?~DR"]), y::h(vec![])))),
            16 if depth > 0 => {
                let (k, s) = (clu(r), block_sec(r, p, false, depth - 1));
                ("_clusters", y::hv(vec![(opt(r, k), y::hv(s))]))
            }
            17 if is_per && r.p(40) => ("_expand_cluster", match r.n(3) {
                0 => y::s(&clu(r)),
                1 => y::a(vec![y::s(&clu(r))]),
                _ => y::h1(&clu(r), y::h1("_noprefix", Yaml::Boolean(r.p(50)))),
            }),
            _ => continue,
        };
        v.push((it.0.into(), it.1));
    }
    v
}
fn dev_sec(r: &mut Rng, names: &[String]) -> Sec {
    let mut v: Sec = vec![];
    for k in 0..9 {
        let it = match k {
            0 if r.p(12) => ("_delete", y::a(vec![y::s(&per(r, names))])),
            1 if r.p(15) => ("_copy", y::h1(&r.s(&["NP", "TIM15"]), y::h1("from", y::s(&per(r, names))))),
            2 if r.p(45) => ("_modify", some(r, 1, 3, |r| match r.n(6) {
                0 => ("name".into(), y::s("DD")),
                1 => ("width".into(), y::i(16)),
                2 if r.p(50) => ("cpu".into(), y::h1("revision", y::s("r1p1"))),
                3 => ("_peripherals".into(), y::h1(&per(r, names), desc(r))),
                _ => (per(r, names), desc(r)),
            })),
            3 if r.p(25) => ("_clear_fields", y::s(&r.s(&["*", "TIM*", "NP"]))),
            4 if r.p(20) => ("_add", y::h1(&r.s(&["NP", "AP"]), y::h(vec![("baseAddress", y::i(0x5000_0000)), ("registers", y::h1("CR1", y::h1("addressOffset", y::i(0))))]))),
            5 if r.p(15) => ("_derive", {
                let k = if r.p(60) { per(r, names) } else { r.s(&["NP", "DP"]) };
                let mut b = vec![("_from", y::s(&per(r, names)))];
                if !names.contains(&k) { b.push(("baseAddress", y::i(0x5100_0000))) }
                y::h1(&k, y::h(b))
            }),
            6 if r.p(15) => ("_rebase", y::h1(&per(r, names), y::s(&per(r, names)))),
            7 | 8 => {
                let p = r.r(6, 20);
                let k = if r.p(15) { "*".into() } else { per(r, names) };
                v.push((k, y::hv(block_sec(r, p, true, 1))));
                continue;
            }
            _ => continue,
        };
        v.push((it.0.into(), it.1));
    }
    v
}
fn shuffled(r: &mut Rng, s: &Yaml) -> Yaml {
    // the order of the keys of a section is not the order of its operations
    match s {
        Yaml::Hash(h) => {
            let mut v: Vec<(String, Yaml)> = h.iter().map(|(k, x)| (k.as_str().unwrap().to_string(), x.clone())).collect();
            let ops: Vec<usize> = (0..v.len()).filter(|i| v[*i].0.starts_with('_')).collect();
            // sections of the same kind keep their order
            let mut to = ops.clone();
            r.shuffle(&mut to);
            let c: Vec<_> = ops.iter().map(|i| v[*i].clone()).collect();
            for (x, i) in c.into_iter().zip(to) {
                v[i] = x;
            }
            y::hv(v)
        }
        x => x.clone(),
    }
}
type Wrap<'a> = &'a dyn Fn(Yaml) -> Yaml;
fn get<'a>(s: &'a Yaml, k: &str) -> Option<&'a Yaml> {
    s.as_hash().and_then(|h| h.get(&y::s(k)))
}
fn words(v: &Yaml) -> Vec<Yaml> {
    match v {
        Yaml::Array(a) => a.clone(),
        x => vec![x.clone()],
    }
}
fn pairs(v: &Yaml) -> Vec<(String, Yaml)> {
    v.as_hash().map(|h| h.iter().map(|(k, x)| (k.as_str().unwrap().to_string(), x.clone())).collect()).unwrap_or_default()
}
/// one patch per entry of the operation `op`; entries named in `grp` hold entries of their own
fn each(s: &Yaml, op: &str, grp: &[&str], w: Wrap, out: &mut Vec<Yaml>) {
    let Some(v) = get(s, op) else { return };
    match v {
        Yaml::Hash(_) => {
            for (k, x) in pairs(v) {
                if grp.contains(&k.as_str()) {
                    for (a, b) in pairs(&x) {
                        out.push(w(y::h1(op, y::h1(&k, y::h1(&a, b)))));
                    }
                } else {
                    out.push(w(y::h1(op, y::h1(&k, x))));
                }
            }
        }
        _ => {
            for x in words(v) {
                out.push(w(y::h1(op, y::a(vec![x]))));
            }
        }
    }
}
fn flat_reg(s: &Yaml, w: Wrap, out: &mut Vec<Yaml>) {
    out.push(w(y::h(vec![])));
    let all = |op: &str, out: &mut Vec<Yaml>| each(s, op, &[], w, out);
    let whole = |op: &str, out: &mut Vec<Yaml>| if let Some(v) = get(s, op) { out.push(w(y::h1(op, v.clone()))) };
    for op in ["_delete", "_strip", "_strip_end"] {
        all(op, out);
    }
    whole("_prefix", out);
    whole("_suffix", out);
    for op in ["_clear", "_modify", "_add", "_derive", "_merge", "_split"] {
        all(op, out);
    }
    for (k, x) in pairs(s) {
        if !k.starts_with('_') {
            out.push(w(y::h1(&k, x)));
        }
    }
    all("_array", out);
}
fn flat_block(s: &Yaml, is_per: bool, w: Wrap, out: &mut Vec<Yaml>) {
    out.push(w(y::h(vec![])));
    let g = &["_registers", "_clusters", "_interrupts"];
    if let Some(v) = get(s, "_delete") {
        match v {
            Yaml::Hash(_) => {
                for k in g {
                    if let Some(x) = get(v, k) {
                        for x in words(x) {
                            out.push(w(y::h1("_delete", y::h1(k, x))));
                        }
                    }
                }
            }
            _ => each(s, "_delete", g, w, out),
        }
    }
    let whole = |op: &str, out: &mut Vec<Yaml>| if let Some(v) = get(s, op) { out.push(w(y::h1(op, v.clone()))) };
    let all = |op: &str, out: &mut Vec<Yaml>| each(s, op, g, w, out);
    for op in ["_copy", "_strip", "_strip_end"] {
        all(op, out);
    }
    whole("_prefix", out);
    whole("_suffix", out);
    for op in ["_modify", "_clear_fields", "_add", "_derive"] {
        all(op, out);
    }
    let clusters = |out: &mut Vec<Yaml>| {
        for (k, x) in get(s, "_clusters").map(pairs).unwrap_or_default() {
            flat_block(&x, false, &|z| w(y::h1("_clusters", y::h1(&k, z))), out);
        }
    };
    if !is_per {
        clusters(out);
    }
    for (k, x) in pairs(s) {
        if !k.starts_with('_') {
            flat_reg(&x, &|z| w(y::h1(&k, z)), out);
        }
    }
    for op in ["_expand_array", "_array", "_cluster"] {
        all(op, out);
    }
    if is_per {
        clusters(out);
        all("_expand_cluster", out);
    }
}
pub fn case(c: &mut Ctx) {
    let mut r = c.rng("");
    let r = &mut r;
    let d = gen::device(r, &Cfg { pers: (1, 4), kids: (1, 6), derived: 15, ..Cfg::default() });
    // a display name that stripping can leave empty does not survive being written down
    let keep = |l: &&str| {
        l.trim().strip_prefix("<displayName>").and_then(|l| l.strip_suffix("</displayName>")).is_none_or(|n| n.contains(|c| !"ZEMOCNY10R".contains(c)))
    };
    let Ok(d0) = parse(&enc(&d).lines().filter(keep).collect::<Vec<_>>().join("\n")) else { return };
    let names: Vec<String> = d0.peripherals.iter().map(|p| p.name.clone()).filter(|n| !n.contains('%')).collect();
    HAVE.set(d0.peripherals.iter().flat_map(|p| p.registers()).map(|x| x.name.clone()).filter(|n| !n.contains('%')).collect());
    let s = y::hv(dev_sec(r, &names));
    let mut steps = vec![];
    let id: Wrap = &|z| z;
    for op in ["_delete", "_copy", "_modify", "_clear_fields", "_add", "_derive", "_rebase"] {
        each(&s, op, &["_peripherals"], id, &mut steps);
    }
    // the section written in another order
    let mut top = vec![];
    for (k, x) in pairs(&s) {
        if !k.starts_with('_') {
            flat_block(&x, true, &|z| y::h1(&k, z), &mut steps);
            let x: Yaml = y::hv(pairs(&shuffled(r, &x)).into_iter().map(|(k, x)| if k.starts_with('_') { (k, x) } else { (k, shuffled(r, &x)) }).collect());
            top.push((k, x));
        } else {
            top.push((k, x));
        }
    }
    let whole = shuffled(r, &y::hv(top));
    let xml = enc(&d0);
    let mut cur = d0.clone();
    let mut failed = None;
    for st in &steps {
        match patch(&enc(&cur), st) {
            Out::Ok(d) => cur = d,
            // a name stripped to nothing: the intermediate device cannot be written down
            Out::Err(e) if e.starts_with("output does not parse") => {
                c.skipped += 1;
                return;
            }
            Out::Err(e) | Out::Panic(e) => {
                if std::env::var("VH_WHY").is_ok() {
                    let e = e.split(": ").last().unwrap_or("");
                    let k = y::dump(st);
                    let k: Vec<&str> = k.split_whitespace().filter(|w| w.starts_with('_') || w.starts_with("?")).collect();
                    c.class(&format!("{k:?} {}", e.chars().take(60).collect::<String>()));
                }
                failed = Some(format!("{}: {e}", y::dump(st)));
                break;
            }
        }
    }
    let py = y::dump(&whole);
    let nt = steps.len() >= 3 && (failed.is_some() || cur != d0);
    c.class(if failed.is_some() { "fails" } else if nt { "changes" } else { "trivial" });
    c.count(&format!("{xml}{py}"), nt);
    let case = || json!({"svd": xml, "patch": py, "steps": steps.iter().map(y::dump).collect::<Vec<_>>()});
    if nt {
        c.sample(json!({"patch": py, "steps": steps.len(), "outcome": failed.clone().unwrap_or("patched".into()).chars().take(200).collect::<String>()}));
    }
    match (patch(&xml, &whole), failed) {
        (Out::Ok(d), None) => {
            if d != cur {
                let w = format!("not the result of its operations in order, {}", diff(&enc(&cur), &enc(&d)));
                c.fail(&w, case())
            }
        }
        (Out::Ok(_), Some(e)) => c.fail(&format!("succeeds, although one of its operations fails: {e}"), case()),
        (Out::Err(e) | Out::Panic(e), None) => c.fail(&format!("fails, although its operations succeed one after another: {e}"), case()),
        _ => {}
    }
}
