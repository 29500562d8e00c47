//! Selectors.
use crate::gen::{self, Cfg};
use crate::rng::Rng;
use crate::run::*;
use crate::sel::*;
use crate::y;
use svd_rs::*;
pub const RULE: &str = "random names over a small alphabet and random selectors from the grammar of the statement (lists, single brace patterns, nested alternatives, classes, ranges, complements, stars), applied through 9 selector-driven operations at all four levels; the reference is an own matcher; non-trivial: the selection changes the device or the patch must fail";

fn name(r: &mut Rng) -> String {
    let n = r.r(1, 5);
    let mut s = r.s(&["A", "B", "a", "_"]);
    for _ in 1..n {
        s += r.pick(&["A", "B", "b", "1", "2", "_", "."]);
    }
    s
}
fn atom(r: &mut Rng) -> String {
    match r.n(14) {
        0..=1 => "*".into(),
        2..=3 => "?".into(),
        4 => "[A-B]".into(),
        5 => "[!A]".into(),
        6 => "[12]".into(),
        7 => "[!A-B]".into(),
        8 => "[1-2_]".into(),
        9 => "[aA]".into(),
        _ => r.s(&["A", "B", "1", "2", "_", "a", "."]),
    }
}
fn braces(r: &mut Rng, depth: usize) -> String {
    let n = r.r(1, 3);
    let v: Vec<String> = (0..n).map(|_| pat(r, depth.saturating_sub(1), 1)).collect();
    format!("{{{}}}", v.join(","))
}
pub fn pat(r: &mut Rng, depth: usize, min: usize) -> String {
    let n = r.r(min, 4);
    let mut s = String::new();
    let mut star = false;
    for _ in 0..n {
        if depth > 0 && r.p(35) {
            s += &braces(r, depth);
            star = true; // an alternative may begin or end with a star
            continue;
        }
        let a = atom(r);
        if a == "*" && star {
            continue;
        }
        star = a == "*";
        s += &a;
    }
    if s.is_empty() { "A".into() } else { s }
}
/// a pattern derived from a name, so that it often selects something
fn near(r: &mut Rng, n: &str) -> String {
    let mut s = String::new();
    for c in n.chars() {
        s += &match r.n(8) {
            0 => "?".to_string(),
            1 => format!("[{c}1]"),
            2 => if s.ends_with('*') { "?".into() } else { "*".into() },
            3 => format!("[!{}]", if c == 'A' { 'B' } else { 'A' }),
            _ => c.to_string(),
        };
    }
    s
}
fn selector(r: &mut Rng, have: &[String]) -> String {
    let one = |r: &mut Rng, d| if r.p(60) && !have.is_empty() { let n = r.pick(have).clone(); near(r, &n) } else { pat(r, d, 1) };
    match r.n(6) {
        0 | 1 => { let n = r.r(2, 4); (0..n).map(|_| one(r, 0)).collect::<Vec<_>>().join(",") }
        2 => pat(r, 2, 1),
        3 => { let n = r.r(1, 3); format!("{{{}}}", (0..n).map(|_| one(r, 0)).collect::<Vec<_>>().join(",")) }
        4 if !have.is_empty() => {
            // prefix{rest1,rest2}
            let n = r.pick(have).clone();
            let k = r.n(n.len());
            format!("{}{{{},{}}}", &n[..k], &n[k..], pat(r, 0, 1))
        }
        _ => one(r, 0),
    }
}
pub fn case(c: &mut Ctx) {
    let mut r = c.rng("");
    let cfg = Cfg { pers: (1, 1), kids: (3, 7), fields: (1, 5), depth: 1, arrays: 0, clusters: 12, derived: 0, evs: 40, dup: false };
    let mut d = gen::device(&mut r, &cfg);
    let uniq = |r: &mut Rng, seen: &mut Vec<String>| loop {
        let n = name(r);
        if !seen.contains(&n) {
            seen.push(n.clone());
            break n;
        }
    };
    let extra = r.n(4);
    for k in 0..extra {
        d.peripherals.push(gen::peripheral(&mut r, &format!("X{k}"), 0x5000_0000 + k as u64 * 0x1000, &cfg));
    }
    let mut seen = vec![];
    for p in d.peripherals.iter_mut() {
        p.name = uniq(&mut r, &mut seen);
        let mut seen = vec![];
        for i in p.interrupt.iter_mut() {
            i.name = uniq(&mut r, &mut seen);
        }
        let mut seen = vec![];
        for k in p.registers.get_or_insert_with(Vec::new).iter_mut() {
            match k {
                RegisterCluster::Register(rg) => {
                    rg.name = uniq(&mut r, &mut seen);
                    rg.derived_from = None;
                    let mut seen = vec![];
                    for f in rg.fields.get_or_insert_with(Vec::new).iter_mut() {
                        f.name = uniq(&mut r, &mut seen);
                    }
                }
                RegisterCluster::Cluster(cl) => cl.name = uniq(&mut r, &mut seen),
            }
        }
    }
    let d0 = norm(&d).unwrap();
    let mut e = d0.clone();
    let pn: Vec<String> = e.peripherals.iter().map(|p| p.name.clone()).collect();
    let k = r.n(pn.len());
    let Some(kids) = e.peripherals[k].registers.as_mut() else { return };
    let rn: Vec<String> = kids.iter().filter_map(|x| if let RegisterCluster::Register(r) = x { Some(r.name.clone()) } else { None }).collect();
    let regs = |k: &mut Vec<RegisterCluster>| -> Vec<*mut Register> { k.iter_mut().filter_map(|x| if let RegisterCluster::Register(r) = x { Some(r as *mut _) } else { None }).collect() };
    let per = |y| y::h1(&pn[k], y);
    let marked = Some("MARK".to_string());
    match r.n(10) {
        0 => {
            let s = selector(&mut r, &pn);
            e.peripherals.retain(|p| !selected(&p.name, &s));
            c.check(&d0, &y::h1("_delete", y::a(vec![y::s(&s)])), Exp::Ok(e));
        }
        1 => {
            let s = selector(&mut r, &pn);
            for p in e.peripherals.iter_mut().filter(|p| selected(&p.name, &s)) {
                p.description = marked.clone();
            }
            c.check(&d0, &y::h1("_modify", y::h1(&s, y::h1("description", y::s("MARK")))), Exp::Ok(e));
        }
        2 => {
            let s = selector(&mut r, &rn);
            kids.retain(|x| !selected(crate::c02::rc_name(x), &s));
            c.check(&d0, &per(y::h1("_delete", y::a(vec![y::s(&s)]))), Exp::Ok(e));
        }
        3 | 4 => {
            let s = selector(&mut r, &rn);
            let mut n = 0;
            for x in regs(kids) {
                let x = unsafe { &mut *x };
                if selected(&x.name, &s) {
                    x.description = marked.clone();
                    n += 1;
                }
            }
            let y = y::h1("_modify", if r.p(50) { y::h1("_registers", y::h1(&s, y::h1("description", y::s("MARK")))) } else if kids.iter().any(|x| matches!(x, RegisterCluster::Cluster(_)) && selected(crate::c02::rc_name(x), &s)) && n == 0 { return } else { y::h1(&s, y::h1("description", y::s("MARK"))) });
            c.check(&d0, &per(y), if n > 0 { Exp::Ok(e) } else { Exp::Fail("mandatory selector selects nothing") });
        }
        5 | 6 => {
            // field deletion / modification below a register selector
            let s = selector(&mut r, &rn);
            let fnames: Vec<String> = regs(kids).iter().flat_map(|x| unsafe { &**x }.fields.iter().flatten().map(|f| f.name.clone())).collect();
            let fs = selector(&mut r, &fnames);
            let del = r.p(50);
            let (mut n, mut miss) = (0, false);
            for x in regs(kids) {
                let x = unsafe { &mut *x };
                if selected(&x.name, &s) {
                    n += 1;
                    let f = x.fields.get_or_insert_with(Vec::new);
                    if del {
                        f.retain(|f| !selected(&f.name, &fs));
                    } else {
                        let mut m = 0;
                        for f in f.iter_mut().filter(|f| selected(&f.name, &fs)) {
                            f.description = marked.clone();
                            m += 1;
                        }
                        miss |= m == 0;
                    }
                }
            }
            if n == 0 && kids.iter().any(|x| matches!(x, RegisterCluster::Cluster(_)) && selected(crate::c02::rc_name(x), &s)) {
                return;
            }
            let y = if del { y::h1("_delete", y::a(vec![y::s(&fs)])) } else { y::h1("_modify", y::h1(&fs, y::h1("description", y::s("MARK")))) };
            c.check(&d0, &per(y::h1(&s, y)), if n > 0 && !miss { Exp::Ok(e) } else { Exp::Fail("mandatory selector selects nothing") });
        }
        7 => {
            let names: Vec<_> = e.peripherals[k].interrupt.iter().map(|i| i.name.clone()).collect();
            let s = selector(&mut r, &names);
            e.peripherals[k].interrupt.retain(|i| !selected(&i.name, &s));
            if d0.peripherals[k].derived_from.is_some() {
                return;
            }
            c.check(&d0, &per(y::h1("_delete", y::h1("_interrupts", y::s(&s)))), Exp::Ok(e));
        }
        8 => {
            let s = selector(&mut r, &rn);
            for x in regs(kids) {
                let x = unsafe { &mut *x };
                if selected(&x.name, &s) {
                    for f in x.fields.iter_mut().flatten() {
                        f.enumerated_values.clear();
                        f.write_constraint = None;
                    }
                }
            }
            if kids.iter().any(|x| matches!(x, RegisterCluster::Cluster(_))) {
                return;
            }
            c.check(&d0, &per(y::h1("_clear_fields", y::s(&s))), Exp::Ok(e));
        }
        _ => {
            // peripheral sections
            let s = selector(&mut r, &pn);
            let mut n = 0;
            for p in e.peripherals.iter_mut().filter(|p| selected(&p.name, &s)) {
                n += 1;
                for x in regs(p.registers.get_or_insert_with(Vec::new)) {
                    let x = unsafe { &mut *x };
                    x.name = format!("Z{}", x.name);
                    if let Some(d) = x.display_name.as_mut() {
                        d.insert(0, 'Z')
                    }
                    if let Some(d) = x.alternate_register.as_mut() {
                        d.insert(0, 'Z')
                    }
                }
            }
            if d0.peripherals.iter().any(|p| p.derived_from.is_some() || p.registers.is_none()) {
                return;
            }
            c.check(&d0, &y::h1(&s, y::h1("_prefix", y::s("Z"))), if n > 0 { Exp::Ok(e) } else { Exp::Fail("mandatory selector selects nothing") });
        }
    }
}
