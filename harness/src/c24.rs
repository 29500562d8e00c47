//! The interrupt listing.
use crate::gen::{self, Cfg};
use crate::run::*;
use serde_json::json;
use std::process::Command;
use svd_rs::*;
pub const RULE: &str = "random devices with 0-6 peripherals and 0-5 interrupts each (any order, equal numbers, large gaps, line breaks in descriptions, peripherals without interrupts, derived and array peripherals), listed with and without gaps by the command's own function; non-trivial: there are at least two interrupts";
/// what the command prints, or how it failed; the command's function runs in a process of its own
pub fn output(c: &Ctx, xml: &str, what: &str) -> Result<String, String> {
    std::fs::create_dir_all(&c.scratch).unwrap();
    let f = std::path::Path::new(&c.scratch).join(format!("{}.svd", c.k));
    std::fs::write(&f, xml).unwrap();
    let o = Command::new(std::env::current_exe().unwrap()).arg(what).arg(&f).output().unwrap();
    let _ = std::fs::remove_file(&f);
    if o.status.success() {
        Ok(String::from_utf8_lossy(&o.stdout).to_string())
    } else {
        Err(String::from_utf8_lossy(&o.stderr).chars().take(400).collect())
    }
}
pub fn case(c: &mut Ctx) {
    let mut r = c.rng("");
    let r = &mut r;
    let mut d = gen::device(r, &Cfg { pers: (1, 6), kids: (0, 1), fields: (0, 1), derived: 15, arrays: 10, ..Cfg::default() });
    let top = *r.pick(&[3usize, 8, 40, 300]);
    let big = r.p(4);
    for p in &mut d.peripherals {
        let n = r.n(6);
        p.interrupt = gen::names(r, gen::INTS, n, true)
            .into_iter()
            .map(|n| {
                let t = r.opt(70, |r| r.s(&["plain text", "two\nlines", "with\r\nbreak", "a (in X)", " spaced  out "]));
                let v = if big && r.p(20) { 30000 + r.n(40000) } else { r.n(top) };
                Interrupt::builder().name(n).description(t).value(v as u32).build(gen::LVL).unwrap()
            })
            .collect();
    }
    let xml = enc(&d);
    let gaps = r.p(70);
    let mut want: Vec<(u32, String, String)> = vec![];
    for p in &d.peripherals {
        for i in &p.interrupt {
            want.push((i.value, i.name.clone(), p.name.clone()));
        }
    }
    want.sort_by_key(|x| x.0);
    let nt = want.len() > 1;
    c.class(if nt { "listed" } else { "at most one interrupt" });
    c.count(&xml, nt);
    let js = json!({"svd": xml, "patch": format!("svdtools interrupts{}", if gaps { "" } else { " --no-gaps" })});
    let out = match output(c, &xml, if gaps { "@interrupts-gaps" } else { "@interrupts" }) {
        Ok(o) => o,
        Err(e) => return c.fail(&format!("the listing failed: {e}"), js),
    };
    if nt {
        c.sample(json!({"output": out.chars().take(300).collect::<String>()}));
    }
    let mut lines: Vec<&str> = out.lines().collect();
    if gaps {
        let have: std::collections::HashSet<u32> = want.iter().map(|x| x.0).collect();
        let miss: Vec<String> = (0..want.last().map(|x| x.0).unwrap_or(0)).filter(|n| !have.contains(n)).map(|n| n.to_string()).collect();
        let g = lines.pop().unwrap_or("");
        let got: Vec<String> = g.strip_prefix("Gaps:").unwrap_or("no gaps line").split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
        if got != miss {
            return c.fail(&format!("wrong gaps:\nexpected {miss:?}\ngot {g}"), js);
        }
    }
    let ok = lines.len() == want.len() && lines.iter().zip(&want).all(|(l, (v, n, p))| l.starts_with(&format!("{v} {n}:")) && l.ends_with(&format!("(in {p})")));
    if !ok {
        c.fail(&format!("wrong listing:\nexpected {want:?}\ngot\n{out}"), js)
    }
}
