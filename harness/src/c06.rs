//! Rebase.
use crate::gen::{self, Cfg};
use crate::run::*;
use crate::y;
use svd_rs::*;
pub const RULE: &str = "random devices with chains of derived peripherals in any order and random `_rebase` entries (also of missing peripherals); non-trivial: something changes or the patch must fail";
pub fn case(c: &mut Ctx) {
    let mut r = c.rng("");
    let r = &mut r;
    let cfg = Cfg { derived: 45, pers: (2, 6), kids: (0, 3), arrays: 6, depth: 1, ..Cfg::default() };
    let d0 = norm(&gen::device(r, &cfg)).unwrap();
    let mut e = d0.clone();
    let names: Vec<String> = e.peripherals.iter().map(|p| p.name.clone()).collect();
    let mut h = vec![];
    let mut bad = None;
    for _ in 0..if r.p(80) { 1 } else { 2 } {
        let new = if r.p(8) { "NOPE".to_string() } else { r.pick(&names).clone() };
        let old = if r.p(8) { "NOPE2".to_string() } else { r.pick(&names).clone() };
        if new == old || h.iter().any(|(k, _)| *k == new) {
            return;
        }
        h.push((new.clone(), y::s(&old)));
        let (io, inn) = (names_pos(&e, &old), names_pos(&e, &new));
        let (Some(io), Some(inn)) = (io, inn) else {
            bad = Some("a peripheral is missing");
            continue;
        };
        let po = e.peripherals[io].clone();
        let pn = e.peripherals[inn].clone();
        if po.is_array() || pn.is_array() || po.derived_from.as_ref() == Some(&new) {
            return;
        }
        let mut x = po.clone();
        x.name = new.clone();
        x.base_address = pn.base_address;
        x.interrupt = pn.interrupt.clone();
        e.peripherals[inn] = x;
        e.peripherals[io] = PeripheralInfo::builder().name(old.clone()).base_address(po.base_address).interrupt(Some(po.interrupt.clone())).derived_from(Some(new.clone())).build(gen::LVL).unwrap().single();
        let mut at = io;
        for (i, p) in e.peripherals.iter_mut().enumerate() {
            if p.derived_from.as_ref() == Some(&old) {
                p.derived_from = Some(new.clone());
                at = at.min(i);
            }
        }
        if inn > at {
            let x = e.peripherals.remove(inn);
            e.peripherals.insert(at, x);
        }
    }
    let p = y::h1("_rebase", y::hv(h));
    c.check(&d0, &p, bad.map(Exp::Fail).unwrap_or(Exp::Ok(e)))
}
fn names_pos(d: &Device, n: &str) -> Option<usize> {
    d.peripherals.iter().position(|p| p.name == n)
}
