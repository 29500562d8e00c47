//! Usage and action tags.
use crate::c14;
use crate::run::*;
pub const RULE: &str = "as C14, with every description under one read tag and/or one write tag, over all accesses, prior usages and selected fields; non-trivial: something changes or the patch must fail";
pub fn case(c: &mut Ctx) {
    let mut r = c.rng("");
    c14::run(c, &mut r, 90, 2)
}
