//! The dependency file.
use crate::c18::*;
use crate::run::*;
use serde_json::json;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
pub const RULE: &str = "the random file trees of C18, `makedeps` with a random output name; non-trivial: something is included";
pub fn case(c: &mut Ctx) {
    let mut r = c.rng("");
    let t = tree(&mut r, dir(c));
    t.write();
    let exp = match expected(&t.root()) {
        Err(Bad::Skip) => {
            // merging is not the matter here, but it may fail
            c.skipped += 1;
            return;
        }
        Err(Bad::Fail) => return,
        Ok(e) => e.1,
    };
    let js = t.json();
    let given = t.given(&mut r);
    let out = t.dir.join(r.s(&["x.d", "a/x.d", "out.mk"]));
    if r.p(30) {
        std::fs::write(&out, "old contents that are long enough to stand out if they were kept\n".repeat(20)).unwrap();
    }
    let nt = !exp.is_empty();
    c.class(if nt { "dependencies" } else { "none" });
    c.count(js["patch"].as_str().unwrap(), nt);
    match catch_unwind(AssertUnwindSafe(|| svdtools::makedeps::makedeps_cli::makedeps(&given, &out))) {
        Ok(Ok(())) => {
            let s = std::fs::read_to_string(&out).unwrap_or_default();
            let pre = format!("{}:", out.display());
            let got: BTreeSet<PathBuf> = s.strip_prefix(&pre).unwrap_or("?").split_whitespace().map(PathBuf::from).collect();
            if nt {
                c.sample(json!({"patch": js["patch"], "dependencies": s}));
            }
            if got != exp || !s.ends_with('\n') {
                c.fail(&format!("wrong dependency file:\n{s}\nexpected {exp:?}"), js)
            }
        }
        Ok(Err(e)) => c.fail(&format!("must succeed; error {e:#}"), js),
        Err(p) => c.fail(&format!("must succeed; panic {}", msg(p)), js),
    }
}
