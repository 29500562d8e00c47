//! What happens to the output file.
use crate::gen::{self, Cfg};
use crate::rng::Rng;
use crate::run::*;
use crate::y;
use serde_json::json;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use svd_rs::*;
use yaml_rust::Yaml;
pub const RULE: &str = "random devices and patches through `patch` (file to file) and `convert` (XML, YAML, JSON) in a scratch directory, the output absent, existing and longer, in another directory or the default name, with at most one stage made to fail (patch file, include, input file, input syntax, the patch itself, output validation, output format, formatting configuration, encoding); non-trivial: a stage fails or the output existed before";
const OLD: &str = "this is what was there before\n";
struct Dir(PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn put(p: &Path, s: &[u8]) {
    std::fs::write(p, s).unwrap()
}
fn bad_config(r: &mut Rng, dir: &Path) -> (PathBuf, &'static str) {
    let p = match r.n(5) {
        0 => dir.join("nocfg.yaml"),
        1 => {
            put(&dir.join("cfg.txt"), b"a: b\n");
            dir.join("cfg.txt")
        }
        2 => {
            put(&dir.join("cfg"), b"a: b\n");
            dir.join("cfg")
        }
        3 => {
            put(&dir.join("cfg.yaml"), b"- a\n- b\n");
            dir.join("cfg.yaml")
        }
        _ => {
            put(&dir.join("cfg.json"), b"{\"a\": ");
            dir.join("cfg.json")
        }
    };
    (p, "the formatting configuration cannot be read")
}
const GOOD_CFG: &str = "peripheral_name: Constant\nregister_address_offset: LowerHex\n";
fn patch_case(c: &mut Ctx, r: &mut Rng, dir: &Path) {
    let d = norm(&gen::device(r, &Cfg { pers: (1, 2), kids: (0, 3), arrays: 0, clusters: 0, derived: 0, ..Cfg::default() })).unwrap();
    let xml = enc(&d);
    let mut svd = xml.clone().into_bytes();
    let mut patch = y::h(vec![("_svd", y::s("in.svd")), ("_modify", y::h1("description", y::s("patched text")))]);
    let Yaml::Hash(h) = &mut patch else { unreachable!() };
    let mut why = "";
    let mut cfg = svdtools::patch::Config::default();
    let mut fmt: Option<PathBuf> = None;
    let mut raw: Option<Vec<u8>> = None;
    let mut no_svd = false;
    let mut no_patch = false;
    let mut inc = None;
    if r.p(30) {
        put(&dir.join("good.yaml"), GOOD_CFG.as_bytes());
        fmt = Some(dir.join("good.yaml"));
    }
    if r.p(30) {
        inc = Some(y::dump(&y::h1("_modify", y::h(vec![("vendor", y::s("V"))]))).into_bytes());
        h.insert(y::s("_include"), y::s("inc.yaml"));
    }
    match r.n(16) {
        0 => {
            raw = Some(r.pick(&[&b"_svd: [a\n"[..], b"- a\n", b"\xff\xfe_svd: x\n", b""]).to_vec());
            why = "the patch file cannot be read"
        }
        1 => {
            no_patch = true;
            why = "there is no patch file"
        }
        2 => {
            h.insert(y::s("_include"), y::s("none.yaml"));
            why = "there is no included file"
        }
        3 => {
            inc = Some(r.pick(&[&b"a: [b\n"[..], b"- a\n", b"\xff\xfe"]).to_vec());
            h.insert(y::s("_include"), y::s("inc.yaml"));
            why = "the included file cannot be read"
        }
        4 => {
            no_svd = true;
            why = "there is no input file"
        }
        5 => {
            h.remove(&y::s("_svd"));
            why = "no input file is named"
        }
        6 => {
            svd = match r.n(4) {
                0 => svd[..svd.len() / 2].to_vec(),
                1 => b"<device></device>".to_vec(),
                2 => b"".to_vec(),
                _ => {
                    let mut v = b"\xff\xff".to_vec();
                    v.extend(svd);
                    v
                }
            };
            why = "the input cannot be parsed"
        }
        7 | 8 => {
            // fails late: everything before has already been applied
            let n = r.s(&["NOPE", "NOPE*"]);
            h.insert(y::s(&n), y::h1("_delete", y::s("*")));
            why = "the patch does not apply"
        }
        9 => {
            h.insert(y::s("_modify"), y::h(vec![("description", y::s("x")), ("width", y::s("many"))]));
            why = "the patch does not apply"
        }
        10 => {
            let (p, w) = bad_config(r, dir);
            fmt = Some(p);
            why = w;
        }
        11 => {
            cfg.post_validate = ValidateLevel::Strict;
            h.insert(y::s("_modify"), y::h1(&crate::place::lit(&d.peripherals[0].name), y::h1("name", y::s("not a valid name"))));
            why = "the result is not valid"
        }
        _ => (),
    }
    if !no_svd {
        put(&dir.join("in.svd"), &svd);
    }
    if let Some(i) = &inc {
        put(&dir.join("inc.yaml"), i);
    }
    let pf = dir.join("patch.yaml");
    let text = raw.unwrap_or_else(|| y::dump(&patch).into_bytes());
    if !no_patch {
        put(&pf, &text);
    }
    // where the result goes
    std::fs::create_dir_all(dir.join("o")).unwrap();
    let (arg, out): (Option<PathBuf>, PathBuf) = match r.n(3) {
        0 if why != "no input file is named" && why != "there is no input file" && !no_patch => (None, dir.join("in.svd.patched")),
        1 => (Some(dir.join("o/out.svd")), dir.join("o/out.svd")),
        _ => (Some(dir.join("out.xml")), dir.join("out.xml")),
    };
    let before = match r.n(3) {
        0 => None,
        1 => Some(OLD.to_string()),
        _ => Some(OLD.repeat(2000)),
    };
    if let Some(b) = &before {
        put(&out, b.as_bytes());
    }
    let js = json!({"svd": String::from_utf8_lossy(&svd), "patch": String::from_utf8_lossy(&text), "stage": why, "output existed": before.is_some(), "config": fmt.as_ref().map(|p| p.display().to_string())});
    c.class(if why.is_empty() { "succeeds" } else { why });
    c.count(&js.to_string(), !why.is_empty() || before.is_some());
    c.sample(json!({"patch": js["patch"], "stage": why}));
    let got = catch_unwind(AssertUnwindSafe(|| svdtools::patch::process_file(&pf, arg.as_deref(), fmt.as_deref(), &cfg)));
    let expect = if why.is_empty() {
        let mut e = d.clone();
        e.description = "patched text".into();
        if inc.is_some() {
            e.vendor = Some("V".into());
        }
        let ec = config(fmt.is_some());
        Some(svd_encoder::encode_with_config(&e, &ec).unwrap())
    } else {
        None
    };
    judge(c, got, why, expect, before, &out, js)
}
fn config(on: bool) -> svd_encoder::Config {
    let mut ec = svd_encoder::Config::default();
    if on {
        for l in GOOD_CFG.lines() {
            let (k, v) = l.split_once(": ").unwrap();
            ec.update(k, v);
        }
    }
    ec
}
fn judge(c: &mut Ctx, got: std::thread::Result<anyhow::Result<()>>, why: &str, expect: Option<String>, before: Option<String>, out: &Path, js: serde_json::Value) {
    let after = std::fs::read(out).ok().map(|b| String::from_utf8_lossy(&b).to_string());
    let ok = matches!(got, Ok(Ok(())));
    let msg = match &got {
        Ok(Ok(())) => "success".to_string(),
        Ok(Err(e)) => format!("error {e:#}"),
        Err(_) => "panic".into(),
    };
    match expect {
        None => {
            if ok {
                return c.fail(&format!("the command must fail ({why}) but reports success"), js);
            }
            if after != before {
                let w = format!("the command failed ({why}: {msg}) but the output file was {}; it now holds {} bytes", if before.is_some() { "changed" } else { "created" }, after.map(|a| a.len()).unwrap_or(0));
                c.fail(&w, js)
            }
        }
        Some(e) => {
            if !ok {
                return c.fail(&format!("the command must succeed; {msg}"), js);
            }
            if after.as_deref() != Some(&e) {
                let w = format!("the output is not the complete encoded result, {}", diff(&e, after.as_deref().unwrap_or("(no file)")));
                c.fail(&w, js)
            }
        }
    }
}
fn convert_case(c: &mut Ctx, r: &mut Rng, dir: &Path) {
    use svdtools::convert::convert_cli::*;
    let mut d = norm(&gen::device(r, &Cfg { pers: (1, 2), kids: (0, 2), arrays: 0, clusters: 0, derived: 0, ..Cfg::default() })).unwrap();
    let mut why = "";
    let exts = ["svd", "yaml", "json"];
    let (mut i, mut o) = (r.n(3), r.n(3));
    let what = r.n(12);
    let text = |d: &Device, k: usize, fmt: bool| match k {
        0 => svd_encoder::encode_with_config(d, &config(fmt)).unwrap(),
        1 => serde_yaml::to_string(d).unwrap(),
        _ => serde_json::to_string_pretty(d).unwrap(),
    };
    // only devices that the strict reader accepts
    let Ok(dd) = svd_parser::parse(&enc(&d)) else { return };
    d = dd;
    let mut input = text(&d, i, false).into_bytes();
    let mut iname = format!("in.{}", exts[i]);
    let mut oname = format!("out.{}", exts[o]);
    let (mut fi, mut fo) = (None, None);
    let mut fmt = None;
    let mut none = false;
    if r.p(30) {
        put(&dir.join("good.yaml"), GOOD_CFG.as_bytes());
        fmt = Some(dir.join("good.yaml"));
    }
    if r.p(20) {
        fi = Some([InputFormat::Xml, InputFormat::Yaml, InputFormat::Json][i]);
        iname = "in.dat".into();
    }
    if r.p(20) {
        fo = Some([OutputFormat::Xml, OutputFormat::Yaml, OutputFormat::Json][o]);
        oname = "out.dat".into();
    }
    match what {
        0 => {
            none = true;
            why = "there is no input file"
        }
        1 => {
            fi = None;
            iname = r.s(&["in.txt", "in"]);
            why = "the input format is not known"
        }
        2 => {
            fo = None;
            oname = r.s(&["out.txt", "out"]);
            why = "the output format is not known"
        }
        3 => {
            let (p, w) = bad_config(r, dir);
            fmt = Some(p);
            why = w;
        }
        4 => {
            input = match r.n(3) {
                0 => input[..input.len() / 2].to_vec(),
                1 => b"".to_vec(),
                _ => {
                    let mut v = b"\xff\xff".to_vec();
                    v.extend(&input);
                    v
                }
            };
            if i == 1 && input.first() != Some(&0xff) {
                // half a YAML file may still be one
                input = b"a: [b".to_vec();
            }
            why = "the input cannot be parsed"
        }
        5 if i == o => {
            // in place
            oname = iname.clone();
            fo = Some([OutputFormat::Xml, OutputFormat::Yaml, OutputFormat::Json][o]);
        }
        6 => {
            i = 2;
            o = 0;
            fi = None;
            fo = None;
            iname = "in.json".into();
            oname = "out.svd".into();
            input = text(&d, 2, false).into_bytes();
            // a description that XML cannot hold or that is empty stays out of this check
        }
        _ => (),
    }
    if !none {
        put(&dir.join(&iname), &input);
    }
    let out = dir.join(&oname);
    let mut before = match r.n(3) {
        0 => None,
        1 => Some(OLD.to_string()),
        _ => Some(OLD.repeat(2000)),
    };
    if oname == iname {
        before = Some(String::from_utf8_lossy(&input).to_string());
    } else if let Some(b) = &before {
        put(&out, b.as_bytes());
    }
    let js = json!({"svd": String::from_utf8_lossy(&input), "patch": "", "command": format!("convert {iname} {oname}"), "stage": why, "output existed": before.is_some(), "config": fmt.as_ref().map(|p: &PathBuf| p.display().to_string())});
    c.class(&format!("convert {}", if why.is_empty() { "succeeds" } else { why }));
    c.count(&js.to_string(), !why.is_empty() || before.is_some());
    let pc = ParserConfig::default();
    let got = catch_unwind(AssertUnwindSafe(|| convert(&dir.join(&iname), &out, fi, fo, pc, fmt.as_deref())));
    let expect = if why.is_empty() { Some(text(&d, o, fmt.is_some())) } else { None };
    judge(c, got, why, expect, before, &out, js)
}
pub fn case(c: &mut Ctx) {
    let mut r = c.rng("");
    let dir = Dir(crate::c18::dir(c));
    let _ = std::fs::remove_dir_all(&dir.0);
    std::fs::create_dir_all(&dir.0).unwrap();
    if r.p(65) {
        patch_case(c, &mut r, &dir.0)
    } else {
        convert_case(c, &mut r, &dir.0)
    }
}
