#!/usr/bin/env python3
"""Development tool: writes contracts/p_bld.rs (the builders of svd-rs, as ghost records) from svd-rs' source.
The output is committed; the checks do not run this."""
import re, glob, os
S = glob.glob(os.path.expanduser("~/.cargo/registry/src/*/svd-rs-0.14.13/src"))[0]
T = [("field", "FieldInfo", "fld", "Field"), ("register", "RegisterInfo", "reg", "Reg"), ("cluster", "ClusterInfo", "cl", "Cl"),
     ("peripheral", "PeripheralInfo", "per", "Per"), ("interrupt", "Interrupt", "int", "Int"), ("dimelement", "DimElement", "dim", "Dim"),
     ("enumeratedvalues", "EnumeratedValues", "evs", "Evs"), ("enumeratedvalue", "EnumeratedValue", "ev", "Ev"), ("cpu", "Cpu", "cpu", "Cpu"), ("addressblock", "AddressBlock", "ab", "Ab")]
o = ["""// Generated by tools/gen_bld.py from svd-rs' source.  TRUSTED: what svd-rs' builders and
// `modify_from` do.  A builder is the record of what it was given.
use svd_rs::interrupt::InterruptBuilder;
use svd_rs::addressblock::AddressBlockBuilder;
verus! {
#[verifier::external_type_specification] pub struct ExLvl(ValidateLevel);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExSvdError(SvdError);
impl From<SvdError> for VErr { #[verifier::external_body] fn from(e: SvdError) -> VErr { VErr } }
// an empty text, or an empty list, counts as none
pub open spec fn etn(x: Option<String>) -> Option<String> { match x { Some(s) => if s@.len() == 0 { None } else { x }, None => None } }
pub open spec fn etnv<T>(x: Option<Vec<T>>) -> Option<Vec<T>> { match x { Some(s) => if s@.len() == 0 { None } else { x }, None => None } }
// RegisterProperties is its own builder
pub open spec fn rp_none(p: RegisterProperties) -> bool { p.size is None && p.access is None && p.protection is None && p.reset_value is None && p.reset_mask is None }
pub open spec fn or_old<T>(new: Option<T>, old: Option<T>) -> Option<T> { match new { Some(x) => new, None => old } }
pub open spec fn or_keep<T>(new: Option<T>, old: T) -> T { match new { Some(x) => x, None => old } }
pub open spec fn rp_mod(a: RegisterProperties, m: RegisterProperties, b: RegisterProperties) -> bool {
    b.size == or_old(m.size, a.size) && b.access == or_old(m.access, a.access) && b.protection == or_old(m.protection, a.protection)
    && b.reset_value == or_old(m.reset_value, a.reset_value) && b.reset_mask == or_old(m.reset_mask, a.reset_mask)
}
pub assume_specification [RegisterProperties::new]() -> (r: RegisterProperties) ensures rp_none(r);
pub assume_specification [<RegisterProperties as core::default::Default>::default]() -> (r: RegisterProperties) ensures rp_none(r);
pub assume_specification [BitRange::from_offset_width](offset: u32, width: u32) -> (r: BitRange) ensures r.offset == offset, r.width == width, r.range_type is OffsetWidth;
"""]
RP = ["size", "access", "protection", "reset_value", "reset_mask"]
RT = dict(size="u32", access="Access", protection="Protection", reset_value="u64", reset_mask="u64")
for k in RP:
    o.append(f"pub assume_specification [RegisterProperties::{k}](p: RegisterProperties, value: Option<{RT[k]}>) -> (r: RegisterProperties)\n    ensures r.{k} == value, " + ", ".join(f"r.{x} == p.{x}" for x in RP if x != k) + ";\n")
for f, ty, ab, gn in T:
    s = re.sub(r"///.*", "", open(f"{S}/{f}.rs").read())
    b = ty + "Builder"
    fs = re.findall(r"(\w+): ([^\n]*),\n", re.search(r"pub struct %s \{(.*?)\n\}" % b, s, re.S).group(1) + "\n")
    o.append(f"#[verifier::external_type_specification] #[verifier::external_body] pub struct Ex{b}({b});\n")
    o.append(f"pub struct {gn}B {{ " + ", ".join(f"pub {n}: {t}" for n, t in fs) + " }\n")
    o.append(f"pub uninterp spec fn {ab}_b(b: {b}) -> {gn}B;\n")
    none = " && ".join(f"rp_none(m.{n})" if t == "RegisterProperties" else f"m.{n} is None" for n, t in fs)
    o.append(f"pub open spec fn {ab}_b_none(m: {gn}B) -> bool {{ {none} }}\n")
    if re.search(r"pub fn builder\(\)", s):
        o.append(f"pub assume_specification [{ty}::builder]() -> (r: {b}) ensures {ab}_b_none({ab}_b(r));\n")
    o.append(f"pub assume_specification [<{b} as Clone>::clone](b: &{b}) -> (r: {b}) ensures {ab}_b(r) == {ab}_b(*b);\n")
    # setters
    imp = re.search(r"impl %s \{(.*?\n)\}" % b, s, re.S).group(1)
    for m in re.finditer(r"pub fn (\w+)\(mut self, value: ([^)]*(?:\([^)]*\))?[^)]*)\) -> Self \{(.*?)\n    \}", imp, re.S):
        n, t, body = m.groups()
        body = re.sub(r"\s+", " ", body).strip()
        h = f"pub assume_specification [{b}::{n}](b: {b}, value: {t}) -> (r: {b})\n    ensures "
        if body == f"self.{n} = value; self":
            o.append(h + f"{ab}_b(r) == ({gn}B {{ {n}: value, ..{ab}_b(b) }});\n")
        elif body == f"self.{n} = Some(value); self":
            o.append(h + f"{ab}_b(r) == ({gn}B {{ {n}: Some(value), ..{ab}_b(b) }});\n")
        elif body.startswith("self.properties."):
            assert body == f"self.properties.{n} = value; self", body
            o.append(h + f"{ab}_b(r) == ({gn}B {{ properties: {ab}_b(r).properties, ..{ab}_b(b) }}), {ab}_b(r).properties.{n} == value, " + ", ".join(f"{ab}_b(r).properties.{x} == {ab}_b(b).properties.{x}" for x in RP if x != n) + ";\n")
        elif n == "bit_range":
            o.append(h + f"{ab}_b(r) == ({gn}B {{ bit_range: Some(value), bit_offset: None, bit_width: None, ..{ab}_b(b) }});\n")
        elif n in ("bit_offset", "bit_width"):
            x, y = ("offset", "width") if n == "bit_offset" else ("width", "offset")
            o.append(h + f"""match {ab}_b(b).bit_range {{
        Some(br) => {ab}_b(r) == ({gn}B {{ bit_range: Some(BitRange {{ {x}: value, ..br }}), ..{ab}_b(b) }}),
        None => """ + (f"{ab}_b(b).bit_offset is None ==> {ab}_b(r) == ({gn}B {{ bit_offset: Some(value), ..{ab}_b(b) }})," if n == "bit_offset" else
                f"""match {ab}_b(b).bit_offset {{
            None => {ab}_b(r) == ({gn}B {{ bit_width: Some(value), ..{ab}_b(b) }}),
            Some(off) => {ab}_b(r) == ({gn}B {{ bit_range: {ab}_b(r).bit_range, bit_offset: None, ..{ab}_b(b) }}) && {ab}_b(r).bit_range is Some
                && {ab}_b(r).bit_range.unwrap().offset == off && {ab}_b(r).bit_range.unwrap().width == value && {ab}_b(r).bit_range.unwrap().range_type is OffsetWidth,
        }},""") + "\n    };\n")
        elif n == "is_default" or n == "value":
            print("special", f, n, body)
        else:
            print("UNKNOWN", f, n, body)
    # build
    bm = re.search(r"pub fn build\(self.*?\n    \}\n", imp, re.S).group(0)
    lit = re.search(r"= %s \{(.*?)\n        \};" % ty, bm, re.S).group(1)
    lit = re.sub(r"\s+", " ", lit)
    parts = re.findall(r"(\w+): (self.*?)(?:, (?=\w+: self)|,? ?$)", lit)
    cl, ok = [], []
    types = dict(fs)
    for n, e in parts:
        e = e.replace(" .", ".").rstrip(", ")
        if e == f"self.{n}":
            cl.append(f"b.{n} == m.{n}")
        elif e.startswith(f"self.{n}.ok_or_else"):
            cl.append(f"m.{n} == Some(b.{n})"); ok.append(f"m.{n} is Some")
        elif e == f"self.{n}.empty_to_none()":
            cl.append(f"b.{n} == {'etnv' if 'Vec<' in types[n] else 'etn'}(m.{n})")
        elif e == f"self.{n}.unwrap_or_default()":
            cl.append(f"match m.{n} {{ Some(x) => b.{n} == x, None => b.{n}@.len() == 0 }}")
        elif e.startswith(f"self.{n}.build(lvl)"):
            cl.append(f"b.{n} == m.{n}")
        elif e.startswith(f"self.{n}.unwrap_or"):
            print("build?", f, n, e)
        else:
            print("BUILD", f, n, e)
    o.append(f"pub open spec fn {ab}_built(m: {gn}B, b: {ty}) -> bool {{\n    " + "\n    && ".join(cl) + "\n}\n")
    extra = {"field": f"m.name is Some && m.bit_range is Some && m.bit_range.unwrap().width != 0 && (m.enumerated_values is None || m.enumerated_values.unwrap()@.len() == 0)",
             "interrupt": "m.name is Some && m.value is Some", "dimelement": "m.dim is Some && m.dim_increment is Some",
             "enumeratedvalues": "m.derived_from is Some || (m.values is Some && m.values.unwrap()@.len() > 0)"}.get(f)
    o.append(f"pub assume_specification [{b}::build](b: {b}, lvl: ValidateLevel) -> (r: core::result::Result<{ty}, SvdError>)\n    ensures r is Ok ==> {ab}_built({ab}_b(b), r.unwrap())"
             + (f", lvl is Weak ==> ({{ let m = {ab}_b(b); {extra} }} ==> r is Ok)" if extra else "") + ";\n")
    # modify_from
    mm = re.search(r"pub fn modify_from\(.*?\n    \}\n", s, re.S)
    if mm:
        body = re.sub(r"\s+", " ", mm.group(0))
        body = body[body.index("SvdError> {") + 11:]
        st = {}   # field -> expression of the new value, or marker

        def stmts(x, cond):
            x = x.strip()
            while x and not x.startswith("self.validate"):
                m = re.match(r"if let Some\((\w+)\) = builder\.(\w+) \{ self\.(\w+) = (\w+); \}", x)
                if m and m.group(2) == m.group(3):
                    n = m.group(3); st.setdefault(n, []).append((cond, f"b.{n} == or_keep(m.{n}, a.{n})")); x = x[m.end():].strip(); continue
                m = re.match(r"if let Some\((offset|width)\) = builder\.bit_\1 \{ self\.bit_range\.\1 = \1; \}", x)
                if m:
                    x = x[m.end():].strip(); continue
                m = re.match(r"if builder\.(\w+)\.is_some\(\) \{ self\.(\w+) = builder\.(\w+)(\.empty_to_none\(\))?; \}", x)
                if m:
                    n = m.group(1); assert n == m.group(2) == m.group(3)
                    e = "etnv" if "Vec<" in types[n] else "etn"
                    v = f"or_old(m.{n}, a.{n})" if not m.group(4) else f"if m.{n} is Some {{ {e}(m.{n}) }} else {{ a.{n} }}"
                    st.setdefault(n, []).append((cond, f"b.{n} == {'(' + v + ')' if 'if' in v else v}")); x = x[m.end():].strip(); continue
                m = re.match(r"self\.(\w+) ?\.modify_from\(builder\.(\w+), lvl\)\?;", x)
                if m:
                    n = m.group(1); st.setdefault(n, []).append((cond, f"rp_mod(a.{n}, m.{n}, b.{n})")); x = x[m.end():].strip(); continue
                m = re.match(r"if builder\.derived_from\.is_some\(\) \{(.*?)\} else \{(.*)\} self\.validate", x)
                if m:
                    stmts(m.group(1), "d"); stmts(m.group(2), "n"); return
                m = re.match(r"self\.(\w+) = ([^;]+);", x)
                if m:
                    n, e = m.groups()
                    v = {"None": f"b.{n} is None", "Vec::new()": f"b.{n}@.len() == 0", "RegisterProperties::default()": f"rp_none(b.{n})", f"builder.{n}": f"b.{n} == m.{n}"}[e]
                    st.setdefault(n, []).append((cond, v)); x = x[m.end():].strip(); continue
                print("MOD", f, x[:120]); return
        stmts(body, "")
        info = re.search(r"pub struct %s \{(.*?)\n\}" % ty, s, re.S).group(1)
        names = re.findall(r"pub (\w+): ", info)
        cl = []
        for n in names:
            c = dict(st.get(n, []))
            if n == "bit_range":
                cl.append("b.bit_range.offset == (if m.bit_offset is Some { m.bit_offset.unwrap() } else { or_keep(m.bit_range, a.bit_range).offset })")
                cl.append("b.bit_range.width == (if m.bit_width is Some { m.bit_width.unwrap() } else { or_keep(m.bit_range, a.bit_range).width })")
                cl.append("b.bit_range.range_type == or_keep(m.bit_range, a.bit_range).range_type")
            elif "" in c:
                cl.append(c[""])
            elif c:
                d = c.get("d", f"b.{n} == a.{n}"); nn = c.get("n", f"b.{n} == a.{n}")
                cl.append(f"(if m.derived_from is Some {{ {d} }} else {{ {nn} }})")
            else:
                cl.append(f"b.{n} == a.{n}")
        o.append(f"pub open spec fn {ab}_mod(a: {ty}, m: {gn}B, b: {ty}) -> bool {{\n    " + "\n    && ".join(cl) + "\n}\n")
        o.append(f"pub assume_specification [{ty}::modify_from](a: &mut {ty}, b: {b}, lvl: ValidateLevel) -> (r: core::result::Result<(), SvdError>)\n    ensures r is Ok ==> {ab}_mod(*old(a), {ab}_b(b), *final(a));\n")
for ty in ("Field", "Register", "Cluster", "Peripheral"):
    i = ty + "Info"
    o.append(f"pub assume_specification [{i}::single](x: {i}) -> (r: {ty}) ensures r == MaybeArray::Single(x);\n")
    o.append(f"pub assume_specification [{i}::array](x: {i}, d: DimElement) -> (r: {ty}) ensures r == MaybeArray::Array(x, d);\n")
    o.append(f"pub assume_specification [{i}::maybe_array](x: {i}, d: Option<DimElement>) -> (r: {ty}) ensures r == (match d {{ Some(d) => MaybeArray::Array(x, d), None => MaybeArray::Single(x) }});\n")
o.append("}\n")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "contracts", "p_bld.rs"), "w").write("".join(o))
