#!/usr/bin/env python3
"""writes contracts/u_proc*.vc: the four dispatchers (device, peripheral, cluster, register sections)
against the sequence of operations a section stands for"""
import os
C = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")

HEAD = '''// generated by tools/gen_proc.py
//@use p_base.rs p_svd.rs p_frames.rs p_std.rs
//@import p_block.rs p_spec.rs p_iter.rs p_kids.rs p_yaml.rs p_yamlm.rs p_hash.rs p_prog.rs
'''

def single(op):
    return op

class Fn:
    def __init__(self, ty, h, old="*old(self_)"):
        self.ty, self.h, self.secs, self.loops, self.glue = ty, h, [], [], []

ENT = "Seq<(Yaml, Yaml)>"

def loop(n, seq, eq, f, pre, extra="", tail=""):
    return f'''//@loop {n} it{n} hoistv
    invariant it{n}.seq() == g{n}_, {eq}(g{n}_, {seq}), run(*old(self_), {pre} + flat({seq}, {f}, it{n}.index()), *self_), {extra}
//@loop-start {n}
    broadcast use axiom_str_ext; proof {{ words(); }}
    let ghost e{n}_ = {seq}[it{n}.index() as int]; let ghost p{n}_ = *self_; let ghost a{n}_ = {pre} + flat({seq}, {f}, it{n}.index());
//@loop-end {n}
    proof {{ {tail}adv(*old(self_), {pre}, {seq}, {f}, it{n}.index() as int, p{n}_, *self_); }}
'''

def nil(n, seq, f, pre, more=""):
    # before the loop: nothing done yet
    return f'''//@before-loop {n}
    proof {{ {more}lemma_nil({pre}, {seq}, {f}); }}
'''

def stub(ty, name, params, op, extra=""):
    ps = ", ".join(f"{a}: {b}" for a, b in params)
    return f'''#[verifier::external_body] pub fn {ty}__{name}(self_: &mut {ty}{", " + ps if ps else ""}) -> (r: PatchResult)
    ensures r is Ok ==> step(*old(self_), {op}, *final(self_)), {extra} {{ unimplemented!() }}
'''

def F(name, a, body):
    return f"pub open spec fn {name}() -> spec_fn({a}) -> Seq<Op> {{ |e: {a}| {body} }}\n"
S, Y, E = "Seq<char>", "Yaml", "(Yaml, Yaml)"
one = lambda op: f"seq![Op::{op}]"
k, v, h = "kstr(e.0)", "e.1", "hv(e.1)"

# ---------------------------------------------------------------- shared for peripherals and clusters
WORDS = "_registers _clusters _interrupts _preindex _postindex _zeroindex _noprefix".split()
def lits_fn():
    o = "proof fn words() ensures " + ", ".join(f'"{a}"@ != "{b}"@' for i, a in enumerate(WORDS) for b in WORDS[:i]) + "\n{\n"
    for w in WORDS: o += f'    reveal_strlit("{w}");\n'
    for i, a in enumerate(WORDS):
        for b in WORDS[:i]:
            if len(a) == len(b):
                j = next(j for j in range(len(a)) if a[j] != b[j])
                o += f'    assert("{a}"@ != "{b}"@) by {{ assert("{a}"@[{j}] != "{b}"@[{j}]); }}\n'
            else: o += f'    assert("{a}"@ != "{b}"@) by {{ assert("{a}"@.len() != "{b}"@.len()); }}\n'
    return o + "}\n"
def common():
    o = lits_fn()
    o += F("f_delchild_y", Y, one("DelChild(kstr(e))"))
    for f, op in (("f_delchild", "DelChild"), ("f_delreg", "DelReg"), ("f_delclu", "DelClu"), ("f_delint", "DelInt"), ("f_strip", "Strip"), ("f_stripend", "StripEnd"), ("f_clear", "Clear")):
        o += F(f, S, one(op + "(e)"))
    for f, op in (("f_copyreg", "CopyReg"), ("f_modreg", "ModReg"), ("f_modint", "ModInt"), ("f_modclu", "ModClu"), ("f_addreg", "AddReg"), ("f_addclu", "AddClu"), ("f_addint", "AddInt"),
                  ("f_exparr", "ExpArr"), ("f_arr", "Arr"), ("f_col", "Col"), ("f_clu", "Clu")):
        o += F(f, E, one(f"{op}({k}, {h})"))
    o += F("f_copyclu", E, one(f"CopyClu({h})"))
    for f, op in (("f_derreg", "DerReg"), ("f_derclu", "DerClu")):
        o += F(f, E, one(f"{op}({k}, {v})"))
    sub = lambda fn: f"all(yh(Some({v})), {fn}())"
    o += F("f_copy", E, f'if {k} == "_registers"@ {{ {sub("f_copyreg")} }} else if {k} == "_clusters"@ {{ {sub("f_copyclu")} }} else {{ {one(f"CopyReg({k}, {h})")} }}')
    o += F("f_mod_p", E, f'if {k} == "_registers"@ {{ {sub("f_modreg")} }} else if {k} == "_interrupts"@ {{ {sub("f_modint")} }} else if {k} == "_clusters"@ {{ {sub("f_modclu")} }} else {{ {one(f"ModChild({k}, {h})")} }}')
    o += F("f_mod_c", E, f'if {k} == "_registers"@ {{ {sub("f_modreg")} }} else if {k} == "_clusters"@ {{ {sub("f_modclu")} }} else {{ {one(f"ModChild({k}, {h})")} }}')
    o += F("f_add_p", E, f'if {k} == "_registers"@ {{ {sub("f_addreg")} }} else if {k} == "_clusters"@ {{ {sub("f_addclu")} }} else if {k} == "_interrupts"@ {{ {sub("f_addint")} }} else {{ {one(f"AddReg({k}, {h})")} }}')
    o += F("f_add_c", E, f'if {k} == "_registers"@ {{ {sub("f_addreg")} }} else if {k} == "_clusters"@ {{ {sub("f_addclu")} }} else {{ {one(f"AddReg({k}, {h})")} }}')
    o += F("f_der", E, f'if {k} == "_registers"@ {{ {sub("f_derreg")} }} else if {k} == "_clusters"@ {{ {sub("f_derclu")} }} else {{ {one(f"DerReg({k}, {v})")} }}')
    o += '''// the first of the words of a dictionary: its last value
pub open spec fn last_of(s: Seq<(Yaml, Yaml)>, key: Seq<char>, n: int) -> Option<Yaml> decreases n {
    if n <= 0 { None } else if kstr(s[n - 1].0) == key { Some(s[n - 1].1) } else { last_of(s, key, n - 1) }
}
pub open spec fn os(y: Option<Yaml>) -> Option<Seq<char>> { match y { Some(y) => ystr(y), None => None } }
pub open spec fn ob(y: Option<Yaml>) -> Option<bool> { match y { Some(y) => ybool(y), None => None } }
pub open spec fn so(y: Option<&str>) -> Option<Seq<char>> { match y { Some(y) => Some(y@), None => None } }
pub open spec fn opt_of(y: Yaml, key: Seq<char>) -> Option<Yaml> { last_of(yh(Some(y)), key, yh(Some(y)).len() as int) }
'''
    exp = 'ExpClu(%s, os(opt_of(e.1, "_preindex"@)), os(opt_of(e.1, "_postindex"@)), ob(opt_of(e.1, "_zeroindex"@)), ob(opt_of(e.1, "_noprefix"@)))'
    o += F("f_expclu_y", Y, one("ExpClu(kstr(e), None, None, None, None)"))
    o += F("f_expclu", E, one(exp % k))
    o += '''pub open spec fn dels_p(y: Option<Yaml>) -> Seq<Op> {
    match y {
        None => Seq::empty(),
        Some(Yaml::String(s)) => seq![Op::DelChild(s@)],
        Some(Yaml::Array(a)) => all(a@, f_delchild_y()),
        Some(Yaml::Hash(h)) => all(svec(h, "_registers"@), f_delreg()) + all(svec(h, "_clusters"@), f_delclu()) + all(svec(h, "_interrupts"@), f_delint()),
        Some(_) => Seq::empty(),
    }
}
pub open spec fn dels_c(y: Option<Yaml>) -> Seq<Op> {
    match y {
        None => Seq::empty(),
        Some(Yaml::String(s)) => seq![Op::DelChild(s@)],
        Some(Yaml::Array(a)) => all(a@, f_delchild_y()),
        Some(Yaml::Hash(h)) => all(svec(h, "_registers"@), f_delreg()) + all(svec(h, "_clusters"@), f_delclu()),
        Some(_) => Seq::empty(),
    }
}
pub open spec fn exps(y: Option<Yaml>) -> Seq<Op> {
    match y {
        None => Seq::empty(),
        Some(Yaml::String(s)) => seq![Op::ExpClu(s@, None, None, None, None)],
        Some(Yaml::Array(a)) => all(a@, f_expclu_y()),
        Some(Yaml::Hash(h)) => all(hents(h), f_expclu()),
        Some(_) => Seq::empty(),
    }
}
pub open spec fn pre_op(y: Option<Yaml>) -> Seq<Op> { match y { None => Seq::empty(), Some(y) => seq![Op::Prefix(kstr(y))] } }
pub open spec fn suf_op(y: Option<Yaml>) -> Seq<Op> { match y { None => Seq::empty(), Some(y) => seq![Op::Suffix(kstr(y))] } }
'''
    return o

def block_stubs(T):
    st = lambda *a: stub(T, *a)
    bp = ("p_", "&BlockPath")
    cfg = ("c_", "&Config")
    s, hh = ("s_", "&str"), ("h_", "&Hash")
    o = ""
    fr = f"{T}_kids_frame(*final(self_), *old(self_))"
    for n, op in (("delete_child", "DelChild"), ("delete_register", "DelReg"), ("delete_cluster", "DelClu"), ("strip_start", "Strip"), ("strip_end", "StripEnd"), ("add_prefix", "Prefix"), ("add_suffix", "Suffix"), ("clear_fields", "Clear")):
        o += st(n, [s], f"Op::{op}(s_@)", fr)
    for n, op in (("copy_register", "CopyReg"), ("modify_register", "ModReg"), ("modify_cluster", "ModClu"), ("modify_child", "ModChild"), ("add_register", "AddReg"), ("add_cluster", "AddClu")):
        o += st(n, [s, hh, bp], f"Op::{op}(s_@, *h_)", fr)
    o += st("copy_cluster", [s, hh, bp], "Op::CopyClu(*h_)", fr)
    for n, op in (("derive_register", "DerReg"), ("derive_cluster", "DerClu")):
        o += st(n, [s, ("y_", "&Yaml"), bp], f"Op::{op}(s_@, *y_)", fr)
    for n, op in (("process_child", "Child"), ("process_cluster", "Clu"), ("collect_in_array", "Arr"), ("collect_in_cluster", "Col")):
        o += st(n, [s, hh, bp, cfg], f"Op::{op}(s_@, *h_)", fr)
    o += st("expand_array", [s, hh, cfg], "Op::ExpArr(s_@, *h_)", fr)
    o += st("expand_cluster", [s, bp, ("a_", "Option<&str>"), ("b_", "Option<&str>"), ("d_", "Option<bool>"), ("e_", "Option<bool>")], "Op::ExpClu(s_@, so(a_), so(b_), d_, e_)", fr)
    return o
METHS = "delete_child delete_register delete_cluster strip_start strip_end add_prefix add_suffix clear_fields copy_register modify_register modify_cluster modify_child add_register add_cluster copy_cluster derive_register derive_cluster process_child process_cluster collect_in_array collect_in_cluster expand_array expand_cluster delete_interrupt modify_interrupt add_interrupt"

class B:
    """sections in order, with the loops of the source numbered as they come"""
    def __init__(self, m, first=0, pre0=None):
        self.m, self.n, self.out, self.secs = m, first, "", []
        self.pre0 = pre0
    def pre(self):
        return f"prog_{self.tag}({len(self.secs)}, {self.m})"

def gen_block(tag, T, m, fn_specs):
    pass

def simple(n, m, key, f, pre, kind="ents", extra=""):
    OF[n] = f
    seq = f'{kind}({m}, "{key}"@)'
    more = GLUE.get(n, "")
    eq = "eqe" if kind == "ents" else "eqs"
    return nil(n, seq, f, pre, more) + loop(n, seq, eq, f, pre, extra)

def inner(n, outer, var, f, extra="", hashvar=False):
    """loop over the dictionary stored under an entry of the enclosing loop"""
    seq = f"hents(hh{n}_)" if hashvar else f"yh(Some(hh{n}_))"
    return nil(n, seq, f, f"a{outer}_").replace("    proof", f"    let ghost hh{n}_ = *{var}; proof") + loop(n, seq, "eqe", f, f"a{outer}_", extra) + f"//@after-loop {n}\n    proof {{ assert({OF[outer]}(e{outer}_) == all({seq}, {f})); assert(run(*old(self_), a{outer}_ + {OF[outer]}(e{outer}_), *self_)); }}\n"
OF = {}
GLUE = {16: 'if yget(*pmod, "_suffix"@) is None { assert(p6(*pmod) =~= p5(*pmod)); } assert(run(*old(self_), p6(*pmod), *self_)); ',
        11: 'if dels_p(yget(*pmod, "_delete"@)).len() == 0 { assert(p1(*pmod) =~= p0(*pmod)); } '}

def peripheral():
    m = "*pmod"
    T = "Peripheral"
    o = HEAD + "//@methods Peripheral: " + METHS + "\nverus! {\n#[verifier::external_body] pub struct Config {}\n" + common() + block_stubs(T)
    fr = "per_only_interrupt(ma(*final(self_)), ma(*old(self_))), ma_shape(*final(self_), *old(self_))"
    o += stub(T, "delete_interrupt", [("s_", "&str")], "Op::DelInt(s_@)", fr)
    o += stub(T, "modify_interrupt", [("s_", "&str"), ("h_", "&Hash")], "Op::ModInt(s_@, *h_)", fr)
    o += stub(T, "add_interrupt", [("s_", "&str"), ("h_", "&Hash")], "Op::AddInt(s_@, *h_)", fr)
    o += '''#[verifier::external_body] pub fn block_path(p: &Peripheral) -> BlockPath { unimplemented!() }
KWP// `get_hash(k).ok().flatten()`
pub fn hash_if<'a>(h: &'a Hash, k: &str) -> (r: Option<&'a Hash>) ensures match r { Some(x) => yget(*h, k@) is Some && yhash(yget(*h, k@).unwrap()) == Some(*x), None => yget(*h, k@) is None || yhash(yget(*h, k@).unwrap()) is None } { match h.get_hash(k) { Ok(x) => x, Err(_) => None } }
pub fn hash_list<'a>(h: &'a Hash, k: &str) -> (r: Vec<(&'a Yaml, &'a Yaml)>) ensures eqe(r@, ents(*h, k@)) { match hash_if(h, k) { Some(x) => x.it_v(), None => Vec::new() } }
'''
    o = o.replace("KWP", kw("kw_p", "peripheral.rs", "PeripheralExt", KW_PER))
    o += F("f_child", E, f"if kw_p({k}) {{ Seq::empty() }} else {{ {one(f'Child({k}, {h})')} }}")
    o += F("f_modi", E, f'if ystr(e.0) == Some("_interrupts"@) {{ all(yh(Some({v})), f_modint()) }} else {{ Seq::empty() }}')
    o += F("f_addi", E, f'if ystr(e.0) == Some("_interrupts"@) {{ all(yh(Some({v})), f_addint()) }} else {{ Seq::empty() }}')
    secs = ['dels_p(yget(h, "_delete"@))', 'all(ents(h, "_copy"@), f_copy())', 'all(svec(h, "_strip"@), f_strip())', 'all(svec(h, "_strip_end"@), f_stripend())',
            'pre_op(yget(h, "_prefix"@))', 'suf_op(yget(h, "_suffix"@))', 'all(ents(h, "_modify"@), f_mod_p())', 'all(svec(h, "_clear_fields"@), f_clear())',
            'all(ents(h, "_add"@), f_add_p())', 'all(ents(h, "_derive"@), f_der())', 'all(hents(h), f_child())', 'all(ents(h, "_expand_array"@), f_exparr())',
            'all(ents(h, "_array"@), f_arr())', 'all(ents(h, "_cluster"@), f_col())', 'all(ents(h, "_clusters"@), f_clu())', 'exps(yget(h, "_expand_cluster"@))']
    dsecs = ['(match yget(h, "_delete"@) { Some(Yaml::Hash(d)) => all(svec(d, "_interrupts"@), f_delint()), _ => Seq::empty() })', 'all(ents(h, "_modify"@), f_modi())', 'all(ents(h, "_add"@), f_addi())']
    o += progs("p", secs) + progs("d", dsecs)
    o += '''proof fn assoc3(p: Seq<Op>, a: Seq<Op>, b: Seq<Op>, c: Seq<Op>) ensures p + a + b + c == p + (a + b + c) { assert(p + a + b + c =~= p + (a + b + c)); }
// what a section of a peripheral does, in this order
pub open spec fn prog(derived: bool, h: Hash) -> Seq<Op> { if derived { d3(h) } else { p16(h) } }
//@fn src/patch/peripheral.rs | PeripheralExt for Peripheral | process
//@self Peripheral
//@sub pmod.get_hash("_delete").ok().flatten() =>> hash_if(pmod, "_delete")
//@sub pmod.get_hash("_modify").ok().flatten().unwrap_or(&Hash::new()) =>> hash_list(pmod, "_modify")
//@sub pmod.get_hash("_add").ok().flatten().unwrap_or(&Hash::new()) =>> hash_list(pmod, "_add")
//@sub BlockPath::new(&self.name) =>> block_path(self_)
//@sub Self::KEYWORDS.contains(&rcspec) =>> kw_p_has(rcspec)
//@sub cspec.hash().ok() =>> as_hash_of(cspec)
//@spec
    ensures r is Ok ==> run(*old(self_), prog(ma(*old(self_)).derived_from is Some, *pmod), *final(self_)),
        // nothing but the interrupts of a derived peripheral is touched, failing or not
        ma(*old(self_)).derived_from is Some ==> per_only_interrupt(ma(*final(self_)), ma(*old(self_))) && ma_shape(*final(self_), *old(self_)),
        // and nothing but registers and interrupts of any other
        $but(per, ma(*final(self_)), ma(*old(self_)), interrupt registers), ma_shape(*final(self_), *old(self_)),
//@start
    broadcast use axiom_str_ext;
    proof { axiom_string_eq(); words(); }
//@after "self.delete_child(rcspec)"
    proof { lemma_snoc1(*old(self_), p0(*pmod), *old(self_), Op::DelChild(rcspec@), *self_); }
//@after-loop 9
    proof { assoc3(p0(*pmod), all(svec(*deletions, "_registers"@), f_delreg()), all(svec(*deletions, "_clusters"@), f_delclu()), all(svec(*deletions, "_interrupts"@), f_delint())); }
//@before "if let Some(expand_cluster)"
    let ghost q15_ = *self_;
//@after "self.expand_cluster(cspec, &ppath, None, None, None, None)"
    proof { lemma_snoc1(*old(self_), p15(*pmod), q15_, Op::ExpClu(cspec@, None, None, None, None), *self_); }
//@tail
    proof { if yget(*pmod, "_expand_cluster"@) is None { assert(p16(*pmod) =~= p15(*pmod)); } assert(run(*old(self_), p16(*pmod), *self_)); }
//@before "if let Some(prefix)"
    let ghost q4_ = *self_;
//@after "self.add_prefix(prefix)"
    proof { lemma_snoc1(*old(self_), p4(*pmod), q4_, Op::Prefix(prefix@), *self_); }
//@before "if let Some(suffix)"
    proof { if yget(*pmod, "_prefix"@) is None { assert(p5(*pmod) =~= p4(*pmod)); } assert(run(*old(self_), p5(*pmod), *self_)); }
    let ghost q5_ = *self_;
//@after "self.add_suffix(suffix)"
    proof { lemma_snoc1(*old(self_), p5(*pmod), q5_, Op::Suffix(suffix@), *self_); }
'''
    der = "per_only_interrupt(ma(*self_), ma(*old(self_))), ma_shape(*self_, *old(self_)), ma(*old(self_)).derived_from is Some,"
    bas = "ma(*old(self_)).derived_from is None, $but(per, ma(*self_), ma(*old(self_)), interrupt registers), ma_shape(*self_, *old(self_)),"
    L = lambda n, key, f, pre, kind="ents", x=der: simple(n, m, key, f, pre, kind, x)
    seq1 = 'svec(*deletions, "_interrupts"@)'
    o += nil(1, seq1, "f_delint()", "d0(*pmod)") + loop(1, seq1, "eqs", "f_delint()", "d0(*pmod)", der)
    o += L(2, "_modify", "f_modi()", "d1(*pmod)") + inner(3, 2, "rmod", "f_modint()", der)
    o += L(4, "_add", "f_addi()", "d2(*pmod)") + inner(5, 4, "radd", "f_addint()", der)
    o += nil(6, "deletions@", "f_delchild_y()", "p0(*pmod)") + loop(6, "deletions@", "eqy", "f_delchild_y()", "p0(*pmod)", bas)
    a = 'all(svec(*deletions, "_registers"@), f_delreg())'; b = 'all(svec(*deletions, "_clusters"@), f_delclu())'
    for n, key, f, pre in ((7, "_registers", "f_delreg()", "p0(*pmod)"), (8, "_clusters", "f_delclu()", f"(p0(*pmod) + {a})"), (9, "_interrupts", "f_delint()", f"(p0(*pmod) + {a} + {b})")):
        seq = f'svec(*deletions, "{key}"@)'
        o += nil(n, seq, f, pre) + loop(n, seq, "eqs", f, pre, bas)
    o += f'''//@loop 10 it10 hoistv
    invariant run(*old(self_), p0(*pmod) + {a} + {b} + all(svec(*deletions, "_interrupts"@), f_delint()), *self_), {bas}
'''
    o += simple(11, m, "_copy", "f_copy()", "p1(*pmod)", "ents", bas) + inner(12, 11, "rcopy", "f_copyreg()", bas) + inner(13, 11, "rcopy", "f_copyclu()", bas)
    o += simple(14, m, "_strip", "f_strip()", "p2(*pmod)", "svec", bas) + simple(15, m, "_strip_end", "f_stripend()", "p3(*pmod)", "svec", bas)
    o += simple(16, m, "_modify", "f_mod_p()", "p6(*pmod)", "ents", bas) + inner(17, 16, "rmod", "f_modreg()", bas, True) + inner(18, 16, "rmod", "f_modint()", bas, True) + inner(19, 16, "rmod", "f_modclu()", bas, True)
    o += simple(20, m, "_clear_fields", "f_clear()", "p7(*pmod)", "svec", bas)
    o += simple(21, m, "_add", "f_add_p()", "p8(*pmod)", "ents", bas) + inner(22, 21, "radd", "f_addreg()", bas, True) + inner(23, 21, "radd", "f_addclu()", bas, True) + inner(24, 21, "radd", "f_addint()", bas, True)
    o += simple(25, m, "_derive", "f_der()", "p9(*pmod)", "ents", bas) + inner(26, 25, "rderive", "f_derreg()", bas) + inner(27, 25, "rderive", "f_derclu()", bas)
    o += nil(28, "hents(*pmod)", "f_child()", "p10(*pmod)") + loop(28, "hents(*pmod)", "eqe", "f_child()", "p10(*pmod)", bas)
    for i, (key, f) in enumerate((("_expand_array", "f_exparr()"), ("_array", "f_arr()"), ("_cluster", "f_col()"), ("_clusters", "f_clu()"))):
        o += simple(29 + i, m, key, f, f"p{11 + i}(*pmod)", "ents", bas)
    o += nil(33, "cspec@", "f_expclu_y()", "p15(*pmod)") + loop(33, "cspec@", "eqy", "f_expclu_y()", "p15(*pmod)", bas)
    o += "//@before-loop 34\n    let ghost hh34_ = *cspec; proof { lemma_nil(p15(*pmod), hents(hh34_), f_expclu()); }\n" + loop(34, "hents(hh34_)", "eqe", "f_expclu()", "p15(*pmod)", bas)
    ls = "hents(*cspec)"
    def lo(var, key, w): return f'{"so(" + var + ")" if w == "os" else var} == {w}(last_of({ls}, "{key}"@, it35.index()))'
    o += f'''//@loop 35 it35 hoistv
    invariant it35.seq() == g35_, eqe(g35_, {ls}), {lo("preindex", "_preindex", "os")}, {lo("postindex", "_postindex", "os")}, {lo("zeroindex", "_zeroindex", "ob")}, {lo("noprefix", "_noprefix", "ob")}, *self_ == p34_, run(*old(self_), a34_, *self_), {bas}
//@loop-start 35
    broadcast use axiom_str_ext; proof {{ words(); }}
//@end
}}
fn main(){{}}
'''
    o = o.replace("//@fn src/patch/peripheral.rs | PeripheralExt", '''pub fn as_hash_of(y: &Yaml) -> (r: Option<&Hash>) ensures match r { Some(x) => yhash(*y) == Some(*x), None => yhash(*y) is None } { match y.hash() { Ok(x) => Some(x), Err(_) => None } }
//@fn src/patch/peripheral.rs | PeripheralExt''')
    return o


CLU = """#[verifier::external_body] pub fn block_path(p: &Cluster, parent: &BlockPath) -> BlockPath { unimplemented!() }
KWC"""

def cluster():
    m = "*cmod"
    T = "Cluster"
    o = HEAD + "//@methods Cluster: " + METHS + " pre_process post_process\nverus! {\n#[verifier::external_body] pub struct Config {}\n" + common() + block_stubs(T) + CLU
    o = o.replace("KWC", kw("kw_c", "peripheral.rs", "ClusterExt", KW_CLU))
    o += F("f_child", E, f"if kw_c({k}) {{ Seq::empty() }} else {{ {one(f'Child({k}, {h})')} }}")
    pre = ['dels_c(yget(h, "_delete"@))', 'all(ents(h, "_copy"@), f_copy())', 'all(svec(h, "_strip"@), f_strip())', 'all(svec(h, "_strip_end"@), f_stripend())',
            'pre_op(yget(h, "_prefix"@))', 'suf_op(yget(h, "_suffix"@))', 'all(ents(h, "_modify"@), f_mod_c())', 'all(svec(h, "_clear_fields"@), f_clear())',
            'all(ents(h, "_add"@), f_add_c())', 'all(ents(h, "_derive"@), f_der())']
    mid = ['all(ents(h, "_clusters"@), f_clu())', 'all(hents(h), f_child())']
    post = ['all(ents(h, "_expand_array"@), f_exparr())', 'all(ents(h, "_array"@), f_arr())', 'all(ents(h, "_cluster"@), f_col())']
    o += progs("p", pre) + progs("m", mid) + progs("q", post)
    bas = "Cluster_kids_frame(*self_, *old(self_)),"
    o += ASSOC + """// what a section of a cluster does, in this order
pub open spec fn prog(h: Hash) -> Seq<Op> { p10(h) + m2(h) + q3(h) }
//@fn src/patch/peripheral.rs | ClusterExt for Cluster | pre_process
//@self Cluster
//@sub parent.new_cluster(&self.name) =>> block_path(self_, parent)
//@spec
    ensures r is Ok ==> run(*old(self_), p10(*cmod), *final(self_)), Cluster_kids_frame(*final(self_), *old(self_)),
//@start
    broadcast use axiom_str_ext;
    proof { axiom_string_eq(); words(); }
//@after "self.delete_child(rcspec)"
    proof { lemma_snoc1(*old(self_), p0(*cmod), *old(self_), Op::DelChild(rcspec@), *self_); }
//@after-loop 3
    proof { assoc2(p0(*cmod), all(svec(*deletions, "_registers"@), f_delreg()), all(svec(*deletions, "_clusters"@), f_delclu())); }
//@before "if let Some(prefix)"
    let ghost q4_ = *self_;
//@after "self.add_prefix(prefix)"
    proof { lemma_snoc1(*old(self_), p4(*cmod), q4_, Op::Prefix(prefix@), *self_); }
//@before "if let Some(suffix)"
    proof { if yget(*cmod, "_prefix"@) is None { assert(p5(*cmod) =~= p4(*cmod)); } assert(run(*old(self_), p5(*cmod), *self_)); }
    let ghost q5_ = *self_;
//@after "self.add_suffix(suffix)"
    proof { lemma_snoc1(*old(self_), p5(*cmod), q5_, Op::Suffix(suffix@), *self_); }
"""
    GLUE.clear()
    GLUE.update({10: 'if yget(*cmod, "_suffix"@) is None { assert(p6(*cmod) =~= p5(*cmod)); } assert(run(*old(self_), p6(*cmod), *self_)); ',
                 5: 'if dels_c(yget(*cmod, "_delete"@)).len() == 0 { assert(p1(*cmod) =~= p0(*cmod)); } '})
    o += nil(1, "deletions@", "f_delchild_y()", "p0(*cmod)") + loop(1, "deletions@", "eqy", "f_delchild_y()", "p0(*cmod)", bas)
    a = 'all(svec(*deletions, "_registers"@), f_delreg())'; b = 'all(svec(*deletions, "_clusters"@), f_delclu())'
    for n, key, f, pre in ((2, "_registers", "f_delreg()", "p0(*cmod)"), (3, "_clusters", "f_delclu()", f"(p0(*cmod) + {a})")):
        seq = f'svec(*deletions, "{key}"@)'
        o += nil(n, seq, f, pre) + loop(n, seq, "eqs", f, pre, bas)
    o += f"""//@loop 4 it4 hoistv
    invariant run(*old(self_), p0(*cmod) + ({a} + {b}), *self_), {bas}
"""
    o += simple(5, m, "_copy", "f_copy()", "p1(*cmod)", "ents", bas) + inner(6, 5, "rcopy", "f_copyreg()", bas) + inner(7, 5, "rcopy", "f_copyclu()", bas)
    o += simple(8, m, "_strip", "f_strip()", "p2(*cmod)", "svec", bas) + simple(9, m, "_strip_end", "f_stripend()", "p3(*cmod)", "svec", bas)
    o += simple(10, m, "_modify", "f_mod_c()", "p6(*cmod)", "ents", bas) + inner(11, 10, "rmod", "f_modreg()", bas, True) + inner(12, 10, "rmod", "f_modclu()", bas, True)
    o += simple(13, m, "_clear_fields", "f_clear()", "p7(*cmod)", "svec", bas)
    o += simple(14, m, "_add", "f_add_c()", "p8(*cmod)", "ents", bas) + inner(15, 14, "radd", "f_addreg()", bas, True) + inner(16, 14, "radd", "f_addclu()", bas, True)
    o += simple(17, m, "_derive", "f_der()", "p9(*cmod)", "ents", bas) + inner(18, 17, "rderive", "f_derreg()", bas) + inner(19, 17, "rderive", "f_derclu()", bas)
    o += """//@end
//@fn src/patch/peripheral.rs | ClusterExt for Cluster | post_process
//@self Cluster
//@sub parent.new_cluster(&self.name) =>> block_path(self_, parent)
//@spec
    ensures r is Ok ==> run(*old(self_), q3(*cmod), *final(self_)), Cluster_kids_frame(*final(self_), *old(self_)),
"""
    for i, (key, f) in enumerate((("_expand_array", "f_exparr()"), ("_array", "f_arr()"), ("_cluster", "f_col()"))):
        o += simple(1 + i, m, key, f, f"q{i}(*cmod)", "ents", bas)
    mb = "run(*old(self_), p10(*cmod), s0_), "
    o += """//@end
//@fn src/patch/peripheral.rs | ClusterExt for Cluster | process
//@self Cluster
//@sub parent.new_cluster(&self.name) =>> block_path(self_, parent)
//@sub Self::KEYWORDS.contains(&rcspec) =>> kw_c_has(rcspec)
//@spec
    ensures r is Ok ==> run(*old(self_), prog(*cmod), *final(self_)), Cluster_kids_frame(*final(self_), *old(self_)),
//@before "self.post_process("
    proof { lemma_cat_l(*old(self_), p10(*cmod), m2(*cmod), s0_, *self_); lemma_after(*old(self_), p10(*cmod) + m2(*cmod), *self_, q3(*cmod)); }
//@before-loop 1
    let ghost s0_ = *self_; 
"""
    o += simple(1, m, "_clusters", "f_clu()", "m0(*cmod)", "ents", bas + mb).replace("*old(self_), m0", "s0_, m0").replace("adv(*old(self_)", "adv(s0_")
    o += (nil(2, "hents(*cmod)", "f_child()", "m1(*cmod)") + loop(2, "hents(*cmod)", "eqe", "f_child()", "m1(*cmod)", bas + mb)).replace("*old(self_), m1", "s0_, m1").replace("adv(*old(self_)", "adv(s0_")
    o += """//@end
}
fn main(){}
"""
    return o

ASSOC = """proof fn assoc2(p: Seq<Op>, a: Seq<Op>, b: Seq<Op>) ensures p + a + b == p + (a + b) { assert(p + a + b =~= p + (a + b)); }
proof fn assoc3(p: Seq<Op>, a: Seq<Op>, b: Seq<Op>, c: Seq<Op>) ensures p + a + b + c == p + (a + b + c) { assert(p + a + b + c =~= p + (a + b + c)); }
proof fn lemma_cat_l<S>(a: S, x: Seq<Op>, y: Seq<Op>, m: S, b: S) requires run(a, x, m), run(m, y, b) ensures run(a, x + y, b) decreases y.len()
{
    if y.len() == 0 { assert(x + y =~= x); }
    else {
        let n = choose|n: S| run(m, y.drop_last(), n) && step(n, y.last(), b);
        lemma_cat_l(a, x, y.drop_last(), m, n);
        lemma_snoc(a, x + y.drop_last(), n, y.last(), b);
        assert((x + y.drop_last()).push(y.last()) =~= x + y);
    }
}
proof fn lemma_after<S>(a: S, x: Seq<Op>, m: S, y: Seq<Op>) requires run(a, x, m) ensures forall|b: S| #[trigger] run(m, y, b) ==> run(a, x + y, b)
{ assert forall|b: S| #[trigger] run(m, y, b) implies run(a, x + y, b) by { lemma_cat_l(a, x, y, m, b); } }
"""

KW_REG = "_include _path _delete _derive _strip _strip_end _prefix _suffix _clear _modify _add _merge _split _array".split()
KW_CLU = "_include _path _delete _copy _strip _strip_end _prefix _suffix _modify _clear_fields _add _derive _expand_array _expand_cluster _array _cluster _clusters".split()
KW_PER = KW_CLU + ["_interrupts"]
KW_DEV = "_svd _include _path _delete _copy _modify _clear_fields _add _derive _rebase".split()
def kw(name, file, tr, ws):
    return f"""// the words of a section that are not names
pub open spec fn {name}_spec(s: Seq<char>) -> bool {{ {" || ".join(f's == "{w}"@' for w in ws)} }}
//@words {name} | src/patch/{file} | {tr} | KEYWORDS
"""

def register():
    m, T = "*rmod", "Register"
    ms = "delete_field strip_start strip_end add_prefix add_suffix clear_field modify_field add_field derive_field merge_fields split_fields process_field collect_fields_in_array"
    o = HEAD + "//@methods Register: " + ms + "\nverus! {\n// the one option the register section looks at\npub struct Config { pub update_fields: bool }\n"
    st = lambda *a: stub(T, *a)
    fr = "Register_fields_frame(*final(self_), *old(self_))"
    o += "pub open spec fn Register_fields_frame(a: Register, b: Register) -> bool { $but(reg, ma(a), ma(b), fields) && ma_shape(a, b) }\n"
    rp, cfg, s, hh, y = ("p_", "&RegisterPath"), ("c_", "&Config"), ("s_", "&str"), ("h_", "&Hash"), ("y_", "&Yaml")
    for n, op in (("delete_field", "DelFld"), ("strip_start", "Strip"), ("strip_end", "StripEnd"), ("add_prefix", "Prefix"), ("add_suffix", "Suffix"), ("clear_field", "Clear")):
        o += st(n, [s], f"Op::{op}(s_@)", fr)
    for n, op in (("modify_field", "ModFld"), ("add_field", "AddFld"), ("collect_fields_in_array", "Arr")):
        o += st(n, [s, hh, rp], f"Op::{op}(s_@, *h_)", fr)
    o += st("derive_field", [s, y, rp], "Op::DerFld(s_@, *y_)", fr)
    o += st("merge_fields", [s, ("y_", "Option<&Yaml>"), rp], "Op::Merge(s_@, match y_ { Some(y) => Some(*y), None => None })", fr)
    o += st("split_fields", [s, hh, rp], "(if hents(*h_).len() == 0 { Op::SplitNone(s_@) } else { Op::Split(s_@, *h_) })", fr)
    o += st("process_field", [s, y, rp, cfg], "Op::Fld(s_@, *y_)", fr)
    o += """#[verifier::external_body] pub fn reg_path(p: &Register, b: &BlockPath) -> RegisterPath { unimplemented!() }
// TRUSTED: a new dictionary has no entries
#[verifier::external_body] pub fn empty_hash() -> (r: Hash) ensures hents(r).len() == 0 { Hash::new() }
"""
    o += kw("kw_r", "register.rs", "RegisterExt", KW_REG)
    for f, op in (("f_del", "DelFld"), ("f_strip", "Strip"), ("f_stripend", "StripEnd"), ("f_clear", "Clear")):
        o += F(f, S, one(op + "(e)"))
    for f, op in (("f_mod", "ModFld"), ("f_add", "AddFld"), ("f_arr", "Arr")):
        o += F(f, E, one(f"{op}({k}, {h})"))
    o += F("f_der", E, one(f"DerFld({k}, {v})"))
    o += F("f_merge", E, one(f"Merge({k}, Some({v}))")) + F("f_merge_y", Y, one("Merge(kstr(e), None)"))
    o += F("f_split", E, f"if hents({h}).len() == 0 {{ {one(f'SplitNone({k})')} }} else {{ {one(f'Split({k}, {h})')} }}") + F("f_split_y", Y, one("SplitNone(kstr(e))"))
    o += F("f_fld", E, f"if kw_r({k}) {{ Seq::empty() }} else {{ {one(f'Fld({k}, {v})')} }}")
    for f, op in (("merges", "Merge(s@, None)"), ("splits_", "SplitNone(s@)")):
        b = "merge" if f == "merges" else "split"
        o += f"""pub open spec fn {f}(y: Option<Yaml>) -> Seq<Op> {{
    match y {{ Some(Yaml::Hash(h)) => all(hents(h), f_{b}()), Some(Yaml::Array(a)) => all(a@, f_{b}_y()), Some(Yaml::String(s)) => seq![Op::{op}], _ => Seq::empty() }}
}}
"""
    o += """pub open spec fn pre_op(y: Option<Yaml>) -> Seq<Op> { match y { None => Seq::empty(), Some(y) => seq![Op::Prefix(kstr(y))] } }
pub open spec fn suf_op(y: Option<Yaml>) -> Seq<Op> { match y { None => Seq::empty(), Some(y) => seq![Op::Suffix(kstr(y))] } }
"""
    secs = ['all(svec(h, "_delete"@), f_del())', 'all(svec(h, "_strip"@), f_strip())', 'all(svec(h, "_strip_end"@), f_stripend())', 'pre_op(yget(h, "_prefix"@))', 'suf_op(yget(h, "_suffix"@))',
            'all(svec(h, "_clear"@), f_clear())', 'all(ents(h, "_modify"@), f_mod())', 'all(ents(h, "_add"@), f_add())', 'all(ents(h, "_derive"@), f_der())',
            'merges(yget(h, "_merge"@))', 'splits_(yget(h, "_split"@))', '(if u { all(hents(h), f_fld()) } else { Seq::empty() })', 'all(ents(h, "_array"@), f_arr())']
    o += progs("p", secs).replace("(h: Hash)", "(u: bool, h: Hash)").replace("(h) +", "(u, h) +")
    p = lambda i: f"p{i}(config.update_fields, *rmod)"
    old = "*old(self_)"
    o += f"""//@fn src/patch/register.rs | RegisterExt for Register | process
//@self Register
//@sub bpath.new_register(&self.name) =>> reg_path(self_, bpath)
//@sub &Hash::new() =>> &empty_hash()
//@sub Self::KEYWORDS.contains(&fspec) =>> kw_r_has(fspec)
//@spec
    ensures ma(*old(self_)).derived_from is Some ==> r is Ok && *final(self_) == *old(self_),
        ma(*old(self_)).derived_from is None && r is Ok ==> run(*old(self_), p13(config.update_fields, *rmod), *final(self_)),
        Register_fields_frame(*final(self_), *old(self_)),
//@start
    broadcast use axiom_str_ext;
//@before "if let Some(prefix)"
    let ghost q3_ = *self_;
//@after "self.add_prefix(prefix)"
    proof {{ lemma_snoc1({old}, {p(3)}, q3_, Op::Prefix(prefix@), *self_); }}
//@before "if let Some(suffix)"
    proof {{ if yget(*rmod, "_prefix"@) is None {{ assert({p(4)} =~= {p(3)}); }} assert(run({old}, {p(4)}, *self_)); }}
    let ghost q4_ = *self_;
//@after "self.add_suffix(suffix)"
    proof {{ lemma_snoc1({old}, {p(4)}, q4_, Op::Suffix(suffix@), *self_); }}
//@before "match rmod.get_yaml("_merge")"
    let ghost q9_ = *self_;
//@before "match rmod.get_yaml("_split")"
    proof {{
        let y = yget(*rmod, "_merge"@);
        if y is Some && y.unwrap() is String {{ lemma_snoc1({old}, {p(9)}, q9_, merges(y)[0], *self_); }}
        else if merges(y).len() == 0 {{ assert({p(10)} =~= {p(9)}); }}
        assert(run({old}, {p(10)}, *self_));
    }}
    let ghost q10_ = *self_;
//@before "if config.update_fields"
    proof {{
        let y = yget(*rmod, "_split"@);
        if y is Some && y.unwrap() is String {{ lemma_snoc1({old}, {p(10)}, q10_, splits_(y)[0], *self_); }}
        else if splits_(y).len() == 0 {{ assert({p(11)} =~= {p(10)}); }}
        assert(run({old}, {p(11)}, *self_));
    }}
"""
    bas = "Register_fields_frame(*self_, *old(self_)), ma(*old(self_)).derived_from is None,"
    GLUE.clear()
    GLUE.update({4: f'if yget(*rmod, "_suffix"@) is None {{ assert({p(5)} =~= {p(4)}); }} assert(run({old}, {p(5)}, *self_)); ',
                 13: f'if !config.update_fields {{ assert({p(12)} =~= {p(11)}); }} assert(run({old}, {p(12)}, *self_)); '})
    for n, (key, f, i, kind) in enumerate((("_delete", "f_del()", 0, "svec"), ("_strip", "f_strip()", 1, "svec"), ("_strip_end", "f_stripend()", 2, "svec"), ("_clear", "f_clear()", 5, "svec"),
                                           ("_modify", "f_mod()", 6, "ents"), ("_add", "f_add()", 7, "ents"), ("_derive", "f_der()", 8, "ents")), 1):
        o += simple(n, m, key, f, p(i), kind, bas)
    for n, (seq, eq, f, i) in enumerate((("hents(*h)", "eqe", "f_merge()", 9), ("a@", "eqy", "f_merge_y()", 9), ("hents(*h)", "eqe", "f_split()", 10), ("a@", "eqy", "f_split_y()", 10)), 8):
        o += nil(n, seq, f, p(i)) + loop(n, seq, eq, f, p(i), bas)
    o += nil(12, "hents(*rmod)", "f_fld()", p(11)) + loop(12, "hents(*rmod)", "eqe", "f_fld()", p(11), bas + " config.update_fields,")
    o += simple(13, m, "_array", "f_arr()", p(12), "ents", bas)
    o += "//@end\n}\nfn main(){}\n"
    return o.replace("proof { words(); }\n", "\n")

def device():
    m, T = "*device", "Device"
    ms = "delete_peripheral copy_peripheral modify_peripheral modify_cpu add_peripheral derive_peripheral rebase_peripheral clear_fields process_peripheral"
    o = HEAD + "//@methods Device: " + ms + "\nverus! {\n#[verifier::external_body] pub struct Config {}\n"
    st = lambda *a: stub(T, *a)
    s, hh, y, cfg = ("s_", "&str"), ("h_", "&Hash"), ("y_", "&Yaml"), ("c_", "&Config")
    o += kw("kw_d", "device.rs", "DeviceExt", KW_DEV)
    for n, op in (("delete_peripheral", "DelPer"), ("clear_fields", "Clear")):
        o += st(n, [s], f"Op::{op}(s_@)")
    for n, op in (("modify_peripheral", "ModPer"), ("add_peripheral", "AddPer")):
        o += st(n, [s, hh], f"Op::{op}(s_@, *h_)")
    o += st("copy_peripheral", [s, hh, ("p_", "&str")], "Op::CopyPer(s_@, *h_)") + st("modify_cpu", [hh], "Op::ModCpu(*h_)")
    o += st("derive_peripheral", [s, y], "Op::DerPer(s_@, *y_)") + st("rebase_peripheral", [s, ("o_", "&str")], "Op::Rebase(s_@, o_@)")
    o += st("process_peripheral", [s, hh, cfg], "Op::Per(s_@, *h_)")
    for f, op in (("f_del", "DelPer"), ("f_clear", "Clear")):
        o += F(f, S, one(op + "(e)"))
    for f, op in (("f_copy", "CopyPer"), ("f_add", "AddPer"), ("f_modper", "ModPer")):
        o += F(f, E, one(f"{op}({k}, {h})"))
    o += F("f_der", E, one(f"DerPer({k}, {v})")) + F("f_reb", E, one(f"Rebase({k}, kstr({v}))"))
    o += F("f_per", E, f"if kw_d({k}) {{ Seq::empty() }} else {{ {one(f'Per({k}, {h})')} }}")
    strs_ = [("vendor", "vendor", True), ("vendorID", "vendor_id", True), ("name", "name", False), ("series", "series", True), ("version", "version", False), ("description", "description", False),
             ("licenseText", "license_text", True), ("headerSystemFilename", "header_system_filename", True), ("headerDefinitionsPrefix", "header_definitions_prefix", True)]
    nums = [("addressUnitBits", "address_unit_bits"), ("width", "width")]
    allf = [x[1] for x in strs_] + [x[1] for x in nums]
    props = "size access protection resetValue resetMask".split()
    names = [x[0] for x in strs_] + [x[0] for x in nums] + props
    o += "pub open spec fn dev_attr(s: Seq<char>) -> bool { " + " || ".join(f's == "{n}"@' for n in names) + " }\n"
    rest = ["schema_version", "peripherals", "xmlns_xs", "no_namespace_schema_location", "cpu"]
    # one device attribute set, all others kept
    def keep(ex): return " && ".join(f"b.{f} == a.{f}" for f in allf + rest if f != ex)
    o += "pub uninterp spec fn rp_set(a: RegisterProperties, k: Seq<char>, v: Yaml, b: RegisterProperties) -> bool;\n"
    o += "pub open spec fn ostr(o: Option<String>, v: Yaml) -> bool { match (o, ystr(v)) { (Some(s), Some(t)) => s@ == t, _ => false } }\n"
    o += "pub open spec fn attr_set(a: Device, k: Seq<char>, v: Yaml, b: Device) -> bool {\n    "
    o += " else ".join([f'if k == "{n}"@ {{ {keep(f)} && b.default_register_properties == a.default_register_properties && {f"ostr(b.{f}, v)" if opt else f"Some(b.{f}@) == ystr(v)"} }}' for n, f, opt in strs_]
                       + [f'if k == "{n}"@ {{ {keep(f)} && b.default_register_properties == a.default_register_properties && ok_u32(v, Ok(b.{f})) }}' for n, f in nums])
    o += " else { " + keep("") + " && rp_set(a.default_register_properties, k, v, b.default_register_properties) }\n}\n"
    o += """#[verifier::external_body] pub fn str_into(s: &str) -> (r: String) ensures r@ == s@ { s.into() }
// DEFINITION of the operation Attr on a device (`step` is otherwise left open)
#[verifier::external_body] proof fn attr_step(a: Device, k: Seq<char>, v: Yaml, b: Device) requires attr_set(a, k, v, b) ensures step(a, Op::Attr(k, v), b) {}
#[verifier::external_body] pub fn modify_register_properties(p: &mut RegisterProperties, f: &str, val: &Yaml) -> (r: PatchResult) ensures r is Ok ==> rp_set(*old(p), f@, *val, *final(p)) { unimplemented!() }
"""
    o += F("f_mod", E, f'if {k} == "cpu"@ {{ {one(f"ModCpu({h})")} }} else if {k} == "_peripherals"@ {{ all(yh(Some({v})), f_modper()) }} else if dev_attr({k}) {{ {one(f"Attr({k}, {v})")} }} else {{ {one(f"ModPer({k}, {h})")} }}')
    secs = ['all(svec(h, "_delete"@), f_del())', 'all(ents(h, "_copy"@), f_copy())', 'all(ents(h, "_modify"@), f_mod())', 'all(svec(h, "_clear_fields"@), f_clear())', 'all(ents(h, "_add"@), f_add())',
            'all(ents(h, "_derive"@), f_der())', 'all(ents(h, "_rebase"@), f_reb())', 'all(hents(h), f_per())']
    o += progs("p", secs)
    GLUE.clear()
    ws = names + ["cpu", "_peripherals"]
    o += """//@fn src/patch/device.rs | DeviceExt for Device | process
//@self Device
//@sub Path::new(device.get_str("_path")?.unwrap_or(".")) =>> device.get_str("_path")?.unwrap_or(".")
//@attr #[verifier::rlimit(100)]
//@sub val.str()?.into() =>> str_into(val.str()?)
//@sub Self::KEYWORDS.contains(&periphspec) =>> kw_d_has(periphspec)
//@spec
    ensures r is Ok ==> run(*old(self_), p8(*device), *final(self_)),
//@start
    broadcast use axiom_str_ext;
"""
    b = ""
    for n, (key, f, i, kind) in ((1, ("_delete", "f_del()", 0, "svec")), (2, ("_copy", "f_copy()", 1, "ents")), (3, ("_modify", "f_mod()", 2, "ents")), (5, ("_clear_fields", "f_clear()", 3, "svec")), (6, ("_add", "f_add()", 4, "ents")),
                                 (7, ("_derive", "f_der()", 5, "ents")), (8, ("_rebase", "f_reb()", 6, "ents"))):
        o += simple(n, m, key, f, f"p{i}(*device)", kind, b)
        if n == 3:
            o += inner(4, 3, "val", "f_modper()", b)
    o = o.replace("adv(*old(self_), p2(*device)", "if dev_attr(kstr(e3_.0)) { attr_step(p3_, kstr(e3_.0), e3_.1, *self_); } adv(*old(self_), p2(*device)")
    o += nil(9, "hents(*device)", "f_per()", "p7(*device)") + loop(9, "hents(*device)", "eqe", "f_per()", "p7(*device)", b)
    o += "//@end\n}\nfn main(){}\n"
    o = o.replace("proof { words(); }\n    let ghost e3_", "proof { axiom_string_eq(); dwords(); }\n    let ghost e3_").replace("proof { words(); }\n", "\n")
    global WORDS
    w, WORDS = WORDS, ws
    o = o.replace("//@fn src/patch/device.rs", lits_fn().replace("fn words", "fn dwords") + "//@fn src/patch/device.rs", 1)
    WORDS = w
    return o


def progs(tag, secs):
    o = f"pub open spec fn {tag}0(h: Hash) -> Seq<Op> {{ Seq::empty() }}\n"
    for i, s in enumerate(secs):
        o += f"pub open spec fn {tag}{i + 1}(h: Hash) -> Seq<Op> {{ {tag}{i}(h) + {s} }}\n"
    return o

if __name__ == "__main__":
    open(f"{C}/u_procp.vc", "w").write(peripheral())
    open(f"{C}/u_procc.vc", "w").write(cluster())
    open(f"{C}/u_procr.vc", "w").write(register())
    open(f"{C}/u_procd.vc", "w").write(device())
