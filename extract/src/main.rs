//! Mechanical extractor: contract file + /repo source  ->  one Verus file.
//!
//! A contract file is Verus text interleaved with `//@` directives.  Everything
//! between `//@fn` and `//@end` describes one function of /repo: where it is, the
//! contract, and the proof text, hung on STRUCTURAL anchors (k-th loop, k-th closure,
//! function start/tail), never on line numbers.  The body itself is copied from /repo's
//! current source on every run; the only edits made to it are the rewrite rules below,
//! each of which is counted in the report.
use proc_macro2::LineColumn;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

#[derive(Clone, Debug)]
struct Edit {
    lo: usize,
    hi: usize,
    text: String,
    /// order among edits at the same position
    seq: usize,
}

#[derive(Default, Clone, Debug)]
struct FnDir {
    file: String,
    imp: String,
    path: Vec<String>,
    name: String,
    self_ty: Option<String>,
    ret: String,
    sig: Option<String>,
    spec: String,
    attrs: Vec<String>,
    loops: BTreeMap<usize, (String, String)>,
    closures: BTreeMap<usize, (String, String)>,
    inserts: Vec<(String, String)>, // (anchor, text)
    subs: Vec<(String, String, bool)>,
    methods: HashMap<String, String>,
    /// a ghost argument added at the end of every call of these functions (`f`, `a::f`) and methods (`.m`)
    args: HashMap<String, String>,
    /// a ghost parameter added at the end of the signature
    guards: bool,
    plus: bool,
    fmt: bool,
    slices: bool,
    param: Option<String>,
    nodrop: bool,
    stub_only: bool,
}

enum Item {
    Text(String),
    Fn(FnDir),
    /// a constant list of words of a trait: name, file, trait, constant
    Words(String, String, String, String),
    /// a struct of /repo, with its fields as declared: file, name
    Type(String, String),
}

/// `struct NAME` with all fields public, fieldless `enum NAME`, or `const NAME`; attributes and comments dropped
fn ty_def(repo: &str, srcs: &mut HashMap<String, Src>, file: &str, name: &str) -> Result<String, String> {
    if !srcs.contains_key(file) {
        srcs.insert(file.to_string(), Src::load(&format!("{repo}/{file}"))?);
    }
    let src = &srcs[file];
    for it in &src.file.items {
        if let syn::Item::Struct(st) = it {
            if st.ident == name && st.generics.params.is_empty() {
                let mut o = format!("pub struct {name} {{");
                for f in &st.fields {
                    let id = f.ident.as_ref().ok_or("tuple struct")?;
                    let a = lc(&src.text, &src.starts, f.ty.span().start());
                    let b = lc(&src.text, &src.starts, f.ty.span().end());
                    o.push_str(&format!(" pub {id}: {},", &src.text[a..b]));
                }
                o.push_str(" }\n");
                return Ok(o);
            }
        }
    }
    for it in &src.file.items {
        if let syn::Item::Enum(e) = it {
            if e.ident == name && e.variants.iter().all(|v| v.fields.is_empty() && v.discriminant.is_none()) {
                let vs: Vec<String> = e.variants.iter().map(|v| v.ident.to_string()).collect();
                let eq = e.attrs.iter().any(|a| a.path().is_ident("derive") && norm(src.str(a)).contains("PartialEq"));
                return Ok(format!("#[derive(Clone, Copy{})]\npub enum {name} {{ {} }}\n", if eq { ", PartialEq, Eq" } else { "" }, vs.join(", ")));
            }
        }
        if let syn::Item::Const(c) = it {
            if c.ident == name {
                let f = |x: proc_macro2::Span| &src.text[lc(&src.text, &src.starts, x.start())..lc(&src.text, &src.starts, x.end())];
                return Ok(format!("pub const {name}: {} = {};\n", f(c.ty.span()), f(c.expr.span())));
            }
        }
    }
    Err(format!("{name} not found in {file}"))
}

/// the words of `const C: &[&str] = &["..", ..]` of a trait (or of an impl), in order
fn words(repo: &str, srcs: &mut HashMap<String, Src>, file: &str, tr: &str, c: &str) -> Result<Vec<String>, String> {
    if !srcs.contains_key(file) {
        srcs.insert(file.to_string(), Src::load(&format!("{repo}/{file}"))?);
    }
    fn lits(e: &syn::Expr) -> Option<Vec<String>> {
        match e {
            syn::Expr::Reference(r) => lits(&r.expr),
            syn::Expr::Array(a) => a
                .elems
                .iter()
                .map(|x| match x {
                    syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => Some(s.value()),
                    _ => None,
                })
                .collect(),
            _ => None,
        }
    }
    for it in &srcs[file].file.items {
        if let syn::Item::Trait(t) = it {
            if t.ident == tr {
                for x in &t.items {
                    if let syn::TraitItem::Const(k) = x {
                        if k.ident == c {
                            return k.default.as_ref().and_then(|d| lits(&d.1)).ok_or(format!("{tr}::{c} is not a list of words"));
                        }
                    }
                }
            }
        }
    }
    Err(format!("{tr}::{c} not found in {file}"))
}

fn lc(src: &str, starts: &[usize], p: LineColumn) -> usize {
    // column is in chars
    let ls = starts[p.line - 1];
    src[ls..]
        .char_indices()
        .nth(p.column)
        .map(|(i, _)| ls + i)
        .unwrap_or(src.len())
}

struct Src {
    text: String,
    starts: Vec<usize>,
    file: syn::File,
}
impl Src {
    fn load(path: &str) -> Result<Src, String> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
        let file = syn::parse_file(&text).map_err(|e| format!("{path}: {e}"))?;
        let mut starts = vec![0];
        for (i, c) in text.char_indices() {
            if c == '\n' {
                starts.push(i + 1);
            }
        }
        Ok(Src { text, starts, file })
    }
    fn rng<T: Spanned>(&self, t: &T) -> (usize, usize) {
        let s = t.span();
        (
            lc(&self.text, &self.starts, s.start()),
            lc(&self.text, &self.starts, s.end()),
        )
    }
    fn span(&self, s: proc_macro2::Span) -> (usize, usize) {
        (
            lc(&self.text, &self.starts, s.start()),
            lc(&self.text, &self.starts, s.end()),
        )
    }
    fn str<T: Spanned>(&self, t: &T) -> &str {
        let (a, b) = self.rng(t);
        &self.text[a..b]
    }
}

/// `const N: phf::Map<&'static str, V> = phf_map! { "k" => v, .. };` -> `let N = ptable({ v_.push(("k", v)); .. });`
fn phf_table(c: &syn::ItemConst) -> Option<String> {
    struct Row(syn::Expr, syn::Expr);
    impl syn::parse::Parse for Row {
        fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
            let k = i.parse()?;
            i.parse::<syn::Token![=>]>()?;
            Ok(Row(k, i.parse()?))
        }
    }
    let syn::Expr::Macro(m) = &*c.expr else { return None };
    if m.mac.path.segments.last()?.ident != "phf_map" {
        return None;
    }
    let rows = m.mac.parse_body_with(syn::punctuated::Punctuated::<Row, syn::Token![,]>::parse_terminated).ok()?;
    let syn::Type::Path(t) = &*c.ty else { return None };
    let syn::PathArguments::AngleBracketed(a) = &t.path.segments.last()?.arguments else { return None };
    let v = a.args.iter().nth(1)?;
    let mut o = format!("let {0}_v: Vec<(&'static str, {1})> = {{ let mut v_: Vec<(&'static str, {1})> = Vec::new();", c.ident, quote::quote!(#v));
    for Row(k, v) in &rows {
        o += &format!(" v_.push(({}, {}));", quote::quote!(#k), quote::quote!(#v));
    }
    Some(o + &format!(" v_ }}; let ghost {0}_tab = {0}_v@; let {0} = ptable({0}_v);", c.ident))
}

fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

struct Found {
    sig: syn::Signature,
    block: syn::Block,
}

fn find_nested(block: &syn::Block, name: &str) -> Option<Found> {
    for st in &block.stmts {
        if let syn::Stmt::Item(syn::Item::Fn(f)) = st {
            if f.sig.ident == name {
                return Some(Found {
                    sig: f.sig.clone(),
                    block: (*f.block).clone(),
                });
            }
        }
    }
    None
}

fn find_fn(src: &Src, imp: &str, path: &[String]) -> Option<Found> {
    fn items<'a>(its: &'a [syn::Item], imp: &str, name: &str, src: &Src) -> Option<Found> {
        for it in its {
            match it {
                syn::Item::Fn(f) if imp.is_empty() && f.sig.ident == name => {
                    return Some(Found {
                        sig: f.sig.clone(),
                        block: (*f.block).clone(),
                    })
                }
                syn::Item::Impl(i) if !imp.is_empty() => {
                    let mut h = String::new();
                    if let Some((_, p, _)) = &i.trait_ {
                        h.push_str(&norm(src.str(p)));
                        h.push_str(" for ");
                    }
                    h.push_str(&norm(src.str(&*i.self_ty)));
                    if norm(&h) == norm(imp) {
                        for x in &i.items {
                            if let syn::ImplItem::Fn(f) = x {
                                if f.sig.ident == name {
                                    return Some(Found {
                                        sig: f.sig.clone(),
                                        block: f.block.clone(),
                                    });
                                }
                            }
                        }
                    }
                }
                syn::Item::Trait(t) if imp == format!("trait {}", t.ident) => {
                    for x in &t.items {
                        if let syn::TraitItem::Fn(f) = x {
                            if f.sig.ident == name {
                                if let Some(b) = &f.default {
                                    return Some(Found {
                                        sig: f.sig.clone(),
                                        block: b.clone(),
                                    });
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        None
    }
    let mut f = items(&src.file.items, imp, &path[0], src)?;
    for p in &path[1..] {
        f = find_nested(&f.block, p)?;
    }
    Some(f)
}

struct V<'a> {
    src: &'a Src,
    d: &'a FnDir,
    wraps: &'a HashMap<String, usize>,
    edits: Vec<Edit>,
    seq: usize,
    nloop: usize,
    nclos: usize,
    loops: Vec<(String, (usize, usize), (usize, usize))>, // kind, whole, body(block) range
    clos: Vec<(usize, usize)>,
    stmts: Vec<(usize, usize)>,
    counts: BTreeMap<String, usize>,
    skel: String,
    err: Option<String>,
    merged: HashSet<usize>,
}
impl V<'_> {
    fn ed(&mut self, lo: usize, hi: usize, text: impl Into<String>, rule: &str) {
        self.seq += 1;
        self.edits.push(Edit {
            lo,
            hi,
            text: text.into(),
            seq: self.seq,
        });
        *self.counts.entry(rule.to_string()).or_default() += 1;
    }
    fn do_loop(&mut self, kind: &str, whole: (usize, usize), body: &syn::Block, for_expr: Option<(usize, usize)>) -> usize {
        self.nloop += 1;
        let n = self.nloop;
        let b = self.src.rng(body);
        self.loops.push((kind.to_string(), whole, b));
        self.skel.push_str(kind);
        self.skel.push('(');
        if let Some((it, inv)) = self.d.loops.get(&n).cloned() {
            let mut w = it.split_whitespace();
            let it = w.next().unwrap_or("");
            let mode = w.next();
            // hoistv: the iterable is first turned into the vector of what it yields
            let (po, pc) = if mode == Some("hoistv") { ("(", ").it_v()") } else { ("", "") };
            let hoist = matches!(mode, Some("hoist" | "hoistv"));
            if let (Some((lo, hi)), Some("indexed")) = (for_expr, mode) {
                // `for P in &mut E {` -> `let nN_ = (&mut E).len(); for it in 0..nN_ { let P = &mut E[it];`
                let head = self.src.text[whole.0..lo].to_string();
                let pat = head.trim().strip_prefix("for").unwrap_or("").trim().strip_suffix("in").unwrap_or("").trim().to_string();
                let ex = self.src.text[lo..hi].to_string();
                let base = ex.strip_prefix("&mut").map(|x| format!("&mut {}", x.trim())).unwrap_or(ex).replace("self.", "self_.");
                self.ed(whole.0, lo, format!("let n{n}_ = ("), "loop by position");
                self.ed(hi, hi, format!(").len(); for {it} in 0..n{n}_ "), "loop by position");
                self.ed(b.0 + 1, b.0 + 1, format!(" let {pat} = {base}[{it}];"), "loop by position");
            } else if let (Some((lo, hi)), true) = (for_expr, hoist) {
                // `for P in E` -> `let hN_ = E; for P in hN_`
                let mut head = self.src.text[whole.0..lo].to_string();
                // `for (&x, y) in` -> `for (x, y) in .. { let x = *x;`
                if let Some(x) = head.split_once("(&").map(|h| h.1).and_then(|t| t.split_once(',')).map(|t| t.0.trim().to_string()) {
                    if !x.is_empty() && x.chars().all(|c| c.is_alphanumeric() || c == '_') {
                        head = head.replacen("(&", "(", 1);
                        self.ed(b.0 + 1, b.0 + 1, format!(" let {x} = *{x};"), "reference pattern");
                    }
                }
                self.ed(whole.0, lo, format!("let h{n}_ = {po}"), "for expression named");
                self.ed(hi, hi, format!("{pc}; let ghost g{n}_ = h{n}_@;\n{head}{it}: h{n}_ "), "for expression named");
            } else if let (Some((lo, _)), false) = (for_expr, it.is_empty()) {
                self.ed(lo, lo, format!("{it}: "), "ghost-iter-name");
            }
            if !inv.trim().is_empty() {
                self.ed(b.0, b.0, format!("\n{inv}\n"), "loop-contract");
            }
        }
        n
    }
}
impl<'ast> Visit<'ast> for V<'_> {
    fn visit_expr_for_loop(&mut self, e: &'ast syn::ExprForLoop) {
        let w = self.src.rng(e);
        let ex = self.src.rng(&*e.expr);
        self.do_loop("for", w, &e.body, Some(ex));
        self.continues(&e.body);
        visit::visit_expr_for_loop(self, e);
        self.skel.push(')');
    }
    fn visit_expr_while(&mut self, e: &'ast syn::ExprWhile) {
        let w = self.src.rng(e);
        self.do_loop("while", w, &e.body, None);
        visit::visit_expr_while(self, e);
        self.skel.push(')');
    }
    fn visit_expr_loop(&mut self, e: &'ast syn::ExprLoop) {
        let w = self.src.rng(e);
        self.do_loop("loop", w, &e.body, None);
        visit::visit_expr_loop(self, e);
        self.skel.push(')');
    }
    fn visit_expr_closure(&mut self, e: &'ast syn::ExprClosure) {
        self.nclos += 1;
        let n = self.nclos;
        let (lo, hi) = self.src.rng(e);
        let (blo, bhi) = self.src.rng(&*e.body);
        self.clos.push((lo, hi));
        self.skel.push_str("clos;");
        if let Some((hdr, ens)) = self.d.closures.get(&n).cloned() {
            // the parameter names in the contract are those of the source: `$1`, `$2`...
            let mut hdr = hdr;
            let mut ens = ens;
            let mut lets = String::new();
            for (i, p) in e.inputs.iter().enumerate() {
                let p = match p {
                    syn::Pat::Type(t) => &*t.pat,
                    p => p,
                };
                let mut pn = self.src.str(p).to_string();
                // a pattern is taken apart in the body instead
                if !matches!(p, syn::Pat::Ident(_)) && hdr.contains(&format!("${}", i + 1)) {
                    let v = format!("p{}_", i + 1);
                    // `&x` of a copyable reference or number
                    match p {
                        syn::Pat::Reference(r) if matches!(&*r.pat, syn::Pat::Ident(_)) => lets.push_str(&format!("let {} = *{v}; ", self.src.str(&*r.pat))),
                        _ => lets.push_str(&format!("let {pn} = {v}; ")),
                    }
                    pn = v;
                }
                hdr = hdr.replace(&format!("${}", i + 1), &pn);
                ens = ens.replace(&format!("${}", i + 1), &pn);
            }
            let block = matches!(&*e.body, syn::Expr::Block(_)) && lets.is_empty();
            let open = if block { String::new() } else { format!("{{ {lets}") };
            let mv = if e.capture.is_some() { "move " } else { "" };
            self.ed(lo, blo, format!("{mv}{hdr}\n{ens}\n{open}"), "closure-contract");
            if !block {
                self.ed(bhi, bhi, " }", "closure-contract");
            }
        } else {
            for (i, p) in e.inputs.iter().enumerate() {
                if let syn::Pat::Wild(_) = p {
                    let (lo, hi) = self.src.rng(p);
                    self.ed(lo, hi, format!("w{i}_"), "closure parameter _ named");
                }
            }
        }
        visit::visit_expr_closure(self, e);
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let (lo, hi) = self.src.rng(m);
        match name.as_str() {
            "anyhow" => self.ed(lo, hi, "verr()", "anyhow!->verr()"),
            "bail" => self.ed(lo, hi, "return Err(verr())", "bail!->Err"),
            "println" | "eprintln" | "print" | "info" | "warn" | "debug" => {
                self.ed(lo, hi, "{}", "log/print removed")
            }
            "vec" if m.tokens.is_empty() => self.ed(lo, hi, "Vec::new()", "vec![]->Vec::new()"),
            _ => {}
        }
        if name == "matches" {
            // look inside for `self`
            let toks = m.tokens.clone();
            self.toks(toks);
        } else if name == "format" && self.d.fmt && self.format(m, lo, hi) {
        } else if name == "format" || name == "vec" {
            let toks = m.tokens.clone();
            self.toks(toks);
        }
    }
    fn visit_expr_call(&mut self, e: &'ast syn::ExprCall) {
        let name: String = self.src.str(&*e.func).split_whitespace().collect();
        self.ghost_arg(&name, e.args.is_empty() || e.args.trailing_punct(), e.paren_token.span.close());
        visit::visit_expr_call(self, e);
    }
    fn visit_expr_method_call(&mut self, e: &'ast syn::ExprMethodCall) {
        let name = e.method.to_string();
        self.ghost_arg(&format!(".{name}"), e.args.is_empty() || e.args.trailing_punct(), e.paren_token.span.close());
        let (rlo, rhi) = self.src.rng(&*e.receiver);
        let (_, hi) = self.src.rng(e);
        let is_self = matches!(&*e.receiver, syn::Expr::Path(p) if p.path.is_ident("self"));
        if (name == "with_context" || name == "context") && !self.d.nodrop {
            self.ed(rhi, hi, "", "error-context dropped");
            // count closures inside for skeleton stability, but do not edit them
            let save = self.edits.len();
            let seq = self.seq;
            for a in &e.args {
                visit::visit_expr(self, a);
            }
            self.edits.truncate(save);
            self.seq = seq;
            visit::visit_expr(self, &e.receiver);
            return;
        }
        if let Some(f) = self.d.methods.get(&name).cloned() {
            if is_self {
                let plo = self.src.span(e.paren_token.span.open()).0;
                let comma = if e.args.is_empty() { "" } else { ", " };
                self.ed(rlo, plo + 1, format!("{f}(self_{comma}"), "method->fn");
                for a in &e.args {
                    visit::visit_expr(self, a);
                }
                return;
            } else if let Some(f) = f.strip_prefix('&') {
                // also for non-self receivers (reference variables)
                let plo = self.src.span(e.paren_token.span.open()).0;
                let comma = if e.args.is_empty() { "" } else { ", " };
                self.ed(rlo, rlo, format!("{f}("), "method->fn");
                self.ed(rhi, plo + 1, comma, "method->fn");
                visit::visit_expr(self, &e.receiver);
                for a in &e.args {
                    visit::visit_expr(self, a);
                }
                return;
            }
        }
        if self.wraps.contains_key(&name) {
            let (mlo, mhi) = self.src.span(e.method.span());
            self.ed(mlo, mhi, format!("{name}_v"), "std wrapper");
        }
        visit::visit_expr_method_call(self, e);
    }
    fn visit_ident(&mut self, i: &'ast proc_macro2::Ident) {
        if i == "self" && self.d.self_ty.is_some() {
            let (lo, hi) = self.src.span(i.span());
            self.ed(lo, hi, "self_", "self->self_");
        }
        if i == "int" || i == "nat" {
            // names of Verus' own types
            let (lo, hi) = self.src.span(i.span());
            self.ed(lo, hi, format!("{i}_"), "local renamed");
        }
    }
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        visit::visit_expr_path(self, p);
    }
    fn visit_item(&mut self, i: &'ast syn::Item) {
        // nested items (fn, use, const, static) are dropped from the body, but for tables
        let (lo, hi) = self.src.rng(i);
        if let syn::Item::Const(c) = i {
            if let Some(t) = phf_table(c) {
                self.ed(lo, hi, t, "phf_map! constant->table");
                return;
            }
        }
        self.ed(lo, hi, "", "nested item dropped");
    }
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        self.stmts.push(self.src.rng(s));
        visit::visit_stmt(self, s);
    }
    /// `&x[a..b]` -> `x.cut_v(a, b)`, `&x[a..]` -> `x.cut_from_v(a)`, `&x[..b]` -> `x.cut_to_v(b)`
    fn visit_expr_reference(&mut self, e: &'ast syn::ExprReference) {
        if let (true, None, syn::Expr::Index(i)) = (self.d.slices, &e.mutability, &*e.expr) {
            if matches!(&*i.index, syn::Expr::Range(_)) {
                let (lo, hi) = (self.src.rng(e).0, self.src.rng(&*e.expr).0);
                self.ed(lo, hi, "", "range index->cut");
            }
        }
        visit::visit_expr_reference(self, e);
    }
    fn visit_expr_index(&mut self, e: &'ast syn::ExprIndex) {
        if let (true, syn::Expr::Range(r)) = (self.d.slices, &*e.index) {
            if let syn::RangeLimits::HalfOpen(_) = r.limits {
                let (from, to) = (self.src.rng(&*e.expr).1, self.src.rng(e).1);
                match (&r.start, &r.end) {
                    (Some(a), Some(b)) => {
                        let ((al, ah), (bl, bh)) = (self.src.rng(&**a), self.src.rng(&**b));
                        self.ed(from, al, ".cut_v(", "range index->cut");
                        self.ed(ah, bl, ", ", "range index->cut");
                        self.ed(bh, to, ")", "range index->cut");
                    }
                    (Some(a), None) => {
                        let (al, ah) = self.src.rng(&**a);
                        self.ed(from, al, ".cut_from_v(", "range index->cut");
                        self.ed(ah, to, ")", "range index->cut");
                    }
                    (None, Some(b)) => {
                        let (bl, bh) = self.src.rng(&**b);
                        self.ed(from, bl, ".cut_to_v(", "range index->cut");
                        self.ed(bh, to, ")", "range index->cut");
                    }
                    _ => {}
                }
            }
        }
        visit::visit_expr_index(self, e);
    }
    fn visit_expr_binary(&mut self, e: &'ast syn::ExprBinary) {
        if let (true, syn::BinOp::Add(_)) = (self.d.plus, &e.op) {
            // `a + b` on texts -> `str_plus(a, b)`
            let ((al, ah), (bl, bh)) = (self.src.rng(&*e.left), self.src.rng(&*e.right));
            self.ed(al, al, "str_plus(", "text +");
            self.ed(ah, bl, ", ", "text +");
            self.ed(bh, bh, ")", "text +");
        }
        visit::visit_expr_binary(self, e);
    }
    fn visit_expr_match(&mut self, m: &'ast syn::ExprMatch) {
        self.skel.push_str("match;");
        // `P if G => B, _ => {}` -> `P => { if G B }, _ => {}` (no guards on patterns that bind by mutable reference)
        if let ([.., a, w], true) = (&m.arms[..], self.d.guards) {
            let none = matches!(&*w.body, syn::Expr::Block(b) if b.block.stmts.is_empty()) && matches!(&w.pat, syn::Pat::Wild(_)) && w.guard.is_none();
            if let (Some((ift, g)), true, syn::Expr::Block(_)) = (&a.guard, none, &*a.body) {
                let (lo, hi) = (self.src.rng(ift).0, self.src.rng(&**g).0);
                self.ed(lo, hi, "=> { if ", "guard->if");
                let (lo, hi) = (self.src.rng(&a.fat_arrow_token).0, self.src.rng(&*a.body).0);
                self.ed(lo, hi, "", "guard->if");
                let hi = self.src.rng(&*a.body).1;
                self.ed(hi, hi, " }", "guard->if");
            }
        }
        // `P if A => B, P if C => D, _ => E` (E's pattern differs from P only by `_` for names)
        // -> `P => if A { B } else if C { D } else { E }`
        if self.d.guards {
            let pt = |a: &syn::Arm| norm(self.src.str(&a.pat));
            let bare = |t: &str| {
                let mut o = String::new();
                let mut id = false;
                for c in t.chars() {
                    if c.is_alphanumeric() || c == '_' {
                        if !id { o.push('_'); }
                        id = true;
                    } else {
                        id = false;
                        o.push(c);
                    }
                }
                o
            };
            let mut i = 0;
            let arms: Vec<&syn::Arm> = m.arms.iter().collect();
            while i < arms.len() {
                let mut k = i;
                while k < arms.len() && arms[k].guard.is_some() && pt(arms[k]) == pt(arms[i]) {
                    k += 1;
                }
                let slice = matches!(&arms[i].pat, syn::Pat::Slice(p) if p.elems.iter().all(|e| matches!(e, syn::Pat::Ident(_))));
                // `V(x) if A => B, V(_) => E` likewise
                let (tup, wild) = match &arms[i].pat {
                    syn::Pat::TupleStruct(p) if p.elems.iter().all(|e| matches!(e, syn::Pat::Ident(i) if i.subpat.is_none())) => {
                        (true, norm(&format!("{}({})", self.src.str(&p.path), vec!["_"; p.elems.len()].join(","))))
                    }
                    _ => (false, String::new()),
                };
                let wild = if tup { wild } else { bare(&pt(arms[i])) };
                if k > i && k < arms.len() && (slice || tup) && arms[k].guard.is_none() && (pt(arms[k]) == pt(arms[i]) || pt(arms[k]) == wild) {
                    for j in i..=k {
                        let a = arms[j];
                        let (plo, phi) = self.src.rng(&a.pat);
                        let (blo, bhi) = self.src.rng(&*a.body);
                        if let Some((ift, g)) = &a.guard {
                            let (glo, ghi) = self.src.rng(&**g);
                            if j == i {
                                self.ed(self.src.rng(ift).0, glo, "=> if ", "guards->if");
                            } else {
                                self.ed(plo, glo, "else if ", "guards->if");
                                self.merged.insert(plo);
                            }
                            self.ed(ghi, blo, " { ", "guards->if");
                        } else {
                            self.ed(plo, blo, "else { ", "guards->if");
                            self.merged.insert(plo);
                        }
                        let hi = match (&a.comma, j < k) { (Some(c), true) => self.src.rng(c).1, _ => bhi };
                        self.ed(bhi, hi, " }", "guards->if");
                        let _ = phi;
                    }
                    i = k;
                }
                i += 1;
            }
        }
        let mut sl = false;
        for a in &m.arms {
            if matches!(&a.pat, syn::Pat::Slice(_)) {
                sl = true;
            }
        }
        if sl {
            let (lo, hi) = self.src.rng(&*m.expr);
            let mt = norm(self.src.str(&*m.expr)).ends_with(&norm(".as_mut_slice()"));
            let view = if mt { "SliceViewMut" } else { "SliceView" };
            self.ed(lo, lo, if mt { "slice_view_mut(" } else { "slice_view(" }, "slice-pattern");
            self.ed(hi, hi, ")", "slice-pattern");
            for a in &m.arms {
                if let syn::Pat::Slice(ps) = &a.pat {
                    let (lo, hi) = self.src.rng(ps);
                    if self.merged.contains(&lo) {
                        continue;
                    }
                    let t = match ps.elems.len() {
                        0 => format!("{view}::Nil"),
                        n @ (1 | 2) => format!(
                            "{view}::{}({})",
                            ["One", "Two"][n - 1],
                            ps.elems
                                .iter()
                                .map(|p| self.src.str(p).to_string())
                                .collect::<Vec<_>>()
                                .join(", ")
                        ),
                        _ => {
                            self.err = Some("slice pattern longer than 2".into());
                            String::new()
                        }
                    };
                    self.ed(lo, hi, t, "slice-pattern");
                }
            }
        }
        visit::visit_expr_match(self, m);
    }
}
impl V<'_> {
    fn ghost_arg(&mut self, name: &str, first: bool, close: proc_macro2::Span) {
        if let Some(a) = self.d.args.get(name).cloned() {
            let lo = self.src.span(close).0;
            self.ed(lo, lo, format!("{}{a}", if first { "" } else { ", " }), "ghost argument");
        }
    }
    /// `if c { ..; continue; } rest` -> `if c { .. } else { rest }` (the verifier has no `continue` in `for`)
    fn continues(&mut self, body: &syn::Block) {
        let end = self.src.rng(body).1 - 1;
        let mut n = 0;
        for (i, s) in body.stmts.iter().enumerate() {
            let syn::Stmt::Expr(syn::Expr::If(e), _) = s else { continue };
            if e.else_branch.is_some() || i + 1 == body.stmts.len() {
                continue;
            }
            if let Some(l @ syn::Stmt::Expr(syn::Expr::Continue(c), _)) = e.then_branch.stmts.last() {
                if c.label.is_none() {
                    let (lo, hi) = self.src.rng(l);
                    self.ed(lo, hi, "", "continue->else");
                    let hi = self.src.rng(s).1;
                    self.ed(hi, hi, " else {", "continue->else");
                    n += 1;
                }
            }
            // `if c { if d { continue; } return x; } rest`: nothing goes from the branch to the rest
            if let Some(syn::Stmt::Expr(syn::Expr::Return(_), _)) = e.then_branch.stmts.last() {
                let inner = e.then_branch.stmts.iter().any(|s| matches!(s, syn::Stmt::Expr(syn::Expr::If(f), _) if f.else_branch.is_none() && matches!(f.then_branch.stmts.last(), Some(syn::Stmt::Expr(syn::Expr::Continue(c), _)) if c.label.is_none())));
                if inner {
                    self.continues(&e.then_branch);
                    let hi = self.src.rng(s).1;
                    self.ed(hi, hi, " else {", "continue->else");
                    n += 1;
                }
            }
        }
        if n > 0 {
            self.ed(end, end, "}".repeat(n), "continue->else");
        }
        if let Some(syn::Stmt::Expr(e, _)) = body.stmts.last() {
            self.tail_continue(e);
        }
    }
    /// a `continue` that is the last thing its iteration does -> `()`
    fn tail_continue(&mut self, e: &syn::Expr) {
        match e {
            syn::Expr::Continue(c) if c.label.is_none() => {
                let (lo, hi) = self.src.rng(c);
                self.ed(lo, hi, "{}", "last continue->()");
            }
            syn::Expr::Match(m) => m.arms.iter().for_each(|a| self.tail_continue(&a.body)),
            syn::Expr::If(i) => {
                self.tail_block(&i.then_branch);
                if let Some((_, e)) = &i.else_branch {
                    self.tail_continue(e);
                }
            }
            syn::Expr::Block(b) if b.label.is_none() => self.tail_block(&b.block),
            _ => {}
        }
    }
    fn tail_block(&mut self, b: &syn::Block) {
        if let Some(syn::Stmt::Expr(e, _)) = b.stmts.last() {
            self.tail_continue(e);
        }
    }
    /// `format!("a{x}b{y:02}", ..)` -> `fmt_new().fmt_lit("a").fmt_d(&x).fmt_lit("b").fmt_pad(&y, 2)`
    fn format(&mut self, m: &syn::Macro, lo: usize, hi: usize) -> bool {
        let parse = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
        let args: Vec<syn::Expr> = match syn::parse::Parser::parse2(parse, m.tokens.clone()) {
            Ok(a) => a.into_iter().collect(),
            Err(_) => return false,
        };
        let args: &'static [syn::Expr] = Vec::leak(args);
        let text = match args.first() {
            Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(t), .. })) => t.value(),
            _ => return false,
        };
        // pieces: literal text, or (argument or position, format)
        let mut ps: Vec<(Option<String>, String, String)> = vec![];
        let mut lit = String::new();
        let mut it = text.chars().peekable();
        while let Some(c) = it.next() {
            match c {
                '{' | '}' if it.peek() == Some(&c) => {
                    it.next();
                    lit.push(c);
                }
                '{' => {
                    let hole: String = it.by_ref().take_while(|c| *c != '}').collect();
                    let (n, f) = hole.split_once(':').unwrap_or((&hole, ""));
                    if !lit.is_empty() {
                        ps.push((None, std::mem::take(&mut lit), String::new()));
                    }
                    ps.push((Some(n.trim().into()), String::new(), f.trim().into()));
                }
                _ => lit.push(c),
            }
        }
        if !lit.is_empty() {
            ps.push((None, lit, String::new()));
        }
        let mut at = 0;
        let mut cuts: Vec<(String, Option<usize>, String)> = vec![]; // text, argument, text after it
        let mut cur = "fmt_new()".to_string();
        for (n, t, f) in &ps {
            match n {
                None => cur.push_str(&format!(".fmt_lit({t:?})")),
                Some(n) => {
                    let (call, rest) = match f.as_str() {
                        "" => (".fmt_d(&", ")".to_string()),
                        "x" => (".fmt_hex(&", ")".to_string()),
                        "X" => (".fmt_hexu(&", ")".to_string()),
                        f if f.len() > 1 && f.starts_with('0') && f[1..].chars().all(|c| c.is_ascii_digit()) => (".fmt_pad(&", format!(", {})", &f[1..])),
                        _ => return false,
                    };
                    cur.push_str(call);
                    if n.is_empty() {
                        at += 1;
                        if at >= args.len() {
                            return false;
                        }
                        cur.push('(');
                        cuts.push((std::mem::take(&mut cur), Some(at), String::new()));
                        cur = format!("){rest}");
                    } else if n.chars().all(|c| c.is_alphanumeric() || c == '_') && !n.starts_with(|c: char| c.is_ascii_digit()) {
                        cur.push_str(&format!("{n}{rest}"));
                    } else {
                        return false;
                    }
                }
            }
        }
        if at + 1 != args.len() {
            return false;
        }
        let mut from = lo;
        for (t, a, _) in &cuts {
            let (alo, ahi) = self.src.rng(&args[a.unwrap()]);
            self.ed(from, alo, t.clone(), "format!->texts");
            visit::visit_expr(self, &args[a.unwrap()]);
            from = ahi;
        }
        self.ed(from, hi, cur, "format!->texts");
        true
    }
    fn toks(&mut self, ts: proc_macro2::TokenStream) {
        for t in ts {
            match t {
                proc_macro2::TokenTree::Ident(i) => self.visit_ident(&i),
                proc_macro2::TokenTree::Group(g) => self.toks(g.stream()),
                _ => {}
            }
        }
    }
}

/// whitespace-insensitive search; returns byte ranges
fn find_ws(hay: &str, base: usize, needle: &str) -> Vec<(usize, usize)> {
    let n: Vec<char> = needle.chars().filter(|c| !c.is_whitespace()).collect();
    let h: Vec<(usize, char)> = hay.char_indices().filter(|c| !c.1.is_whitespace()).collect();
    let mut out = vec![];
    let mut i = 0;
    while n.len() > 0 && i + n.len() <= h.len() {
        if (0..n.len()).all(|k| h[i + k].1 == n[k]) {
            // identifiers must not be cut
            let isw = |c: char| c.is_alphanumeric() || c == '_';
            let lo = h[i].0;
            let hi = h[i + n.len() - 1].0 + h[i + n.len() - 1].1.len_utf8();
            let before = hay[..lo].chars().last();
            let after = hay[hi..].chars().next();
            let cut = (isw(n[0]) && before.map_or(false, isw))
                || (isw(*n.last().unwrap()) && after.map_or(false, isw));
            if !cut {
                out.push((base + lo, base + hi));
                i += n.len();
                continue;
            }
        }
        i += 1;
    }
    out
}

struct Out {
    text: String,
    info: Value,
}

fn gen(repo: &str, srcs: &mut HashMap<String, Src>, d: &FnDir, wraps: &HashMap<String, usize>, stub: bool, canary: bool) -> Result<Out, String> {
    if !srcs.contains_key(&d.file) {
        let s = Src::load(&format!("{repo}/{}", d.file))?;
        srcs.insert(d.file.clone(), s);
    }
    let src = &srcs[&d.file];
    let f = find_fn(src, &d.imp, &d.path)
        .ok_or_else(|| format!("function {}::{} not found in {}", d.imp, d.path.join("::"), d.file))?;
    let (blo, bhi) = src.rng(&f.block);
    let mut v = V {
        src,
        d,
        wraps,
        edits: vec![],
        seq: 0,
        nloop: 0,
        nclos: 0,
        loops: vec![],
        clos: vec![],
        stmts: vec![],
        counts: BTreeMap::new(),
        skel: String::new(),
        err: None,
        merged: HashSet::new(),
    };
    v.visit_block(&f.block);
    let mut lost: Option<String> = v.err.clone();
    // anchors must exist
    for n in d.loops.keys() {
        if *n > v.nloop {
            lost = Some(format!("loop {n} not found ({} loops)", v.nloop));
        }
    }
    for n in d.closures.keys() {
        if *n > v.nclos {
            lost = Some(format!("closure {n} not found ({} closures)", v.nclos));
        }
    }
    let body_src = src.text[blo..bhi].to_string();
    let mut subs: Vec<Edit> = vec![];
    for (from, to, opt) in &d.subs {
        let hits = find_ws(&body_src, blo, from);
        if hits.is_empty() && !opt {
            lost = Some(format!("text `{from}` not found"));
        }
        for (lo, hi) in hits {
            v.seq += 1;
            subs.push(Edit { lo, hi, text: to.clone(), seq: v.seq });
            *v.counts.entry("listed substitution".into()).or_default() += 1;
        }
    }
    let inserts = d.inserts.clone();
    for (a, t) in &inserts {
        let mut w = a.split_whitespace();
        let k = w.next().unwrap();
        let n: usize = w.next().and_then(|x| x.parse().ok()).unwrap_or(0);
        let pos = match k {
            "start" => Some(blo + 1),
            "tail" => {
                // before the tail expression (or at the end)
                match f.block.stmts.last() {
                    Some(syn::Stmt::Expr(e, None)) => Some(src.rng(e).0),
                    _ => Some(bhi - 1),
                }
            }
            "loop-start" => v.loops.get(n - 1).map(|l| l.2 .0 + 1),
            "loop-end" => v.loops.get(n - 1).map(|l| l.2 .1 - 1),
            "before-loop" => v.loops.get(n - 1).map(|l| {
                let w = l.1;
                // the innermost statement containing the loop
                v.stmts
                    .iter()
                    .filter(|s| s.0 <= w.0 && w.1 <= s.1)
                    .min_by_key(|s| s.1 - s.0)
                    .map(|s| s.0)
                    .unwrap_or(w.0)
            }),
            "after-loop" => v.loops.get(n - 1).map(|l| {
                let w = l.1;
                v.stmts
                    .iter()
                    .filter(|s| s.0 <= w.0 && w.1 <= s.1)
                    .min_by_key(|s| s.1 - s.0)
                    .map(|s| s.1)
                    .unwrap_or(w.1)
            }),
            "before" | "after" => {
                let txt = a[k.len()..].trim().trim_matches('"');
                let hits = find_ws(&body_src, blo, txt);
                hits.first().and_then(|h| {
                    v.stmts
                        .iter()
                        .filter(|s| s.0 <= h.0 && h.1 <= s.1)
                        .min_by_key(|s| s.1 - s.0)
                        .map(|s| if k == "before" { s.0 } else { s.1 })
                })
            }
            _ => return Err(format!("bad anchor {a}")),
        };
        match pos {
            Some(p) => {
                v.seq += 1;
                let s = v.seq;
                // a body whose last expression has no `;`
                let open = k == "loop-end" && !body_src[..p - blo].trim_end().ends_with([';', '{', '}']);
                let semi = if open { "\n;" } else { "" };
                v.edits.push(Edit { lo: p, hi: p, text: format!("{semi}\n{t}\n"), seq: s });
            }
            None => lost = Some(format!("anchor {a} not found")),
        }
    }
    // substitutions win over automatic edits inside their range
    let mut edits: Vec<Edit> = v
        .edits
        .iter()
        .filter(|e| !subs.iter().any(|s| s.lo <= e.lo && e.hi <= s.hi && !(e.lo == e.hi && (e.lo == s.lo || e.lo == s.hi))))
        .cloned()
        .collect();
    edits.extend(subs);
    // drop edits nested in a wider replacement
    let all = edits.clone();
    edits.retain(|e| {
        !all.iter().any(|o| {
            o.seq != e.seq
                && o.lo <= e.lo
                && e.hi <= o.hi
                && (o.hi - o.lo) > (e.hi - e.lo)
                && !(e.lo == e.hi && (e.lo == o.lo || e.lo == o.hi))
        })
    });
    edits.sort_by_key(|e| (e.lo, e.hi, e.seq));
    let mut body = String::new();
    let mut p = blo;
    for e in &edits {
        if e.lo < p {
            return Err(format!("overlapping edits at {} in {}", e.lo, d.name));
        }
        body.push_str(&src.text[p..e.lo]);
        body.push_str(&e.text);
        p = e.hi;
    }
    body.push_str(&src.text[p..bhi]);

    // signature
    let mut sig = String::new();
    if let Some(s) = &d.sig {
        sig.push_str(s);
    } else {
        let g = if f.sig.generics.params.is_empty() {
            String::new()
        } else {
            src.str(&f.sig.generics).to_string()
        };
        let mut ps = vec![];
        for i in &f.sig.inputs {
            match i {
                syn::FnArg::Receiver(r) => {
                    let t = d.self_ty.clone().unwrap_or("Self".into());
                    let lt = r
                        .reference
                        .as_ref()
                        .and_then(|x| x.1.as_ref())
                        .map(|l| format!("{l} "))
                        .unwrap_or_default();
                    ps.push(if r.reference.is_some() && r.mutability.is_some() {
                        format!("self_: &{lt}mut {t}")
                    } else if r.reference.is_some() {
                        format!("self_: &{lt}{t}")
                    } else {
                        format!("self_: {t}")
                    });
                }
                t => ps.push(src.str(t).to_string()),
            }
        }
        let r = match &f.sig.output {
            syn::ReturnType::Default => String::new(),
            syn::ReturnType::Type(_, t) => {
                if d.ret.is_empty() {
                    format!(" -> {}", src.str(&**t))
                } else {
                    format!(" -> ({}: {})", d.ret, src.str(&**t))
                }
            }
        };
        let wh = f
            .sig
            .generics
            .where_clause
            .as_ref()
            .map(|w| format!("\n{}", src.str(w)))
            .unwrap_or_default();
        ps.extend(d.param.clone());
        sig = format!("pub fn {}{}({}){}{}", d.name, g, ps.join(", "), r, wh);
    }
    let stub = stub || lost.is_some() || d.stub_only;
    let mut text = String::new();
    for a in &d.attrs {
        text.push_str(a);
        text.push('\n');
    }
    if stub {
        text.push_str("#[verifier::external_body]\n");
    }
    text.push_str(&sig);
    text.push('\n');
    text.push_str(&d.spec);
    if stub {
        text.push_str("{ unimplemented!() }\n");
    } else if canary {
        // (the verifier wants `hide` first in a body)
        let mut at = 1;
        loop {
            let skip = body[at..].len() - body[at..].trim_start().len();
            if !body[at + skip..].starts_with("hide(") {
                break;
            }
            match body[at + skip..].find(';') {
                Some(e) => at += skip + e + 1,
                None => break,
            }
        }
        text.push_str(&format!("{{{} proof {{ assert(false); }}\n{}\n", &body[1..at], &body[at..]));
    } else {
        text.push_str(&body);
        text.push('\n');
    }
    let (s0, s1) = (
        f.block.span().start().line,
        f.block.span().end().line,
    );
    Ok(Out {
        text,
        info: json!({"name": d.name, "file": d.file, "impl": d.imp, "fn": d.path.join("::"), "src_lines": [s0, s1],
            "loops": v.nloop, "closures": v.nclos, "skeleton": v.skel, "stub": stub, "lost": lost, "rewrites": v.counts}),
    })
}

const FRAMES: &[(&str, &str)] = &[
    ("dev", "vendor vendor_id name series version description license_text cpu header_system_filename header_definitions_prefix address_unit_bits width default_register_properties peripherals xmlns_xs no_namespace_schema_location schema_version"),
    ("per", "name display_name version description alternate_peripheral group_name prepend_to_name append_to_name header_struct_name base_address default_register_properties address_block interrupt registers derived_from"),
    ("cl", "name description alternate_cluster header_struct_name address_offset default_register_properties children derived_from"),
    ("reg", "name display_name description alternate_group alternate_register address_offset properties datatype modified_write_values write_constraint read_action fields derived_from"),
    ("fld", "name description bit_range access modified_write_values write_constraint read_action enumerated_values derived_from"),
];
/// `$but(kind, a, b, f g)`: a and b agree on every attribute except f and g
fn frames(t: &str) -> Result<String, String> {
    let mut o = String::new();
    let mut r = t;
    while let Some(i) = r.find("$but(") {
        o.push_str(&r[..i]);
        let s = &r[i + 5..];
        let mut d = 1;
        let e = s.char_indices().find(|(_, c)| { match c { '(' => d += 1, ')' => d -= 1, _ => {} }; d == 0 }).ok_or("$but")?.0;
        let mut d = 0;
        let mut parts = vec![String::new()];
        for c in s[..e].chars() {
            match c { '(' => d += 1, ')' => d -= 1, _ => {} }
            if c == ',' && d == 0 { parts.push(String::new()) } else { parts.last_mut().unwrap().push(c) }
        }
        if parts.len() != 4 { return Err(format!("$but({})", &s[..e])); }
        let fs = FRAMES.iter().find(|f| f.0 == parts[0].trim()).ok_or("$but kind")?.1;
        let ex: Vec<&str> = parts[3].split_whitespace().collect();
        for x in &ex { if !fs.split(' ').any(|f| f == *x) { return Err(format!("$but: no attribute {x}")); } }
        let c: Vec<String> = fs.split(' ').filter(|f| !ex.contains(f)).map(|f| format!("{}.{f} == {}.{f}", parts[1].trim(), parts[2].trim())).collect();
        o.push_str(&format!("({})", c.join(" && ")));
        r = &s[e + 1..];
    }
    o.push_str(r);
    Ok(o)
}

fn parse(path: &str, dir: &str, wraps: &mut HashMap<String, usize>, methods: &mut HashMap<String, HashMap<String, String>>, items: &mut Vec<Item>, seen: &mut HashSet<String>, import: bool) -> Result<(), String> {
    let t = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
    let t = {
        // `//@each T: A B` ... `//@endeach` repeats its lines with `$T` replaced
        let mut o = String::new();
        let mut blk: Option<(String, Vec<String>, String)> = None;
        for l in t.lines() {
            if let Some(r) = l.trim().strip_prefix("//@each ") {
                let (v, vals) = r.split_once(':').ok_or("bad each")?;
                blk = Some((format!("${}", v.trim()), vals.split_whitespace().map(|x| x.to_string()).collect(), String::new()));
            } else if l.trim() == "//@endeach" {
                let (v, vals, b) = blk.take().ok_or("endeach")?;
                for x in vals {
                    o.push_str(&b.replace(&v, &x));
                }
            } else if let Some(b) = blk.as_mut() {
                b.2.push_str(l);
                b.2.push('\n');
            } else {
                o.push_str(l);
                o.push('\n');
            }
        }
        o
    };
    let t = frames(&t)?;
    let mut cur: Option<FnDir> = None;
    let mut sect: Option<String> = None; // current section header
    let mut buf = String::new();
    let mut text = String::new();
    fn flush(cur: &mut FnDir, sect: &Option<String>, buf: &mut String) -> Result<(), String> {
        if let Some(s) = sect {
            let mut w = s.split_whitespace();
            let k = w.next().unwrap();
            match k {
                "spec" => cur.spec = buf.clone(),
                "loop" => {
                    let n: usize = w.next().unwrap().parse().unwrap();
                    let it = w.collect::<Vec<_>>().join(" ");
                    cur.loops.insert(n, (it, buf.clone()));
                }
                "closure" => {
                    let n: usize = w.next().unwrap().parse().unwrap();
                    let hdr = s.splitn(3, ' ').nth(2).unwrap_or("").to_string();
                    cur.closures.insert(n, (hdr, buf.clone()));
                }
                _ => cur.inserts.push((s.clone(), buf.clone())),
            }
        }
        buf.clear();
        Ok(())
    }
    for line in t.lines() {
        let l = line.trim();
        if let Some(r) = l.strip_prefix("//@") {
            let r = r.trim();
            let (k, rest) = r.split_once(' ').unwrap_or((r, ""));
            if cur.is_none() {
                match k {
                    "use" | "import" => {
                        items.push(Item::Text(std::mem::take(&mut text)));
                        for f in rest.split_whitespace() {
                            if seen.insert(f.to_string()) {
                                parse(&format!("{dir}/{f}"), dir, wraps, methods, items, seen, import || k == "import")?;
                            }
                        }
                    }
                    "wrap" => {
                        for w in rest.split_whitespace() {
                            wraps.insert(w.to_string(), 0);
                        }
                    }
                    "methods" => {
                        let (ty, ms) = rest.split_once(':').ok_or("methods: missing ':'")?;
                        let e = methods.entry(ty.trim().to_string()).or_default();
                        for m in ms.split_whitespace() {
                            if let Some((a, b)) = m.split_once('=') {
                                e.insert(a.to_string(), b.to_string());
                            } else {
                                e.insert(m.to_string(), format!("{}__{m}", ty.trim()));
                            }
                        }
                    }
                    "arg" => {
                        let (t, ms) = rest.split_once("=>>").ok_or("arg: missing '=>>'")?;
                        let e = methods.entry("%arg".into()).or_default();
                        for m in ms.split_whitespace() {
                            e.insert(m.to_string(), t.trim().to_string());
                        }
                    }
                    "fn" => {
                        items.push(Item::Text(std::mem::take(&mut text)));
                        let p: Vec<&str> = rest.split('|').map(|x| x.trim()).collect();
                        let (file, imp, path) = match p.len() {
                            2 => (p[0], "", p[1]),
                            3 => (p[0], p[1], p[2]),
                            _ => return Err(format!("bad //@fn {rest}")),
                        };
                        let path: Vec<String> = path.split("::").map(|x| x.to_string()).collect();
                        cur = Some(FnDir {
                            file: file.into(),
                            imp: imp.into(),
                            name: path.last().unwrap().clone(),
                            path,
                            ret: "r".into(),
                            stub_only: import,
                            ..Default::default()
                        });
                        sect = None;
                        buf.clear();
                    }
                    "type" => {
                        items.push(Item::Text(std::mem::take(&mut text)));
                        let (f, n) = rest.split_once('|').ok_or("type: missing '|'")?;
                        items.push(Item::Type(f.trim().into(), n.trim().into()));
                    }
                    "words" => {
                        items.push(Item::Text(std::mem::take(&mut text)));
                        let p: Vec<&str> = rest.split('|').map(|x| x.trim()).collect();
                        items.push(Item::Words(p[0].into(), p[1].into(), p[2].into(), p[3].into()));
                    }
                    _ => return Err(format!("{path}: unknown directive {l}")),
                }
                continue;
            }
            let c = cur.as_mut().unwrap();
            flush(c, &sect, &mut buf)?;
            sect = None;
            match k {
                "name" => c.name = rest.into(),
                "self" => {
                    let ty = rest.split_whitespace().next().unwrap().to_string();
                    c.self_ty = Some(ty);
                    if c.name == *c.path.last().unwrap() {
                        c.name = format!("{}__{}", rest.split_whitespace().last().unwrap(), c.name);
                    }
                }
                "ret" => c.ret = rest.into(),
                "param" => c.param = Some(rest.into()),
                "guards" => c.guards = true,
                "plus" => c.plus = true,
                "fmt" => c.fmt = true,
                "slices" => c.slices = true,
                "sig" => c.sig = Some(rest.into()),
                "attr" => c.attrs.push(rest.into()),
                "nodrop" => c.nodrop = true,
                "sub" | "sub?" => {
                    let (a, b) = rest.split_once("=>>").ok_or(format!("bad sub {rest}"))?;
                    c.subs.push((a.trim().to_string(), b.trim().to_string(), k == "sub?"));
                }
                "end" => {
                    items.push(Item::Fn(cur.take().unwrap()));
                }
                "spec" | "loop" | "closure" | "start" | "tail" | "loop-start" | "loop-end"
                | "before-loop" | "after-loop" | "before" | "after" => sect = Some(r.to_string()),
                _ => return Err(format!("{path}: unknown directive {l}")),
            }
        } else if cur.is_some() {
            buf.push_str(line);
            buf.push('\n');
        } else {
            text.push_str(line);
            text.push('\n');
        }
    }
    items.push(Item::Text(text));
    Ok(())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let repo = get("--repo").unwrap_or("/repo".into());
    let out = get("--out").expect("--out");
    let report = get("--report").expect("--report");
    let contract = get("--contract").expect("--contract");
    let stubs: HashSet<String> = get("--stub").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    let canary = a.iter().any(|x| x == "--canary");
    let dir = std::path::Path::new(&contract).parent().unwrap().to_str().unwrap().to_string();
    let mut items = vec![];
    let (mut wraps, mut methods, mut seen) = (HashMap::new(), HashMap::new(), HashSet::new());
    if let Err(e) = parse(&contract, &dir, &mut wraps, &mut methods, &mut items, &mut seen, false) {
        eprintln!("extract: {e}");
        std::process::exit(2);
    }
    let mut srcs = HashMap::new();
    let mut o = String::new();
    let mut fns = vec![];
    for it in items {
        match it {
            Item::Text(t) => o.push_str(&t),
            Item::Type(file, n) => match ty_def(&repo, &mut srcs, &file, &n) {
                Ok(t) => o.push_str(&t),
                Err(e) => {
                    fns.push(json!({"name": n, "file": file, "impl": "", "fn": n, "lost": e, "missing": true, "stub": true, "imported": false}));
                }
            },
            Item::Words(n, file, tr, c) => {
                let l0 = o.lines().count() + 1;
                match words(&repo, &mut srcs, &file, &tr, &c) {
                    Ok(w) => {
                        let a: Vec<String> = w.iter().map(|x| format!("s == {x:?}@")).collect();
                        let b: Vec<String> = w.iter().map(|x| format!("s == {x:?}")).collect();
                        o.push_str(&format!("// the words of {tr}::{c}\npub open spec fn {n}(s: Seq<char>) -> bool {{ {} }}\npub fn {n}_has(s: &str) -> (r: bool) ensures r == {n}(s@)\n{{ broadcast use axiom_str_ext; proof {{ axiom_string_eq(); }} {} }}\n", a.join(" || "), b.join(" || ")));
                        // TRUSTED in the extraction: `CONST.contains(&s)` is membership of the list
                        o.push_str(&format!("proof fn {n}_listed() ensures forall|s: Seq<char>| {n}(s) <==> #[trigger] {n}_spec(s) {{ {} }}\n", if canary { "assert(false);" } else { "" }));
                        fns.push(json!({"name": format!("{n} (list {tr}::{c})"), "file": file, "impl": tr, "fn": c, "stub": false, "lost": null, "imported": false, "gen_lines": [l0, o.lines().count()], "loops": 0, "closures": 0, "rewrites": {}}));
                    }
                    Err(e) => {
                        o.push_str(&format!("pub open spec fn {n}(s: Seq<char>) -> bool {{ {n}_spec(s) }}\n#[verifier::external_body] pub fn {n}_has(s: &str) -> (r: bool) ensures r == {n}(s@) {{ unimplemented!() }}\n"));
                        fns.push(json!({"name": format!("{n} (list {tr}::{c})"), "file": file, "impl": tr, "fn": c, "lost": e, "missing": true, "stub": true, "imported": false}));
                    }
                }
            }
            Item::Fn(mut d) => {
                if let Some(t) = &d.self_ty {
                    if let Some(m) = methods.get(t) {
                        d.methods.extend(m.clone());
                    }
                }
                if let Some(m) = methods.get("*") {
                    d.methods.extend(m.clone());
                }
                if let Some(m) = methods.get("%arg") {
                    d.args = m.clone();
                }
                let l0 = o.lines().count() + 1;
                match gen(&repo, &mut srcs, &d, &wraps, stubs.contains(&d.name), canary) {
                    Ok(x) => {
                        o.push_str(&x.text);
                        if !o.ends_with('\n') {
                            o.push('\n');
                        }
                        let l1 = o.lines().count();
                        let mut i = x.info;
                        i["gen_lines"] = json!([l0, l1]);
                        i["imported"] = json!(d.stub_only);
                        fns.push(i);
                    }
                    Err(e) => {
                        fns.push(json!({"name": d.name, "file": d.file, "impl": d.imp, "fn": d.path.join("::"), "lost": e, "missing": true, "stub": true, "imported": d.stub_only}));
                    }
                }
            }
        }
    }
    std::fs::write(&out, o).unwrap();
    std::fs::write(&report, serde_json::to_string_pretty(&json!({"functions": fns})).unwrap()).unwrap();
}
