// Dotted paths of blocks, registers and fields.
//@wrap split new_cluster new_register new_field parent contains
use svd_parser::expand::FieldPath;
verus! {
#[verifier::external_type_specification] pub struct ExFieldPath(FieldPath);
pub open spec fn dotted(p: Seq<char>, path: Seq<String>, n: int) -> Seq<char> decreases n { if n <= 0 { p } else { dotted(p, path, n - 1) + seq!['.'] + path[n - 1]@ } }
// the path of a block without its last part
pub open spec fn upper(b: BlockPath) -> Seq<char> { dotted(b.peripheral@, b.path@, b.path@.len() - 1) }
pub open spec fn whole(b: BlockPath) -> Seq<char> { dotted(b.peripheral@, b.path@, b.path@.len() as int) }
// TRUSTED (std): the parts between the separators
pub trait SplitX { fn split_v<'a>(&'a self, c: &str) -> Vec<&'a str>; }
impl SplitX for str { #[verifier::external_body] fn split_v<'a>(&'a self, c: &str) -> (r: Vec<&'a str>)
    ensures c@.len() == 1 ==> r@.len() == splits(self@, c@[0]).len() && forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == splits(self@, c@[0])[i] { self.split(c).collect() } }
pub trait ContainsX { fn contains_v(&self, c: char) -> bool; }
impl ContainsX for str { #[verifier::external_body] fn contains_v(&self, c: char) -> (r: bool) ensures r == self@.contains(c) { self.contains(c) } }
pub fn part<'a>(v: &Vec<&'a str>, i: usize) -> (r: Option<&'a str>) ensures r == (if i < v@.len() { Some(v@[i as int]) } else { None }) { if i < v.len() { Some(v[i]) } else { None } }
pub fn next3<'a>(v: &mut Vec<&'a str>) -> (r: (Option<&'a str>, Option<&'a str>, Option<&'a str>))
    ensures r.0 == (if 0 < old(v)@.len() { Some(old(v)@[0]) } else { None }), r.1 == (if 1 < old(v)@.len() { Some(old(v)@[1]) } else { None }), r.2 == (if 2 < old(v)@.len() { Some(old(v)@[2]) } else { None })
{ (part(v, 0), part(v, 1), part(v, 2)) }
pub fn next4<'a>(v: &mut Vec<&'a str>) -> (r: (Option<&'a str>, Option<&'a str>, Option<&'a str>, Option<&'a str>))
    ensures r.0 == (if 0 < old(v)@.len() { Some(old(v)@[0]) } else { None }), r.1 == (if 1 < old(v)@.len() { Some(old(v)@[1]) } else { None }), r.2 == (if 2 < old(v)@.len() { Some(old(v)@[2]) } else { None }), r.3 == (if 3 < old(v)@.len() { Some(old(v)@[3]) } else { None })
{ (part(v, 0), part(v, 1), part(v, 2), part(v, 3)) }
// TRUSTED (svd-parser): the path operations and their text
pub trait BlockPathX { fn parent_v(&self) -> Option<BlockPath>; fn new_cluster_v(&self, n: &str) -> BlockPath; fn new_register_v(&self, n: &str) -> RegisterPath; }
impl BlockPathX for BlockPath {
    #[verifier::external_body] fn parent_v(&self) -> (r: Option<BlockPath>)
        ensures r is Some == (self.path@.len() > 0), r is Some ==> r.unwrap().peripheral == self.peripheral && r.unwrap().path@ == self.path@.drop_last() { self.parent() }
    #[verifier::external_body] fn new_cluster_v(&self, n: &str) -> (r: BlockPath)
        ensures r.peripheral == self.peripheral, r.path@.len() == self.path@.len() + 1, r.path@.drop_last() == self.path@, r.path@.last()@ == n@ { self.new_cluster(n) }
    #[verifier::external_body] fn new_register_v(&self, n: &str) -> (r: RegisterPath) ensures r.block == *self, r.name@ == n@ { self.new_register(n) }
}
pub trait RegisterPathX { fn new_field_v(&self, n: &str) -> FieldPath; }
impl RegisterPathX for RegisterPath { #[verifier::external_body] fn new_field_v(&self, n: &str) -> (r: FieldPath) ensures r.register == *self, r.name@ == n@ { self.new_field(n) } }
impl ToStringX for RegisterPath { #[verifier::external_body] fn to_string_v(&self) -> (r: String) ensures r@ == whole(self.block) + seq!['.'] + self.name@ { self.to_string() } }
impl ToStringX for FieldPath { #[verifier::external_body] fn to_string_v(&self) -> (r: String) ensures r@ == whole(self.register.block) + seq!['.'] + self.register.name@ + seq!['.'] + self.name@ { self.to_string() } }
pub proof fn lemma_dotted(p: Seq<char>, a: Seq<String>, b: Seq<String>, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i]
    ensures dotted(p, a, n) == dotted(p, b, n) decreases n
{ if n > 0 { lemma_dotted(p, a, b, n - 1); } }
// taking the last part away and putting another in its place
pub broadcast proof fn lemma_sibling(b: BlockPath, c: BlockPath, d: BlockPath)
    requires c.peripheral == b.peripheral, #[trigger] c.path@ == #[trigger] b.path@.drop_last(), d.peripheral == c.peripheral, d.path@.len() == c.path@.len() + 1, b.path@.len() > 0, #[trigger] d.path@.drop_last() == c.path@
    ensures whole(d) == upper(b) + seq!['.'] + d.path@.last()@
{
    let n = c.path@.len() as int; assert(d.path@.drop_last() == b.path@.drop_last()); assert forall|i: int| 0 <= i < n implies d.path@[i] == b.path@[i] by { assert(d.path@[i] == d.path@.drop_last()[i]); assert(b.path@[i] == b.path@.drop_last()[i]); }
    lemma_dotted(b.peripheral@, d.path@, b.path@, n);
}
// what a source names, as seen from a register of the block
pub open spec fn reg_source(from: Seq<char>, b: BlockPath) -> Seq<char> {
    let ps = splits(from, '.');
    if ps.len() == 2 && b.path@.len() > 0 { upper(b) + seq!['.'] + ps[0] + seq!['.'] + ps[1] } else { from }
}
pub open spec fn fld_source(from: Seq<char>, p: RegisterPath) -> Seq<char> {
    let ps = splits(from, '.');
    if ps.len() == 3 && p.block.path@.len() > 0 { upper(p.block) + seq!['.'] + ps[0] + seq!['.'] + ps[1] + seq!['.'] + ps[2] }
    else if ps.len() == 2 { whole(p.block) + seq!['.'] + ps[0] + seq!['.'] + ps[1] } else { from }
}
pub broadcast proof fn lemma_splits_len(s: Seq<char>, c: char) ensures (#[trigger] splits(s, c)).len() >= 1 decreases s.len() { }
// the source a `_derive` entry gives
pub open spec fn source(y: Yaml) -> Option<Seq<char>> { match y { Yaml::String(s) => Some(s@), Yaml::Hash(h) => h_str(h, "_from"@), _ => None } }
pub open spec fn dim_shape<T>(a: MaybeArray<T>, d: Option<DimElementBuilder>, b: MaybeArray<T>) -> bool {
    match d { None => ma_shape(b, a), Some(d) => match b { MaybeArray::Single(_) => false, MaybeArray::Array(_, f) => match a {
        MaybeArray::Array(_, e) => dim_mod(e, dim_b(d), f), MaybeArray::Single(_) => dim_built(dim_b(d), f) } } }
}
pub open spec fn dim_new<T>(d: Option<DimElementBuilder>, b: MaybeArray<T>) -> bool {
    match d { None => b is Single, Some(d) => match b { MaybeArray::Single(_) => false, MaybeArray::Array(_, f) => dim_built(dim_b(d), f) } }
}
pub open spec fn dim_of(h: Hash, d: Option<DimElementBuilder>) -> bool { match d { None => no_dim(h), Some(d) => !no_dim(h) && dim_made(h, dim_b(d)) } }
// assumed nothing of (a regular expression decides it)
#[verifier::external_body] pub fn check_dimable_name(name: &str) -> (r: Result<()>) { unimplemented!() }
}
