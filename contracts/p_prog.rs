// What a section of a patch does, as the sequence of operations it stands for.  Each operation is one
// successful call of the named method; what that call does to the element is the subject of the
// contracts of the method itself.
use svd_parser::expand::{BlockPath, RegisterPath};
verus! {
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExBlockPath(BlockPath);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExRegisterPath(RegisterPath);
pub enum Op {
    DelChild(Seq<char>), DelReg(Seq<char>), DelClu(Seq<char>), DelInt(Seq<char>), DelPer(Seq<char>), DelFld(Seq<char>),
    CopyReg(Seq<char>, Hash), CopyClu(Hash), CopyPer(Seq<char>, Hash),
    Strip(Seq<char>), StripEnd(Seq<char>), Prefix(Seq<char>), Suffix(Seq<char>),
    ModReg(Seq<char>, Hash), ModInt(Seq<char>, Hash), ModClu(Seq<char>, Hash), ModChild(Seq<char>, Hash), ModPer(Seq<char>, Hash), ModCpu(Hash), ModFld(Seq<char>, Hash),
    Clear(Seq<char>),
    AddReg(Seq<char>, Hash), AddClu(Seq<char>, Hash), AddInt(Seq<char>, Hash), AddPer(Seq<char>, Hash), AddFld(Seq<char>, Hash),
    DerReg(Seq<char>, Yaml), DerClu(Seq<char>, Yaml), DerPer(Seq<char>, Yaml), DerFld(Seq<char>, Yaml), Rebase(Seq<char>, Seq<char>),
    Merge(Seq<char>, Option<Yaml>), Split(Seq<char>, Hash), SplitNone(Seq<char>),
    Child(Seq<char>, Hash), Clu(Seq<char>, Hash), Per(Seq<char>, Hash), Fld(Seq<char>, Yaml),
    ExpArr(Seq<char>, Hash), Arr(Seq<char>, Hash), Col(Seq<char>, Hash), ExpClu(Seq<char>, Option<Seq<char>>, Option<Seq<char>>, Option<bool>, Option<bool>),
    Attr(Seq<char>, Yaml), Pre(Hash), Post(Hash),
}
// one successful operation
pub uninterp spec fn step<S>(a: S, op: Op, b: S) -> bool;
pub open spec fn run<S>(a: S, ops: Seq<Op>, b: S) -> bool decreases ops.len() {
    if ops.len() == 0 { a == b } else { exists|m: S| run(a, ops.drop_last(), m) && step(m, ops.last(), b) }
}
pub open spec fn flat<A>(s: Seq<A>, f: spec_fn(A) -> Seq<Op>, n: int) -> Seq<Op> decreases n {
    if n <= 0 { Seq::empty() } else { flat(s, f, n - 1) + f(s[n - 1]) }
}
pub open spec fn all<A>(s: Seq<A>, f: spec_fn(A) -> Seq<Op>) -> Seq<Op> { flat(s, f, s.len() as int) }
pub proof fn lemma_snoc<S>(a: S, ops: Seq<Op>, m: S, op: Op, b: S)
    requires run(a, ops, m), step(m, op, b) ensures run(a, ops.push(op), b)
{ assert(ops.push(op).drop_last() =~= ops); assert(run(a, ops.push(op).drop_last(), m) && step(m, ops.push(op).last(), b)); }
pub proof fn lemma_snoc1<S>(a: S, ops: Seq<Op>, m: S, op: Op, b: S)
    requires run(a, ops, m), step(m, op, b) ensures run(a, ops + seq![op], b)
{ lemma_snoc(a, ops, m, op, b); assert(ops.push(op) =~= ops + seq![op]); }
// one more element of a list done
pub proof fn adv<S, A>(a: S, pre: Seq<Op>, s: Seq<A>, f: spec_fn(A) -> Seq<Op>, n: int, p: S, q: S)
    requires 0 <= n < s.len(), run(a, pre + flat(s, f, n), p),
        (f(s[n]).len() == 0 && q == p) || (f(s[n]).len() == 1 && step(p, f(s[n])[0], q)) || run(a, pre + flat(s, f, n) + f(s[n]), q),
    ensures run(a, pre + flat(s, f, n + 1), q)
{
    let x = pre + flat(s, f, n);
    assert(pre + flat(s, f, n + 1) =~= x + f(s[n]));
    if f(s[n]).len() == 0 && q == p { assert(x + f(s[n]) =~= x); }
    else if f(s[n]).len() == 1 && step(p, f(s[n])[0], q) { lemma_snoc(a, x, p, f(s[n])[0], q); assert(x + f(s[n]) =~= x.push(f(s[n])[0])); }
}
pub proof fn lemma_nil<A>(pre: Seq<Op>, s: Seq<A>, f: spec_fn(A) -> Seq<Op>) ensures pre + flat(s, f, 0) == pre { assert(pre + flat(s, f, 0) =~= pre); }
}
