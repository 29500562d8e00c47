//@use p_base.rs p_svd.rs p_frames.rs p_std.rs p_bld.rs
//@import p_yaml.rs p_yamlm.rs p_block.rs p_spec.rs p_iter.rs
//@use p_fields.rs p_text.rs
//@methods Register: present_fields iter_fields
verus! {
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExRPath(svd_parser::expand::RegisterPath);
pub type RegisterPath = svd_parser::expand::RegisterPath;
// TRUSTED (std): the first two items of an iterator
#[verifier::external_body]
pub fn two_v<'a>(v: Vec<&'a mut Field>) -> (r: (Option<&'a mut Field>, Option<&'a mut Field>))
    ensures (r.0 is Some) == (v@.len() > 0), (r.1 is Some) == (v@.len() > 1), r.0 is Some ==> r.0.unwrap() == v@[0], r.1 is Some ==> r.1.unwrap() == v@[1],
        forall|i: int| 2 <= i < v@.len() ==> *final(#[trigger] v@[i]) == *v@[i],
{ let mut i = v.into_iter(); (i.next(), i.next()) }
// the text of an optional string setting
pub open spec fn set_str(h: Hash, k: Seq<char>) -> Option<Seq<char>> { match yget(h, k) { Some(y) => ystr(y), None => None } }
pub open spec fn set_ok(h: Hash, k: Seq<char>) -> bool { match yget(h, k) { Some(y) => ystr(y) is Some, None => true } }
pub open spec fn part_name(h: Hash, f: Field) -> Seq<char> { match set_str(h, "name"@) { Some(n) => n, None => f.nm() + "%s"@ } }
pub open spec fn part_desc(h: Hash, f: Field, d: Option<String>, i: int) -> bool {
    match set_str(h, "description"@) { Some(x) => od(d) == ne(replaced(x, "%s"@, dec(i as nat))), None => match ma(f).description { Some(x) => od(d) == ne(replaced(x@, "%s"@, dec(i as nat))), None => d is None } }
}
pub open spec fn od(d: Option<String>) -> Option<Seq<char>> { match d { Some(x) => Some(x@), None => None } }
// an empty description is no description
pub open spec fn ne(s: Seq<char>) -> Option<Seq<char>> { if s.len() == 0 { None } else { Some(s) } }
// the i-th bit of the split field
pub open spec fn part(g: Field, f: Field, h: Hash, i: int) -> bool {
    let x = ma(g);
    g is Single && x.name@ == replaced(part_name(h, f), "%s"@, dec(i as nat)) && part_desc(h, f, x.description, i)
    && x.bit_range.offset == ma(f).bit_range.offset + i && x.bit_range.width == 1
    && x.access is None && x.modified_write_values is None && x.write_constraint is None && x.read_action is None && x.derived_from is None && x.enumerated_values@.len() == 0
}
pub open spec fn parts(ps: Seq<Field>, f: Field, h: Hash, n: int) -> bool { ps.len() == n && forall|i: int| 0 <= i < n ==> part(#[trigger] ps[i], f, h, i) }
// field k is replaced by its bits, at the end of the list
pub open spec fn split_done(s: Seq<Field>, t: Seq<Field>, k: int, h: Hash) -> bool {
    exists|ps: Seq<Field>| #[trigger] parts(ps, s[k], h, ma(s[k]).bit_range.width as int) && t == s.remove(k) + ps
}
pub proof fn lemma_only<T: HasName>(s: Seq<T>, spec: Seq<char>, k: int, q: spec_fn(T) -> bool)
    requires cnt(s, named::<T>(spec), s.len() as int) == 1, 0 <= k < s.len(), named::<T>(spec)(s[k]), forall|x: T| #[trigger] q(x) == (x.nm() != s[k].nm())
    ensures s.filter(q) =~= s.remove(k)
{
    let p = named::<T>(spec);
    lemma_cnt(s, p, s.len() as int);
    assert forall|i: int| 0 <= i < s.len() && i != k implies q(#[trigger] s[i]) by { if !q(s[i]) { assert(p(s[i])); lemma_two(s, p, i, k, s.len() as int); } }
    let a = s.subrange(0, k); let b = s.skip(k + 1);
    assert(s =~= a.push(s[k]) + b);
    Seq::<T>::filter_distributes_over_add(a.push(s[k]), b, q);
    lemma_filter_all(a, q); lemma_filter_all(b, q);
    reveal(Seq::filter); assert(a.push(s[k]).drop_last() =~= a); assert(!q(s[k]));
    assert(s.remove(k) =~= a + b);
}
pub proof fn lemma_two<T>(s: Seq<T>, p: spec_fn(T) -> bool, i: int, j: int, n: int)
    requires 0 <= i < n <= s.len(), 0 <= j < n, i != j, p(s[i]), p(s[j]) ensures cnt(s, p, n) >= 2 decreases n
{
    lemma_cnt(s, p, n - 1);
    if i < n - 1 && j < n - 1 { lemma_two(s, p, i, j, n - 1); }
    else if i < n - 1 { assert(cnt(s, p, i) < cnt(s, p, n - 1)); } else { assert(cnt(s, p, j) < cnt(s, p, n - 1)); }
}
pub proof fn lemma_filter_all<T>(a: Seq<T>, q: spec_fn(T) -> bool)
    requires forall|i: int| 0 <= i < a.len() ==> q(#[trigger] a[i]) ensures a.filter(q) =~= a decreases a.len()
{ reveal(Seq::filter); if a.len() > 0 { lemma_filter_all(a.drop_last(), q); assert(q(a[a.len() - 1])); assert(a =~= a.drop_last().push(a.last())); } }
//@fn src/patch/register.rs | RegisterExt for Register | split_fields
//@self Register
//@attr #[verifier::loop_isolation(false)]
//@sub (it.next(), it.next()) =>> two_v(it)
//@sub? first.name.clone() + "%s" =>> str_cat(&first.name, "%s")
//@closure 1 |$1: String| -> (b: String)
    ensures b@ == replaced($1@, "%s"@, is@)
//@spec
    requires forall|i: int| 0 <= i < reg_fields(*old(self_)).len() && named::<Field>(sel(fspec@))(#[trigger] reg_fields(*old(self_))[i]) ==> ma(reg_fields(*old(self_))[i]).bit_range.offset + ma(reg_fields(*old(self_))[i]).bit_range.width <= u32::MAX
    ensures ({
        let s = reg_fields(*old(self_)); let p = named::<Field>(sel(fspec@)); let c = cnt(s, p, s.len() as int);
        &&& c == 0 ==> if sel_opt(fspec@) { r is Ok && reg_fields(*final(self_)) == s && reg_fields_frame(*final(self_), *old(self_)) } else { r is Err }
        &&& c > 1 ==> r is Err
        &&& c == 1 ==> (r is Ok) == (set_ok(*fsplit, "name"@) && set_ok(*fsplit, "description"@))
        &&& c == 1 && r is Ok ==> reg_fields_frame(*final(self_), *old(self_)) && exists|k: int| 0 <= k < s.len() && p(#[trigger] s[k]) && split_done(s, reg_fields(*final(self_)), k, *fsplit)
    })
//@start
    let ghost s0_ = reg_fields(*self_); let ghost r0_ = *self_; let ghost sp_ = sel(fspec@); let ghost p_ = named::<Field>(sel(fspec@));
//@before-loop 1
    proof {
        lemma_cnt(s0_, p_, s0_.len() as int);
        lemma_nth(s0_, p_, s0_.len() as int, 0);
        let k = nth_sel(s0_, p_, 0);
        assert(*first == s0_[k]);
    }
//@loop 1 it
    invariant it.seq().len() == ma(*first).bit_range.width, forall|j: int| 0 <= j < it.seq().len() ==> #[trigger] it.seq()[j] == j, parts(fields@, *first, *fsplit, it.index())
//@before "fields.retain("
    proof {
        lemma_cnt(s0_, p_, s0_.len() as int);
        lemma_nth(s0_, p_, s0_.len() as int, 0);
        assert(fields@ =~= s0_);
        lemma_only(s0_, sp_, nth_sel(s0_, p_, 0), |f: Field| ma(f).name@ != name@);
    }
//@closure 2 |$1: &Field| -> (b: bool)
    ensures b == (ma(*$1).name@ != name@)
//@end
}
fn main(){}
