//@use p_base.rs p_std.rs
//@import p_yaml.rs p_yamlm.rs p_hash.rs p_hmap.rs
//@use p_fs.rs p_load.rs
//@import p_dict.rs p_inc.rs
//@arg Tracked(&mut *w) =>> yaml_includes write_to_file write_file
//@wrap as_bytes into
verus! {
pub trait BytesX2 { fn as_bytes_v(&self) -> &[u8]; }
impl BytesX2 for str { #[verifier::external_body] fn as_bytes_v(&self) -> (r: &[u8]) ensures r@ == utf8(self@) { self.as_bytes() } }
pub trait IntoX { fn into_v(&self) -> String; }
impl IntoX for str { #[verifier::external_body] fn into_v(&self) -> (r: String) ensures r@ == self@ { self.into() } }
// TRUSTED (std): what the two format strings give
#[verifier::external_body] pub fn with_colon(s: &str) -> (r: String) ensures r@ == s@ + seq![':'] { format!("{}:", s) }
#[verifier::external_body] pub fn with_space(s: String) -> (r: String) ensures r@ == seq![' '] + s@ { format!(" {}", s) }
// TRUSTED (std): indexing does not return when there is nothing there
#[verifier::external_body] pub fn first_mut(v: &mut Vec<Yaml>) -> (r: &mut Yaml) ensures old(v)@.len() > 0, *r == old(v)@[0] { &mut v[0] }
// ---- SPECIFICATION ----
// the dependency file of `f` listing `v`: created, then written from left to right
pub open spec fn line(f: Seq<char>, v: Seq<Seq<char>>) -> Seq<Ev> { seq![Ev::Create(f), Ev::Write(f, utf8(f + seq![':']))] + Seq::new(v.len(), |i: int| Ev::Write(f, utf8(seq![' '] + v[i]))) }
pub open spec fn deps_file_written(f: Seq<char>, v: Seq<Seq<char>>, a: Seq<Ev>, b: Seq<Ev>) -> bool { b == (a + line(f, v)).push(Ev::Write(f, utf8(seq!['\n']))) }
//@fn src/makedeps/makedeps_cli.rs | write_to_file
//@param Tracked(w): Tracked<&mut World>
//@spec
    ensures final(w).reads == old(w).reads, final(file).path() == old(file).path(), r is Ok ==> final(w).fx == old(w).fx.push(Ev::Write(old(file).path(), utf8(string_to_write@))),
//@end
//@fn src/makedeps/makedeps_cli.rs | write_file
//@param Tracked(w): Tracked<&mut World>
//@attr #[verifier::loop_isolation(false)]
//@sub format!("{}:", file_name.to_str().unwrap()) =>> with_colon(file_name.to_str().unwrap_v())
//@sub format!(" {}", dep.into_os_string().into_string().unwrap()) =>> with_space(dep.into_os_string().into_string().unwrap_v())
//@spec
    ensures final(w).reads == old(w).reads, r is Ok ==> deps_file_written(file_name@, pv(deps@), old(w).fx, final(w).fx),
//@start
    let ghost n_ = file_name@; let ghost fx_ = w.fx; let ghost v_ = pv(deps@); proof { reveal_strlit("\n"); }
//@before-loop 1
    proof { assert(w.fx =~= fx_ + line(n_, v_.subrange(0, 0))); }
//@loop 1 it hoistv
    invariant it.seq() == g1_, w.reads == old(w).reads, g1_ == deps@, file.path() == n_, w.fx == fx_ + line(n_, v_.subrange(0, it.index() as int)),
//@loop-end 1
    proof { assert(w.fx =~= fx_ + line(n_, v_.subrange(0, it.index() as int + 1))); }
//@after-loop 1
    proof { assert(v_.subrange(0, v_.len() as int) =~= v_); assert("\n"@ =~= seq!['\n']); }
//@end
//@fn src/makedeps/makedeps_cli.rs | makedeps
//@param Tracked(w): Tracked<&mut World>
//@sub match &mut docs[0] =>> match first_mut(&mut docs)
//@spec
    // what it reads are the given file and the includes the dependency file then names: no file more, no file fewer
    ensures r is Ok ==> exists|h: Hash, t: Inc, q: Hash, v: Seq<Seq<char>>| docs_of(disk(yaml_file@, old(w).fx)).len() > 0 && docs_of(disk(yaml_file@, old(w).fx))[0] == Yaml::Hash(h) && #[trigger] takes(t, old(w).fx, at_path(h, yaml_file@), q, v)
        && final(w).reads == old(w).reads.push(yaml_file@) + v && deps_file_written(deps_file@, v, old(w).fx, final(w).fx),
//@start
    broadcast use axiom_str_of;
//@after "read_to_string"
    proof { assert(contents@ =~= disk(yaml_file@, old(w).fx)); }
//@before "root.insert("
    let ghost h_ = *root;
//@after "root.insert("
    proof { assert(*root == at_path(h_, yaml_file@)); }
//@after "let deps ="
    let ghost t_ = choose|t: Inc| takes(t, old(w).fx, at_path(h_, yaml_file@), *root, pv(deps@)); let ghost q_ = *root; let ghost v_ = pv(deps@);
    proof { assert(takes(t_, old(w).fx, at_path(h_, yaml_file@), q_, v_)); }
//@after "write_file("
    proof { assert(final(w).reads == old(w).reads.push(yaml_file@) + v_ && takes(t_, old(w).fx, at_path(h_, yaml_file@), q_, v_) && docs_of(disk(yaml_file@, old(w).fx))[0] == Yaml::Hash(h_)); }
//@end
}
fn main(){}
