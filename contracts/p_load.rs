// Loading a yaml file.
verus! {
// TRUSTED (yaml-rust): the documents of a text
pub uninterp spec fn docs_of(text: Seq<char>) -> Seq<Yaml>;
pub struct YamlLoader;
impl YamlLoader { #[verifier::external_body] pub fn load_from_str(s: &str) -> (r: Result<Vec<Yaml>>) ensures r is Ok ==> r.unwrap()@ == docs_of(s@) { unimplemented!() } }
#[verifier::external_body] pub fn first_doc(v: Vec<Yaml>) -> (r: Yaml) ensures v@.len() > 0 && r == v@[0] { v.into_iter().next().unwrap() }
pub trait ToYaml { fn to_yaml_v(&self) -> Yaml; }
// a String is its characters
pub uninterp spec fn str_of(s: Seq<char>) -> String;
pub broadcast axiom fn axiom_str_of(s: String) ensures str_of(#[trigger] s@) == s;
impl ToYaml for str { #[verifier::external_body] fn to_yaml_v(&self) -> (r: Yaml) ensures ystr(r) == Some(self@) { unimplemented!() } }
pub open spec fn yt(s: Seq<char>) -> Yaml { Yaml::String(str_of(s)) }
pub trait HashMutX { fn hash_mut(&mut self) -> Result<&mut Hash>; }
impl HashMutX for Yaml {
    #[verifier::external_body] fn hash_mut(&mut self) -> (r: Result<&mut Hash>)
        ensures match r { Ok(x) => yhash(*old(self)) == Some(*x) && *final(self) == Yaml::Hash(*final(x)), Err(_) => *final(self) == *old(self) && yhash(*old(self)) is None } { unimplemented!() } }
// paths as their texts
pub open spec fn pv(v: Seq<PathBuf>) -> Seq<Seq<char>> { v.map_values(|p: PathBuf| p@) }
// TRUSTED (std): lists of paths
pub trait PVecX { fn contains_v(&self, y: &PathBuf) -> bool; fn extend_v(&mut self, o: Vec<PathBuf>); }
impl PVecX for Vec<PathBuf> {
    #[verifier::external_body] fn contains_v(&self, y: &PathBuf) -> (r: bool) ensures r == pv(self@).contains(y@) { unimplemented!() }
    #[verifier::external_body] fn extend_v(&mut self, o: Vec<PathBuf>) ensures final(self)@ == old(self)@ + o@ { self.extend(o) }
}
#[verifier::external_body] pub fn own_strs(v: Vec<&str>) -> (r: Vec<String>) ensures r@.len() == v@.len(), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> r@[i]@ == v@[i]@ { unimplemented!() }
// TRUSTED: `abspath` (normpath) gives the file `rel` names in the folder of `from`
#[verifier::external_body] pub fn abspath<P: AsP>(from: P, rel: &Path) -> (r: Result<PathBuf>) ensures r is Ok ==> r.unwrap()@ == abs_of(from.pv(), rel@) { unimplemented!() }
}
