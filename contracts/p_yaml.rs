// YAML values and the accessors of src/patch/yaml_ext.rs
use yaml_rust::{Yaml, yaml::Hash};
//@wrap replace starts_with to_lowercase
//@methods Yaml: hash vec str i64 u64 u32 bool
//@methods Hash: get_yaml get_bool get_i64 get_u64 get_u32 get_str get_string get_hash get_vec
verus! {
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)] #[verifier::accept_recursive_types(S)]
pub struct ExLHM<K, V, S>(hashlink::LinkedHashMap<K, V, S>);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExDHB(hashlink::DefaultHashBuilder);
#[verifier::external_type_specification] pub struct ExYaml(Yaml);
// the value stored in a dictionary under a string key
pub uninterp spec fn yget(h: Hash, k: Seq<char>) -> Option<Yaml>;
pub assume_specification [Yaml::as_str](y: &Yaml) -> (r: Option<&str>)
    ensures match *y { Yaml::String(s) => r is Some && r.unwrap()@ == s@, _ => r is None };
pub assume_specification [Yaml::as_hash](y: &Yaml) -> (r: Option<&Hash>)
    ensures match *y { Yaml::Hash(s) => r == Some(&s), _ => r is None };
pub assume_specification [Yaml::as_vec](y: &Yaml) -> (r: Option<&Vec<Yaml>>)
    ensures match *y { Yaml::Array(s) => r == Some(&s), _ => r is None };
pub assume_specification [<Yaml as Clone>::clone](y: &Yaml) -> (r: Yaml) ensures r == *y;

// std string functions used by parse_i64
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub open spec fn repl(s: Seq<char>, a: char, b: char) -> Seq<char> { s.map_values(|c: char| if c == a { b } else { c }) }
// std's definition of an integer in a given radix: optional sign, then at least one digit, in range
pub open spec fn digit(c: char, radix: int) -> Option<int> {
    let d = if '0' <= c && c <= '9' { (c as int) - ('0' as int) } else if 'a' <= c && c <= 'z' { (c as int) - ('a' as int) + 10 } else if 'A' <= c && c <= 'Z' { (c as int) - ('A' as int) + 10 } else { 99 };
    if d < radix { Some(d) } else { None }
}
pub open spec fn digits(s: Seq<char>, radix: int) -> Option<int> decreases s.len() {
    if s.len() == 0 { Some(0) } else {
        match (digits(s.drop_last(), radix), digit(s.last(), radix)) { (Some(a), Some(d)) => Some(a * radix + d), _ => None }
    }
}
pub open spec fn in_radix(s: Seq<char>, radix: int) -> Option<i64> {
    let neg = s.len() > 0 && s[0] == '-';
    let signed = s.len() > 0 && (s[0] == '-' || s[0] == '+');
    let d = if signed { s.subrange(1, s.len() as int) } else { s };
    if d.len() == 0 { None } else { match digits(d, radix) {
        Some(n) => { let v = if neg { -n } else { n }; if i64::MIN <= v <= i64::MAX { Some(v as i64) } else { None } },
        None => None } }
}
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExPIE(core::num::ParseIntError);
pub assume_specification [i64::from_str_radix](s: &str, radix: u32) -> (r: core::result::Result<i64, core::num::ParseIntError>)
    ensures match r { Ok(v) => in_radix(s@, radix as int) == Some(v), Err(_) => in_radix(s@, radix as int) is None };
// the text with every occurrence of `from` replaced (std)
pub uninterp spec fn replaced(s: Seq<char>, from: Seq<char>, to: Seq<char>) -> Seq<char>;
pub trait StrY {
    fn to_lowercase_v(&self) -> String;
    fn starts_with_v<P: Pat>(&self, p: P) -> bool;
    fn replace_v<P: Pat>(&self, from: P, to: &str) -> String;
    fn parse_i64_v(&self) -> core::result::Result<i64, core::num::ParseIntError>;
}
pub trait Pat { spec fn pv(&self) -> Seq<char>; fn with<T>(self, s: &str, t: &str) -> String; fn pre(self, s: &str) -> bool; }
impl Pat for char { open spec fn pv(&self) -> Seq<char> { seq![*self] }
    #[verifier::external_body] fn with<T>(self, s: &str, t: &str) -> String { s.replace(self, t) }
    #[verifier::external_body] fn pre(self, s: &str) -> bool { s.starts_with(self) } }
impl Pat for &str { open spec fn pv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn with<T>(self, s: &str, t: &str) -> String { s.replace(self, t) }
    #[verifier::external_body] fn pre(self, s: &str) -> bool { s.starts_with(self) } }
impl StrY for str {
    #[verifier::external_body]
    fn to_lowercase_v(&self) -> (r: String) ensures r@ == lower(self@), self@.len() > 0 && self@[0] == '#' ==> r@.len() > 0 && r@[0] == '#' { self.to_lowercase() }
    #[verifier::external_body]
    fn starts_with_v<P: Pat>(&self, p: P) -> (r: bool) ensures r == has_prefix(self@, p.pv()) { p.pre(self) }
    #[verifier::external_body]
    fn replace_v<P: Pat>(&self, from: P, to: &str) -> (r: String)
        ensures r@ == replaced(self@, from.pv(), to@),
                from.pv().len() == 1 && to@.len() == 0 ==> (forall|f: spec_fn(char) -> bool| (forall|c: char| #[trigger] f(c) == (c != from.pv()[0])) ==> r@ == #[trigger] self@.filter(f)),
                from.pv().len() == 1 && to@.len() == 1 ==> r@ == repl(self@, from.pv()[0], to@[0]),
    { from.with::<()>(self, to) }
    #[verifier::external_body]
    fn parse_i64_v(&self) -> (r: core::result::Result<i64, core::num::ParseIntError>)
        ensures match r { Ok(v) => in_radix(self@, 10) == Some(v), Err(_) => in_radix(self@, 10) is None }
    { self.parse::<i64>() }
}
// `&s[lit.len()..]` where s begins with the ASCII text lit
#[verifier::external_body]
pub fn after_lit<'a>(s: &'a str, lit: &str) -> (r: &'a str)
    requires lit.is_ascii(), lit@.len() <= s@.len(), forall|i: int| 0 <= i < lit@.len() ==> (#[trigger] s@[i] as u32) < 128,
    ensures r@ == s@.subrange(lit@.len() as int, s@.len() as int),
{ &s[lit.len()..] }

// ---- the documented meaning of scalars ----
pub open spec fn text_int(t: Seq<char>) -> Option<i64> {
    let s = t.filter(|c: char| c != '_');
    if has_prefix(s, "0x"@) || has_prefix(s, "0X"@) { in_radix(s.subrange(2, s.len() as int), 16) }
    else if has_prefix(s, seq!['#']) { in_radix(repl(lower(s).subrange(1, lower(s).len() as int), 'x', '0'), 2) }
    else if has_prefix(s, "0b"@) { in_radix(repl(s.subrange(2, s.len() as int), 'x', '0'), 2) }
    else { in_radix(s, 10) }
}
pub open spec fn yint(y: Yaml) -> Option<i64> {
    match y { Yaml::Integer(i) => Some(i), Yaml::String(t) => text_int(t@), _ => None }
}
pub open spec fn ybool(y: Yaml) -> Option<bool> {
    match y {
        Yaml::Boolean(b) => Some(b),
        Yaml::Integer(i) => if i == 0 { Some(false) } else if i == 1 { Some(true) } else { None },
        Yaml::String(t) => if t@ == "true"@ || t@ == "True"@ { Some(true) } else if t@ == "false"@ || t@ == "False"@ { Some(false) } else { None },
        _ => None,
    }
}
pub open spec fn yint_in(y: Yaml, max: int) -> Option<int> {
    match yint(y) { Some(v) => if 0 <= v <= max { Some(v as int) } else { None }, None => None }
}
pub open spec fn ystr(y: Yaml) -> Option<Seq<char>> { match y { Yaml::String(s) => Some(s@), _ => None } }

//@fn src/patch/yaml_ext.rs | parse_i64
//@sub &text["0x".len()..] =>> after_lit(text.as_str(), "0x")
//@sub str::replace(&text.to_lowercase()["#".len()..], "x", "0") =>> after_lit(text.to_lowercase_v().as_str(), "#").replace_v("x", "0")
//@sub str::replace(stripped, "x", "0") =>> stripped.replace_v("x", "0")
//@sub text.parse::<i64>() =>> text.parse_i64_v()
//@spec
    ensures r == yint(*val),
//@after "let text ="
    proof { let h = seq!['#']; if has_prefix(text@, h) { assert(text@[0] == h[0]); } }
//@start
    proof { lits(); assert forall|s: Seq<char>, p: Seq<char>, i: int| has_prefix(s, p) && 0 <= i < p.len() implies #[trigger] s[i] == #[trigger] p[i] by { assert(s.subrange(0, p.len() as int)[i] == p[i]); } }
//@end
//@fn src/patch/yaml_ext.rs | parse_bool
//@spec
    ensures r == ybool(*val),
//@start
    broadcast use axiom_str_ext;
//@end
pub proof fn lits()
    ensures "0x"@ == seq!['0', 'x'], "0X"@ == seq!['0', 'X'], "0b"@ == seq!['0', 'b'], "#"@ == seq!['#'], "x"@ == seq!['x'], "0"@ == seq!['0'], ""@ == Seq::<char>::empty(),
      "0x".is_ascii(), "#".is_ascii(),
{ reveal_strlit("0x"); reveal_strlit("0X"); reveal_strlit("0b"); reveal_strlit("#"); reveal_strlit("x"); reveal_strlit("0"); reveal_strlit("");
  assert("0x"@ =~= seq!['0', 'x']); assert("0X"@ =~= seq!['0', 'X']); assert("0b"@ =~= seq!['0', 'b']); assert("#"@ =~= seq!['#']); assert("x"@ =~= seq!['x']); assert("0"@ =~= seq!['0']); assert(""@ =~= Seq::<char>::empty()); }
}

verus! {
pub type YamlError = VErr;
impl VErr {
    pub fn NotHash(y: Yaml) -> VErr { VErr }
    pub fn NotVec(y: Yaml) -> VErr { VErr }
    pub fn NotStr(y: Yaml) -> VErr { VErr }
    pub fn NotInt(y: Yaml) -> VErr { VErr }
    pub fn NotBool(y: Yaml) -> VErr { VErr }
    pub fn OutOfRange(y: Yaml) -> VErr { VErr }
}
pub open spec fn yhash(y: Yaml) -> Option<Hash> { match y { Yaml::Hash(h) => Some(h), _ => None } }
pub open spec fn yvec(y: Yaml) -> Option<Seq<Yaml>> { match y { Yaml::Array(h) => Some(h@), _ => None } }
// a value of the wanted kind or an error, never another value
pub open spec fn deno<T>(r: Result<T>, d: Option<T>) -> bool { match r { Ok(v) => d == Some(v), Err(_) => d is None } }
pub open spec fn deno_int(r: Result<int>, d: Option<int>) -> bool { match r { Ok(v) => d == Some(v), Err(_) => d is None } }
// an absent key is no value; a present one is its value or an error
pub open spec fn geto<T>(y: Option<Yaml>, r: Result<Option<T>>, d: spec_fn(Yaml, Result<T>) -> bool) -> bool {
    match y { None => r == Ok::<Option<T>, VErr>(None), Some(y) => match r { Ok(v) => v is Some && d(y, Ok(v.unwrap())), Err(e) => d(y, Err(e)) } }
}
pub open spec fn ok_i64(y: Yaml, r: Result<i64>) -> bool { deno(r, yint(y)) }
pub open spec fn ok_bool(y: Yaml, r: Result<bool>) -> bool { deno(r, ybool(y)) }
pub open spec fn ok_u64(y: Yaml, r: Result<u64>) -> bool { match r { Ok(v) => yint_in(y, u64::MAX as int) == Some(v as int), Err(_) => yint_in(y, u64::MAX as int) is None } }
pub open spec fn ok_u32(y: Yaml, r: Result<u32>) -> bool { match r { Ok(v) => yint_in(y, u32::MAX as int) == Some(v as int), Err(_) => yint_in(y, u32::MAX as int) is None } }
pub open spec fn ok_str(y: Yaml, r: Result<&str>) -> bool { match r { Ok(v) => ystr(y) == Some(v@), Err(_) => ystr(y) is None } }
pub open spec fn ok_string(y: Yaml, r: Result<String>) -> bool { match r { Ok(v) => ystr(y) == Some(v@), Err(_) => ystr(y) is None } }
pub open spec fn ok_hash(y: Yaml, r: Result<&Hash>) -> bool { match r { Ok(v) => yhash(y) == Some(*v), Err(_) => yhash(y) is None } }
pub open spec fn ok_vec(y: Yaml, r: Result<&Vec<Yaml>>) -> bool { match r { Ok(v) => yvec(y) == Some(v@), Err(_) => yvec(y) is None } }

//@each M: hash vec str i64 u64 u32 bool
//@fn src/patch/yaml_ext.rs | AsType for Yaml | $M
//@self Yaml
//@spec
    ensures ok_$M(*self_, r),
//@end
//@endeach
// TRUSTED: looking up a string key
#[verifier::external_body]
pub fn hash_get<'a>(h: &'a Hash, k: &str) -> (r: Option<&'a Yaml>)
    ensures match r { Some(y) => yget(*h, k@) == Some(*y), None => yget(*h, k@) is None }
{ h.get(&Yaml::String(k.into())) }
//@fn src/patch/yaml_ext.rs | GetVal<str> for Hash | get_yaml
//@self Hash
//@sig pub fn Hash__get_yaml<'a>(self_: &'a Hash, k: &str) -> (r: Option<&'a Yaml>)
//@sub self.get(&k.to_yaml()) =>> hash_get(self_, k)
//@spec
    ensures match r { Some(y) => yget(*self_, k@) == Some(*y), None => yget(*self_, k@) is None }
//@end
//@each M: bool i64 u64 u32
//@fn src/patch/yaml_ext.rs | trait GetVal | get_$M
//@self Hash
//@sig pub fn Hash__get_$M(self_: &Hash, k: &str) -> (r: Result<Option<$M>>)
//@sub v.$M() =>> Yaml__$M(v)
//@sub map(Some) =>> map(|x_: $M| -> (o_: Option<$M>) ensures o_ == Some(x_) { Some(x_) })
//@spec
    ensures geto(yget(*self_, k@), r, |y: Yaml, x: Result<$M>| ok_$M(y, x)),
//@end
//@endeach
}

verus! {
//@fn src/patch/yaml_ext.rs | trait GetVal | get_str
//@self Hash
//@sig pub fn Hash__get_str<'a>(self_: &'a Hash, k: &str) -> (r: Result<Option<&'a str>>)
//@sub v.str() =>> Yaml__str(v)
//@sub map(Some) =>> map(|x_: &'a str| -> (o_: Option<&'a str>) ensures o_ == Some(x_) { Some(x_) })
//@spec
    ensures geto(yget(*self_, k@), r, |y: Yaml, x: Result<&str>| ok_str(y, x)),
//@end
//@fn src/patch/yaml_ext.rs | trait GetVal | get_string
//@self Hash
//@sig pub fn Hash__get_string(self_: &Hash, k: &str) -> (r: Result<Option<String>>)
//@sub v.map(From::from) =>> v.map(|x_: &str| -> (o_: String) ensures o_@ == x_@ { x_.to_string() })
//@spec
    ensures geto(yget(*self_, k@), r, |y: Yaml, x: Result<String>| ok_string(y, x)),
//@closure 1 |$1: Option<&str>| -> (o_: Option<String>)
    ensures match $1 { None => o_ is None, Some(x) => o_ is Some && o_.unwrap()@ == x@ },
//@end
//@fn src/patch/yaml_ext.rs | trait GetVal | get_hash
//@self Hash
//@sig pub fn Hash__get_hash<'a>(self_: &'a Hash, k: &str) -> (r: Result<Option<&'a Hash>>)
//@sub v.hash() =>> Yaml__hash(v)
//@sub map(Some) =>> map(|x_: &'a Hash| -> (o_: Option<&'a Hash>) ensures o_ == Some(x_) { Some(x_) })
//@spec
    ensures geto(yget(*self_, k@), r, |y: Yaml, x: Result<&Hash>| ok_hash(y, x)),
//@end
//@fn src/patch/yaml_ext.rs | trait GetVal | get_vec
//@self Hash
//@sig pub fn Hash__get_vec<'a>(self_: &'a Hash, k: &str) -> (r: Result<Option<&'a Vec<Yaml>>>)
//@sub v.vec() =>> Yaml__vec(v)
//@sub map(Some) =>> map(|x_: &'a Vec<Yaml>| -> (o_: Option<&'a Vec<Yaml>>) ensures o_ == Some(x_) { Some(x_) })
//@spec
    ensures geto(yget(*self_, k@), r, |y: Yaml, x: Result<&Vec<Yaml>>| ok_vec(y, x)),
//@end
}
