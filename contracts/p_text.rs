// Text building (std).
//@wrap to_string
verus! {
// decimal digits of a number
pub open spec fn dec(n: nat) -> Seq<char> decreases n { if n < 10 { seq![dchar(n)] } else { dec(n / 10).push(dchar(n % 10)) } }
pub open spec fn dchar(n: nat) -> char { if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' } else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else { '9' } }
pub trait ToStringX { fn to_string_v(&self) -> String; }
impl ToStringX for str { #[verifier::external_body] fn to_string_v(&self) -> (r: String) ensures r@ == self@ { self.to_string() } }
impl ToStringX for String { #[verifier::external_body] fn to_string_v(&self) -> (r: String) ensures r@ == self@ { self.clone() } }
impl ToStringX for u32 { #[verifier::external_body] fn to_string_v(&self) -> (r: String) ensures r@ == dec(*self as nat) { self.to_string() } }
impl ToStringX for usize { #[verifier::external_body] fn to_string_v(&self) -> (r: String) ensures r@ == dec(*self as nat) { self.to_string() } }
#[verifier::external_body]
pub fn str_cat(a: &str, b: &str) -> (r: String) ensures r@ == a@ + b@ { a.to_string() + b }
#[verifier::external_body]
pub fn str_plus(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { a + b }
}
