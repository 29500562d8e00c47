// `format!` (std): what it yields is its pieces one after another; the extractor turns
// `format!("a{x}b{y:02}")` into `fmt_new().fmt_lit("a").fmt_d(&x).fmt_lit("b").fmt_pad(&y, 2)`.
verus! {
// digits of a number
pub open spec fn fdec(n: nat) -> Seq<char> decreases n { if n < 10 { seq![fdig(n)] } else { fdec(n / 10).push(fdig(n % 10)) } }
pub open spec fn fhex(n: nat, up: bool) -> Seq<char> decreases n { if n < 16 { seq![fxdig(n, up)] } else { fhex(n / 16, up).push(fxdig(n % 16, up)) } }
pub open spec fn fdig(n: nat) -> char { if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' } else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else { '9' } }
pub open spec fn fxdig(n: nat, up: bool) -> char {
    if n < 10 { fdig(n) } else if n == 10 { if up { 'A' } else { 'a' } } else if n == 11 { if up { 'B' } else { 'b' } } else if n == 12 { if up { 'C' } else { 'c' } }
    else if n == 13 { if up { 'D' } else { 'd' } } else if n == 14 { if up { 'E' } else { 'e' } } else { if up { 'F' } else { 'f' } }
}
// zeros in front, up to the width
pub open spec fn fpad(s: Seq<char>, w: nat) -> Seq<char> decreases w - s.len() { if s.len() >= w { s } else { fpad(seq!['0'] + s, w) } }
pub trait Show { spec fn shown(&self) -> Seq<char>; }
impl Show for str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl Show for String { open spec fn shown(&self) -> Seq<char> { self@ } }
impl Show for u32 { open spec fn shown(&self) -> Seq<char> { fdec(*self as nat) } }
impl Show for u64 { open spec fn shown(&self) -> Seq<char> { fdec(*self as nat) } }
impl Show for usize { open spec fn shown(&self) -> Seq<char> { fdec(*self as nat) } }
impl<T: Show + ?Sized> Show for &T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
pub trait Num { spec fn n(&self) -> nat; }
impl Num for u32 { open spec fn n(&self) -> nat { *self as nat } }
impl Num for u64 { open spec fn n(&self) -> nat { *self as nat } }
impl Num for usize { open spec fn n(&self) -> nat { *self as nat } }
impl<T: Num> Num for &T { open spec fn n(&self) -> nat { (**self).n() } }
pub open spec fn after(a: Seq<char>, b: Seq<char>) -> Seq<char> { if a.len() == 0 { b } else { a + b } }
pub trait FmtX: Sized {
    spec fn txt(&self) -> Seq<char>;
    fn fmt_lit(self, t: &str) -> (r: Self) ensures r.txt() == after(self.txt(), t@);
    fn fmt_d<T: Show + ?Sized>(self, x: &T) -> (r: Self) ensures r.txt() == after(self.txt(), x.shown());
    fn fmt_pad<T: Num>(self, x: &T, w: usize) -> (r: Self) ensures r.txt() == after(self.txt(), fpad(fdec(x.n()), w as nat));
    fn fmt_hex<T: Num>(self, x: &T) -> (r: Self) ensures r.txt() == after(self.txt(), fhex(x.n(), false));
    fn fmt_hexu<T: Num>(self, x: &T) -> (r: Self) ensures r.txt() == after(self.txt(), fhex(x.n(), true));
}
impl FmtX for String {
    open spec fn txt(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn fmt_lit(self, t: &str) -> (r: Self) { self + t }
    #[verifier::external_body] fn fmt_d<T: Show + ?Sized>(self, x: &T) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn fmt_pad<T: Num>(self, x: &T, w: usize) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn fmt_hex<T: Num>(self, x: &T) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn fmt_hexu<T: Num>(self, x: &T) -> (r: Self) { unimplemented!() }
}
#[verifier::external_body] pub fn fmt_new() -> (r: String) ensures r@.len() == 0 { String::new() }
pub broadcast proof fn lemma_after(a: Seq<char>, b: Seq<char>) ensures #[trigger] after(a, b) == a + b { if a.len() == 0 { assert(a + b =~= b); } }
pub broadcast proof fn lemma_assoc(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures #[trigger] (a + (b + c)) == (a + b) + c { assert(a + (b + c) =~= (a + b) + c); }
}
