// The file system as one command sees it: what it reads, and what it creates and writes, in order.
//@arg Tracked(&mut *w) =>> File::open File::create std::io::copy .write_all
//@wrap into_bytes unwrap
verus! {
pub enum Ev { Create(Seq<char>), Write(Seq<char>, Seq<u8>) }
// everything the command has read so far (the paths of the files it opened), and everything it did to files
pub tracked struct World { pub ghost reads: Seq<Seq<char>>, pub ghost fx: Seq<Ev> }
// TRUSTED (std): paths and files
#[verifier::external_body] pub struct Path { p: std::path::PathBuf }
#[verifier::external_body] pub struct PathBuf { p: std::path::PathBuf }
#[verifier::external_body] pub struct OsStr { p: std::ffi::OsString }
#[verifier::external_body] pub struct OsString { p: std::ffi::OsString }
impl View for Path { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl View for PathBuf { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl View for OsStr { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl View for OsString { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub uninterp spec fn extension_of(p: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn with_extension(p: Seq<char>, e: Seq<char>) -> Seq<char>;
// `rel` seen from the folder of the file `from`
pub uninterp spec fn abs_of(from: Seq<char>, rel: Seq<char>) -> Seq<char>;
impl Path {
    #[verifier::external_body] pub fn new<'a>(s: &'a str) -> (r: &'a Path) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body] pub fn to_owned(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn to_str<'a>(&'a self) -> (r: Option<&'a str>) ensures match r { Some(s) => s@ == self@, None => true } { unimplemented!() }
    #[verifier::external_body] pub fn extension<'a>(&'a self) -> (r: Option<&'a OsStr>) ensures match r { Some(s) => extension_of(self@) == Some(s@), None => extension_of(self@) is None } { unimplemented!() }
}
impl OsStr { #[verifier::external_body] pub fn to_str<'a>(&'a self) -> (r: Option<&'a str>) ensures match r { Some(s) => s@ == self@, None => true } { unimplemented!() } }
impl PathBuf {
    #[verifier::external_body] pub fn from(s: &str) -> (r: PathBuf) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn clone_v(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn set_extension(&mut self, e: &str) -> (r: bool) ensures final(self)@ == with_extension(old(self)@, e@) { unimplemented!() }
    #[verifier::external_body] pub fn to_str<'a>(&'a self) -> (r: Option<&'a str>) ensures match r { Some(s) => s@ == self@, None => true } { unimplemented!() }
    #[verifier::external_body] pub fn into_os_string(self) -> (r: OsString) ensures r@ == self@ { unimplemented!() }
}
impl OsString { #[verifier::external_body] pub fn into_string(self) -> (r: core::result::Result<String, OsString>) ensures match r { Ok(s) => s@ == self@, Err(_) => true } { unimplemented!() } }
pub trait AsP { spec fn pv(&self) -> Seq<char>; }
impl AsP for &Path { open spec fn pv(&self) -> Seq<char> { (*self)@ } }
impl AsP for PathBuf { open spec fn pv(&self) -> Seq<char> { self@ } }
impl AsP for &PathBuf { open spec fn pv(&self) -> Seq<char> { (*self)@ } }
// the text a file holds after those effects
pub uninterp spec fn disk(p: Seq<char>, fx: Seq<Ev>) -> Seq<char>;
#[verifier::external_body] pub struct File { f: std::fs::File }
impl File {
    pub uninterp spec fn path(&self) -> Seq<char>;
    pub uninterp spec fn content(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn open<P: AsP>(p: P, Tracked(w): Tracked<&mut World>) -> (r: Result<File>)
        ensures final(w).fx == old(w).fx, r is Ok ==> r.unwrap().path() == p.pv() && r.unwrap().content() == disk(p.pv(), old(w).fx) && final(w).reads == old(w).reads.push(p.pv()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn create<P: AsP>(p: P, Tracked(w): Tracked<&mut World>) -> (r: Result<File>)
        ensures final(w).reads == old(w).reads, match r { Ok(f) => f.path() == p.pv() && final(w).fx == old(w).fx.push(Ev::Create(p.pv())), Err(_) => final(w).fx == old(w).fx },
    { unimplemented!() }
    // an error may come after a part has been written
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8], Tracked(w): Tracked<&mut World>) -> (r: Result<()>)
        ensures final(w).reads == old(w).reads, final(self).path() == old(self).path(), r is Ok ==> final(w).fx == old(w).fx.push(Ev::Write(old(self).path(), b@)),
            r is Err ==> final(w).fx == old(w).fx || exists|x: Seq<u8>| final(w).fx == #[trigger] old(w).fx.push(Ev::Write(old(self).path(), x)),
    { unimplemented!() }
}
pub trait Read: Sized {
    spec fn text(&self) -> Seq<char>;
    fn read_to_string(&mut self, b: &mut String) -> (r: Result<usize>) ensures r is Ok ==> final(b)@ == old(b)@ + old(self).text();
}
impl Read for File { open spec fn text(&self) -> Seq<char> { self.content() } #[verifier::external_body] fn read_to_string(&mut self, b: &mut String) -> (r: Result<usize>) { unimplemented!() } }
impl Read for &File { open spec fn text(&self) -> Seq<char> { (**self).content() } #[verifier::external_body] fn read_to_string(&mut self, b: &mut String) -> (r: Result<usize>) { unimplemented!() } }
// bytes in memory
pub struct Cursor { pub v: Vec<u8> }
impl Cursor { pub fn new(v: Vec<u8>) -> (r: Cursor) ensures r.v == v { Cursor { v } } }
#[verifier::external_body]
pub fn io_copy(c: &mut Cursor, f: &mut File, Tracked(w): Tracked<&mut World>) -> (r: Result<u64>)
    ensures final(w).reads == old(w).reads, r is Ok ==> final(w).fx == old(w).fx.push(Ev::Write(old(f).path(), old(c).v@)),
        r is Err ==> final(w).fx == old(w).fx || exists|x: Seq<u8>| final(w).fx == #[trigger] old(w).fx.push(Ev::Write(old(f).path(), x)),
{ unimplemented!() }
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub trait BytesX { fn into_bytes_v(self) -> Vec<u8>; }
impl BytesX for String { #[verifier::external_body] fn into_bytes_v(self) -> (r: Vec<u8>) ensures r@ == utf8(self@) { self.into_bytes() } }
pub trait AsBytesX { spec fn chars_(&self) -> Seq<char>; }
// TRUSTED (std): unwrap does not return when there is nothing to give
pub trait UnwrapX<T> { fn unwrap_v(self) -> T; }
impl<T> UnwrapX<T> for Option<T> { #[verifier::external_body] fn unwrap_v(self) -> (r: T) ensures self == Some(r) { self.unwrap() } }
impl<T, E> UnwrapX<T> for core::result::Result<T, E> { #[verifier::external_body] fn unwrap_v(self) -> (r: T) ensures self == Ok::<T, E>(r) { match self { Ok(x) => x, Err(_) => panic!() } } }
}
