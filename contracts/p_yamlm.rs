// method syntax for the accessors of yaml_ext (each forwards to the extracted function)
verus! {
pub trait AsType {
    fn hash(&self) -> Result<&Hash>; fn vec(&self) -> Result<&Vec<Yaml>>; fn str(&self) -> Result<&str>;
    fn i64(&self) -> Result<i64>; fn u64(&self) -> Result<u64>; fn u32(&self) -> Result<u32>; fn bool(&self) -> Result<bool>;
}
impl AsType for Yaml {
    fn hash(&self) -> (r: Result<&Hash>) ensures ok_hash(*self, r) { Yaml__hash(self) }
    fn vec(&self) -> (r: Result<&Vec<Yaml>>) ensures ok_vec(*self, r) { Yaml__vec(self) }
    fn str(&self) -> (r: Result<&str>) ensures ok_str(*self, r) { Yaml__str(self) }
    fn i64(&self) -> (r: Result<i64>) ensures ok_i64(*self, r) { Yaml__i64(self) }
    fn u64(&self) -> (r: Result<u64>) ensures ok_u64(*self, r) { Yaml__u64(self) }
    fn u32(&self) -> (r: Result<u32>) ensures ok_u32(*self, r) { Yaml__u32(self) }
    fn bool(&self) -> (r: Result<bool>) ensures ok_bool(*self, r) { Yaml__bool(self) }
}
pub trait GetVal {
    fn get_yaml<'a>(&'a self, k: &str) -> Option<&'a Yaml>;
    fn get_bool(&self, k: &str) -> Result<Option<bool>>;
    fn get_i64(&self, k: &str) -> Result<Option<i64>>;
    fn get_u64(&self, k: &str) -> Result<Option<u64>>;
    fn get_u32(&self, k: &str) -> Result<Option<u32>>;
    fn get_str<'a>(&'a self, k: &str) -> Result<Option<&'a str>>;
    fn get_string(&self, k: &str) -> Result<Option<String>>;
    fn get_hash<'a>(&'a self, k: &str) -> Result<Option<&'a Hash>>;
    fn get_vec<'a>(&'a self, k: &str) -> Result<Option<&'a Vec<Yaml>>>;
}
impl GetVal for Hash {
    fn get_yaml<'a>(&'a self, k: &str) -> (r: Option<&'a Yaml>) ensures match r { Some(y) => yget(*self, k@) == Some(*y), None => yget(*self, k@) is None } { Hash__get_yaml(self, k) }
    fn get_bool(&self, k: &str) -> (r: Result<Option<bool>>) ensures geto(yget(*self, k@), r, |y: Yaml, x: Result<bool>| ok_bool(y, x)) { Hash__get_bool(self, k) }
    fn get_i64(&self, k: &str) -> (r: Result<Option<i64>>) ensures geto(yget(*self, k@), r, |y: Yaml, x: Result<i64>| ok_i64(y, x)) { Hash__get_i64(self, k) }
    fn get_u64(&self, k: &str) -> (r: Result<Option<u64>>) ensures geto(yget(*self, k@), r, |y: Yaml, x: Result<u64>| ok_u64(y, x)) { Hash__get_u64(self, k) }
    fn get_u32(&self, k: &str) -> (r: Result<Option<u32>>) ensures geto(yget(*self, k@), r, |y: Yaml, x: Result<u32>| ok_u32(y, x)) { Hash__get_u32(self, k) }
    fn get_str<'a>(&'a self, k: &str) -> (r: Result<Option<&'a str>>) ensures geto(yget(*self, k@), r, |y: Yaml, x: Result<&str>| ok_str(y, x)) { Hash__get_str(self, k) }
    fn get_string(&self, k: &str) -> (r: Result<Option<String>>) ensures geto(yget(*self, k@), r, |y: Yaml, x: Result<String>| ok_string(y, x)) { Hash__get_string(self, k) }
    fn get_hash<'a>(&'a self, k: &str) -> (r: Result<Option<&'a Hash>>) ensures geto(yget(*self, k@), r, |y: Yaml, x: Result<&Hash>| ok_hash(y, x)) { Hash__get_hash(self, k) }
    fn get_vec<'a>(&'a self, k: &str) -> (r: Result<Option<&'a Vec<Yaml>>>) ensures geto(yget(*self, k@), r, |y: Yaml, x: Result<&Vec<Yaml>>| ok_vec(y, x)) { Hash__get_vec(self, k) }
}
}
