//! Small constructors for patches.
use yaml_rust::{yaml::Hash, Yaml};
pub fn s(x: &str) -> Yaml { Yaml::String(x.into()) }
pub fn i(x: i64) -> Yaml { Yaml::Integer(x) }
pub fn a(v: Vec<Yaml>) -> Yaml { Yaml::Array(v) }
pub fn sa(v: &[String]) -> Yaml { Yaml::Array(v.iter().map(|x| s(x)).collect()) }
pub fn h(v: Vec<(&str, Yaml)>) -> Yaml {
    let mut m = Hash::new();
    for (k, x) in v { m.insert(s(k), x); }
    Yaml::Hash(m)
}
pub fn h1(k: &str, v: Yaml) -> Yaml { h(vec![(k, v)]) }
pub fn hv(v: Vec<(String, Yaml)>) -> Yaml {
    let mut m = Hash::new();
    for (k, x) in v { m.insert(s(&k), x); }
    Yaml::Hash(m)
}
pub fn dump(y: &Yaml) -> String {
    let mut o = String::new();
    let _ = yaml_rust::YamlEmitter::new(&mut o).dump(y);
    o
}
