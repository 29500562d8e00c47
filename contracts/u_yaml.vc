//@use p_base.rs p_std.rs p_yaml.rs
fn main(){}
