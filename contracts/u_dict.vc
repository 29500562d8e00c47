//@use p_base.rs p_std.rs
//@import p_yaml.rs p_yamlm.rs p_hash.rs
//@use p_hmap.rs p_ylist.rs p_dict.rs
fn main(){}
