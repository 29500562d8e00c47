//@use p_base.rs p_std.rs
//@import p_yaml.rs p_yamlm.rs p_hash.rs
//@use p_hmap.rs p_fs.rs p_load.rs
//@import p_dict.rs
//@arg Tracked(&mut *w) =>> yaml_includes
//@use p_inc.rs
fn main(){}
