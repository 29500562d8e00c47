//@use p_base.rs p_svd.rs p_frames.rs p_std.rs p_bld.rs
//@import p_yaml.rs p_yamlm.rs p_hash.rs p_usage.rs
//@use p_text.rs p_ev.rs
fn main(){}
