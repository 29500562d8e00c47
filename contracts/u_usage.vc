//@use p_base.rs p_svd.rs p_frames.rs p_std.rs
//@import p_block.rs p_spec.rs p_iter.rs p_kids.rs
//@use p_usage.rs p_tags.rs
fn main(){}
