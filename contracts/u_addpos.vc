//@use p_base.rs p_svd.rs p_frames.rs p_std.rs
//@import p_block.rs p_iter.rs
//@use p_find.rs p_addpos.rs
fn main(){}
