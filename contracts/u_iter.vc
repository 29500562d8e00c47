//@use p_base.rs p_svd.rs p_frames.rs p_std.rs p_block.rs p_iter.rs p_kids.rs
verus!{
fn tst(a: &str){}
}
fn main(){}
