//@use p_base.rs p_svd.rs p_frames.rs p_std.rs p_bld.rs
//@import p_yaml.rs p_yamlm.rs p_hash.rs p_wc.rs
//@use p_text.rs
//@import p_make.rs p_block.rs p_iter.rs p_find.rs
//@use p_clone.rs p_dev.rs p_slice.rs
//@wrap split
//@methods Device: present_peripherals
verus! {
#[verifier::external_body] pub fn Device__present_peripherals(d: &Device) -> String { unimplemented!() }
#[verifier::external_body] pub struct Path {}
pub assume_specification<'a, 'b> [Device::get_peripheral](d: &'a Device, name: &'b str) -> (r: Option<&'a Peripheral>) ensures found(d.peripherals@, name@, r);
// the device another file describes (file system and SVD parser)
pub uninterp spec fn file_dev(base: &Path, p: Seq<char>) -> Device;
#[verifier::external_body] pub fn load_dev(base: &Path, p: &str) -> (r: Result<Device>) ensures r is Ok ==> r.unwrap() == file_dev(base, p@) { unimplemented!() }
// TRUSTED (std)
pub assume_specification<T: core::default::Default> [core::mem::take::<T>](dest: &mut T) -> (r: T) ensures r == *old(dest);
pub trait SplitX { fn split_v<'a>(&'a self, c: char) -> Vec<&'a str>; }
impl SplitX for str { #[verifier::external_body] fn split_v<'a>(&'a self, c: char) -> (r: Vec<&'a str>)
    ensures r@.len() == splits(self@, c).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == splits(self@, c)[i] { self.split(c).collect() } }

// what is copied: a peripheral of this device, or of another file (`path:name`)
pub open spec fn copied_from(d: Device, base: &Path, from: Seq<char>, src: Peripheral, here: bool) -> bool {
    let ps = splits(from, ':');
    if ps.len() == 1 { here && exists|j: int| #[trigger] at_name(d.peripherals@, ps[0], j) && src == d.peripherals@[j] }
    else { ps.len() == 2 && !here && exists|j: int| #[trigger] at_name(file_dev(base, ps[0]).peripherals@, ps[1], j) && src == file_dev(base, ps[0]).peripherals@[j] }
}
pub open spec fn copy_of(src: Peripheral, x: Peripheral, n: Seq<char>) -> bool {
    ma_shape(x, src) && $but(per, ma(x), ma(src), name derived_from base_address interrupt) && ma(x).name@ == n && ma(x).derived_from is None
}
pub open spec fn copied(s: Seq<Peripheral>, t: Seq<Peripheral>, n: Seq<char>, src: Peripheral, here: bool, k: int) -> bool {
    if has_name(s, n) { at_name(s, n, k) && t == s.update(k, t[k]) && copy_of(src, t[k], n) && ma(t[k]).base_address == ma(s[k]).base_address && ma(t[k]).interrupt == ma(s[k]).interrupt }
    else { k == s.len() && t == s.push(t[k]) && copy_of(src, t[k], n) && ma(t[k]).base_address == ma(src).base_address
        && (if here { ma(t[k]).interrupt@.len() == 0 } else { ma(t[k]).interrupt == ma(src).interrupt }) }
}
//@fn src/patch/device.rs | DeviceExt for Device | copy_peripheral
//@self Device
//@sub? .collect::<Vec<_>>() =>>
//@sub let f = File::open(abspath(path, Path::new(ppath))?)?; =>>
//@sub let mut contents = String::new(); =>>
//@sub (&f).read_to_string(&mut contents).unwrap(); =>>
//@sub svd_parser::parse(&contents) .with_context(|| format!("Parsing file {contents}"))? =>> load_dev(path, ppath)?
//@spec
    requires yget(*pmod, "from"@) is Some
    ensures bad_str(*pmod, "from"@) ==> r is Err,
        r is Ok ==> dev_only_peripherals(*final(self_), *old(self_)) && exists|src: Peripheral, here: bool, k: int|
            #[trigger] copied_from(*old(self_), path, h_str(*pmod, "from"@).unwrap(), src, here) && #[trigger] copied(old(self_).peripherals@, final(self_).peripherals@, pname@, src, here, k)
//@start
    let ghost s0_ = self_.peripherals@; let ghost d0_ = *self_; let ghost mut src_: Peripheral = arbitrary(); let ghost mut here_ = false;
//@before "new.interrupt = Vec::new()"
    proof { src_ = new; here_ = true; }
//@before "new.name = pname"
    proof { if !here_ { src_ = new; } assert(copied_from(d0_, path, h_str(*pmod, "from"@).unwrap(), src_, here_)); }
    let ghost k_ = if has_name(s0_, pname@) { choose|k: int| #[trigger] at_name(s0_, pname@, k) } else { s0_.len() as int };
//@tail
    proof {
        if has_name(s0_, pname@) { assert(at_name(s0_, pname@, k_)); assert(self_.peripherals@ =~= s0_.update(k_, self_.peripherals@[k_])); }
        else { assert(self_.peripherals@ =~= s0_.push(self_.peripherals@[k_])); }
        assert(copied(s0_, self_.peripherals@, pname@, src_, here_, k_));
    }
//@end
}
fn main(){}
