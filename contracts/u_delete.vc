//@use p_base.rs p_svd.rs p_frames.rs p_std.rs p_block.rs p_spec.rs
//@wrap retain
verus! {

//@fn src/patch/device.rs | DeviceExt for Device | delete_peripheral
//@self Device
//@spec
    ensures r is Ok,
        final(self_).peripherals@ == old(self_).peripherals@.filter(|p: Peripheral| !matches(ma(p).name@, pspec@)),
        dev_only_peripherals(*final(self_), *old(self_)),
//@closure 1 |$1: &Peripheral| -> (b: bool)
    ensures b == !matches(ma(*$1).name@, pspec@)
//@end

//@fn src/patch/register.rs | RegisterExt for Register | delete_field
//@self Register
//@spec
    ensures r is Ok,
        match ma(*old(self_)).fields {
            None => ma(*final(self_)).fields is None,
            Some(fs) => ma(*final(self_)).fields is Some
              && ma(*final(self_)).fields.unwrap()@ == fs@.filter(|f: Field| !matches(ma(f).name@, fspec@)),
        },
        reg_only_fields(ma(*final(self_)), ma(*old(self_))),
        ma_shape(*final(self_), *old(self_)),
//@closure 1 |$1: &Field| -> (b: bool)
    ensures b == !matches(ma(*$1).name@, fspec@)
//@end

//@fn src/patch/peripheral.rs | InterruptExt for Peripheral | delete_interrupt
//@self Peripheral
//@spec
    ensures r is Ok,
        ma(*final(self_)).interrupt@ == ma(*old(self_)).interrupt@.filter(|i: Interrupt| !matches(i.name@, ispec@)),
        per_only_interrupt(ma(*final(self_)), ma(*old(self_))),
        ma_shape(*final(self_), *old(self_)),
//@closure 1 |$1: &Interrupt| -> (b: bool)
    ensures b == !matches($1.name@, ispec@)
//@end

//@each T: Peripheral Cluster
//@fn src/patch/peripheral.rs | trait RegisterBlockExt | delete_child
//@self $T
//@spec
    ensures r is Ok <==> $T_kids(*old(self_)) is Some,
        $T_kids_frame(*final(self_), *old(self_)),
        match $T_kids(*old(self_)) {
            None => $T_kids(*final(self_)) is None,
            Some(k) => $T_kids(*final(self_)) == Some(k.filter(|rc: RegisterCluster| !matches(rc_name(rc), rcspec@))),
        },
//@closure 1 |$1: &RegisterCluster| -> (b: bool)
    ensures b == !matches(rc_name(*$1), rcspec@)
//@end

//@fn src/patch/peripheral.rs | trait RegisterBlockExt | delete_register
//@self $T
//@spec
    ensures r is Ok <==> $T_kids(*old(self_)) is Some,
        $T_kids_frame(*final(self_), *old(self_)),
        match $T_kids(*old(self_)) {
            None => $T_kids(*final(self_)) is None,
            Some(k) => $T_kids(*final(self_)) == Some(k.filter(|rc: RegisterCluster| !(rc is Register && matches(rc_name(rc), rspec@)))),
        },
//@closure 1 |$1: &RegisterCluster| -> (b: bool)
    ensures b == !(*$1 is Register && matches(rc_name(*$1), rspec@))
//@end

//@fn src/patch/peripheral.rs | trait RegisterBlockExt | delete_cluster
//@self $T
//@spec
    ensures
        $T_kids_frame(*final(self_), *old(self_)),
        match $T_kids(*old(self_)) {
            None => r is Err && $T_kids(*final(self_)) is None,
            Some(k) => {
                let hit = |rc: RegisterCluster| rc is Cluster && matches(rc_name(rc), sel(cspec@));
                &&& $T_kids(*final(self_)) == Some(k.filter(|rc: RegisterCluster| !(rc is Cluster && matches(rc_name(rc), sel(cspec@)))))
                &&& (r is Ok <==> sel_opt(cspec@) || exists|i: int| 0 <= i < k.len() && hit(#[trigger] k[i]))
            }
        },
//@sub children.retain(|rc| { =>> let hit_ = children.retain_flag(|rc: &RegisterCluster| -> (b: (bool, bool)) ensures b.0 == !(*rc is Cluster && matches(rc_name(*rc), cspec@)), b.1 == !b.0 { let mut deleted = false;
//@sub retain }); =>> (retain, deleted) }); deleted = deleted || hit_;
//@end
//@endeach

}
fn main(){}
