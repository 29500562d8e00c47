use svd_rs::*;
verus! {
pub assume_specification<T>[ <MaybeArray<T> as core::ops::Deref>::deref ](s: &MaybeArray<T>) -> (r: &T) ensures *r == ma(*s);
pub assume_specification<T>[ <MaybeArray<T> as core::ops::DerefMut>::deref_mut ](s: &mut MaybeArray<T>) -> (r: &mut T)
    ensures *r == ma(*old(s)), *final(s) == ma_set(*old(s), *final(r));
#[verifier::external_type_specification] pub struct ExMaybeArray0<T>(MaybeArray<T>);
#[verifier::external_type_specification] pub struct ExFieldInfo(FieldInfo);
#[verifier::external_type_specification] pub struct ExRegInfo(RegisterInfo);
#[verifier::external_type_specification] pub struct ExClInfo(ClusterInfo);
#[verifier::external_type_specification] pub struct ExPerInfo(PeripheralInfo);
#[verifier::external_type_specification] pub struct ExRC(RegisterCluster);
#[verifier::external_type_specification] pub struct ExDevice(Device);
#[verifier::external_type_specification] pub struct ExInterrupt(Interrupt);
#[verifier::external_type_specification] pub struct ExAB(AddressBlock);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExABU(AddressBlockUsage);
#[verifier::external_type_specification] pub struct ExCpu(Cpu);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExEndian(Endian);
#[verifier::external_type_specification] pub struct ExRP(RegisterProperties);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExDT(DataType);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExProt(Protection);
#[verifier::external_type_specification] pub struct ExBitRange(BitRange);
#[verifier::external_type_specification] pub struct ExBRT(bitrange::BitRangeType);
#[verifier::external_type_specification] pub struct ExAccess(Access);
#[verifier::external_type_specification] pub struct ExUsage(Usage);
#[verifier::external_type_specification] pub struct ExMWV(ModifiedWriteValues);
#[verifier::external_type_specification] pub struct ExWC(WriteConstraint);
#[verifier::external_type_specification] pub struct ExWCR(WriteConstraintRange);
#[verifier::external_type_specification] pub struct ExRA(ReadAction);
#[verifier::external_type_specification] pub struct ExDim(DimElement);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExDAI(DimArrayIndex);
#[verifier::external_type_specification] pub struct ExEVs(EnumeratedValues);
#[verifier::external_type_specification] pub struct ExEV(EnumeratedValue);

pub open spec fn ma<T>(m: MaybeArray<T>) -> T { match m { MaybeArray::Single(t) => t, MaybeArray::Array(t, _) => t } }
pub open spec fn ma_set<T>(m: MaybeArray<T>, t: T) -> MaybeArray<T> { match m { MaybeArray::Single(_) => MaybeArray::Single(t), MaybeArray::Array(_, d) => MaybeArray::Array(t, d) } }
}
