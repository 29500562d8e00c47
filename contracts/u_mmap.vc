//@use p_base.rs p_svd.rs p_fmt.rs p_dim.rs
//@wrap to_string to_uppercase split_whitespace collect join sort iter find zip indexes is_empty as_ref
verus! {
// the text with every occurrence of `from` replaced (std)
pub uninterp spec fn replaced(s: Seq<char>, from: Seq<char>, to: Seq<char>) -> Seq<char>;
// TRUSTED (svd-rs, std)
pub assume_specification [FieldInfo::bit_offset](f: &FieldInfo) -> (r: u32) ensures r == f.bit_range.offset;
pub assume_specification [FieldInfo::bit_width](f: &FieldInfo) -> (r: u32) ensures r == f.bit_range.width;
pub trait IndexesX { fn indexes_v(&self) -> Vec<String>; }
impl IndexesX for DimElement { #[verifier::external_body] fn indexes_v(&self) -> (r: Vec<String>) ensures r@.len() == self.dim, forall|i: int| #![trigger r@[i]] 0 <= i < self.dim ==> r@[i]@ == dim_idx(*self, i) { unimplemented!() } }
pub trait ZipX<A> { fn zip_v<B>(self, o: Vec<B>) -> Vec<(A, B)>; }
impl<A> ZipX<A> for Vec<A> { #[verifier::external_body] fn zip_v<B>(self, o: Vec<B>) -> (r: Vec<(A, B)>) ensures r@.len() == (if self@.len() <= o@.len() { self@.len() } else { o@.len() }), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> r@[i] == (self@[i], o@[i]) { self.into_iter().zip(o).collect() } }
pub trait PlusX<B> { spec fn can(&self, b: B) -> bool; spec fn sum(&self, b: B, r: &Self) -> bool; fn plus(self, b: B) -> (r: Self) where Self: Sized requires self.can(b) ensures self.sum(b, &r); }
impl PlusX<u64> for u64 { open spec fn can(&self, b: u64) -> bool { *self + b <= u64::MAX } open spec fn sum(&self, b: u64, r: &u64) -> bool { *r == *self + b } fn plus(self, b: u64) -> (r: u64) { self + b } }
impl<'a> PlusX<&'a str> for String { open spec fn can(&self, b: &'a str) -> bool { true } open spec fn sum(&self, b: &'a str, r: &String) -> bool { r@ == self@ + b@ } #[verifier::external_body] fn plus(self, b: &'a str) -> (r: String) { self + b } }
pub fn str_plus<A: PlusX<B>, B>(a: A, b: B) -> (r: A) requires a.can(b) ensures a.sum(b, &r) { a.plus(b) }
pub trait TextX { fn to_string_v(&self) -> String; fn is_empty_v(&self) -> bool; fn to_uppercase_v(&self) -> String; fn split_whitespace_v(&self) -> Words; }
pub open spec fn is_hex(s: Seq<char>) -> bool { exists|n: nat| s == fhex(n, false) }
#[verifier::external_body] pub struct Words { w: Vec<String> }
impl View for Words { type V = Seq<Seq<char>>; uninterp spec fn view(&self) -> Seq<Seq<char>>; }
// the parts of a text between white space
pub uninterp spec fn words(s: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn uppercase(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn joined(s: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>;
pub uninterp spec fn str_le(a: Seq<char>, b: Seq<char>) -> bool;
// (the letters of a hexadecimal number)
#[verifier::external_body] pub proof fn axiom_upper() ensures forall|n: nat| #[trigger] uppercase(fhex(n, false)) == fhex(n, true) {}
impl TextX for str {
    #[verifier::external_body] fn to_string_v(&self) -> (r: String) ensures r@ == self@ { self.to_string() }
    #[verifier::external_body] fn is_empty_v(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.is_empty() }
    #[verifier::external_body] fn to_uppercase_v(&self) -> (r: String) ensures r@ == uppercase(self@) { self.to_uppercase() }
    #[verifier::external_body] fn split_whitespace_v(&self) -> (r: Words) ensures r@ == words(self@) { unimplemented!() }
}
impl Words { #[verifier::external_body] pub fn collect_v(self) -> (r: Words) ensures r@ == self@ { self } #[verifier::external_body] pub fn join_v(&self, sep: &str) -> (r: String) ensures r@ == joined(self@, sep@) { unimplemented!() } }
pub open spec fn vals(s: Seq<String>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
pub open spec fn sorted_of(a: Seq<Seq<char>>, b: Seq<Seq<char>>) -> bool { b.to_multiset() == a.to_multiset() && forall|i: int, j: int| 0 <= i <= j < b.len() ==> str_le(b[i], b[j]) }
pub trait LinesX { fn sort_v(&mut self); fn join_v(&self, sep: &str) -> String; }
impl LinesX for Vec<String> {
    #[verifier::external_body] fn sort_v(&mut self) ensures sorted_of(vals(old(self)@), vals(final(self)@)) { self.sort() }
    #[verifier::external_body] fn join_v(&self, sep: &str) -> (r: String) ensures r@ == joined(vals(self@), sep@) { self.join(sep) }
}
pub trait RefX<T> { fn as_ref_v<'a>(&'a self) -> Option<&'a T>; }
impl<T> RefX<T> for Option<T> { fn as_ref_v<'a>(&'a self) -> (r: Option<&'a T>) ensures r == (match *self { Some(ref x) => Some(x), None => None }) { match self { Some(x) => Some(x), None => None } } }
pub trait IterX<T> { fn iter_v<'a>(&'a self) -> &'a Self; fn find_v<'a, F: Fn(&&'a T) -> bool>(&'a self, f: F) -> Option<&'a T> requires forall|x: &&'a T| f.requires((x,)); }
impl<T> IterX<T> for [T] {
    fn iter_v<'a>(&'a self) -> (r: &'a Self) ensures r == self { self }
    #[verifier::external_body] fn find_v<'a, F: Fn(&&'a T) -> bool>(&'a self, f: F) -> (r: Option<&'a T>)
        ensures match r { Some(x) => exists|i: int| 0 <= i < self@.len() && *x == #[trigger] self@[i] && f.ensures((&&self@[i],), true) && forall|j: int| 0 <= j < i ==> f.ensures((&&#[trigger] self@[j],), false),
            None => forall|j: int| 0 <= j < self@.len() ==> f.ensures((&&#[trigger] self@[j],), false) }
    { self.iter().find(f) }
}
pub open spec fn list_refs<T>(r: Seq<&T>, s: Seq<T>) -> bool { r.len() == s.len() && forall|i: int| #![trigger r[i]] 0 <= i < s.len() ==> *r[i] == s[i] }
pub broadcast proof fn lemma_push(s: Seq<String>, x: String) ensures #[trigger] vals(s.push(x)) == vals(s).push(x@) { assert(vals(s.push(x)) =~= vals(s).push(x@)); }
pub broadcast proof fn lemma_add1<T>(a: Seq<T>, b: Seq<T>, x: T) ensures #[trigger] (a + b).push(x) == a + b.push(x) { assert((a + b).push(x) =~= a + b.push(x)); }
pub broadcast proof fn lemma_add0<T>(a: Seq<T>) ensures #[trigger] (a + Seq::<T>::empty()) == a { assert(a + Seq::<T>::empty() =~= a); }
pub broadcast proof fn lemma_one<T>(a: Seq<T>, x: T) ensures #[trigger] (a + seq![x]) == a.push(x) { assert(a + seq![x] =~= a.push(x)); }
pub broadcast proof fn lemma_addadd<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>) ensures #[trigger] (a + (b + c)) == (a + b) + c { assert(a + (b + c) =~= (a + b) + c); }
pub broadcast group group_lines { lemma_push, lemma_add1, lemma_add0, lemma_one, lemma_addadd, lemma_after }
// ---- SPECIFICATION ----
pub open spec fn otext(o: Option<Seq<char>>) -> Seq<char> { match o { Some(s) => s, None => ""@ } }
pub open spec fn tidy(o: Option<Seq<char>>) -> Seq<char> { joined(words(otext(o)), " "@) }
pub open spec fn addr_text(a: int) -> Seq<char> { "0x"@ + fhex(a as nat, true) }
pub open spec fn derived_text(o: Option<String>) -> Seq<char> { match o { Some(s) => " (="@ + s@ + ")"@, None => Seq::empty() } }
pub open spec fn acc_text(a: Option<Access>) -> Seq<char> { match a { None => ""@, Some(x) => " ("@ + (match x { Access::ReadOnly => "ro"@, Access::ReadWrite => "rw"@, Access::ReadWriteOnce => "rwonce"@, Access::WriteOnce => "wonce"@, Access::WriteOnly => "wo"@ }) + ")"@ } }
pub open spec fn per_line(b: int, n: Seq<char>) -> Seq<char> { addr_text(b) + " A PERIPHERAL "@ + n }
pub open spec fn int_line(i: Interrupt, p: Seq<char>) -> Seq<char> { "INTERRUPT "@ + fpad(fdec(i.value as nat), 3) + ": "@ + i.name@ + " ("@ + p + "): "@ + tidy(otxt(i.description)) }
pub open spec fn int_lines(s: Seq<Interrupt>, n: int, p: Seq<char>) -> Seq<Seq<char>> { Seq::new(n as nat, |i: int| int_line(s[i], p)) }
pub open spec fn reg_line(a: int, n: Seq<char>, x: RegisterInfo, d: Option<Seq<char>>) -> Seq<char> { addr_text(a) + " B  REGISTER "@ + n + derived_text(x.derived_from) + acc_text(x.properties.access) + ": "@ + tidy(d) }
pub open spec fn clu_line(a: int, n: Seq<char>, x: ClusterInfo, d: Option<Seq<char>>) -> Seq<char> { addr_text(a) + " B  CLUSTER "@ + n + derived_text(x.derived_from) + ": "@ + tidy(d) }
pub open spec fn fld_line(a: Seq<char>, o: int, n: Seq<char>, x: FieldInfo, d: Option<Seq<char>>) -> Seq<char> {
    a + " C   FIELD "@ + fpad(fdec(o as nat), 2) + "w"@ + fpad(fdec(x.bit_range.width as nat), 2) + " "@ + n + derived_text(x.derived_from) + acc_text(x.access) + ": "@ + tidy(d)
}
// the lines of the first n elements
pub open spec fn arr_fld(a: Seq<char>, x: FieldInfo, d: DimElement, n: int) -> Seq<Seq<char>> { Seq::new(n as nat, |i: int| fld_line(a, x.bit_range.offset + i * d.dim_increment, el_name(d, x.name@, i), x, el_desc(d, otxt(x.description), i))) }
pub open spec fn fld_lines(a: Seq<char>, f: Field) -> Seq<Seq<char>> { match f { MaybeArray::Single(x) => seq![fld_line(a, x.bit_range.offset as int, x.name@, x, otxt(x.description))], MaybeArray::Array(x, d) => arr_fld(a, x, d, d.dim as int) } }
pub open spec fn flds_lines(a: Seq<char>, s: Seq<Field>, n: int) -> Seq<Seq<char>> decreases n { if n <= 0 { Seq::empty() } else { flds_lines(a, s, n - 1) + fld_lines(a, s[n - 1]) } }
pub open spec fn of_reg(a: Seq<char>, x: RegisterInfo) -> Seq<Seq<char>> { match x.fields { Some(s) => flds_lines(a, s@, s@.len() as int), None => Seq::empty() } }
pub open spec fn arr_reg(b: int, x: RegisterInfo, d: DimElement, n: int) -> Seq<Seq<char>> decreases n {
    if n <= 0 { Seq::empty() } else { let i = n - 1; let a = b + x.address_offset + i * d.dim_increment;
        arr_reg(b, x, d, i).push(reg_line(a, el_name(d, x.name@, i), x, el_desc(d, otxt(x.description), i))) + of_reg(addr_text(a), x) }
}
pub open spec fn reg_lines(b: int, r: Register, suffix: Seq<char>) -> Seq<Seq<char>> {
    match r { MaybeArray::Single(x) => seq![reg_line(b + x.address_offset, x.name@ + suffix, x, otxt(x.description))] + of_reg(addr_text(b + x.address_offset), x), MaybeArray::Array(x, d) => arr_reg(b, x, d, d.dim as int) }
}
pub open spec fn child_lines(b: int, c: RegisterCluster, suffix: Seq<char>) -> Seq<Seq<char>> decreases c, 2int, 0int {
    match c {
        RegisterCluster::Register(r) => reg_lines(b, r, suffix),
        RegisterCluster::Cluster(MaybeArray::Single(x)) => seq![clu_line(b + x.address_offset, x.name@, x, otxt(x.description))] + children_lines(b + x.address_offset, x.children@, x.children@.len() as int, ""@),
        RegisterCluster::Cluster(MaybeArray::Array(x, d)) => arr_clu(b, x, d, d.dim as int),
    }
}
pub open spec fn arr_clu(b: int, x: ClusterInfo, d: DimElement, n: int) -> Seq<Seq<char>> decreases x, 1int, n {
    if n <= 0 { Seq::empty() } else { let i = n - 1; let a = b + x.address_offset + i * d.dim_increment;
        arr_clu(b, x, d, i).push(clu_line(a, el_name(d, x.name@, i), x, el_desc(d, otxt(x.description), i))) + children_lines(a, x.children@, x.children@.len() as int, dim_idx(d, i)) }
}
pub open spec fn children_lines(b: int, s: Seq<RegisterCluster>, n: int, suffix: Seq<char>) -> Seq<Seq<char>> decreases s, 0int, n {
    if n <= 0 || n > s.len() { Seq::empty() } else { children_lines(b, s, n - 1, suffix) + child_lines(b, s[n - 1], suffix) }
}
// every address is one
pub open spec fn child_fits(b: int, c: RegisterCluster) -> bool decreases c, 2int {
    match c {
        RegisterCluster::Register(MaybeArray::Single(x)) => b + x.address_offset <= u64::MAX,
        RegisterCluster::Register(MaybeArray::Array(x, d)) => forall|i: int| 0 <= i < d.dim ==> b + #[trigger] el_off(x.address_offset, d, i) <= u64::MAX,
        RegisterCluster::Cluster(MaybeArray::Single(x)) => b + x.address_offset <= u64::MAX && children_fit(b + x.address_offset, x.children@),
        RegisterCluster::Cluster(MaybeArray::Array(x, d)) => forall|i: int| 0 <= i < d.dim ==> b + #[trigger] el_off(x.address_offset, d, i) <= u64::MAX && children_fit(b + el_off(x.address_offset, d, i), x.children@),
    }
}
pub open spec fn el_off(o: u32, d: DimElement, i: int) -> int { o + i * d.dim_increment }
pub open spec fn children_fit(b: int, s: Seq<RegisterCluster>) -> bool decreases s, 0int { forall|i: int| 0 <= i < s.len() ==> child_fits(b, #[trigger] s[i]) }
// the first peripheral of that name
pub open spec fn first_named(s: Seq<Peripheral>, n: Seq<char>) -> Option<Peripheral> decreases s.len() {
    if s.len() == 0 { None } else { match first_named(s.drop_last(), n) { Some(p) => Some(p), None => if ma(s.last()).name@ == n { Some(s.last()) } else { None } } }
}
// the registers of the peripheral at the end of the chain of derivations from the peripheral called n
pub open spec fn chased(s: Seq<Peripheral>, n: Seq<char>, k: nat) -> Option<Vec<RegisterCluster>> decreases k {
    if k == 0 { None } else { match first_named(s, n) { None => None, Some(p) => match ma(p).derived_from { None => ma(p).registers, Some(g) => chased(s, g@, (k - 1) as nat) } } }
}
pub proof fn lemma_first(s: Seq<Peripheral>, n: Seq<char>, i: int)
    requires 0 <= i < s.len(), ma(s[i]).name@ == n, forall|j: int| 0 <= j < i ==> ma(#[trigger] s[j]).name@ != n
    ensures first_named(s, n) == Some(s[i])
    decreases s.len()
{ if i < s.len() - 1 { lemma_first(s.drop_last(), n, i); } else { lemma_no_first(s.drop_last(), n); } }
pub proof fn lemma_no_first(s: Seq<Peripheral>, n: Seq<char>)
    requires forall|j: int| 0 <= j < s.len() ==> ma(#[trigger] s[j]).name@ != n
    ensures first_named(s, n) is None
    decreases s.len()
{ if s.len() > 0 { lemma_no_first(s.drop_last(), n); assert(ma(s[s.len() - 1]).name@ != n); } }
pub open spec fn regs_of(s: Seq<Peripheral>, p: PeripheralInfo) -> Option<Vec<RegisterCluster>> { match p.derived_from { None => p.registers, Some(f) => chased(s, f@, s.len()) } }
pub open spec fn regs_lines(b: int, r: Option<Vec<RegisterCluster>>) -> Seq<Seq<char>> { match r { Some(v) => children_lines(b, v@, v@.len() as int, ""@), None => Seq::empty() } }
pub open spec fn one_per(s: Seq<Peripheral>, x: PeripheralInfo, b: int, n: Seq<char>) -> Seq<Seq<char>> { (seq![per_line(b, n)] + int_lines(x.interrupt@, x.interrupt@.len() as int, n)) + regs_lines(b, regs_of(s, x)) }
pub open spec fn arr_per(s: Seq<Peripheral>, x: PeripheralInfo, d: DimElement, n: int) -> Seq<Seq<char>> decreases n {
    if n <= 0 { Seq::empty() } else { arr_per(s, x, d, n - 1) + one_per(s, x, x.base_address + (n - 1) * d.dim_increment, el_name(d, x.name@, n - 1)) }
}
pub open spec fn per_lines(s: Seq<Peripheral>, p: Peripheral) -> Seq<Seq<char>> { match p { MaybeArray::Single(x) => one_per(s, x, x.base_address as int, x.name@), MaybeArray::Array(x, d) => arr_per(s, x, d, d.dim as int) } }
pub open spec fn pers_lines(s: Seq<Peripheral>, n: int) -> Seq<Seq<char>> decreases n { if n <= 0 { Seq::empty() } else { pers_lines(s, n - 1) + per_lines(s, s[n - 1]) } }
pub open spec fn regs_fit(b: int, r: Option<Vec<RegisterCluster>>) -> bool { match r { Some(v) => children_fit(b, v@), None => true } }
pub open spec fn per_fits(p: Peripheral, s: Seq<Peripheral>) -> bool { match p { MaybeArray::Single(x) => regs_fit(x.base_address as int, regs_of(s, x)), MaybeArray::Array(x, d) => forall|i: int| 0 <= i < d.dim ==> regs_fit(#[trigger] el_base(x.base_address, d, i), regs_of(s, x)) } }
pub open spec fn el_base(o: u64, d: DimElement, i: int) -> int { o + i * d.dim_increment }
pub open spec fn pers_fit(s: Seq<Peripheral>) -> bool { forall|i: int| 0 <= i < s.len() ==> per_fits(#[trigger] s[i], s) }
//@fn src/common/str_utils.rs | | unwrap_or_empty_str
//@sig pub fn unwrap_or_empty_str(opt_str: &Option<String>) -> (r: &str)
//@spec
    ensures r@ == otext(otxt(*opt_str)),
//@end
//@fn src/common/str_utils.rs | | get_description
//@sig pub fn get_description(opt_str: &Option<String>) -> (r: String)
//@sub Vec<&str> =>> Words
//@spec
    ensures r@ == tidy(otxt(*opt_str)),
//@end
//@fn src/common/str_utils.rs | | format_address
//@sig pub fn format_address(hex_address: u64) -> (r: String)
//@fmt
//@spec
    ensures r@ == addr_text(hex_address as int),
//@start
    broadcast use {lemma_after, lemma_assoc}; proof { axiom_upper(); }
//@end
//@fn src/common/svd_utils.rs | | access_str
//@sig pub fn access_str(access: &Option<Access>) -> (r: &str)
//@spec
    ensures access is None ==> r@.len() == 0, access is Some ==> r@.len() > 0, acc_text(*access) == (match *access { None => r@, Some(_) => " ("@ + r@ + ")"@ }),
//@start
    proof { reveal_strlit(""); reveal_strlit("ro"); reveal_strlit("rw"); reveal_strlit("rwonce"); reveal_strlit("wonce"); reveal_strlit("wo"); }
//@end
//@fn src/common/svd_utils.rs | | access_with_brace
//@sig pub fn access_with_brace(access: Option<Access>) -> (r: String)
//@fmt
//@spec
    ensures r@ == acc_text(access),
//@start
    broadcast use {lemma_after, lemma_assoc};
//@end
//@fn src/mmap/mmap_cli.rs | | derived_str
//@sig pub fn derived_str(dname: &Option<String>) -> (r: String)
//@fmt
//@spec
    ensures r@ == derived_text(*dname),
//@start
    broadcast use {lemma_after, lemma_assoc};
//@end
//@fn src/mmap/mmap_cli.rs | | get_peripheral
//@sig pub fn get_peripheral(peripheral: &PeripheralInfo, mmap: &mut Vec<String>)
//@fmt
//@sub str_utils::format_address =>> format_address
//@spec
    ensures vals(final(mmap)@) == vals(old(mmap)@).push(per_line(peripheral.base_address as int, peripheral.name@)),
//@start
    broadcast use group_lines;
//@tail
    proof { assert(vals(mmap@) =~= vals(old(mmap)@).push(per_line(peripheral.base_address as int, peripheral.name@))); }
//@end
//@fn src/mmap/mmap_cli.rs | | get_interrupts
//@attr #[verifier::loop_isolation(false)]
//@sig pub fn get_interrupts(peripheral: &PeripheralInfo, mmap: &mut Vec<String>)
//@fmt
//@sub str_utils::get_description =>> get_description
//@spec
    ensures vals(final(mmap)@) == vals(old(mmap)@) + int_lines(peripheral.interrupt@, peripheral.interrupt@.len() as int, peripheral.name@),
//@start
    broadcast use group_lines;
    let ghost m0_ = vals(mmap@);
//@loop 1 it
    invariant list_refs(it.seq(), peripheral.interrupt@), vals(mmap@) =~= m0_ + int_lines(peripheral.interrupt@, it.index() as int, peripheral.name@),
//@loop-start 1
    proof { assert(*it.seq()[it.index() as int] == peripheral.interrupt@[it.index() as int]); }
//@loop-end 1
    proof { let k = it.index() as int; assert(text@ =~= int_line(*i, peripheral.name@)); assert(int_lines(peripheral.interrupt@, k + 1, peripheral.name@) =~= int_lines(peripheral.interrupt@, k, peripheral.name@).push(text@)); }
//@end
//@fn src/mmap/mmap_cli.rs | | get_fields
//@attr #[verifier::loop_isolation(false)]
//@sig pub fn get_fields(register: &RegisterInfo, addr: &str, mmap: &mut Vec<String>)
//@fmt
//@sub str_utils::get_description =>> get_description
//@sub svd_utils::access_with_brace =>> access_with_brace
//@spec
    ensures vals(final(mmap)@) == vals(old(mmap)@) + of_reg(addr@, *register),
//@start
    broadcast use group_lines;
    let ghost m0_ = vals(mmap@);
//@loop 1 it
    invariant list_refs(it.seq(), fields@), vals(mmap@) =~= m0_ + flds_lines(addr@, fields@, it.index() as int),
//@loop 2 it2
    invariant vals(mmap@) =~= m1_ + arr_fld(addr@, *f, *d, it2.index() as int),
//@loop-start 1
    proof { assert(*it.seq()[it.index() as int] == fields@[it.index() as int]); }
//@loop-end 2
    proof { let k = it2.index() as int; assert(arr_fld(addr@, *f, *d, k + 1) =~= arr_fld(addr@, *f, *d, k).push(text@)) by { assert(text@ =~= fld_line(addr@, f.bit_range.offset + it2.index() * d.dim_increment, el_name(*d, f.name@, it2.index() as int), *f, el_desc(*d, otxt(f.description), it2.index() as int))); } }
//@before-loop 2
    let ghost m1_ = vals(mmap@);
//@end
//@fn src/mmap/mmap_cli.rs | | get_registers
//@attr #[verifier::loop_isolation(false)]
//@sig pub fn get_registers(base_address: u64, registers: Option<&Vec<RegisterCluster>>, suffix: &str, mmap: &mut Vec<String>)
//@fmt
//@plus
//@sub str_utils::get_description =>> get_description
//@sub str_utils::format_address =>> format_address
//@sub svd_utils::access_with_brace =>> access_with_brace
//@spec
    requires registers is Some ==> children_fit(base_address as int, registers.unwrap()@)
    ensures vals(final(mmap)@) == vals(old(mmap)@) + (match registers { Some(s) => children_lines(base_address as int, s@, s@.len() as int, suffix@), None => Seq::empty() }),
    decreases (match registers { Some(s) => s@, None => Seq::empty() })
//@start
    broadcast use group_lines;
    let ghost m0_ = vals(mmap@); let ghost rs_ = registers;
//@loop 1 it
    invariant list_refs(it.seq(), registers@), vals(mmap@) =~= m0_ + children_lines(base_address as int, registers@, it.index() as int, suffix@),
//@loop-start 1
    let ghost x_ = *r; let ghost m1_ = vals(mmap@);
    proof { assert(*it.seq()[it.index() as int] == registers@[it.index() as int]);  assert(decreases_to!(registers@ => x_)); assert(child_fits(base_address as int, x_)); }
//@loop 2 it2
    invariant vals(mmap@) =~= m1_ + arr_reg(base_address as int, *r, *d, it2.index() as int),
//@loop-start 2
    proof { assert(base_address + el_off(r.address_offset, *d, it2.index() as int) <= u64::MAX); }
//@loop 3 it3
    invariant vals(mmap@) =~= m1_ + arr_clu(base_address as int, *c, *d, it3.index() as int),
//@loop-start 3
    proof { assert(base_address + el_off(c.address_offset, *d, it3.index() as int) <= u64::MAX); }
//@loop-end 1
    proof { let k = it.index() as int; let b = base_address as int; let s = registers@;
      match x_ {
        RegisterCluster::Register(MaybeArray::Single(x)) => { assert(vals(mmap@) =~= m1_ + child_lines(b, x_, suffix@)); }
        RegisterCluster::Register(MaybeArray::Array(x, d)) => { assert(vals(mmap@) =~= m1_ + child_lines(b, x_, suffix@)); }
        RegisterCluster::Cluster(MaybeArray::Single(x)) => { assert(vals(mmap@) =~= m1_ + child_lines(b, x_, suffix@)); }
        RegisterCluster::Cluster(MaybeArray::Array(x, d)) => { assert(vals(mmap@) =~= m1_ + child_lines(b, x_, suffix@)); }
      }
      assert(children_lines(b, s, k + 1, suffix@) == children_lines(b, s, k, suffix@) + child_lines(b, s[k], suffix@));
    }
//@end
//@fn src/mmap/mmap_cli.rs | | get_periph_registers
//@sig pub fn get_periph_registers<'a>(peripheral: &'a PeripheralInfo, peripheral_list: &'a [Peripheral]) -> (r: &'a Option<Vec<RegisterCluster>>)
//@attr #[verifier::loop_isolation(false)]
//@spec
    ensures *r == (match peripheral.derived_from { None => peripheral.registers, Some(f) => chased(peripheral_list@, f@, peripheral_list@.len()) }),
//@closure 1 |$1: &&Peripheral| -> (b: bool)
    ensures b == (ma(**$1).name@ == father@)
//@loop-start 1
    proof {
        let s = peripheral_list@; let n = father@;
        assert forall|i: int| 0 <= i < s.len() && ma(#[trigger] s[i]).name@ == n && (forall|j: int| 0 <= j < i ==> ma(#[trigger] s[j]).name@ != n) implies first_named(s, n) == Some(s[i]) by { lemma_first(s, n, i); }
        if forall|j: int| 0 <= j < s.len() ==> ma(#[trigger] s[j]).name@ != n { lemma_no_first(s, n); }
    }
//@start
    proof { axiom_string_eq(); }
//@loop 1 it
    invariant chased(peripheral_list@, father@, (peripheral_list@.len() - it.index()) as nat) == chased(peripheral_list@, peripheral.derived_from.unwrap()@, peripheral_list@.len()), it.seq().len() == peripheral_list@.len(),
//@end
//@fn src/mmap/mmap_cli.rs | | to_text
//@attr #[verifier::loop_isolation(false)]
//@sig pub fn to_text(peripherals: &[Peripheral]) -> (r: String)
//@sub vec![] =>> Vec::new()
//@spec
    requires pers_fit(peripherals@)
    ensures exists|t: Seq<Seq<char>>| sorted_of(pers_lines(peripherals@, peripherals@.len() as int), t) && r@ == #[trigger] joined(t, "\n"@),
//@start
    broadcast use group_lines;
//@loop 1 it
    invariant list_refs(it.seq(), peripherals@), vals(mmap@) =~= pers_lines(peripherals@, it.index() as int),
//@loop-start 1
    let ghost x_ = *p; let ghost m1_ = vals(mmap@);
    proof { assert(*it.seq()[it.index() as int] == peripherals@[it.index() as int]); assert(per_fits(x_, peripherals@)); }
//@loop 2 it2
    invariant vals(mmap@) =~= m1_ + arr_per(peripherals@, *p, *d, it2.index() as int),
//@loop-start 2
    proof { assert(regs_fit(el_base(p.base_address, *d, it2.index() as int), regs_of(peripherals@, *p))); }
//@loop-end 1
    proof { let k = it.index() as int; assert(vals(mmap@) =~= m1_ + per_lines(peripherals@, x_)); assert(pers_lines(peripherals@, k + 1) == pers_lines(peripherals@, k) + per_lines(peripherals@, x_)); }
//@end
}
fn main(){}
